"""
C10: every assignment of data names to the fields of a class (none, its own,
the name of another field, a new one, empty) for two metadata keys, every
subset of the names in the data, loading, dumping and loading back.
"""
import itertools

from mc.diff import *
from mc.contexts import *
from mc.inhab import make

QUICK = [None, 'a', 'b', 'c', 'd', '']
THOROUGH = QUICK + ['x y', '@a']
KEYS = ['name', 'alt', 'absent']


def classes(tier):
    names = QUICK if tier == 'quick' else THOROUGH
    r = []
    for kind in ('dc', 'attrs', 'attrsa'):
        for combo in itertools.product(names, repeat=3):
            eff = [d if d is not None else n for d, n in zip(combo, 'abc')]
            if len(set(eff)) < 3:
                continue
            if kind == 'attrsa' and combo[0] is not None and tier == 'quick':
                continue
            r.append((kind, combo, False))
            if kind == 'dc' or tier != 'quick':
                r.append((kind, combo, True))
    return r


def mk(kind, combo, opt, alt=('q', None, 'a')):
    """The alt key renames in another way"""
    fields = []
    for n, d, a in zip('abc', combo, alt):
        fields.append(F(n, UnionT(INT, NONE), ('v', '0') if opt else None, data=d, names={'alt': a} if a is not None else {}))
    return obj(kind, fields)


def variations(tier):
    """One or two of the fields are of another kind: computed by the class, with default, factory, keyword only"""
    names = [None, 'a', 'b', 'c', 'd'] if tier == 'quick' else QUICK
    kinds = [dict(default=('v', '0'), init=False), dict(default=('f', 'int')), dict(kw=True), dict(default=('v', '0'), kw=True)]
    r = []
    for kind in ('dc', 'attrs', 'attrsa'):
        for combo in itertools.product(names, repeat=3):
            eff = [d if d is not None else n for d, n in zip(combo, 'abc')]
            if len(set(eff)) < 3 or combo == (None,) * 3:
                continue
            if kind == 'attrsa' and tier == 'quick' and combo.count(None) < 1:
                continue
            for ki in range(len(kinds)):
                for pos in range(3):
                    r.append((kind, combo, ((pos, ki),)))
                    if tier != 'quick':
                        for p2 in range(pos + 1, 3):
                            for k2 in range(len(kinds)):
                                r.append((kind, combo, ((pos, ki), (p2, k2))))
    return r


def mkvar(kind, combo, which, alt=('q', None, 'a')):
    kinds = [dict(default=('v', '0'), init=False), dict(default=('f', 'int')), dict(kw=True), dict(default=('v', '0'), kw=True)]
    which = dict(which)
    fields = []
    for i, (n, d, a) in enumerate(zip('abc', combo, alt)):
        kw = dict(kinds[which[i]]) if i in which else {}
        fields.append(F(n, UnionT(INT, NONE), kw.pop('default', None), data=d, names={'alt': a} if a is not None else {}, **kw))
    fields.sort(key=lambda f: f.default is not None)
    return obj(kind, fields)


# Names that something could take for special
ODD = ['A', 'AA', 'a_', '_a', '__a', '__a__', 'a ', ' a', 'a.b', 'a-b', '$a', '@a', '#', '_', '-', '0', '1', 'None', 'null', 'self', 'cls', 'kwargs', 'args', 'type', 'type_', 'name', 'metadata', 'class', 'def', 'value', 'get', 'items',
       'keys', 'copy', 'fields', '_fields', '_asdict', '_get_kwargs', '__class__', '__dict__', '\xe0', '\uff41', 'a\0', 'a\n', 'B', 'b_', 'alt', 'init', 'default', 'b' * 300]


def alldocs(names):
    for n in range(len(names) + 1):
        for sub in itertools.combinations(names, n):
            d = {k: names.index(k) + 1 for k in sub}
            yield d
            if n:
                yield {k: None for k in sub}
                yield {k: None if i == n - 1 else v for i, (k, v) in enumerate(d.items())}
            if n > 1:
                yield dict(reversed(list(d.items())))


def special():
    inner = obj('dc', [F('a', INT, data='b'), F('b', INT, data='a')])
    r = [inner]
    for kind in ('dc', 'attrs', 'attrsa'):
        r.append(obj(kind, [F('a', inner, data='b'), F('b', Seq('List', inner), data='a')]))
        r.append(obj(kind, [F('b', DictT(STR, inner)), F('a', UnionT(inner, NONE), data='c'), F('c', INT, ('v', '0'), data='a')]))
        base = obj(kind, [F('a', INT, data='b')])
        r.append(obj(kind, [F('c', INT, ('v', '2'), data='a')], base=base))
        r.append(obj(kind, [F('a', INT, data='z')], base=base))
        r.append(obj(kind, [F('a', INT)], base=base))
        r.append(obj(kind, [F('a', INT, data='A', key='x y'), F('b', INT, data='B', key='', names={'name': 'a'})]))
        r.append(obj(kind, [F('a', INT, data='é.ß-1'), F('b', INT, data='class'), F('c', INT, ('v', '1'), data='a b/c')]))
        r.append(obj(kind, [F('a', INT, data='b', kw=True), F('b', INT, data='a')]))
    r.append(obj('attrs', [F('_a', INT, data='a'), F('b', INT, ('v', '2'), data='_a')]))
    r.append(obj('attrsa', [F('_a', INT, names={'alt': 'b'}), F('b', INT, ('v', '2'), names={'alt': '_a'})]))
    # the constructor has names of its own
    for aliases in itertools.permutations(['a', 'b', 'z', None], 2):
        for datas in itertools.product(['a', 'b', 'z', None], repeat=2):
            if len({x or n for x, n in zip(datas, 'ab')}) == 2:
                kind = 'attrs' if len(r) % 2 else 'attrsa'
                if len({x or n for x, n in zip(aliases, 'ab')}) == 2:
                    r.append(obj(kind, [F(n, INT, d, data=x, alias=y) for n, d, x, y in zip('ab', (None, ('v', '0')), datas, aliases)]))
    r.append(obj('nt', [F('a', inner), F('b', INT)]))
    r.append(obj('td', [F('a', inner), F('b', INT)]))
    return r


def loadcase(s, node, d, cfg, loader):
    STEPS[0] = 0
    r = node.res(cfg, build(d))
    s.states += 1
    s.transitions += STEPS[0]
    s.validated += 1
    out = impl(node, d, cfg, loader)
    why = mismatch(r, out)
    if why:
        report(s, node, d, cfg, out, why)
    return r


def dumpcase(s, node, v, dc, dumper):
    s.states += 1
    s.validated += 1
    exp = refdump(dc, v)
    got = dumper.dump(v)
    if not same(exp, got):
        what = 'dump of %r (%r): %r instead of %r' % (v, dc, got, exp)
        s.bad(what, '# %s\n%s' % (what, node.source()))
    return got


def explore_class(s, node, docs, keys):
    for key in keys:
        loaders = [(c, Loader(**c.kw)) for c in (Cfg(mangle_key=key), Cfg(mangle_key=key, failonextra=True))]
        dumpers = [(c, Dumper(**c.kw)) for c in (DCfg(mangle_key=key), DCfg(mangle_key=key, hidedefault=False))]
        for d in docs:
            for cfg, l in loaders:
                r = loadcase(s, node, d, cfg, l)
            if r.vals and not r.fails:
                v = r.vals[0]
                for dc, dumper in dumpers:
                    got = dumpcase(s, node, v, dc, dumper)
                    for cfg, l in loaders:
                        s.validated += 1
                        back = l.load(got, node.t)
                        if not same(back, v):
                            s.bad('%r dumped with (%r) to %r is loaded as %r' % (v, dc, got, back), node.source())
            if s.full:
                return


def run(tier, seed):
    cl = classes(tier)
    sp = special()
    va = variations(tier)
    names = [n for n in (QUICK if tier == 'quick' else THOROUGH) if n is not None]
    cs = contexts()
    def f(u, s):
        if u[0] == 'c':
            node = mk(*cl[u[1]])
            docs = list(alldocs(names + ['q']))
            explore_class(s, node, docs, KEYS)
            s.sample(node.decl.replace('\n', '; ')[:250], 1)
        elif u[0] == 'v':
            for v in va[u[1]:u[1] + 20]:
                explore_class(s, mkvar(*v), list(alldocs(['a', 'b', 'c', 'd'])) + [{'q': 1, 'b': None, 'a': 3}, {'q': 1, 'b': 2, 'c': 3}], KEYS[:2])
        elif u[0] == 'n':
            for kind in ('dc', 'attrs', 'attrsa'):
                for other in (None, 'a'):
                    for default in (None, ('v', '0')):
                        node = obj(kind, [F('a', UnionT(INT, NONE), default, data=ODD[u[1]]), F('b', UnionT(INT, NONE), default, data=other)])
                        near = ODD[u[1] - 1]
                        explore_class(s, node, list(alldocs(['a', 'b', ODD[u[1]], near])), KEYS[:1])
        else:
            node = sp[u[1]]
            docs = []
            for o in [node]:
                for key in KEYS + ['x y', '']:
                    base = {f.dataname(key if o.kind != 'nt' and o.kind != 'td' else None): f.node.valid()[0] for f in o.allfields()}
                    docs.append(base)
                    docs += list(edits(base, JUNK_TINY, conv=True))
            explore_class(s, node, docs, KEYS + ['x y', ''])
            for c in cs:
                if c[4]:
                    continue
                n2 = c[1](node)
                for d in docs[:60 if tier == 'quick' else None]:
                    for cfg in (Cfg(), Cfg(failonextra=True), Cfg(mangle_key='alt')):
                        STEPS[0] = 0
                        loadcase(s, n2, c[2]([d] * c[3]), cfg, None)
                    if s.full:
                        return
    units = [('c', i) for i in range(len(cl))] + [('v', i) for i in range(0, len(va), 20)] + [('n', i) for i in range(len(ODD))] + [('s', i) for i in range(len(sp))]
    total = core.explore(units, f)
    return total, dict(bound='classes of 3 fields, every mapping over %d names, every subset of %d names in the data (both orders), 3 metadata keys; again with one field (two in thorough) of each other kind; odd names' % (len(names), len(names) + 1),
                       assumptions=['fields of the same class never share the same data name'])
