"""
C07: every subset of the fields x every pair of unknown keys, for every
combination of kinds of fields, for every kind of object, in every context;
tuples of every length around theirs.
"""
import array
import collections
import itertools

from mc.diff import *
from mc.contexts import *

EXTRA = Cfg(failonextra=True)
LAX = Cfg()
CFGS = [LAX, EXTRA, Cfg(failonextra=True, basiccast=False), Cfg(failonextra=True, mangle_key='other')]


def objects(tier):
    r = []
    for kind in KINDS + ['attrsa']:
        if kind == 'td':
            variants = [lambda n: F(n, INT), lambda n: F(n, INT, notrequired=True)]
        elif kind == 'nt':
            variants = [lambda n: F(n, INT), lambda n: F(n, INT, ('v', '9'))]
        else:
            variants = [lambda n: F(n, INT), lambda n: F(n, INT, ('v', '9')), lambda n: F(n, INT, data='@' + n), lambda n: F(n, INT, ('f', 'int'), data='@' + n),
                        lambda n: F(n, INT, ('v', '8'), init=False), lambda n: F(n, INT, data={'a': 'b', 'b': 'c', 'c': 'a'}[n])]
        for combo in itertools.product(range(len(variants)), repeat=3):
            fields = [variants[v](n) for v, n in zip(combo, 'abc')]
            if kind == 'attrsa' and (tier == 'quick' and combo[0] == combo[1]):
                continue
            names = [f.data or f.name for f in fields]
            if len(set(names)) < 3:
                continue
            if kind != 'td':
                # defaults last
                fields.sort(key=lambda f: f.default is not None)
            r.append(obj(kind, fields))
        if kind == 'td':
            r.append(obj('td', [F('a', INT), F('b', INT), F('c', INT)], total=False))
    b = obj('td', [F('a', INT)])
    r.append(obj('td', [F('b', INT), F('c', INT, notrequired=True)], base=b))
    r.append(obj('td', [F('b', INT), F('c', INT)], base=b, total=False))
    b2 = obj('td', [F('b', INT), F('c', INT)], total=False)
    r.append(obj('td', [F('a', INT)], base=b2))
    b = obj('dc', [F('a', INT), F('b', INT, ('v', '3'))])
    r.append(obj('dc', [F('c', INT, ('v', '3'))], base=b))
    r.append(obj('dc', [F('b', INT, ('v', '3'), data='zz')], base=b))
    # required is what has no default, whatever the type would accept in its place
    for kind in KINDS + ['attrsa']:
        for node in (UnionT(INT, NONE), UnionT(NONE, STR), ANY, NONE, Seq('List', INT), DictT(STR, INT), LiteralT(5), UnionT(Seq('List', INT), INT), BOOL):
            late = F('b', node, notrequired=True) if kind == 'td' else F('b', node, ('v', '9'))
            r.append(obj(kind, [F('a', node), F('c', INT), late]))
            if kind == 'td':
                r.append(obj('td', [F('a', node), F('b', INT)], total=False))
                r.append(obj('td', [F('b', node)], base=r[-1]))
    # an object inside of an object, with the same names
    for kind in KINDS:
        for k2 in KINDS:
            inner = obj(kind, [F('a', INT), F('b', INT, ('v', '1') if kind != 'td' else None, notrequired=kind == 'td')])
            r.append(obj(k2, [F('a', inner), F('b', INT, ('v', '1') if k2 != 'td' else None, notrequired=k2 == 'td')]))
    return r


# Unknown names that something could take for special
NEAR = ['$a', '$schema', '$ref', '_a', '__a', '__a__', 'a_', '-a', 'x-a', 'A', 'AA', 'a ', ' a', 'a\0', 'a.b', 'a-b', '@', '@z', '#', '#a', '//', '_', '__', '-', '?a', '!a', '~', '*', '**', '0', '1', 'None', 'null', 'aa',
        'self', 'cls', 'kwargs', 'args', 'type', 'name', 'metadata', 'comment', '_comment', 'id', '_id', 'version', 'data', 'value', 'get', 'items', 'keys', 'copy', 'fields', '_fields', '_asdict', '__class__', '__doc__',
        '__dict__', '__module__', '__annotations__', '__attrs_attrs__', '__dataclass_fields__', '__type__', '@type', '\xe0', '\uff41', b'a', b'', 1.5, 0, -1, ('a',), (), frozenset(), frozenset(['a']), float('inf'), ...]


def near_docs(o):
    """What is known and each of these names, alone or after others that are also unknown"""
    known = {f.dataname('name' if o.kind in ('dc', 'attrs', 'attrsa') else None): value_of(f) for f in o.allfields()}
    for i, u in enumerate(NEAR):
        for x in (1, None):
            yield {**known, u: x}, [u]
        yield {u: [], **known}, [u]
        yield {u: 1}, [u]
        yield {**known, u: 1, NEAR[i - 1]: 2}, [u, NEAR[i - 1]]


def value_of(f):
    if isinstance(f.node, Obj):
        return {'a': 5}
    if isinstance(f.node, (Seq, DictT)):
        return [5] if isinstance(f.node, Seq) else {'k': 5}
    return None if f.node is NONE else 5


def data_docs(o, key='name'):
    """Every subset of the known keys x up to two unknown ones, in front and after"""
    fields = o.allfields()
    known = [(f.dataname(key if o.kind in ('dc', 'attrs', 'attrsa') else None), value_of(f)) for f in fields]
    names = [k for k, _ in known]
    unknown = [k for k in ['zz', 'a', 'b', 'c', '@a', '@b', '@c', 7, None, True, ''] if k not in names]
    for n in range(len(known) + 1):
        for sub in itertools.combinations(known, n):
            base = dict(sub)
            yield base, []
            for u in unknown:
                yield {**base, u: 'junk'}, [u]
                yield {u: 3, **base}, [u]
                if n == len(known):
                    # what is ignored is not looked at, also if it is nothing
                    for x in (None, '', 0, False, [], {}):
                        yield {**base, u: x}, [u]
            if n == len(known):
                for u, w in itertools.combinations(unknown, 2):
                    yield {**base, u: 1, w: []}, [u, w]


def nested_docs(o):
    """For objects inside of objects: what is wrong is in the inner one"""
    for f in o.allfields():
        if isinstance(f.node, Obj):
            for d, e in data_docs(f.node):
                if f.dataname('name') == 'a':
                    yield {'a': d}, e


# what has items and a length, made from a list of different things
SIZED = [set, frozenset, collections.deque, collections.UserList, lambda l: dict.fromkeys(l).keys(), lambda l: dict(enumerate(l)).values(), lambda l: range(len(l)), lambda l: '12345678'[:len(l)], lambda l: b'12345678'[:len(l)],
         lambda l: bytearray(len(l)), lambda l: array.array('i', range(len(l))), lambda l: NS['SubStr']('x' * len(l)), lambda l: collections.OrderedDict(enumerate(l)).items(), lambda l: NS['SubList'](l)]


def check(s, node, d, cfg, ignorable=None):
    STEPS[0] = 0
    r = model(node, d, cfg)
    s.states += 1
    s.transitions += STEPS[0]
    if r is None:
        return
    out = impl(node, d, cfg)
    s.validated += 1
    s.add('accepted' if out[0] == 'ok' else 'rejected')
    why = mismatch(r, out)
    if why:
        report(s, node, d, cfg, out, why)


def lax_same(s, node, d, clean):
    """Without failonextra the unknown keys make no difference"""
    a = impl(node, d, LAX)
    b = impl(node, clean, LAX)
    s.add('compared_without_unknown')
    if a[0] != b[0] or (a[0] == 'ok' and not same(a[1], b[1])):
        report(s, node, d, LAX, a, 'but without the unknown fields it %s' % describe(b))


def run(tier, seed):
    objs = objects(tier)
    cs = contexts()
    def objunit(i, s):
        o = objs[i]
        # all the contexts are used, with different objects; the first objects of each kind with all
        use = [None] + ([c for c in range(len(cs))] if tier != 'quick' or i % 16 == 0 else [(i * 3) % len(cs), (i * 5 + 1) % len(cs)])
        for ci in use:
            if ci is not None and cs[ci][4]:
                continue
            node = o if ci is None else cs[ci][1](o)
            good = o.valid()[0]
            for first, (d, unknown) in itertools.chain(((True, x) for x in data_docs(o)), ((False, x) for x in nested_docs(o)),
                                                       ((True, x) for x in near_docs(o)),
                                                       ((False, x) for x in data_docs(o, 'other')) if ci is None else ()):
                for cfg in CFGS if ci is None else CFGS[:2]:
                    if ci is None:
                        check(s, node, d, cfg)
                    else:
                        n = cs[ci][3]
                        check(s, node, cs[ci][2](([good] * (n - 1)) + [d]), cfg)
                if first and unknown and ci is None:
                    lax_same(s, node, d, {k: v for k, v in d.items() if k not in unknown or type(k) is bool})
                if s.full:
                    return
        s.sample('%s in %d contexts' % (o.decl.replace('\n', '; ')[:200], len(use)), 1)

    tuples = [TupleFix(*[INT] * n) for n in range(6)] + [TupleFix(INT, STR), TupleFix(TupleFix(INT, INT), INT), TupleFix(Seq('List', INT), TupleFix(STR)), TupleFix(INT, UnionT(STR, NONE))]
    def tupunit(i, s):
        t = tuples[i]
        good = list(t.valid()[0])
        for n in range(len(good) + 4):
            for extra in (1, 'x', None, [], {}):
                d = (good + [extra] * 4)[:n]
                for wrap in (None,) + tuple(range(len(cs))):
                    node = t if wrap is None else cs[wrap][1](t)
                    dd = d if wrap is None else cs[wrap][2]([good] * (cs[wrap][3] - 1) + [d])
                    for cfg in CFGS[:3]:
                        check(s, node, dd, cfg)
                        if type(dd) is list:
                            check(s, node, tuple(dd), cfg)
                    if s.full:
                        return
            # the items that there are, with a length, that are not lists
            for items in ([8, 1, 16, 9, '4', 0, 'x', 33], ['8', 'b', 1, '', '16', 'aa', 'c', 2]):
                for mk in SIZED:
                    for wrap in (None,) + tuple(range(len(cs))):
                        if len(good) == 5 and wrap is not None:
                            continue
                        node = t if wrap is None else cs[wrap][1](t)
                        v = mk(items[:n])
                        dd = v if wrap is None else cs[wrap][2]([good] * (cs[wrap][3] - 1) + [v])
                        for cfg in CFGS[:3]:
                            check(s, node, dd, cfg)
                        if s.full:
                            return
        s.sample('%s with 0..%d items' % (t.expr(), len(good) + 3), 1)

    def f(u, s):
        (objunit if u[0] == 'o' else tupunit)(u[1], s)
    units = [('o', i) for i in range(len(objs))] + [('t', i) for i in range(len(tuples))]
    total = core.explore(units, f)
    return total, dict(bound='3 fields, all combinations of kinds of field, all subsets of known keys, up to 2 unknown keys, contexts of depth 1')
