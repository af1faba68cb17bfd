"""
C24: documents with dictionaries for every kind of object and Dict in every
context; all the subsets of their dictionaries are made into Namespace. With
dictequivalence the outcome is that of the dictionaries, without it that of
the reference model, where a Namespace is not a dictionary. All the odd
attribute names, with odd values, in every kind of object.
"""
import itertools

from mc.diff import *
from mc.universe import *
from mc.contexts import contexts

SETTINGS = [dict(), dict(failonextra=True), dict(basiccast=False), dict(uniondebugconflict=True), dict(failonextra=True, basiccast=False)]


def objects():
    r = []
    for k in ('nt', 'dc', 'attrs', 'attrsa', 'td'):
        r.append(obj(k, [F('a', INT)]))
        r.append(obj(k, [F('a', INT), F('b', INT, ('v', '3') if k != 'td' else None, notrequired=k == 'td')]))
        r.append(obj(k, []))
        if k in ('dc', 'attrs', 'attrsa'):
            r.append(obj(k, [F('a', INT, data='@a'), F('b', INT, ('v', '3'), data='a')]))
            r.append(obj(k, [F('a', INT), F('b', INT, ('v', '5'), init=False)]))
            r.append(obj(k, [F('a', INT, data='x y'), F('_p', INT, ('v', '1'))]))
    return r


def types_(tier):
    objs = objects()
    leaves = objs + [DictT(STR, INT)]
    r = list(leaves)
    few = [objs[1], [o for o in objs if o.kind == 'dc'][3], [o for o in objs if o.kind == 'attrs'][3], [o for o in objs if o.kind == 'td'][1], leaves[-1]]
    few += [o for o in objs if o.kind == 'nt'][:1]
    inner = []
    for x in few:
        inner += [DictT(STR, x), Seq('List', x), UnionT(x, NONE, spelling='Optional'), TupleFix(x, x), UnionT(INT, x), NewTypeT(nm('Nw'), x)]
        for k in ('nt', 'dc', 'attrs', 'td'):
            inner.append(obj(k, [F('p', x)]))
        inner.append(obj('dc', [F('p', x, data='@p'), F('q', INT, ('v', '1'))]))
    r += inner
    r += [UnionT(a, b) for a, b in itertools.permutations(few, 2)]
    r += [UnionT(Seq('List', few[0]), few[1]), UnionT(few[0], Seq('List', INT), NONE)]
    r += [t for t in tagged() if all(not (m.basic and m is STR) for m in t.members)]
    r += recursive()
    if tier != 'quick':
        for x in inner:
            r += [DictT(STR, x), Seq('List', x), UnionT(x, INT), obj('nt', [F('p', x)]), obj('td', [F('p', x)]), obj('attrs', [F('p', x)])]
    else:
        for i, x in enumerate(inner):
            r += [[DictT(STR, x), Seq('List', x), UnionT(x, INT)][i % 3], obj(KINDS[i % 4], [F('p', x)])]
    return r


def dictpositions(d):
    return [p for p in positions(d) if type(at(d, p)) is dict and all(type(k) is str for k in at(d, p))]


def namespaced(d, paths, path=()):
    """The document with Namespace at the given paths"""
    t = type(d)
    if t is dict:
        r = {k: namespaced(v, paths, path + (('v', k),)) for k, v in d.items()}
        return Conv('Namespace(**%s)', r) if path in paths else r
    if t in (list, tuple):
        return t(namespaced(v, paths, path + (i,)) for i, v in enumerate(d))
    return d


def plain(o):
    """What the user sees: Namespace below Any is what it was"""
    return o


def canon(e, depth=0):
    path = tuple((i.annotation[0].value, repr(i.annotation[1]) if i.annotation[0].value in ('field', 'index') else '') for i in e.trace if i.annotation is not None)
    return ('' if depth else type(e).__name__, path, repr(e.type_), tuple(canon(x, depth + 1) for x in e.exceptions) if depth < 4 else len(e.exceptions))


def out(o):
    k, v = o
    if k == 'ok':
        return ('ok', type(v).__name__, v)
    if k == 'err':
        return ('err', canon(v))
    return ('crash', repr(v))


def equal(a, b):
    return a[0] == b[0] and (same(a[2], b[2]) if a[0] == 'ok' else a == b)


def differential(node, doc, s):
    pos = dictpositions(doc)
    if not pos:
        return
    if len(pos) > 4:
        subsets = [(p,) for p in pos] + [tuple(pos)]
    else:
        subsets = [c for n in range(1, len(pos) + 1) for c in itertools.combinations(pos, n)]
    for kw in SETTINGS:
        cfg = Cfg(**kw)
        ref = out(impl(node, doc, cfg))
        off = Cfg(dictequivalence=False, **kw)
        for sub in subsets:
            nd = namespaced(doc, set(sub))
            s.states += 1
            s.transitions += len(sub)
            s.validated += 2
            o = impl(node, nd, cfg)
            if not equal(out(o), ref):
                report(s, node, nd, cfg, o, 'with dictionaries: %s' % (str(ref)[:300],))
            # disabled: what the rules say of something that is not a dictionary
            r = model(node, nd, off)
            o = impl(node, nd, off)
            if o[0] == 'crash':
                report(s, node, nd, off, o, 'it is not a typedload exception')
            elif r is not None:
                why = mismatch(r, o)
                if why:
                    report(s, node, nd, off, o, why)
            s.outcomes.add((ref[0], o[0]))
            if s.full:
                return


NAMES = ['keys', 'items', 'get', 'values', 'self', 'cls', 'value', 'type_', 'l', 'name', 'args', 'kwargs', 'a', '_', '_a', 'x1', 'copy', 'pop', 'update', 'ünï', '_fields', '_replace_', '_get_kwargs', '_get_args', '__iter__', '__len__', '__getitem__', '__eq__', '__hash__', '__contains__', '__class_', '__dict_', '__slots__', '__getattr__', '__annotations__', '__attrs_attrs__', '__dataclass_fields__', '__name__', '__origin__', '_asdict', '_fields_']
ODDNAMES = ['', 'a b', '1', '@x', 'None', 'class', 'a.b', '\\n', '0']
VALUES = ['1', '"2"', 'None', 'repr', 'dict', 'list', 'lambda *a: [][0]', 'lambda *a: {"a": 1}', '{"keys": 1}', '[]', 'lambda *a: 1 / 0', 'int']


def names_case(names, values, s, ns, tier):
    """A Namespace with these attributes, into everything"""
    shown = '{%s}' % ', '.join('%r: %s' % i for i in zip(names, values))
    mk = lambda: dict((n, eval(v, ns)) for n, v in zip(names, values))
    ident = all(n.isidentifier() and n not in ('None', 'class') for n in names)
    targets = ['Dict[str, Any]', 'Dict[str, int]', 'Dict[str, Optional[int]]', 'Union[int, Dict[str, Any]]', 'Union[Dict[str, Any], List[int]]', 'Optional[Dict[str, int]]', 'Dict[str, Dict[str, Any]]']
    decls = ''
    k = 0
    for fields in ([(n, 'Any') for n in names], [(n, 'int') for n in names], [(names[0], 'Any')], [('other', 'int')]):
        k += 1
        decls += 'TD%d = TypedDict("TD%d", {%s})\n' % (k, k, ', '.join('%r: %s' % f for f in fields))
        targets += ['TD%d' % k, 'Union[int, TD%d, List[int]]' % k]
        if ident and not any(f[0].startswith('__') or f[0] == 'self' for f in fields):
            decls += '@dataclass\nclass DC%d:\n%s' % (k, ''.join('    %s: %s = None\n' % f for f in fields))
            targets += ['DC%d' % k, 'Union[DC%d, List[int]]' % k]
            decls += '@attr.s\nclass AT%d:\n%s' % (k, ''.join('    f%d = attr.ib(default=0, type=%s, metadata={"name": %r})\n' % (i, f[1], f[0]) for i, f in enumerate(fields)))
            targets += ['AT%d' % k]
            if not any(f[0].startswith('_') for f in fields):
                decls += 'class NT%d(NamedTuple):\n%s' % (k, ''.join('    %s: %s = None\n' % f for f in fields))
                targets += ['NT%d' % k]
        decls += '@dataclass\nclass DM%d:\n%s' % (k, ''.join('    f%d: %s = field(default=0, metadata={"name": %r})\n' % (i, f[1], f[0]) for i, f in enumerate(fields)))
        targets += ['DM%d' % k, 'Union[DM%d, DM%d]' % (k, max(1, k - 1))]
    decls += '''
@dataclass
class L1:
    t: Literal['a', 'b']
    x: Any = 0
@dataclass
class L2:
    t: Literal['b', 'c']
    y: Any = 0
'''
    targets += ['Union[L1, L2]', 'Union[L2, L1]']
    o = dict(ns)
    exec(compile(decls, '<c24>', 'exec', dont_inherit=True), o)
    def ofns(d):
        n = argparse.Namespace()
        for k, v in d.items():
            vars(n)[k] = v
        return n
    for texpr in targets:
        t = eval(texpr, o)
        for kw in (dict(), dict(failonextra=True), dict(uniondebugconflict=True)):
            for wrapname, wt, w in (('', lambda t: t, lambda v: v), (' in a List', lambda t: List[t], lambda v: [v]), (' in a Dict', lambda t: Dict[str, t], lambda v: {'k': v})):
                if wrapname and kw and tier == 'quick':
                    continue
                for extra in ({}, {'t': 'b'}):
                    if bool(extra) != ('L1' in texpr):
                        continue
                    s.states += 1
                    s.validated += 1
                    a, b = {**mk(), **extra}, ofns({**mk(), **extra})
                    def f(v):
                        try:
                            return ('ok', None, Loader(**kw).load(w(v), wt(t)))
                        except TypedloadException as e:
                            return ('err', canon(e))
                        except Exception as e:
                            return ('crash', repr(e))
                    ra, rb = f(a), f(b)
                    s.outcomes.add((ra[0], rb[0]))
                    same_ = ra[0] == rb[0] and (ra[0] != 'ok' or repr(ra[2]).split(' at 0x')[0] == repr(rb[2]).split(' at 0x')[0]) and (ra[0] != 'err' or ra == rb)
                    if not same_ or rb[0] == 'crash':
                        what = 'load Namespace with %s into %s%s with %r: %s instead of %s' % (shown, texpr, wrapname, kw, str(rb)[:200], str(ra)[:200])
                        s.bad(what, PRELUDE + decls + 'import typedload\nn = Namespace()\nvars(n).update(%s)\nprint(%r)\nprint(typedload.load(n, %s))\n' % (shown, what, texpr))
                        if s.full:
                            return
                    # disabled: not accepted anywhere where there is a dictionary
                    # (unless its attributes make it look like one)
                    if not wrapname and all(v in ('1', '"2"', 'None', '[]') for n, v in zip(names, values) if n in ('keys', 'items')):
                        try:
                            r = Loader(dictequivalence=False, **kw).load(b, t)
                        except TypedloadException:
                            pass
                        except Exception as e:
                            s.bad('load Namespace with %s into %s, dictequivalence disabled: %r' % (shown, texpr, e), PRELUDE + decls)
                        else:
                            s.bad('load Namespace with %s into %s, dictequivalence disabled: accepted: %r' % (shown, texpr, r), PRELUDE + decls)


def run(tier, seed):
    quick = tier == 'quick'
    nodes = types_(tier)
    names = []
    for n in NAMES + ODDNAMES:
        for v in VALUES:
            names.append(((n,), (v,)))
    for a, b in itertools.permutations(['keys', 'items', 'get', 'values', 'self', '_get_kwargs', '__iter__', 'a', 'a b'] if quick else NAMES[:20] + ODDNAMES, 2):
        for v, w in itertools.product(['1', 'dict', 'lambda *a: {"a": 1}', 'lambda *a: 1 / 0'] if quick else VALUES, repeat=2):
            if quick and (v == w == '1') or a > b and quick:
                continue
            names.append(((a, b), (v, w)))
    units = [('doc', i) for i in range(len(nodes))] + [('names', c) for c in names]
    for n in nodes:
        n.t
    ns = dict(NS)
    def f(u, s):
        if u[0] == 'names':
            names_case(u[1][0], u[1][1], s, ns, tier)
            return
        node = nodes[u[1]]
        docs = [d for d in node.valid()]
        seen = set()
        for d in docs[:3 if quick else 6]:
            for e in itertools.chain([d], edits(d, JUNK_TINY if quick else JUNK_SMALL, conv=False)):
                k = src(e)
                if k in seen:
                    continue
                seen.add(k)
                differential(node, e, s)
                if s.full:
                    return
        s.sample('%s: %d documents' % (node.expr(), len(seen)), 1)
    total = core.explore(units, f)
    return total, dict(bound='%d types, their valid documents and all the documents one edit away, all the subsets of dictionaries, %d settings; %d sets of odd attributes in all the kinds of objects' % (len(nodes), len(SETTINGS), len(names)),
                       assumptions=['a Namespace that is not loaded into an object or Dict is unspecified'])
