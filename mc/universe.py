"""
The bounded grammar of types. Everything is enumerated, nothing is sampled.
"""
import itertools

from mc.schema import *

_n = [0]


def nm(p):
    _n[0] += 1
    return '%s%d' % (p, _n[0])


INT, STR, BOOL, FLOAT, NONE, ANY = Basic('int'), Basic('str'), Basic('bool'), Basic('float'), Basic('None'), AnyT()
BASICS = [INT, STR, BOOL, FLOAT, NONE]
LIT = LiteralT(1, 'a')
LITS = LiteralT('a', 'b')
LITN = LiteralT(None, 0, '')
E_INT = EnumT('EInt', [('A', 1), ('B', 2), ('Z', 0)])
E_STR = EnumT('EStr', [('A', 'a'), ('B', ''), ('ONE', '1')])
E_HINT = EnumT('EHint', [('A', (1, 2)), ('B', (3, 4))], [('_x', TupleFix(INT, INT))])
E_DATE = EnumT('EDate', [('A', X('datetime.date(2020, 1, 2)')), ('B', 5)], [('_d', DateT('date')), ('_i', INT)])
E_MIX = EnumT('EMix', [('A', 1), ('B', 'a'), ('C', None), ('D', 1.5)])
DATE, TIME, DATETIME, DELTA = DateT('date'), DateT('time'), DateT('datetime'), TimeDeltaT()
PAT, PATS, PATB = PatternT(), PatternT('str'), PatternT('bytes')
PATH = StrC('pathlib.Path', ['a/b', '.'])
IP4 = StrC('ipaddress.IPv4Address', ['127.0.0.1', '1.2.3.4'])
IP4N = StrC('ipaddress.IPv4Network', ['10.0.0.0/8'])
IP6I = StrC('ipaddress.IPv6Interface', ['::1/64'])
UUID_ = StrC('uuid.UUID', ['12345678123456781234567812345678'])
NT_INT = NewTypeT('NtInt', INT)
NT_LIST = NewTypeT('NtList', Seq('List', INT))

SCALARS = [E_INT, E_STR, E_HINT, E_DATE, E_MIX, DATE, TIME, DATETIME, DELTA, PAT, PATS, PATB, PATH, IP4, IP4N, IP6I, UUID_]
for _x in SCALARS + [NT_INT, NT_LIST]:
    _x.t
LEAVES = BASICS + [ANY, LIT, LITS, LITN] + SCALARS + [NT_INT, NT_LIST]
# enough to tell apart every way in which a leaf is treated
SMALL = [INT, STR, NONE, ANY, LIT, E_INT, E_HINT, DATE, NT_INT]
TINY = [INT, STR, LIT, E_HINT]
SEQS = ['List', 'Set', 'FrozenSet', 'Tuple']
KINDS = ['nt', 'dc', 'attrs', 'td']


def obj(kind, fields, **kw):
    return Obj(kind, nm({'nt': 'NT', 'dc': 'DC', 'attrs': 'AT', 'attrsa': 'AA', 'td': 'TD'}[kind]), fields, **kw)


def default_for(node):
    """source of a default of the field, that is not one of the first documents"""
    if isinstance(node, Basic):
        return ('v', {'int': '9', 'str': "'dflt'", 'bool': 'True', 'float': '2.5', 'None': 'None'}[node.n])
    if isinstance(node, Seq) and node.kind == 'List':
        return ('f', 'list')
    if isinstance(node, DictT):
        return ('f', 'dict')
    return ('v', 'None')


def object_shapes(node, kinds=KINDS, full=True):
    """Objects with a field of the given type: required, with default, renamed, after other fields..."""
    r = []
    for kind in kinds:
        r.append(obj(kind, [F('a', node)]))
        if not full:
            continue
        if kind == 'td':
            r.append(obj('td', [F('a', node), F('b', INT, notrequired=True)]))
            r.append(obj('td', [F('a', node), F('b', STR)], total=False))
        else:
            r.append(obj(kind, [F('b', INT), F('a', node, default_for(node) if kind != 'nt' or default_for(node)[0] == 'v' else ('v', 'None'))]))
        if kind in ('dc', 'attrs'):
            r.append(obj(kind, [F('a', node, data='@a'), F('b', STR, ('v', "'q'"), data='a')]))
            r.append(obj(kind, [F('a', node), F('b', INT, ('v', '5'), init=False)]))
    return r


def special_objects():
    """Shapes of objects that the grammar has only once"""
    r = []
    base = obj('dc', [F('a', INT), F('b', STR, ('v', "'x'"))])
    r.append(base)
    r.append(obj('dc', [F('c', INT, ('v', '3'))], base=base))
    r.append(obj('dc', [F('b', INT, ('v', '3'))], base=base))
    abase = obj('attrs', [F('a', INT)])
    r.append(obj('attrs', [F('c', INT, ('v', '3'))], base=abase))
    tbase = obj('td', [F('a', INT)])
    r.append(obj('td', [F('c', INT)], base=tbase))
    r.append(obj('td', [F('c', INT)], base=tbase, total=False))
    r.append(obj('dc', [F('a', INT), F('b', STR)], opts='(frozen=True)'))
    r.append(obj('dc', [F('a', INT), F('b', STR)], opts='(slots=True)'))
    r.append(obj('dc', [F('a', INT, kw=True), F('b', STR)]))
    r.append(obj('dc', [F('a', INT)], body='K: ClassVar[int] = 3\nclass Inner: pass'))
    r.append(obj('dc', [F('a', INT), F('b', INT, ('v', '0'))], body='def __post_init__(self):\n    if self.a < 0: raise ValueError("negative")\n    if self.a == 7: raise KeyError("seven")'))
    r.append(obj('dc', [F('a', INT), F('b', INT, init=False)], body='def __post_init__(self):\n    self.b = self.a + 1'))
    r.append(obj('attrsa', [F('a', INT), F('_b', STR, ('v', "'p'")), F('c', Seq('List', INT), ('f', 'list'))]))
    r.append(obj('attrs', [F('_a', INT), F('b', INT, ('fs', '(lambda self: self._a + 1)'))]))
    r.append(obj('attrs', [F('_a', INT, data='@a'), F('b', INT, ('v', '1'), data='b b')], opts='(frozen=True)'))
    r.append(obj('attrs', [F('_a', INT, alias='_a'), F('b', STR, ('v', "'x'"), alias='a')]))
    r.append(obj('attrsa', [F('a', INT, alias='c'), F('c', Seq('List', INT), ('f', 'list'), alias='a', data='b')]))
    r.append(obj('attrs', [F('a', INT, kw=True), F('b', Seq('List', STR), ('f', 'list'), kw=True)], opts='(slots=True)'))
    r.append(obj('attrs', [F('a', INT)], body='@a.validator\ndef _check(self, attribute, value):\n    if value < 0: raise ValueError("negative")'))
    r.append(obj('nt', [F('a', INT), F('b', STR, ('v', "''")), F('c', Seq('Tuple', INT), ('v', '()'))]))
    # swaps and chains of names
    for k in ('dc', 'attrs'):
        r.append(obj(k, [F('a', INT, data='b'), F('b', STR, data='a')]))
        r.append(obj(k, [F('a', INT, data='b'), F('b', INT, data='c'), F('c', INT, ('v', '0'), data='d')]))
        r.append(obj(k, [F('a', INT, data='a'), F('b', INT, ('v', '0'), data='x y.z')]))
        r.append(obj(k, [F('a', INT, data='q', key='other'), F('b', INT, ('v', '0'), data='r')]))
    # many fields, all kinds
    for k in KINDS:
        r.append(obj(k, [F('a', INT), F('b', STR), F('c', UnionT(INT, NONE, spelling='Optional')), F('d', Seq('List', INT)), F('e', DictT(STR, INT))]))
        r.append(obj(k, []))
    # names that are also names of methods, or unusual
    r.append(obj('dc', [F('keys', INT), F('items', INT, ('v', '1')), F('self_', INT, ('v', '2'))]))
    r.append(obj('td', [F('keys', INT), F('items', STR), F('get', INT, notrequired=True), F('values', INT, notrequired=True)]))
    r.append(obj('nt', [F('value', INT), F('type_', INT, ('v', '1')), F('l', INT, ('v', '1'))]))
    return r


def tagged(kinds=KINDS, tag='t'):
    """Unions of objects that are told apart by a literal"""
    r = []
    for k in kinds:
        kk = 'attrsa' if k == 'attrs' else k
        a = obj(kk, [F(tag, LiteralT('a')), F('v', INT)])
        b = obj(kk, [F(tag, LiteralT('b', 'c')), F('v', INT)])
        c = obj(kk, [F(tag, LiteralT(1)), F('v', STR)])
        r.append(UnionT(a, b))
        r.append(UnionT(b, a, c))
        r.append(UnionT(a, b, NONE))
        r.append(UnionT(a, b, STR, INT))
    a = obj('nt', [F(tag, LiteralT('a')), F('v', INT)])
    b = obj('dc', [F(tag, LiteralT('b')), F('v', INT)])
    c = obj('td', [F(tag, LiteralT('c')), F('v', INT), F('t2', LiteralT('a'), notrequired=True)])
    d = obj('attrs', [F(tag, LiteralT('d')), F('v', INT)])
    r += [UnionT(a, b, c), UnionT(a, b, c, d), UnionT(d, a)]
    # two tags
    a = obj('nt', [F('t', LiteralT('a')), F('u', LiteralT('x'))])
    b = obj('nt', [F('t', LiteralT('a')), F('u', LiteralT('y'))])
    c = obj('nt', [F('t', LiteralT('b')), F('u', LiteralT('x')), F('w', INT, ('v', '1'))])
    r += [UnionT(a, b), UnionT(a, b, c)]
    # tag with a default, and overlapping tags
    a = obj('dc', [F('t', LiteralT('a'), ('v', "'a'")), F('v', INT, ('v', '1'))])
    b = obj('dc', [F('t', LiteralT('a', 'b'), ('v', "'b'")), F('w', INT, ('v', '1'))])
    r += [UnionT(a, b), UnionT(b, a), UnionT(a, b, INT)]
    # one tag is inside of the other object
    inner = obj('nt', [F('t', LiteralT('i'))])
    a = obj('nt', [F('t', LiteralT('a')), F('n', inner)])
    r += [UnionT(a, inner)]
    # mangled tag
    a = obj('dc', [F('t', LiteralT('a'), data='kind'), F('v', INT)])
    b = obj('dc', [F('t', LiteralT('b'), data='kind'), F('v', INT)])
    r += [UnionT(a, b)]
    return r


def recursive():
    r = []
    def ref(o, r_):
        r_.target = o
        return o
    for k in KINDS:
        kk = 'attrsa' if k == 'attrs' else k
        name = nm('Rec')
        x = Ref(name)
        o = Obj(kk, name, [F('v', INT), F('n', UnionT(x, NONE, spelling='Optional'), ('v', 'None') if k != 'td' else None, notrequired=k == 'td')])
        x.target = o
        r.append(o)
        name = nm('Rec')
        x = Ref(name)
        o = Obj(kk, name, [F('v', INT), F('c', Seq('List', x), ('f', 'list') if kk in ('dc', 'attrsa') else ('v', '[]') if k == 'nt' else None, notrequired=k == 'td')])
        x.target = o
        r.append(o)
        name = nm('Rec')
        x = Ref(name)
        o = Obj(kk, name, [F('v', UnionT(INT, x)), F('d', DictT(STR, x), ('f', 'dict') if kk in ('dc', 'attrsa') else ('v', '{}') if k == 'nt' else None, notrequired=k == 'td')])
        x.target = o
        r.append(o)
    return r


_cache = {}


def depth1(leaves, pairs=None, full=True, kinds=KINDS):
    """All the types with one constructor over the leaves"""
    pairs = pairs if pairs is not None else leaves
    r = []
    for x in leaves:
        for s in SEQS:
            r.append(Seq(s, x))
        r.append(TupleFix(x))
        r.append(UnionT(x, NONE, spelling='Optional')) if x is not NONE else None
        r.append(DictT(STR, x))
        r.append(DictT(x, INT))
        r += object_shapes(x, kinds, full)
    for a, b in itertools.permutations(pairs, 2):
        r.append(TupleFix(a, b))
    for a, b in itertools.combinations(pairs, 2):
        if not (isinstance(a, AnyT) or isinstance(b, AnyT)):
            r.append(UnionT(a, b))
        r.append(DictT(a, b))
    return [i for i in r if i is not None]


def universe(tier):
    """
    The types of every generic check: depth 1 over all the leaves, depth 2 over
    representative ones; thorough: depth 2 over more, depth 3 over a few.
    """
    if tier in _cache:
        return _cache[tier]
    r = list(LEAVES)
    r += depth1(LEAVES, SMALL)
    r += special_objects()
    tags = tagged()
    r += tags
    rec = recursive()
    r += rec
    r += [UnionT(INT, STR, NONE), UnionT(STR, FLOAT), UnionT(INT, FLOAT, BOOL, STR, NONE), UnionT(Seq('List', INT), Seq('List', STR)),
          UnionT(DATE, E_INT, STR), UnionT(IP4, PATH), UnionT(DATETIME, DATE, TIME), UnionT(E_INT, E_STR, NONE), UnionT(LIT, INT),
          UnionT(DictT(STR, INT), Seq('List', INT), STR), UnionT(TupleFix(INT, INT), TupleFix(STR, STR, STR)),
          TupleFix(INT, STR, FLOAT), TupleFix(INT, Seq('List', INT), DictT(STR, INT), NONE), TupleFix(), TupleFix(INT, INT, INT, INT, INT),
          # keys that have parts
          DictT(TupleFix(INT, STR), INT), DictT(Seq('Tuple', INT), STR), DictT(Seq('FrozenSet', INT), INT), DictT(UnionT(TupleFix(INT, LIT), INT), STR), DictT(NewTypeT(nm('NtKey'), TupleFix(INT, INT)), Seq('List', INT)),
          DictT(TupleFix(INT, TupleFix(STR, INT)), DictT(TupleFix(INT), INT)), Seq('List', DictT(TupleFix(INT, INT), INT)), obj('dc', [F('a', DictT(TupleFix(INT, INT), INT))])]
    small1 = depth1(TINY if tier == 'quick' else SMALL, TINY, full=False, kinds=KINDS)
    special = special_objects()
    inner = small1 + special + tags[::3] + rec[::3]
    if tier in ('quick', 'middle'):
        # each composite type, in each context
        for i, x in enumerate(inner):
            # every (constructor, constructor) pair occurs
            r.append(Seq('List', x))
            r.append(DictT(STR, x))
            l = [Seq('Tuple', x), Seq('FrozenSet', x), Seq('Set', x), TupleFix(x), TupleFix(INT, x), UnionT(x, NONE, spelling='Optional')]
            r += l if i < len(small1) else [l[i % 6]]
            # not aligned with the order of the inner types
            r.append(obj(KINDS[(i + i // 4) % 4], [F('a', x)]))
            r.append(obj(['dc', 'attrs'][(i + i // 2) % 2], [F('a', x, data='@a'), F('b', INT, ('v', '5'))]))
            r.append(UnionT(x, STR))
            if i % 3 == 0:
                r.append(UnionT(INT, x, inner[(i * 7 + 3) % len(inner)]))
                r.append(NewTypeT(nm('Nw'), x))
    else:
        for i, x in enumerate(inner):
            for s in SEQS:
                r.append(Seq(s, x))
            r.append(DictT(STR, x))
            r.append(DictT(x, STR))
            r.append(TupleFix(x))
            r.append(TupleFix(INT, x))
            r.append(UnionT(x, NONE, spelling='Optional'))
            r.append(UnionT(x, STR))
            r.append(UnionT(INT, x, inner[(i * 7 + 3) % len(inner)]))
            r.append(UnionT(x, inner[(i * 5 + 1) % len(inner)]))
            r.append(NewTypeT(nm('Nw'), x))
            r += object_shapes(x)
        # depth 3
        d2 = []
        tiny1 = depth1([INT, LIT], [], full=False, kinds=KINDS) + tags[:4] + rec[:3]
        for i, x in enumerate(tiny1):
            d2 += [Seq('List', x), DictT(STR, x), TupleFix(x), UnionT(x, INT), obj(KINDS[i % 4], [F('a', x)])]
        for i, x in enumerate(d2):
            r += [Seq('List', x), DictT(STR, x), Seq('Tuple', x), TupleFix(STR, x), UnionT(x, STR), obj(KINDS[(i + 1) % 4], [F('a', x)]),
                  obj('dc', [F('a', x, data='@a'), F('b', INT, ('v', '5'))])]
    _cache[tier] = r
    return r
