"""
C28: every enum of one, two (three) members taken in order from a pool of
values with and without annotation, and annotations that are not of members;
loads of all the forms of the values, of the forms of the others, and of junk,
against the reference model; dump of every member and load of it. Enums with
user code (_missing_, __new__, flags, mixins, aliases) against the lookup of
the class itself. The same in every context.
"""
import itertools

from mc.diff import *
from mc.universe import *
from mc.contexts import contexts

SUB = EnumT('C28Sub', [('P', 'p'), ('Q', 1)])
REC = obj('nt', [F('a', INT), F('b', STR, ('v', "'x'"))])
DCL = obj('dc', [F('a', INT)], opts='(frozen=True)')
for _x in (SUB, REC, DCL):
    _x.t

TII, TSI, TI = TupleFix(INT, INT), TupleFix(STR, INT), Seq('Tuple', INT)
# value, annotation, documents that are about it
POOL = [
    (1, INT, ['1', 1.0, 1.9, True]),
    (1, None, ['1', 1.0]),
    (0, INT, ['0', False, 0.0]),
    ('a', STR, [b'a']),
    ('a', None, []),
    ('1', STR, [1, '01']),
    ('', STR, []),
    (None, NONE, ['None']),
    (None, None, []),
    (True, BOOL, [1, 'x', 0]),
    (1.5, FLOAT, ['1.5', '1.50']),
    (2.0, FLOAT, [2, '2']),
    ((1, 2), TII, [[1, 2], ['1', 2.0], [1, 2, 3], [1], '12']),
    ((1, 2), TI, [[1, 2], ['1', '2'], [1, 2, 3]]),
    ((1, 2), None, [[1, 2], ['1', '2']]),
    (('a', 1), TSI, [['a', 1], ['a', '1'], ('a', 1, 2)]),
    ((), TI, [[], '']),
    ([1], Seq('List', INT), [(1,), ['1'], '1', X('{1}')]),
    ([1], None, [(1,)]),
    ({'k': 1}, DictT(STR, INT), [{'k': '1'}, {'k': 1, 'l': 2}, X('Namespace(k=1)')]),
    (X('frozenset({1, 2})'), Seq('FrozenSet', INT), [[1, 2], ['2', 1, 1], (1,)]),
    (X('datetime.date(2020, 1, 2)'), DATE, ['2020-01-02', [2020, 1, 2], [2020, 1, 3]]),
    (X('datetime.datetime(2020, 1, 2)'), DATETIME, ['2020-01-02', [2020, 1, 2], '2020-01-02T00:00:00']),
    (X('datetime.timedelta(seconds=1)'), DELTA, [1, 1.0, '1']),
    (X('pathlib.Path("a/b")'), PATH, ['a/b', 'a//b', './a/b']),
    (X('ipaddress.IPv4Address("1.2.3.4")'), IP4, ['1.2.3.4']),
    (X('uuid.UUID(int=5)'), UUID_, ['00000000-0000-0000-0000-000000000005', '{00000000000000000000000000000005}']),
    (X('C28Sub.P'), SUB, ['p', 'q']),
    (X(REC.name + '(1, "x")'), REC, [{'a': 1}, {'a': '1', 'b': 'x'}, (1, 'x'), [1, 'x'], {'a': 2}]),
    (X(DCL.name + '(1)'), DCL, [{'a': 1}, {'a': '1', 'z': 2}]),
    (3, UnionT(INT, NONE, spelling='Optional'), ['3', None]),
    ('u', UnionT(Seq('List', INT), STR), ['u', []]),
    ('z', ANY, ['Z']),
    ('l', LiteralT('l', 'm'), ['m']),
    (7, NT_INT, ['7']),
]
# annotations that are not of a member
BARE = [None, INT, STR, TII, Seq('List', STR), DATE, ANY]
REDUCED = [0, 3, 5, 7, 12, 14, 17, 20, 21, 24, 28, 30, 32]
CFGS = [Cfg(), Cfg(basiccast=False, failonextra=True), Cfg(uniondebugconflict=True)]


class EnumM(EnumT):
    """Members with their annotations"""
    def __init__(self, name, members, bare=None, barefirst=True):
        self.name = name
        self.members = [('M%d' % i, m[0]) for i, m in enumerate(members)]
        self.hints = [('M%d' % i, m[1]) for i, m in enumerate(members) if m[1] is not None]
        lines = ['M%d%s = %s' % (i, ': ' + m[1].expr() if m[1] is not None else '', src(m[0])) for i, m in enumerate(members)]
        if bare is not None:
            self.hints.insert(0 if barefirst else len(self.hints), ('bare', bare))
            lines.insert(0 if barefirst else len(lines), 'bare: %s' % bare.expr())
        self.deps = tuple(h for _, h in self.hints) + (SUB, REC, DCL)
        self.decl = 'class %s(Enum):\n    ' % name + '\n    '.join(lines) + '\n'


def docs_for(members):
    r = []
    for v, h, forms in members:
        r.append(v)
        r += forms
    return r


FIXED = [None, 0, 1, 2, 1.5, '', 'a', '1', 'M0', 'p', [], [1], [1, 2], ['x'], {}, {'a': 1}, {'k': 1}, (1, 2), X('Opaque()'), X('Namespace(a=1)'), X('float("nan")'), '2020-01-02', 'a/b', b'a', X('frozenset({1})'), X('10**5000'), X('C28Sub.P')]


def case(s, node, doc, cfg):
    r = model(node, doc, cfg)
    if r is None:
        s.add('unspecified')
        return None
    out = impl(node, doc, cfg)
    s.states += 1
    s.transitions += 1 + len(node.hints if isinstance(node, EnumT) else ())
    s.validated += 1
    s.outcomes.add(out[0])
    why = 'it is not a typedload exception' if out[0] == 'crash' else mismatch(r, out)
    if why:
        report(s, node, doc, cfg, out, why)
    return out


def enum_case(s, node, members, quick, k, ctxs):
    seen = set()
    for doc in docs_for(members) + FIXED:
        key = (type(doc), src(doc))
        if key in seen:
            continue
        seen.add(key)
        for cfg in CFGS if not quick or k % 3 == 0 else CFGS[:2]:
            case(s, node, doc, cfg)
            if s.full:
                return
    # the first member with that value is the one
    for m in node.t.__members__.values():
        s.states += 1
        if Loader().load(m.value, node.t) is not node.find(m.value):
            s.bad('the value of %r does not load into it\n%s' % (m, node.decl), replay(node, m.value, Cfg(), ''))
        for dkw in (dict(), dict(isodates=True), dict(hidedefault=False)):
            dc = DCfg(**dkw)
            try:
                exp = refdump(dc, m)
            except Undumpable:
                continue
            s.validated += 1
            try:
                got = Dumper(**dkw).dump(m)
            except Exception as e:
                s.bad('dump of %r: %r\n%s' % (m, e, node.decl))
                continue
            if not same(got, exp) and type(m.value) is not frozenset:
                s.bad('dump of %r (%r) with %r: %r instead of %r\n%s' % (m, m.value, dkw, got, exp, node.decl), replay(node, m.value, Cfg(), ''))
                continue
            # is it for the rules the dump of this member?
            others = [x for x in node.t if x is not m and (x.value == exp or x.value == got)]
            hint = dict(node.hints).get(m.name)
            if others or hint is None and type(m.value) not in BASIC:
                s.add('dumps_outside_of_the_domain')
                continue
            amb = False
            for name, h in node.hints:
                if h is hint:
                    break
                r = h.res(Cfg(), exp)
                if any(node.find(v) not in (None, m) for v in r.vals):
                    amb = True
            if amb:
                s.add('dumps_outside_of_the_domain')
                continue
            s.add('round_trips')
            try:
                back = Loader().load(got, node.t)
            except Exception as e:
                back = e
            if back is not m:
                s.bad('%r dumps as %r that loads as %r\n%s' % (m, got, back, node.decl), replay(node, got, Cfg(), ''))
    if s.full:
        return
    # in a context
    for c in ctxs:
        name, mk, mkdoc, n, hashable, _ = c
        outer = mk(node)
        for doc in docs_for(members) + FIXED[:8]:
            case(s, outer, mkdoc([doc] + [members[0][0]] * (n - 1)), CFGS[0])
            if s.full:
                return


def u_plain(u, s, quick):
    idx, bares = u
    ctx = contexts()
    members = [POOL[i] for i in idx]
    try:
        vals = [build(m[0]) for m in members]
        if len(vals) > 1 and any(a == b for a, b in itertools.combinations(vals, 2)):
            s.add('with_aliases')
    except Exception:
        pass
    for k, (bare, first) in enumerate(bares):
        node = EnumM(nm('En'), members, bare, first)
        node.t
        n = sum(idx) + k
        enum_case(s, node, members, quick, n, [ctx[n % len(ctx)]] if quick else ctx)
        s.add('enums')
        if s.full:
            return


SPECIAL = [
    'class $(enum.IntEnum):\n    A = 1\n    B = 2\n',
    'class $(enum.IntEnum):\n    A = enum.auto()\n    B = enum.auto()\n    C = 1\n',
    'class $(enum.StrEnum):\n    A = "a"\n    B = enum.auto()\n    C = "1"\n',
    'class $(str, Enum):\n    A = "a"\n    B = "1"\n',
    'class $(float, Enum):\n    A = 1.5\n    B = 2\n',
    'class $(int, Enum):\n    A = 1\n    B = 2\n    Z = 0\n',
    'class $(int, Enum):\n    A: int = 1\n    B: int = 2\n    def __str__(self): return "x"\n    def __eq__(self, o): return int.__eq__(self, o)\n    __hash__ = int.__hash__\n',
    'class $(str, Enum):\n    A: str = "a"\n    B: str = "A"\n    def __str__(self): return self.name\n',
    'class $(enum.IntFlag):\n    A: int = 1\n    B: int = 4\n',
    'class $(enum.IntEnum):\n    A: int = 1\n    B: float = 2\n',
    'class $(bytes, Enum):\n    A = b"a"\n    B = b"1"\n',
    'class $(list, Enum):\n    __hash__ = object.__hash__\n    A = [1, 2]\n    B = [3]\n',
    'class $(dict, Enum):\n    __hash__ = object.__hash__\n    A = [("a", 1)]\n    B = []\n',
    'class $(frozenset, Enum):\n    A = frozenset({1})\n    B = frozenset()\n',
    'class $(datetime.date, Enum):\n    A = 2020, 1, 2\n    B = 2021, 1, 2\n',
    'class $(complex, Enum):\n    A = 1j\n',
    'class $(enum.Flag):\n    A = 1\n    B = 2\n    C = 4\n',
    'class $(enum.IntFlag):\n    A = 1\n    B = 2\n    AB = 3\n',
    'class $(Enum):\n    A = 1\n    B = 2\n    @classmethod\n    def _missing_(cls, v):\n        return cls.A if v == "one" else None\n',
    'class $(Enum):\n    A = 1\n    @classmethod\n    def _missing_(cls, v):\n        raise KeyError(v)\n',
    'class $(Enum):\n    A = 1\n    @classmethod\n    def _missing_(cls, v):\n        return 5\n',
    'class $(Enum):\n    A: Tuple[int, int] = (1, 2)\n    B: int = 3\n    @classmethod\n    def _missing_(cls, v):\n        return cls.A if v == "one" or v == (7, 7) else None\n',
    'class $(Enum):\n    A = (1, "x")\n    B = (2, "y")\n    def __new__(cls, v, label):\n        o = object.__new__(cls)\n        o._value_ = v\n        o.label = label\n        return o\n',
    'class $(Enum):\n    A = 1\n    B = 1\n    C = 2\n    def m(self): return 1\n    @property\n    def p(self): return 2\n',
    'class $(Enum):\n    _ignore_ = ["i"]\n    i: str\n    A: int = 1\n',
    'class $(Enum):\n    pass\n',
    'class $(Enum):\n    x: int\n    y: List[int]\n',
    '$ = Enum("$", "A B C")\n',
    '$ = Enum("$", {"A": "1", "B": None})\n',
    '$ = enum.unique(Enum("$", [("A", 1), ("B", (1, 2))]))\n',
    'class $base(Enum):\n    k: Tuple[int, int]\n    def f(self): return 1\nclass $($base):\n    A = (1, 2)\n    B = [1]\n',
    'class $base(Enum):\n    k: List[int]\nclass $($base):\n    l: Tuple[int, int]\n    A = (1, 2)\n    B = [1, 2]\n',
    'class $(tuple, Enum):\n    A: Tuple[int, int] = (1, 2)\n',
    'class $(Enum):\n' + ''.join('    V%d = %d\n' % (i, i) for i in range(15)),
    'class $(Enum):\n    A: "int" = 1\n    B: "Tuple[int, int]" = (1, 2)\n',
    'class $(Enum):\n    A = object\n    B = int\n',
    'class $(Enum):\n    A = float("nan")\n    B = float("inf")\n',
    'class $(Enum):\n    A: "ClassVar[int]" = 1\n' if False else 'class $(Enum):\n    A: float = 1.0\n    B: int = 2\n',
    'class $(Enum):\n    A: int = "5"\n    B: str = 5\n',
    'class $(Enum):\n    A: List[int] = "12"\n    B: Tuple[int, ...] = [1, 2]\n    C: str = (1, 2)\n',
    '@enum.verify(enum.UNIQUE)\nclass $(Enum):\n    A: int = 10\n    _b: str = "private"\n    B: FrozenSet[int] = frozenset({1})\n',
]
SPECIAL_DOCS = FIXED + [1.0, True, False, 3, 4, 5, 7, 8, -1, '2', '3', '5', 'A', 'B', 'b', 'x', 'y', 'one', (7, 7), [7, 7], ['7', 7], [1, '2'], (1, 'x'), [1, 'x'], [2], (1, 2, 3), ['1', '2'], '12', 1.2, 2.0, 14, 15, 100, X('float("inf")'), X('object'), X('int'), '[1, 2]', {1: 2}, 'private', 10, '10', [[1]], [None]]


def special_expected(cls, doc, hints, cfg):
    """By the lookup of the class, then by the annotations"""
    from typedload.dataloader import Loader as L
    v = build(doc)
    try:
        return cls(v)
    except Exception:
        pass
    for t in hints:
        node = t
        r = node.res(cfg, build(doc))
        if r.must_fail:
            continue
        if not r.must_load or len(r.vals) != 1:
            raise Unspecified()
        try:
            return cls(r.vals[0])
        except Exception:
            pass
    return None


NODES = {'int': INT, 'str': STR, 'float': FLOAT, 'List[int]': Seq('List', INT), 'Tuple[int, int]': TII, 'Tuple[int, ...]': TI, 'FrozenSet[int]': Seq('FrozenSet', INT)}


def hints_of(text):
    """The annotations, read from the text: those of the class first, then those of the base"""
    blocks = [b for b in ('\n' + text).split('\nclass ')[1:]]
    r = {}
    for b in blocks:
        for line in b.split('\n')[1:]:
            if not line.startswith('    ') or line.startswith('        '):
                continue
            line = line.strip()
            if ': ' in line and not line.startswith(('def', '@', 'return', '_ignore_')):
                name, rest = line.split(': ', 1)
                h = rest.split(' = ')[0].strip('"')
                # a new one of the same name takes the place of the old one
                r[name] = NODES[h]
    return r


def u_special(u, s, quick):
    text = SPECIAL[u]
    name = nm('Sp')
    decl = text.replace('$', name)
    exec(decl, NS)
    cls = NS[name]
    hints = hints_of(text)
    x = Raw28(name, decl)
    ctx = contexts()
    # typing gives the annotations of the bases first
    order = list(hints.values())
    for doc in SPECIAL_DOCS:
        for cfg in CFGS:
            try:
                exp = special_expected(cls, doc, order, cfg)
            except Unspecified:
                s.add('unspecified')
                continue
            for c in [None] + (ctx if not quick or cfg is CFGS[0] else []):
                if c is None:
                    node, d, un = x, doc, lambda r: r
                else:
                    if c[0] == 'optional' and (doc is None or exp is None):
                        continue
                    node, d = c[1](x), c[2]([doc] * c[3])
                s.states += 1
                s.transitions += 1 + len(order)
                s.validated += 1
                out = impl(node, d, cfg)
                if out[0] == 'crash' or (out[0] == 'ok') != (exp is not None):
                    report(s, node, d, cfg, out, 'expected %r' % (exp,))
                elif exp is not None and c is None and out[1] is not exp and out[1] != exp:
                    report(s, node, d, cfg, out, 'expected %r' % (exp,))
                elif exp is not None and c is not None and not contains(out[1], exp):
                    report(s, node, d, cfg, out, 'expected %r in it' % (exp,))
                if s.full:
                    return
    for m in cls:
        # value of the member: always first
        s.states += 1
        if m.value == m.value:
            for kw in ({}, {'basiccast': False}):
                got = Loader(**kw).load(m.value, cls)
                if got is not m:
                    s.bad('%r: its value loads as %r\n%s' % (m, got, decl))
        for kw in ({}, {'isodates': True}, {'hidedefault': False}):
            dc = DCfg(**kw)
            try:
                exp = refdump(dc, m.value)
            except Undumpable:
                continue
            for v, e, what in ((m, exp, ''), ([m], [exp], 'a list of '), ({'k': m}, {'k': exp}, 'a dictionary of '), ((m, 1), [exp, 1], 'a tuple of ')):
                s.states += 1
                s.validated += 1
                for hint in (Any, cls):
                    got = Dumper(**kw).dump(v, hint)
                    if not same(got, e):
                        s.bad('dump of %s%r (%r) with %r: %r instead of %r\n%s' % (what, m, m.value, kw, got, e, decl))
                        return
        if type(m.value) in (int, str, float, type(None)):
            d = Dumper().dump(m)
            back = Loader().load(d, cls)
            if m.value == m.value and back is not m:
                s.bad('%r dumps as %r that loads as %r\n%s' % (m, d, back, decl))
            s.add('round_trips')


def contains(r, m):
    if r is m or (type(r) is type(m) and r == m):
        return True
    if isinstance(r, dict):
        return any(contains(v, m) for v in r.values())
    if isinstance(r, (list, tuple, set, frozenset)):
        return any(contains(v, m) for v in r)
    for a in ('p',):
        if hasattr(r, a):
            return contains(getattr(r, a), m)
    return False


class Raw28(Node):
    def __init__(self, name, decl):
        self.name = name
        self.decl = decl

    def expr(self):
        return self.name

    def _docs(self):
        return []


def run(tier, seed):
    quick = tier == 'quick'
    units = []
    n = len(POOL)
    allbare = [(None, True)] + [(b, f) for b in BARE[1:] for f in (True, False)]
    for i in range(n):
        units.append((u_plain, ((i,), allbare)))
    for i, j in itertools.permutations(range(n), 2):
        units.append((u_plain, ((i, j), allbare if not quick else [allbare[0], allbare[1 + (i * 7 + j) % (len(allbare) - 1)]])))
    red = REDUCED if not quick else REDUCED[::2]
    for t in itertools.permutations(red, 3):
        units.append((u_plain, (t, [(None, True)])))
    units += [(u_special, i) for i in range(len(SPECIAL))]
    def f(u, s):
        u[0](u[1], s, quick)
        s.sample('%s(%s)' % (u[0].__name__, str(u[1])[:100]), 1)
    total = core.explore(units, f)
    return total, dict(bound='all the enums of 1 and 2 members, in order, of a pool of %d values and annotations, of 3 members of %d of them, with %d other annotations before or after; %d enums with code; %d contexts' % (n, len(red), len(BARE) - 1, len(SPECIAL), len(contexts())),
                       assumptions=['the members that have no annotation and a value that is not basic are only required to load from their value'])
