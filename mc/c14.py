"""
C14: all the histories of dumps with one dumper, for families of related
values, breadth first to closure, and all the sequences of 3 dumps; the outcome
must be that of a new dumper and that of the reference model.
"""
import itertools

from mc.diff import *
from mc.universe import *
from mc.inhab import make, values
from mc.histories import *
from mc.outcome import *

DECL = '''
@dataclass
class HA:
    a: int
    b: List[int] = field(default_factory=list)
    c: str = 'x'
@dataclass
class HSub(HA):
    d: int = 5
@dataclass
class HOver(HA):
    a: int = 1
    b: List[int] = field(default_factory=lambda: [1])
@dataclass
class HRen:
    a: int = field(default=1, metadata={'name': 'b'})
    b: Any = field(default=2, metadata={'name': 'a'})
@dataclass
class HEmpty: pass
@dataclass
class HBad:
    a: Any
    b: 'Unknown' = 3
class HN(NamedTuple):
    a: int
    b: List[int] = []
class HNSub(HN): pass
@attr.s
class HAt:
    a = attr.ib(type=int)
    b = attr.ib(factory=list)
    c = attr.ib(default=attr.Factory(lambda self: self.a + 1, takes_self=True))
    _d = attr.ib(default=1, metadata={'name': 'dd'})
@attr.s
class HAtSub(HAt):
    e = attr.ib(default=None)
class HE(Enum):
    A = 1
    B = 'a'
    C = (1, 2)
class HE2(Enum):
    A = 2
class HProp:
    "Looks like an attrs object, but fails"
    __attrs_attrs__ = property(lambda self: 1/0)
class HFail:
    __dataclass_fields__ = {}
    def __getattribute__(self, k):
        if k == 'x': raise ValueError('x')
        return object.__getattribute__(self, k)
class HEq:
    def __eq__(self, o): raise ValueError('eq')
    __hash__ = None
# fields that hold several types
@dataclass
class HPoly:
    a: Union[int, datetime.timedelta, HA, None, List[int], HE] = None
    b: Any = 0
@dataclass
class HPolyIn:
    a: Optional[Union[HN, HA]] = None
    b: List[Union[int, HA]] = field(default_factory=list)
    c: Dict[str, Any] = field(default_factory=dict)
    d: object = None
    e: List[Union[int, HE, None]] = None
@attr.s
class HPolyAt:
    a = attr.ib(default=None, type=Union[int, HA, None])
class HPolyN(NamedTuple):
    a: Union[int, HA, HN, None] = None
def hsame(n):
    if n == 0:
        @dataclass
        class Same:
            a: int = 1
    elif n == 1:
        @dataclass
        class Same:
            a: int = 2
            b: int = 1
    elif n == 2:
        @attr.s
        class Same:
            a = attr.ib(default=1)
    elif n == 3:
        class Same(NamedTuple):
            a: int = 1
    elif n == 4:
        class Same(Enum):
            A = 1
    elif n == 5:
        class Same(NamedTuple):
            a: int = 2
            b: int = 1
    elif n == 6:
        @attr.s
        class Same:
            a = attr.ib(default=2, metadata={'name': 'z'})
    elif n == 7:
        class Same(Enum):
            A = 2
    else:
        class Same(int):
            def __str__(self): return 'same'
    return Same
Same0, Same1, Same2, Same3, Same4, Same5, Same6, Same7, Same8 = [hsame(i) for i in range(9)]
'''

FAMILIES = {
    'dataclass': ['HA(1)', 'HA(1, [1])', 'HA(2, [], "y")', 'HSub(1)', 'HSub(1, [1], "x", 6)', 'HOver()', 'HOver(1, [])', '[HA(1), HSub(1)]', '{"k": HA(1, [2])}', 'HRen()', 'HRen(2, HA(1))', 'HEmpty()', 'HBad(1)', 'HBad([1], 4)', 'HBad(Opaque())', 'HA(Opaque())'],
    'attrs': ['HAt(1)', 'HAt(1, [1])', 'HAt(1, [], 5)', 'HAt(2, d=3)', 'HAtSub(1)', 'HAtSub(1, e=HAt(1))', '[HAt(1), 1]', 'HAt(Opaque(), [], 1)', 'HAt("x", c=1)', 'HAt("x", [Opaque()], 1)'],
    'namedtuple': ['HN(1)', 'HN(1, [1])', 'HN(1, [])', 'HNSub(1)', 'HNSub(1, [2])', '(1, [])', 'HN((1, 2))', '[HN(1)]', 'HN(Opaque())', 'HN(HN(1), [HN(2)])'],
    'same-name': ['Same0()', 'Same0(2)', 'Same1()', 'Same1(1, 2)', 'Same2()', 'Same2(2)', 'Same3()', 'Same3(2)', 'Same4.A', '[Same0(), Same1(), Same2(), Same3(), Same4.A]'],
    'same-name2': ['Same2(2)', 'Same3()', 'Same3(2)', 'Same5()', 'Same5(1)', 'Same5(2, 2)', 'Same6()', 'Same6(1)', 'Same4.A', 'Same7.A', 'Same8(2)', '(Same3(), Same5())'],
    'enum': ['HE.A', 'HE.B', 'HE.C', 'HE2.A', 'IntE.ONE', '[HE.A, HE2.A]', '1', '"a"', 'SubInt(1)', 'SubStr("a")', '{HE.A: HE.B}'],
    'containers': ['[]', '[1, "a"]', '(1,)', '{1}', 'frozenset([1])', '{"a": 1}', 'SubList([1])', 'SubDict(a=1)', 'collections.OrderedDict(a=[1])', '[[1], (2,)]', '[Opaque()]', 'Opaque()', '{"a": Opaque()}', 'range(2)', 'iter([1])', '{(): 1}', 'collections.deque([1])'],
    'scalars': ['datetime.date(2020, 1, 2)', 'datetime.datetime(2020, 1, 2)', 'datetime.time(1)', 'datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc)', 'datetime.timedelta(1)', 'pathlib.Path("a")', 'uuid.UUID(int=1)', 're.compile("a")', 're.compile(b"a")'],
    'scalars2': [
                'ipaddress.ip_address("1.1.1.1")', 'pathlib.PurePosixPath("a")', 'True', '1', '1.5', 'None', '"x"', 'b"x"', 'complex(1)'],
    'failing': ['HProp()', 'HFail()', 'HEq()', '[HEq()]', 'HA(HEq())', 'HA(1, HEq())', 'HA(1)', 'HAt(1, HEq())', 'HAt(1)', 'HN(1, HEq())', 'HN(1)', 'Opaque', 'int', 'len'],
}
HINTED = [('[1, 2]', 'List[int]'), ('[1, 2]', 'List[str]'), ('[HA(1)]', 'List[HA]'), ('(1, HN(1))', 'Tuple[int, HN]'), ('{1}', 'Set[int]'), ('HA(1, [1])', 'HA'), ('[1, 2]', 'Any'), ('[Opaque()]', 'List[Opaque]'), ('[HE.A]', 'List[HE]'), ('[[1]]', 'List[List[int]]')]
FAMILIES['hints'] = HINTED
FAMILIES['polymorphic'] = ['HPoly(1)', 'HPoly(datetime.timedelta(1))', 'HPoly(HA(1))', 'HPoly([1])', 'HPoly(HE.A, HN(1))', 'HPoly(None, 2.5)', 'HPoly(HE.C, [HE.C])',
    'HPolyIn(HN(1), [1])', 'HPolyIn(HA(1), [HA(2)])', 'HPolyIn(None, [1, HA(1), 2], {"k": HA(1)})', 'HPolyIn(None, [], {"k": 1}, HA(1), [1])', 'HPolyIn(d=[1], e=[HE.C, None, 1])', 'HPolyIn(HSub(1), [HSub(2)])']
FAMILIES['polymorphic2'] = ['HPolyAt(1)', 'HPolyAt(HA(1))', 'HPolyAt()', 'HPolyAt(HN(1))', 'HPolyN(1)', 'HPolyN(HA(1))', 'HPolyN(HN(2))', 'HPolyN("x")']
FAMILIES['samehint'] = [(v, h) for h in ('Union[int, HA, List[int]]', 'Any', 'List[Union[int, HA]]') for v in (('1', 'HA(1)', '[1]', 'None') if h[0] != 'L' else ('[1]', '[HA(1)]', '[1, HA(1)]', '(HA(1), 2)'))]

KW = [dict(), dict(hidedefault=False, isodates=True), dict(mangle_key='other')]


def mk_plain(kw):
    return Dumper(**kw)


def mk_custom(kw):
    """Handlers that depend on the type, in front and at the end"""
    d = Dumper(**kw)
    d.handlers.insert(0, (lambda v: type(v) is NS['HSub'], lambda d, v, t: ['HSub', d.dump(v.a)]))
    d.handlers.insert(0, (lambda v: isinstance(v, complex), lambda d, v: [v.real, v.imag]))
    d.handlers.append((lambda v: isinstance(v, NS['Opaque']), lambda d, v, t: {'opaque': d.dump(v.tag)}))
    return d


def mk_lenient(kw):
    d = Dumper(raiseconditionerrors=False, **kw)
    d.handlers.insert(0, (lambda v: v.nothing, lambda d, v, t: 'nothing'))
    return d


MAKERS = [mk_plain, mk_custom, mk_lenient]


def run_op(d, op):
    v, h = op
    def f():
        x = make(v)
        return d.dump(x) if h is None else d.dump(x, eval(h, NS))
    return outcome(f), None


def prepare(fam, mkd, kw):
    ops = [(v, None) if isinstance(v, str) else v for v in fam]
    return ops, {op: run_op(mkd(kw), op)[0] for op in ops}


def checker(s, name, kw, oracle):
    def check(hist, op, out):
        s.outcomes.add(hash(repr(out[0])))
        if out[0] != oracle[op]:
            what = '%s(%r): after the dumps %s, dump of %s %s, but a new dumper %s' % (name, kw, hist, op, show(out[0]), show(oracle[op]))
            s.bad(what, PRELUDE + DECL + '# ' + what)
    return check


def value_conditions(s):
    """
    Conditions of the dumper get the value, but what they decided for the first
    value of a type is used for all the values of that type
    """
    for vals in itertools.permutations([42, 7, 43], 2):
        for nested in (lambda v: v, lambda v: [v], lambda v: {'k': v}):
            def new():
                d = Dumper()
                d.handlers.insert(0, (lambda v: v == 42, lambda d, v, t: 'fortytwo'))
                return d
            d = new()
            s.states += 1
            for v in vals:
                a, b = d.dump(nested(v)), new().dump(nested(v))
                s.validated += 1
                s.transitions += 1
                if a != b:
                    s.bad('a condition that depends on the value, not on its type: after %r the dump of %r is %r instead of %r' % (vals, nested(v), a, b),
                          'see the text', 'condition-on-the-value-of-an-int')


def run(tier, seed):
    exec(compile(DECL, '<c14>', 'exec', dont_inherit=True), NS)
    for k in list(NS):
        if k.startswith(('HA', 'HS', 'HN', 'HO', 'HE', 'HR', 'HB', 'HP', 'HF', 'HPoly')) and isinstance(NS[k], type):
            NS[k].__module__ = 'mc_universe'
    gen = {}
    for i, o in enumerate(special_objects()):
        vs = values(o, 4)[:4]
        gen['object%d' % (i // 3)] = gen.get('object%d' % (i // 3), []) + vs
    fams = dict(FAMILIES)
    fams.update(gen)
    names = sorted(fams)
    mixed = [v for n in sorted(FAMILIES) for v in (FAMILIES[n][:5] if tier == 'quick' else FAMILIES[n])]
    units = [('v', None, 0, 0, 0)]
    units += [('bfs', n, m, k, 0) for n in names for m in range(len(MAKERS)) for k in range(len(KW))]
    units += [('w', n, m, k, i) for n in names for m in range(len(MAKERS)) for k in range(1 if tier == 'quick' else 3) for i in range(len(fams[n]))]
    units += [('m', None, m, 0, i) for m in range(len(MAKERS)) for i in range(len(mixed))]
    def f(u, s):
        kind, n, m, k, i = u
        if kind == 'v':
            return value_conditions(s)
        mkd, kw = MAKERS[m], KW[k]
        ops, oracle = prepare(fams[n] if n else mixed, mkd, kw)
        check = checker(s, mkd.__name__, kw, oracle)
        new = lambda: mkd(kw)
        if kind == 'bfs':
            bfs(s, ops, new, run_op, check, limit=150 if tier == 'quick' else 3000)
            s.sample('family %s: %s' % (n, ops), 1)
        else:
            words(s, ops, new, run_op, check, (3 if kind == 'w' else 2) if tier == 'quick' else 3, i)
    total = core.explore(units, f)
    return total, dict(bound='%d families of values, 3 dumpers, 3 settings; breadth first over the states of the dumper; all the sequences of 3 dumps in a family' % len(names),
                       assumptions=['custom conditions depend only on the type of the value (see the known finding)'])
