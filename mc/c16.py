"""
C16: the real code under a controlled scheduler: for pairs (and triples) of
operations on one loader, one dumper, or through the module functions, every
interleaving with up to 2 preemptions at the granularity of lines, and up to 1
at the granularity of bytecode instructions. Each operation must give what it
gives alone, and afterwards the object must behave as a new one.
"""
import os

from mc import sched
_saved = sched.reload_with_locks()
import typedload
from mc import core
import mc.diff, mc.outcome
import importlib
importlib.reload(mc.diff)
importlib.reload(mc.outcome)
from mc.diff import *
from mc.outcome import *
from mc.universe import *

DECL = '''
@dataclass
class TA:
    a: int
    b: List[int] = field(default_factory=list)
@dataclass
class TM:
    a: int = field(metadata={'name': 'b'})
    b: str = field(default='x', metadata={'name': 'a'})
@attr.s
class TAt:
    a = attr.ib(type=int, metadata={'name': 'A'})
    b = attr.ib(type=int, factory=int)
class TN(NamedTuple):
    a: int
    l: Optional['TN'] = None
class TT(TypedDict):
    a: int
    b: NotRequired[int]
class T1(NamedTuple):
    t: Literal['1']
    v: int
class T2(NamedTuple):
    t: Literal['2']
    v: int
class T3(NamedTuple):
    t: Literal['1', '3']
    v: str
class TE(Enum):
    _x: Tuple[int, int]
    A = (1, 2)
    B = 1
class TO(NamedTuple):
    o: TA
    p: TA
class TC:
    def __init__(self, x):
        self.x = x
    def __eq__(self, o):
        return type(o) is TC and self.x == o.x
    def __hash__(self):
        return 5
    def __repr__(self):
        return 'TC(%r)' % (self.x,)
@dataclass
class THC:
    c: TC
    l: List[TC]
class TStr(str):
    pass
'''

# (value, type) to load
L = {
    'dc': ('{"a": 1, "b": [2]}', 'TA'), 'dcbad': ('{"a": "x"}', 'TA'), 'dcmissing': ('{}', 'TA'), 'dm': ('{"b": 1, "a": "y"}', 'TM'), 'at': ('{"A": 1}', 'TAt'), 'nt': ('{"a": 1, "l": {"a": 2}}', 'TN'), 'td': ('{"a": 1, "b": 2}', 'TT'), 'td2': ('{"a": 1}', 'TT'),
    'u1': ('{"t": "1", "v": 1}', 'Union[T1, T2]'), 'u2': ('{"t": "2", "v": 1}', 'Union[T1, T2]'), 'u3': ('{"t": "2", "v": 1}', 'Union[T2, T1]'), 'utag': ('{"t": "2", "v": "x"}', 'Union[T1, T2]'), 'uboth': ('{"t": "1", "v": "5"}', 'Union[T1, T3]'), 'ubad': ('{"t": "3"}', 'Union[T1, T2]'), 'li': ('[1, "2"]', 'List[int]'), 'libad': ('[1, "x"]', 'List[int]'), 'ls': ('[1, "x"]', 'List[str]'),
    'd': ('{"k": 1}', 'Dict[str, int]'), 'dd': ('{"k": {"a": 1}}', 'Dict[str, TA]'), 'ldc': ('[{"a": 1}, {"a": 2}]', 'List[TA]'), 'to': ('{"o": {"a": 1}, "p": {"a": 2}}', 'TO'), 'e': ('(1, 2)', 'TE'), 'e2': ('1', 'TE'), 'tf': ('[1, "a"]', 'Tuple[int, str]'), 'unk': ('1', 'complex'), 'lunk': ('[1]', 'List[complex]'),
    'c': ('1', 'TC'), 'cbad': ('"x"', 'TC'), 'lc': ('[1, 2]', 'List[TC]'), 'hc': ('{"c": 1, "l": [2]}', 'THC'), 'fr': ('{"c": {"a": 1}}', 'Dict[str, "TFwd"]'), 'sc': ('"a"', 'TStr'), 'lsc': ('["a", "b"]', 'List[TStr]'),
    'us': ('"x"', 'Union[List[int], str]'), 'un': ('{"a": 1}', 'Union[TA, TM]'), 'date': ('"2020-01-02"', 'datetime.date'), 'dk': ('{1: "2"}', 'Dict[int, str]'), 'opt': ('[1, None]', 'List[Optional[int]]'),
}
# values to dump, with a hint or not
D = {
    'dc': ('TA(1, [2])', None), 'dch': ('TA(1)', 'TA'), 'dm': ('TM(1, "z")', None), 'dmd': ('TM(1)', None), 'at': ('TAt(1)', None), 'at2': ('TAt(1, 2)', None), 'nt': ('TN(1, TN(2))', None), 'li': ('[1, 2]', 'List[int]'), 'li2': ('[1, "a"]', None), 'di': ('{"a": TA(1)}', None), 'e': ('TE.A', None),
    'to': ('TO(TA(1), TA(2, [3]))', None), 'bad': ('Opaque()', None), 'dbad': ('TA(Opaque())', None), 'p': ('pathlib.Path("a")', None), 'tu': ('(1, TA(3))', None), 'c': ('TC(1)', None), 'lc': ('[TC(1), TC([2])]', 'List[TC]'), 'hc': ('THC(TC(1), [TC(TC(2))])', None), 'hc2': ('THC(TC(TA(1)), [])', None), 'cbad': ('TC(Opaque())', None), 'sc': ('TStr("a")', None), 'kc': ('{TC(1): TC(2)}', None), 'dt': ('datetime.timedelta(1)', None),
}

LPAIRS = [('dc', 'dc'), ('dc', 'dcbad'), ('dc', 'dcmissing'), ('dm', 'dm'), ('at', 'at'), ('nt', 'nt'), ('td', 'td'), ('td', 'td2'), ('u1', 'u2'), ('u1', 'u1'), ('u2', 'u3'), ('u1', 'ubad'), ('utag', 'utag'), ('u2', 'utag'), ('uboth', 'uboth'), ('li', 'li'), ('li', 'libad'), ('li', 'ls'), ('d', 'dk'), ('d', 'dd'),
          ('ldc', 'dc'), ('to', 'dc'), ('e', 'e2'), ('tf', 'li'), ('unk', 'lunk'), ('dc', 'unk'), ('us', 'li'), ('un', 'dc'), ('un', 'dm'), ('date', 'li'), ('opt', 'li'), ('dd', 'ldc'), ('nt', 'u1')]
DPAIRS = [('dc', 'dc'), ('dc', 'dch'), ('dm', 'dmd'), ('at', 'at2'), ('nt', 'li2'), ('li', 'li2'), ('di', 'dc'), ('e', 'dc'), ('to', 'dc'), ('bad', 'dc'), ('dbad', 'dc'), ('p', 'dt'), ('tu', 'dm'), ('dc', 'dm')]
LTRIPLES = [('dc', 'dcbad', 'ldc'), ('u1', 'u2', 'ubad'), ('td', 'td2', 'td')]
DTRIPLES = [('dc', 'dch', 'di'), ('dm', 'dmd', 'dc')]


# the pairs with the least scheduling points
SMALL = {('load', 'li', 'li'), ('load', 'li', 'libad'), ('load', 'us', 'li'), ('load', 'e', 'e2'), ('dump', 'dc', 'dc'), ('dump', 'dc', 'dch'), ('dump', 'dm', 'dmd'), ('dump', 'at', 'at2'), ('dump', 'nt', 'li2'), ('dump', 'li', 'li2'), ('dump', 'p', 'dt')}
# and those with the most
BIG = {('load', 'u1', 'u2'), ('load', 'utag', 'utag'), ('load', 'uboth', 'uboth'), ('load', 'u2', 'utag'), ('load', 'u1', 'ubad'), ('load', 'nt', 'u1'), ('mload', 'u1', 'u2'), ('mload', 'nt', 'nt')}


def scenarios(tier):
    """(kind, names, preemptions, granularity, settings)"""
    r = []
    quick = tier == 'quick'
    pairs = [('load', p, cfg) for p in LPAIRS for cfg in (0, 1)] + [('dump', p, cfg) for p in DPAIRS for cfg in (0, 1)]
    for p in [('dc', 'dc'), ('td', 'td2'), ('u1', 'u2'), ('nt', 'nt'), ('dm', 'at')]:
        pairs.append(('mload', p, 0))
    for p in [('dc', 'dc'), ('at', 'nt')]:
        pairs.append(('mdump', p, 0))
    for k, p, cfg in pairs:
        key = (k,) + p
        if not quick and k in ('load', 'dump') or key in SMALL and not cfg:
            r.append((k, p, 2, 'lines', cfg))
        if not quick and key in SMALL:
            r.append((k, p, 3, 'calls', cfg))
        elif not quick or key not in BIG and not (cfg and k == 'load'):
            r.append((k, p, 2, 'calls', cfg))
        if not cfg or k == 'dump' or not quick:
            r.append((k, p, 1, 'opcodes', cfg))
    # with handlers given by the user: old style, new style, names and types
    for k, ps in (('load', CLPAIRS), ('dump', CDPAIRS)):
        for p in ps:
            for cfg in (2, 3):
                if not quick or cfg == 2:
                    r.append((k, p, 2, 'calls' if quick else 'lines', cfg))
                if not quick or k == 'dump' or cfg == 2 + CLPAIRS.index(p) % 2:
                    r.append((k, p, 1, 'opcodes', cfg))
    for p in LTRIPLES:
        r.append(('load', p, 1, 'lines', 0))
        r.append(('load', p, 2, 'calls', 0))
    for p in DTRIPLES:
        r.append(('dump', p, 1, 'lines', 0))
        r.append(('dump', p, 2, 'calls', 0))
    if tier != 'quick':
        for p in LTRIPLES:
            r.append(('load', p, 2, 'lines', 0))
        for p in [('li', 'libad'), ('d', 'dk'), ('e2', 'e2')]:
            r.append(('load', p, 2, 'opcodes', 0))
        for p in [('li', 'li2'), ('dc', 'dch'), ('p', 'dt')]:
            r.append(('dump', p, 2, 'opcodes', 0))
    return r


LKW = [dict(), dict(basiccast=False, failonextra=True), 'a handler for TC and frefs', 'a handler for TC, strconstructed and pep563']
DKW = [dict(), dict(hidedefault=False), 'an old style handler for TC', 'a new style handler for TC, after an old style one']
CLPAIRS = [('c', 'c'), ('c', 'cbad'), ('c', 'lc'), ('hc', 'lc'), ('fr', 'fr'), ('fr', 'dc'), ('sc', 'lsc'), ('dc', 'hc')]
CDPAIRS = [('c', 'c'), ('c', 'lc'), ('hc', 'hc2'), ('c', 'cbad'), ('sc', 'sc'), ('kc', 'c'), ('lc', 'dc')]


def new(kind, cfg):
    if kind == 'load':
        if cfg < 2:
            return Loader(**LKW[cfg])
        l = Loader(frefs={'TFwd': NS['TA']}) if cfg == 2 else Loader(pep563=True)
        l.handlers.insert(0, (lambda t: t is NS['TC'], lambda l, v, t: NS['TC'](l.load(v, int))))
        if cfg == 3:
            l.strconstructed.add(NS['TStr'])
        return l
    if kind == 'dump':
        if cfg < 2:
            return Dumper(**DKW[cfg])
        d = Dumper()
        if cfg == 2:
            d.handlers.insert(0, (lambda v: isinstance(v, NS['TC']), lambda d, v: d.dump(v.x)))
            d.handlers.append((lambda v: isinstance(v, NS['TStr']), lambda d, v: 'str ' + v))
        else:
            d.handlers.insert(0, (lambda v: isinstance(v, NS['TC']) and type(v.x) is int, lambda d, v: v.x))
            d.handlers[0] = (lambda v: isinstance(v, NS['TC']), lambda d, v, t: [d.dump(v.x)])
            d.handlers.append((lambda v: isinstance(v, NS['TStr']), lambda d, v, t: 'str ' + v))
        return d
    return None


def op(kind, name, o):
    if kind in ('load', 'mload'):
        v, t = L[name]
        v, t = eval(v, NS), eval(t, NS)
        f = o.load if o is not None else typedload.load
        return lambda: ('done', f(v, t))
    v, h = D[name]
    v = eval(v, NS)
    f = o.dump if o is not None else typedload.dump
    if h and o is not None:
        h = eval(h, NS)
        return lambda: ('done', f(v, h))
    return lambda: ('done', f(v))


def result(r):
    def f():
        if r[0] == 'exception':
            raise r[1]
        return r[1]
    return outcome(f)


PREFIX = os.path.join(os.path.realpath(core.REPO), 'typedload') + os.sep


def explore_scenario(sc, first, part, s):
    kind, names, pb, gran, cfg = sc
    alone = []
    for n in names:
        f = op(kind, n, new(kind, cfg))
        def g():
            return f()[1]
        alone.append(outcome(g))
    probes = [n for n in names]
    holder = []
    def mk():
        o = new(kind, cfg)
        holder[:] = [o]
        return [op(kind, n, o) for n in names]
    verified = [0]
    def check(r, sch):
        s.states += 1
        s.transitions += sum(r.count)
        s.validated += 1
        got = [result(x) for x in r.results]
        s.outcomes.add(hash(repr(got)))
        why = None
        for n, g, a in zip(names, got, alone):
            if g != a:
                why = '%s %s instead of what it does alone: %s' % (n, show(g), show(a))
        if r.switches < len(sch) and len(sch) == 1:
            raise RuntimeError('the schedule %r was not followed: %r' % (sch, r.count))
        if not why and (holder[0] is not None or len(sch) <= 1):
            # the object is not damaged
            for n, a in zip(names, alone):
                f = op(kind, n, holder[0])
                g = outcome(lambda: f()[1])
                if g != a:
                    why = 'afterwards %s %s instead of %s' % (n, show(g), show(a))
        if why:
            what = '%s of %s by threads (%s), %s, first thread %d, switches (thread, points executed, next thread) %r: %s' % (
                kind, names, (LKW if 'load' in kind else DKW)[cfg], gran, first, sch, why)
            s.bad(what, PRELUDE + DECL + '# ' + what)
    if part[0] == 0:
        # the exploration is deterministic: the same schedule has the same points
        a = sched.Run(mk(), (), gran, PREFIX).go(first).count
        b = sched.Run(mk(), (), gran, PREFIX).go(first).count
        if a != b:
            raise RuntimeError('not deterministic: %r %r' % (a, b))
        if not all(a):
            raise RuntimeError('no scheduling points: %r in %s' % (a, PREFIX))
        s.sample('%s %s: %r points, up to %d preemptions at %s' % (kind, names, a, pb, gran), 1)
    class Enough(Exception):
        pass
    def run(r, sch):
        check(r, sch)
        if s.full:
            raise Enough()
    try:
        sched.schedules(mk, first, pb, gran, PREFIX, run, part=part)
    except Enough:
        pass


def run(tier, seed):
    exec(compile(DECL, '<c16>', 'exec', dont_inherit=True), NS)
    scs = scenarios(tier)
    parts = 4 if tier == 'quick' else 16
    units = [(i, first, (k, parts)) for i, sc in enumerate(scs) for first in range(len(sc[1])) if not (first and len(set(sc[1])) == 1) for k in range(parts)]
    def f(u, s):
        explore_scenario(scs[u[0]], u[1], u[2], s)
    total = core.explore(units, f)
    n = {}
    for sc in scs:
        n[sc[2:4]] = n.get(sc[2:4], 0) + 1
    return total, dict(bound='%d scenarios of 2 or 3 threads, on a new object or through the module functions; all the schedules with the given number of preemptions: %s' % (len(scs), ', '.join('%d between %s in %d scenarios' % (*k, v) for k, v in sorted(n.items()))),
                       assumptions=['code outside of typedload (typing, constructors of the loaded classes) is executed without interruption'])
