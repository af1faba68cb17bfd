"""
C15: every sequence of operations (configuring, extending, using, creating with
arguments) on some loaders and dumpers, with another loader and dumper created
at every point of the sequence and used or not before it; then every probe on
that loader and dumper, on new ones (with various settings) and on the module
level functions must give what it gives in a process where nothing was done.
Every sequence runs in a process of its own, a fork of one where nothing was
done, because what the library remembers in its modules might depend on what
came first.
"""
import itertools
import os
import pickle
import signal

import typedload
from mc.diff import *
from mc.universe import *
from mc.outcome import *
from mc.state import modstate, state

DECL = '''
@dataclass
class IA:
    a: int
    b: List[int] = field(default_factory=list)
    c: str = field(default='x', metadata={'name': 'C', 'other': 'cc'})
class IN(NamedTuple):
    a: int
    n: Optional['IN'] = None
@attr.s
class IAt:
    a = attr.ib(type=int, metadata={'name': 'A'})
    b = attr.ib(type=List[int], factory=list)
class IT(TypedDict):
    a: int
    b: NotRequired[int]
class IE(Enum):
    A = 1
    B = 'a'
class ITag1(NamedTuple):
    t: Literal['1']
    v: int
class ITag2(NamedTuple):
    t: Literal['2']
    v: int
class ISame(NamedTuple):
    a: int
    n: Optional['IOther'] = None
class IOther(NamedTuple):
    z: int
class INot:
    def __init__(self, x=0): self.x = x
    def __eq__(self, o): return type(o) is INot and o.x == self.x
    def __str__(self): return 'INot%s' % self.x
'''
# Different types with the same module, name and qualified name
TWINS = ['''
class ITwN(NamedTuple):
    a: int
@dataclass
class ITwD:
    a: int
    b: List[int] = field(default_factory=list, metadata={'name': 'B'})
class ITwT(TypedDict):
    a: int
@attr.s
class ITwA:
    a = attr.ib(type=int)
    b = attr.ib(type=int, default=1)
class ITwE(Enum):
    A = 1
class ITwX(Enum):
    _: Tuple[int, int]
    A = (1, 2)
class ITwS(str):
    pass
class ITwC:
    def __init__(self, x: int): self.x = x
ITwNew = NewType('ITwNew', int)
ITwVal = collections.namedtuple('ITwVal', 'a')
''', '''
class ITwN(NamedTuple):
    a: str
    b: int = 3
@dataclass
class ITwD:
    a: List[str]
    b: int = field(default=4, metadata={'name': 'c'})
class ITwT(TypedDict, total=False):
    a: str
    b: Tuple[int, str]
@attr.s
class ITwA:
    a = attr.ib(type=str)
    b = attr.ib(type=int, default=2, metadata={'name': 'x'})
class ITwE(Enum):
    A = 'a'
    B = 1
class ITwX(Enum):
    _: Tuple[str, int]
    A = ('1', 2)
class ITwS(int):
    pass
class ITwC:
    def __init__(self, x: List[str]): self.x = x
ITwNew = NewType('ITwNew', str)
ITwVal = collections.namedtuple('ITwVal', 'a b')
''']
TWINDOCS = {'ITwN': ['{"a": "1"}', '{"a": "x", "b": "2"}'], 'ITwD': ['{"a": "1", "B": ["2"]}', '{"a": ["x"], "c": "5"}', '{"a": 1, "b": 2}'], 'ITwT': ['{"a": "1"}', '{}', '{"a": 1, "b": [1, 2]}'], 'ITwA': ['{"a": "1"}', '{"a": 1, "x": "2"}'],
            'ITwE': ['1', '"a"'], 'ITwX': ['["1", "2"]'], 'ITwNew': ['"1"', '"x"'], 'List[ITwD%d]': ['[{"a": "1"}]', '[{"a": ["x"]}]'], 'Union[ITwN%d, ITwT%d]': ['{"a": "1"}', '{"a": "x"}'], 'Dict[str, ITwE%d]': ['{"k": 1}', '{"k": "a"}']}
TWINVALS = ['ITwN%d("1")', 'ITwD%d("1")', 'ITwD%d(["x"], 4)', 'ITwD%d(1, [])', 'ITwA%d("1", 1)', 'ITwA%d("1", 2)', 'ITwE%d.A', 'ITwX%d.A', 'ITwS%d(1)', 'ITwN%d("1", *[3] * %d)', 'ITwVal%d(*[1, 2][:%d + 1])']

LOADPROBES = [
    ('1', 'int'), ('"1"', 'int'), ('1.5', 'int'), ('[1, "2"]', 'List[int]'), ('{"a": "1", "b": [1], "C": "q", "zz": 1}', 'IA'), ('{"a": 1, "c": "q"}', 'IA'), ('{"a": 1, "n": {"a": 2}}', 'IN'), ('{"A": 1}', 'IAt'), ('{"a": 1}', 'IAt'),
    ('{"a": 1, "b": 2, "c": 3}', 'IT'), ('{"a": 1}', 'IT'), ('"a"', 'IE'), ('{"t": "2", "v": 1}', 'Union[ITag1, ITag2]'), ('1', 'Union[INot, str]'), ('"x"', 'INot'), ('b"x"', 'bytes'), ('b"1"', 'List[bytes]'),
    ('"a/b"', 'pathlib.Path'), ('"1.1.1.1"', 'ipaddress.IPv4Address'), ('Namespace(a=1)', 'IN'), ('[1, 2, 3]', 'Tuple[int, int]'), ('{"a": 1, "n": {"z": 1}}', 'ISame'), ('"2020-01-02"', 'datetime.date'), ('1', 'complex'), ('None', 'None'),
    ('{1: "2"}', 'Dict[str, int]'), ('[1, "a", 1.5]', 'List[Union[int, str]]'), ('"5"', 'Union[int, float]'),
]
DUMPPROBES = ['1', '[1, "a"]', 'IA(1)', 'IA(1, [2], "z")', 'IN(1, IN(2))', 'IAt(1)', 'IE.B', 'datetime.date(2020, 1, 2)', 'pathlib.Path("a")', 'INot()', 'b"x"', '(1, {2})', 'complex(1)', '{"a": IA(1)}', 'datetime.timedelta(1)', 'uuid.UUID(int=1)', 're.compile("a")']
HINTPROBES = [('[1]', 'List[int]'), ('IA(1, [2])', 'IA')]
for _t, _vs in TWINDOCS.items():
    for _v in _vs:
        for _i in (0, 1):
            LOADPROBES.append((_v, _t.replace('%d', str(_i)) if '%' in _t else _t + str(_i)))
for _v in TWINVALS:
    for _i in (0, 1):
        DUMPPROBES.append(_v.replace('%d', str(_i)))
HINTPROBES += [('ITwD0(1, [2])', 'ITwD0'), ('ITwD1([2], 1)', 'ITwD1'), ('ITwN0(1)', 'ITwN0'), ('ITwN1("1")', 'ITwN1'), ('{"a": 1}', 'ITwT0'), ('{"a": 1}', 'ITwT1')]


def build_env():
    exec(compile(DECL, '<c15>', 'exec', dont_inherit=True), NS)
    for i, src in enumerate(TWINS):
        exec(compile(src, '<c15>', 'exec', dont_inherit=True), NS)
        for k in [k for k in NS if k.startswith('ITw') and not k[-1].isdigit()]:
            NS[k + str(i)] = NS.pop(k)


# name -> (function of the loader and the dumper being operated on)
def _l(f):
    return lambda l, d: f(l)


def _d(f):
    return lambda l, d: f(d)


def attempt(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        pass


def _loadall(l):
    for v, t in LOADPROBES:
        attempt(lambda: l.load(eval(v, NS), eval(t, NS)))


def _dumpall(d):
    for v in DUMPPROBES:
        attempt(lambda: d.dump(eval(v, NS)))


def setter(obj, k, v):
    def f(l, d):
        setattr(l if obj == 'l' else d, k, v)
    return f


def _sub(l, d):
    class SL(Loader):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.handlers.insert(0, (lambda t: t is str, lambda l, v, t: 'sub'))
            self.basictypes.add(bytes)
    class SD(Dumper):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.handlers.insert(0, (lambda v: type(v) is str, lambda l, v, t: 'sub'))
            self.strconstructed.add(NS['INot'])
    _loadall(SL(basiccast=False))
    _dumpall(SD(hidedefault=False))


EXTRA = [('{"z": 1}', 'IOther'), ('[{"z": 1}]', 'List[IOther]')]

OPS = [
    ('use loader', _l(_loadall)),
    ('use dumper', _d(_dumpall)),
    ('loader.basiccast=False', setter('l', 'basiccast', False)),
    ('loader.failonextra=True', setter('l', 'failonextra', True)),
    ('loader.dictequivalence=False', setter('l', 'dictequivalence', False)),
    ('loader.mangle_key=other', setter('l', 'mangle_key', 'other')),
    ('loader.uniondebugconflict=True', setter('l', 'uniondebugconflict', True)),
    ('loader.pep563=True', setter('l', 'pep563', True)),
    ('loader.frefs=None', setter('l', 'frefs', None)),
    ('loader.frefs[IOther]=int', _l(lambda l: l.frefs is not None and l.frefs.update(IOther=int, IN=int))),
    ('loader.basictypes.add(bytes)', _l(lambda l: l.basictypes.add(bytes))),
    ('loader.basictypes.discard(int)', _l(lambda l: l.basictypes.discard(int))),
    ('loader.strconstructed.add', _l(lambda l: l.strconstructed.add(NS['INot']))),
    ('loader.strconstructed.clear', _l(lambda l: l.strconstructed.clear())),
    ('loader.handlers.insert', _l(lambda l: l.handlers.insert(0, (lambda t: t is int or t is NS['IA'], lambda l, v, t: 'handler')))),
    ('loader.handlers.append', _l(lambda l: l.handlers.append((lambda t: t is complex or t is NS['INot'], lambda l, v, t: t(v))))),
    ('loader.handlers.clear', _l(lambda l: l.handlers.clear())),
    ('loader.handlers.reverse', _l(lambda l: l.handlers.reverse())),
    ('loader.raiseconditionerrors', setter('l', 'raiseconditionerrors', False)),
    ('dumper.hidedefault=False', setter('d', 'hidedefault', False)),
    ('dumper.isodates=True', setter('d', 'isodates', True)),
    ('dumper.mangle_key=other', setter('d', 'mangle_key', 'other')),
    ('dumper.basictypes.add(bytes)', _d(lambda d: d.basictypes.add(bytes))),
    ('dumper.basictypes.discard(int)', _d(lambda d: d.basictypes.discard(int))),
    ('dumper.strconstructed.add', _d(lambda d: d.strconstructed.add(NS['INot']))),
    ('dumper.strconstructed.clear', _d(lambda d: d.strconstructed.clear())),
    ('dumper.handlers.insert', _d(lambda d: d.handlers.insert(0, (lambda v: type(v) is int, lambda d, v, t: 'handler')))),
    ('dumper.handlers.append', _d(lambda d: d.handlers.append((lambda v: type(v) in (complex, NS['INot']), lambda d, v, t: 'handler')))),
    ('dumper.handlers.clear', _d(lambda d: d.handlers.clear())),
    ('dumper.raiseconditionerrors', setter('d', 'raiseconditionerrors', False)),
    ('module load', lambda l, d: [attempt(typedload.load, eval(v, NS), eval(t, NS), basiccast=False, failonextra=True, mangle_key='other', frefs={'IN': int, 'IOther': int}) for v, t in LOADPROBES]),
    ('module dump', lambda l, d: [attempt(typedload.dump, eval(v, NS), hidedefault=False, isodates=True, mangle_key='other') for v in DUMPPROBES]),
    # A function that keeps its loader would know IOther afterwards
    ('module load without settings', lambda l, d: [attempt(typedload.load, eval(v, NS), eval(t, NS)) for v, t in LOADPROBES + EXTRA]),
    ('module dump without settings', lambda l, d: [attempt(typedload.dump, eval(v, NS)) for v in DUMPPROBES]),
    ('new loader', lambda l, d: _loadall(Loader(basiccast=False, failonextra=True, basictypes={str, bytes}, strconstructed={NS['INot']}, frefs={'IN': int}))),
    ('new loader with handlers', lambda l, d: _loadall(Loader(handlers=[(lambda t: True, lambda l, v, t: 'always')]))),
    ('new dumper', lambda l, d: _dumpall(Dumper(hidedefault=False, basictypes={str}, strconstructed={NS['INot']}))),
    ('new dumper with handlers', lambda l, d: _dumpall(Dumper(handlers=[(lambda v: True, lambda d, v, t: 'always')]))),
    ('subclasses', _sub),
]


class Died(Exception):
    pass


def isolated(f):
    """Result of f() in a fork of this process"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, 60)
            data = pickle.dumps(f())
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        data += chunk
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if status:
        raise Died('the process ended with status %d' % status)
    return pickle.loads(data)


class Record:
    """The part of a shard that is used in the forks"""
    def __init__(self):
        self.states = self.transitions = self.validated = 0
        self.found = []

    def bad(self, what, replay=''):
        self.found.append((what, replay))


def merged(s, f):
    """Runs f(record) in a fork, and adds what it found to the shard"""
    def g():
        rec = Record()
        f(rec)
        return rec
    rec = isolated(g)
    s.states += rec.states
    s.transitions += rec.transitions
    s.validated += rec.validated
    for what, replay in rec.found:
        s.bad(what, replay)


# settings of the new objects that are probed
PROBEKW = [
    (dict(), dict()),
    (dict(mangle_key='other'), dict(mangle_key='other')),
    (dict(basiccast=False), dict(hidedefault=False)),
    (dict(failonextra=True, uniondebugconflict=True), dict(isodates=True)),
    (dict(pep563=True, dictequivalence=False), dict(isodates=True, hidedefault=False, mangle_key='other')),
]


def probes(loadf, dumpf, hintf):
    r = []
    for v, t in LOADPROBES:
        r.append(outcome(lambda: loadf(eval(v, NS), eval(t, NS))))
    for v in DUMPPROBES:
        r.append(outcome(lambda: dumpf(eval(v, NS))))
    if hintf:
        for v, t in HINTPROBES:
            r.append(outcome(lambda: hintf(eval(v, NS), eval(t, NS))))
    return r


NAMES = ['load(%s, %s)' % p for p in LOADPROBES] + ['dump(%s)' % p for p in DUMPPROBES] + ['dump(%s, %s)' % p for p in HINTPROBES]


def compare(s, got, exp, what):
    s.validated += len(got)
    s.transitions += len(got)
    for n, g, e in zip(NAMES, got, exp):
        if g != e:
            s.bad('%s: %s %s, but it %s when nothing else was done' % (what, n, show(g), show(e)), PRELUDE + DECL + '# ' + what)
            return


def settings_of(o):
    """The public settings only: what else is remembered is seen by the probes"""
    return tuple((k, v) for k, v in state(o)[0] if not k.startswith('_')), len(o.handlers)


PLACES = ['before, used', 'before', 'in the middle', 'after']


def history(s, seq, refs, refset, place):
    ref = refs[0]
    l, d = Loader(), Dumper()
    l2 = d2 = None
    def create():
        return Loader(), Dumper()
    if place.startswith('before'):
        l2, d2 = create()
        if 'used' in place:
            compare(s, probes(l2.load, d2.dump, d2.dump), ref, 'first use')
    what = 'after %s on other objects, with the loader and dumper created %s' % ([OPS[i][0] for i in seq], place)
    for n, i in enumerate(seq):
        if place == 'in the middle' and n == 1:
            l2, d2 = create()
        OPS[i][1](l, d)
    if l2 is None:
        l2, d2 = create()
    s.states += 1
    if 'used' not in place and (settings_of(l2), settings_of(d2)) != refset:
        s.bad('%s: their attributes are not those of a new object' % what, '')
    compare(s, probes(l2.load, d2.dump, d2.dump), ref, what)
    if place == 'after':
        for (lk, dk), r in list(zip(PROBEKW, refs))[1:]:
            l2, d2 = Loader(**lk), Dumper(**dk)
            compare(s, probes(l2.load, d2.dump, d2.dump), r, what + ' (with the settings %r, %r)' % (lk, dk))
        compare(s, probes(typedload.load, typedload.dump, None), ref, what + ' (module functions)')


def args_case(s):
    """The module functions are new objects with those settings"""
    loadkw = [dict(), dict(basiccast=False), dict(failonextra=True), dict(dictequivalence=False), dict(mangle_key='other'), dict(frefs=None), dict(uniondebugconflict=True), dict(raiseconditionerrors=False), dict(basictypes={int, bytes}), dict(strconstructed={NS['INot']}),
              dict(pep563=True), dict(handlers=[]), dict(unknown=3)]
    dumpkw = [dict(), dict(hidedefault=False), dict(isodates=True), dict(mangle_key='other'), dict(basictypes={int, str, bytes}), dict(strconstructed={NS['INot']}), dict(raiseconditionerrors=False), dict(handlers=[]), dict(unknown=3)]
    def merge(kws):
        return [{k: v for c in combo for k, v in c.items()} for n in (1, 2) for combo in itertools.combinations(kws, n)]
    def attrs(o, kw):
        for k, x in kw.items():
            setattr(o, k, x)
        return o
    loads = [(kw, v, t) for kw in merge(loadkw) for v, t in LOADPROBES + EXTRA]
    dumps = [(kw, v, 'Any') for kw in merge(dumpkw) for v in DUMPPROBES]
    # nothing was done yet in this process
    exp = {}
    for i, (kw, v, t) in enumerate(loads):
        exp['load', i] = isolated(lambda: outcome(lambda: Loader(**kw).load(eval(v, NS), eval(t, NS))))
    for i, (kw, v, t) in enumerate(dumps):
        exp['dump', i] = isolated(lambda: outcome(lambda: Dumper(**kw).dump(eval(v, NS))))
    def one(name, i, kw, v, t):
        s.states += 1
        s.validated += 2
        if name == 'load':
            a = outcome(lambda: typedload.load(eval(v, NS), eval(t, NS), **kw))
            c = outcome(lambda: attrs(Loader(), kw).load(eval(v, NS), eval(t, NS)))
        else:
            a = outcome(lambda: typedload.dump(eval(v, NS), **kw))
            c = outcome(lambda: attrs(Dumper(), kw).dump(eval(v, NS)))
        b = exp[name, i]
        if not a == b == c:
            s.bad('%s(%s, %s) with %r: the function %s, an object where the attributes are set %s, a new object in another process %s' % (name, v, t, kw, show(a), show(c), show(b)), '')
    for order in (1, -1):
        for i, (kw, v, t) in list(enumerate(loads))[::order]:
            one('load', i, kw, v, t)
        for i, (kw, v, t) in list(enumerate(dumps))[::order]:
            one('dump', i, kw, v, t)


def run(tier, seed):
    build_env()
    refset = isolated(lambda: (settings_of(Loader()), settings_of(Dumper())))
    # each in a process where nothing else was done
    refs = [[isolated(lambda: outcome(f)) for f in _thunks(*kw)] for kw in PROBEKW]
    n = len(OPS)
    units = [('a', 0)] + [('h', i) for i in range(n)]
    def f(u, s):
        if u[0] == 'a':
            return args_case(s)
        i = u[1]
        for place in PLACES:
            if place != 'in the middle':
                merged(s, lambda r: history(r, (i,), refs, refset, place))
            for j in range(n):
                if tier == 'quick' and place == 'before, used' and (i + j) % 3:
                    continue
                merged(s, lambda r: history(r, (i, j), refs, refset, place))
                if s.full:
                    return
        if tier != 'quick':
            for j in range(n):
                for k in range(n):
                    merged(s, lambda r: history(r, (i, j, k), refs, refset, PLACES[(i + j + k) % 4]))
                if s.full:
                    return
        s.sample('%s, then every other operation' % OPS[i][0], 1)
    total = core.explore(units, f)
    return total, dict(bound='all the sequences of %d out of %d operations, each in a process of its own, 4 moments of creation, %d probes with up to %d settings' % (2 if tier == 'quick' else 3, n, len(NAMES), len(PROBEKW)))


def _thunks(lk, dk):
    """The probes with new objects"""
    for v, t in LOADPROBES:
        yield lambda: Loader(**lk).load(eval(v, NS), eval(t, NS))
    for v in DUMPPROBES:
        yield lambda: Dumper(**dk).dump(eval(v, NS))
    for v, t in HINTPROBES:
        yield lambda: Dumper(**dk).dump(eval(v, NS), eval(t, NS))
