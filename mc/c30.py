"""
C30: a fault in, or a reentrant use from, every call of user code; a fault at
every line of the library; the stack running out at every depth. Afterwards
every scenario is run again on the same loader or dumper, on a new one and with
the module level functions: it must give what it gives where nothing happened.
"""
import itertools
import sys

import typedload
from mc.diff import *
from mc.outcome import *

WORLD30 = '''
class Env:
    "What happens at each call of user code"
    def __init__(self):
        self.calls = []
        self.count = {}
        self.plan = {}
        self.active = True
ENV = [Env()]

def tick(label):
    e = ENV[-1]
    if not e.active:
        return
    n = e.count[label] = e.count.get(label, 0) + 1
    e.calls.append((label, n))
    act = e.plan.get((label, n))
    if act is not None:
        act()

class BaseFault(BaseException): pass
class Fault(Exception): pass

@dataclass
class PI:
    a: int
    b: List[int] = field(default_factory=lambda: (tick('dcfactory'), [1])[1])
    c: str = 'c'
    def __post_init__(self): tick('post_init')
    def __eq__(self, o):
        tick('eq')
        return type(o) is PI and (self.a, self.b, self.c) == (o.a, o.b, o.c)
@dataclass
class PJ:
    p: PI
    q: Optional[PI] = None
    m: Dict[str, int] = field(default_factory=lambda: (tick('dcfactory2'), {})[1], metadata={'name': 'M'})
    def __post_init__(self): tick('post_init2')
def conv30(x: int):
    tick('converter')
    return x
def convlist30(x: List[PI]):
    tick('converter2')
    return tuple(x)
def valid30(i, a, v):
    tick('validator')
@attr.s
class AT:
    a = attr.ib(type=int, converter=conv30, metadata={'name': 'A'})
    b = attr.ib(type=List[int], factory=lambda: (tick('atfactory'), [2])[1])
    c = attr.ib(type=tuple, converter=convlist30, default=())
    d = attr.ib(type=int, default=5, validator=valid30)
    def __attrs_post_init__(self): tick('attrs_post_init')
@attr.s
class AS:
    x = attr.ib(type=int)
    y = attr.ib(type=int, default=attr.Factory(lambda self: (tick('takes_self'), self.x + 1)[1], takes_self=True))
class Host:
    def __init__(self, s):
        tick('strconstructed')
        self.s = s
    def __eq__(self, o): return type(o) is Host and o.s == self.s
    def __str__(self):
        tick('str')
        return self.s
class Hand:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return type(o) is Hand and o.v == self.v
class Hand2:
    def __init__(self, v): self.v = v
class Col(Enum):
    R = 1
    G = 'g'
    @classmethod
    def _missing_(cls, v):
        tick('missing')
        return cls.R if v == 'red' else None
class Hin(Enum):
    X: Tuple[int, int] = (1, 2)
    Y: PI = PI(9)
    def __init__(self, *a): pass
@dataclass(frozen=True)
class Key:
    k: int
    def __hash__(self):
        tick('hash')
        return hash(self.k)
@dataclass
class Tree30:
    v: int
    sub: List['Tree30'] = field(default_factory=list)
    nxt: Optional['Tree30'] = None
    def __post_init__(self): tick('post_init3')
@dataclass
class UA:
    k: Literal['a']
    v: int
    def __post_init__(self): tick('post_inita')
@dataclass
class UB:
    k: Literal['b']
    v: PI
    def __post_init__(self): tick('post_initb')
class NT(NamedTuple):
    p: PI
    l: List[PI] = []
class TD(TypedDict):
    p: PI
    n: NotRequired[PI]
class It:
    def __init__(self, *l): self.l = l
    def __iter__(self):
        tick('iter')
        for i in self.l:
            tick('next')
            yield i
        tick('stop')
    def __repr__(self): return 'It%r' % (self.l,)
class Sized(It):
    def __len__(self):
        tick('len')
        return len(self.l)
class DictLike:
    def __init__(self, d): self.d = d
    def keys(self):
        tick('keys')
        return self.d.keys()
    def items(self):
        tick('items')
        for i in self.d.items():
            tick('item')
            yield i
    def get(self, k, d=None):
        tick('get')
        return self.d.get(k, d)
    def __repr__(self): return 'DictLike(%r)' % (self.d,)
class Num:
    def __int__(self):
        tick('int')
        return 7
    def __str__(self):
        tick('str2')
        return 'seven'
    def __hash__(self):
        tick('datahash')
        return 3
    def __eq__(self, o):
        tick('dataeq')
        return o == 'b'
    def __repr__(self): return 'Num()'
class Spacy(Namespace):
    def _get_kwargs(self):
        tick('get_kwargs')
        return super()._get_kwargs()
class Prop:
    "Attributes are computed"
@dataclass
class Lazy:
    a: int
    b: int = 3
    def __getattribute__(self, n):
        if n in ('a', 'b'):
            tick('getattr')
        return object.__getattribute__(self, n)
@attr.s
class LazyA:
    a = attr.ib(type=int)
    b = attr.ib(type=int, default=3)
    def __getattribute__(self, n):
        if n in ('a', 'b'):
            tick('getattr2')
        return object.__getattribute__(self, n)
class MyList(list):
    def __iter__(self):
        tick('listiter')
        for i in list.__iter__(self):
            tick('listnext')
            yield i
class MyDict(dict):
    def items(self):
        tick('dictitems')
        for i in dict.items(self):
            tick('dictitem')
            yield i
class DynEnum(Enum):
    A = 1
    B = (1, 2)

def is_hand(t):
    tick('cond')
    return t is Hand
def is_hand2(t):
    tick('cond2')
    return t is Hand2
def hand_load(l, v, t):
    tick('handler')
    r = Hand(l.load(v['x'], int))
    tick('handler')
    return r
def hand2_load(l, v, t):
    tick('handler2')
    return Hand2(l.load(v, List[PI]))
def new_loader(**kw):
    l = typedload.dataloader.Loader(**kw)
    l.handlers.insert(0, (is_hand, hand_load))
    l.handlers.append((is_hand2, hand2_load))
    l.strconstructed.add(Host)
    return l
def is_handv(v):
    tick('cond')
    return type(v) is Hand
def is_handv2(v):
    tick('cond2')
    return type(v) is Hand2
def hand_dump(d, v, t):
    tick('handler')
    r = {'x': d.dump(v.v)}
    tick('handler')
    return r
def hand2_dump(d, v):
    tick('handler2')
    return [d.dump(v.v)]
def new_dumper(**kw):
    d = typedload.datadumper.Dumper(**kw)
    d.handlers.insert(0, (is_handv, hand_dump))
    d.handlers.append((is_handv2, hand2_dump))
    d.strconstructed.add(Host)
    return d
'''

# data, type
LOADS = [
    ('{"a": 1}', 'PI'), ('{"a": "x"}', 'PI'), ('{"p": {"a": 1}, "q": {"a": 2, "b": [3]}}', 'PJ'), ('{"p": {"a": 1}, "M": {"k": "1"}}', 'PJ'),
    ('[{"a": 1}, {"a": 2}]', 'List[PI]'), ('{"k": {"a": 1}}', 'Dict[str, PI]'), ('[{"a": 1}, {"A": 2}]', 'Tuple[PI, AT]'), ('{"A": 1, "c": [{"a": 5}]}', 'AT'), ('{"A": "x"}', 'AT'), ('{"x": 1}', 'AS'),
    ('"host"', 'Host'), ('["h", "i"]', 'Set[str]'), ('{"x": 5}', 'Hand'), ('[{"x": "5"}, {"x": 6}]', 'List[Hand]'), ('{"x": "z"}', 'Optional[Hand]'), ('[{"a": 1}]', 'Hand2'),
    ('"red"', 'Col'), ('"zz"', 'Col'), ('["1", 2]', 'Hin'), ('{"a": 9}', 'Hin'), ('[{"k": 1}, {"k": 2}]', 'Set[Key]'), ('[{"k": 1}]', 'FrozenSet[Key]'),
    ('{"v": 1, "sub": [{"v": 2}], "nxt": {"v": 3}}', 'Tree30'), ('{"k": "b", "v": {"a": 1}}', 'Union[UA, UB]'), ('{"k": "a", "v": "x"}', 'Union[UA, UB]'), ('{"a": 1}', 'Union[int, List[PI], PI]'),
    ('{"p": {"a": 1}, "l": [{"a": 2}]}', 'NT'), ('{"p": {"a": 1}, "n": {"a": 2}}', 'TD'), ('It(1, "2")', 'List[int]'), ('It({"a": 1})', 'Tuple[PI, ...]'), ('Sized(1, {"a": 1})', 'Tuple[int, PI]'), ('It(1)', 'Union[List[int], str]'),
    ('DictLike({"a": 1, "z": 2})', 'PI'), ('DictLike({"A": 1})', 'AT'), ('DictLike({"k": "b", "v": DictLike({"a": 1})})', 'Union[UA, UB]'), ('DictLike({"k": 1})', 'Dict[str, int]'),
    ('Num()', 'int'), ('Num()', 'str'), ('Num()', 'Literal["a", "b"]'), ('{"k": Num(), "v": 1}', 'Union[UA, UB]'), ('[Num()]', 'List[Union[int, str]]'),
    ('Spacy(a=1)', 'PI'), ('Spacy(p=Spacy(a=1))', 'PJ'), ('Spacy(k="a", v=1)', 'Union[UA, UB]'), ('Spacy(x=1)', 'Dict[str, int]'), ('[1]', 'Unknown30'), ('5', 'NewType("NW", PI)'),
]
WORLD30 += '''
class Unknown30: pass
'''
DUMPS = [
    'PI(1)', 'PI(1, [1])', 'PI(1, [5], "z")', 'PJ(PI(1))', 'PJ(PI(1), PI(2), {"k": 1})', '[PI(1), PI(2)]', '{"k": PI(1)}', '(PI(1), AT(2))', 'AT(1)', 'AT(1, [5], [PI(1)], 6)', 'AS(1)', 'AS(1, 5)', 'Host("h")', '[Host("a"), Host("b")]', '{Host("a").s: 1}',
    'Hand(5)', '[Hand(1), Hand([PI(1)])]', 'Hand2(5)', '[Hand2(1), Hand2(PI(3))]', 'Col.R', 'Hin.X', 'DynEnum.B', 'Tree30(1, [Tree30(2)], Tree30(3))', 'NT(PI(1))', 'NT(PI(1), [PI(2)])', '{"p": PI(1)}', 'Lazy(1)', 'Lazy(1, 2)', 'LazyA(1)', 'LazyA(1, 2)',
    'MyList([1, PI(1)])', 'MyDict({"a": PI(1), "b": MyList([1])})', 'datetime.date(2020, 1, 2)', '[datetime.datetime(2020, 1, 2)]', 'Unknown30()', '[Unknown30(), 1]',
]
LSETS = [dict(), dict(failonextra=True), dict(uniondebugconflict=True), dict(basiccast=False), dict(pep563=True), dict(dictequivalence=False)]
DSETS = [dict(), dict(hidedefault=False), dict(isodates=True)]
# the first ones are for when there are many combinations
EXCS = ['ValueError("u")', 'Fault("u")', 'BaseFault("u")', 'TypedloadValueError("u", value=1, type_=int)', 'TypeError("u")', 'KeyError("u")', 'AttributeError("u")', 'TypedloadTypeError("u")', 'TypedloadException("u")', 'StopIteration("u")', 'RuntimeError("u")',
        'AssertionError("u")', 'NotImplementedError("u")', 'RecursionError("u")', 'MemoryError("u")', 'KeyboardInterrupt("u")', 'NameError("u")', 'GeneratorExit("u")', 'SystemExit("u")', 'UnicodeDecodeError("ascii", b"x", 0, 1, "u")', 'LookupError("u")', 'Warning("u")']

W = dict(NS)
W['typedload'] = typedload
W['TypedloadException'] = TypedloadException
exec('from typedload.exceptions import *\nimport typedload.dataloader, typedload.datadumper\n' + WORLD30, W)
ENV = W['ENV']
Env = W['Env']
TYPES = [eval(t, W) for _, t in LOADS]


class Load:
    n = len(LOADS)
    sets = LSETS
    word = 'load'

    @staticmethod
    def new(kw):
        return W['new_loader'](**kw)

    @staticmethod
    def prepare(i):
        v = eval(LOADS[i][0], W)
        t = TYPES[i]
        return lambda o: o.load(v, t)

    @staticmethod
    def src(i, o):
        return '%s.load(%s, %s)' % (o, LOADS[i][0], LOADS[i][1])


class Dump:
    n = len(DUMPS)
    sets = DSETS
    word = 'dump'

    @staticmethod
    def new(kw):
        return W['new_dumper'](**kw)

    @staticmethod
    def prepare(i):
        v = eval(DUMPS[i], W)
        return lambda o: o.dump(v)

    @staticmethod
    def src(i, o):
        return '%s.dump(%s)' % (o, DUMPS[i])


SIDES = [Load, Dump]


class Sleep:
    """User code does nothing while the check prepares and compares"""
    def __enter__(self):
        e = Env()
        e.active = False
        ENV.append(e)

    def __exit__(self, *a):
        ENV.pop()


def do(side, i, o, plan={}, trace=None, f=None):
    """Runs a scenario: (comparable outcome, calls of user code)"""
    if f is None:
        with Sleep():
            f = side.prepare(i)
    e = Env()
    e.plan = plan
    ENV.append(e)
    try:
        try:
            if trace is not None:
                sys.settrace(trace)
            try:
                r = ('ok', f(o))
            finally:
                sys.settrace(None)
        except BaseException as x:
            r = ('exc', x)
    finally:
        while ENV.pop() is not e:
            pass
    with Sleep():
        if r[0] == 'ok':
            out = ('ok', snap(r[1]))
        elif isinstance(r[1], Exception):
            out = norm_error(r[1])
        else:
            out = ('crash', type(r[1]).__name__)
    return out, e.calls


class Refs:
    """Outcomes of the scenarios when nothing else happened"""
    def __init__(self, side, kw):
        self.side, self.kw = side, kw
        self.out = []
        self.calls = []
        self.warm = []
        self.repeatable = []
        for i in range(side.n):
            o = side.new(kw)
            out, calls = do(side, i, o)
            self.out.append(out)
            self.calls.append(calls)
            out2, calls2 = do(side, i, o)
            self.warm.append(calls2)
            # can the same data be used twice?
            with Sleep():
                f = side.prepare(i)
            self.repeatable.append(do(side, i, side.new(kw), f=f)[0] == do(side, i, side.new(kw), f=f)[0] == out)

    def all_again(self, o, s, why, order=None, new=True, skip=()):
        """Every scenario on o"""
        for i in order if order is not None else range(self.side.n):
            out, _ = do(self.side, i, o)
            s.transitions += 1
            s.validated += 1
            if out != self.out[i]:
                s.bad('%s; then %s %s, instead it %s' % (why(), self.side.src(i, 'x'), show(out)[:300], show(self.out[i])[:300]), self.replay(why(), i))
                return False
        return True

    def replay(self, why, i):
        return '# %s\n# setup: see WORLD30 in mc/c30.py\n' % why + 'from mc.c30 import *\n' + '# settings %r, last step: %s\n' % (self.kw, self.side.src(i, 'x'))


def same_calls(a, b, label):
    """The conditions are called less once their answer is known"""
    return [i for i in a if i[0] == label] == [i for i in b if i[0] == label] and not label.startswith('cond')


def raiser(exc):
    def act():
        with Sleep():
            e = eval(exc, W)
        raise e
    return act


def u_fault(u, s, quick):
    """One fault in each call, with each exception, then everything again"""
    si, ki, i, excs = u
    side = SIDES[si]
    kw = side.sets[ki]
    refs = Refs(side, kw)
    n = side.n
    for call in refs.calls[i]:
        for exc in EXCS[:excs]:
            plan = {call: raiser(exc)}
            o = side.new(kw)
            with Sleep():
                f = side.prepare(i)
            first, _ = do(side, i, o, plan, f=f)
            s.states += 1
            s.outcomes.add((first[0], call[0]))
            why = lambda: '%s %r: %s with %s raised by the call %d of %s' % (side.word, kw, side.src(i, 'x'), exc, call[1], call[0])
            if refs.repeatable[i]:
                # with the very same data
                out, _ = do(side, i, o, f=f)
                s.transitions += 1
                s.validated += 1
                if out != refs.out[i]:
                    s.bad('%s; then again with the same data it %s, instead it %s' % (why(), show(out)[:300], show(refs.out[i])[:300]), refs.replay(why(), i))
                    return
            order = list(range(i, n)) + list(range(i))
            if not refs.all_again(o, s, why, order):
                return
            # it happens again in the same way
            if same_calls(refs.calls[i], refs.warm[i], call[0]):
                again, _ = do(side, i, o, plan)
                s.transitions += 1
                s.validated += 1
                if again != first:
                    s.bad('%s; it %s, after other %ss it %s' % (why(), show(first)[:300], side.word, show(again)[:300]), refs.replay(why(), i))
                    return
                if not refs.all_again(o, s, why, order[::-1] if not quick else order[:3]):
                    return
        # other loaders don't know about this
        o = side.new(kw)
        if not refs.all_again(o, s, lambda: why() + ', with another ' + ('loader' if si == 0 else 'dumper'), range(n) if not quick else [i, (i + 1) % n]):
            return
    s.sample('%s %s: calls %r' % (side.word, side.src(i, 'x'), refs.calls[i][:6]), 1)


def u_warmfault(u, s, quick):
    """A fault in each call of an used loader"""
    si, ki, i = u
    side = SIDES[si]
    kw = side.sets[ki]
    refs = Refs(side, kw)
    o = side.new(kw)
    if not refs.all_again(o, s, lambda: '%s %r: nothing' % (side.word, kw)):
        return
    for call in refs.warm[i]:
        for exc in EXCS[:8]:
            do(side, i, o, {call: raiser(exc)})
            s.states += 1
            why = lambda: '%s %r: all the scenarios, %s with %s raised by the call %d of %s' % (side.word, kw, side.src(i, 'x'), exc, call[1], call[0])
            if not refs.all_again(o, s, why, [i, (i + 1) % side.n] if quick else None):
                return
    refs.all_again(o, s, lambda: '%s %r: faults in all the calls of %s' % (side.word, kw, side.src(i, 'x')))


def u_two(u, s, quick):
    """Two faults, in the same operation or in two of them"""
    si, ki, i, js = u
    side = SIDES[si]
    kw = side.sets[ki]
    refs = Refs(side, kw)
    n = side.n
    excs = EXCS[:2] if quick else EXCS[:3]
    for c1 in refs.calls[i]:
        for e1 in excs:
            for j in js:
                for c2 in refs.calls[j]:
                    e2 = excs[(c2[1] + j) % len(excs)]
                    plan2 = {c2: raiser(e2)}
                    o = side.new(kw)
                    if i == j:
                        do(side, i, o, {c1: raiser(e1), **plan2})
                    else:
                        do(side, i, o, {c1: raiser(e1)})
                        do(side, j, o, plan2)
                    s.states += 1
                    why = lambda: '%s %r: %s with %s raised by the call %d of %s, %s with %s raised by the call %d of %s' % (side.word, kw, side.src(i, 'x'), e1, c1[1], c1[0], side.src(j, 'x'), e2, c2[1], c2[0])
                    if not refs.all_again(o, s, why, sorted({i, j, (i + j) % n, (i * 7 + j * 3 + 1) % n})):
                        return


def u_many(u, s, quick):
    """The same fault many times, what is left behind adds up"""
    si, ki, i = u
    side = SIDES[si]
    kw = side.sets[ki]
    refs = Refs(side, kw)
    times = 260 if quick else 1100
    for call in refs.calls[i]:
        for exc in EXCS[:3] if quick else EXCS[:6]:
            o = side.new(kw)
            plan = {call: raiser(exc)}
            why = lambda: '%s %r: %d times %s with %s raised by the call %d of %s' % (side.word, kw, times, side.src(i, 'x'), exc, call[1], call[0])
            first, _ = do(side, i, o, plan)
            same = same_calls(refs.calls[i], refs.warm[i], call[0])
            for k in range(times):
                out, _ = do(side, i, o, plan)
                if same and out != first:
                    s.bad('%s; at first it %s, then it %s' % (why(), show(first)[:300], show(out)[:300]), refs.replay(why(), i))
                    return
            s.states += 1
            s.transitions += times
            if not refs.all_again(o, s, why):
                return
    # reentrant many times
    for call in refs.calls[i][:2 if quick else None]:
        o = side.new(kw)
        why = lambda: '%s %r: %d times %s used again in the call %d of %s' % (side.word, kw, times, side.src(i, 'x'), call[1], call[0])
        for k in range(times):
            do(side, i, o, {call: Reenter(o, side, k % side.n, refs, s, {}, why, k % 2)})
        s.states += 1
        s.transitions += times
        if s.full or not refs.all_again(o, s, why):
            return
    # interrupted everywhere
    o = side.new(kw)
    points = 0
    for k in range(3):
        point = 0
        while True:
            point += 1
            lf = LineFault(point, (KeyboardInterrupt, ValueError)[(point + k) % 2])
            do(side, i, o, trace=lf.glob)
            if lf.where is None:
                break
            points += 1
    s.states += 1
    s.transitions += points
    refs.all_again(o, s, lambda: '%s %r: %s interrupted %d times' % (side.word, kw, side.src(i, 'x'), points))


class Reenter:
    def __init__(self, o, side, j, refs, s, plan, why, propagate):
        self.__dict__.update(locals())
        self.done = 0

    def __call__(self):
        self.done += 1
        out, _ = do(self.side, self.j, self.o, self.plan)
        self.s.transitions += 1
        if not self.plan:
            self.s.validated += 1
            if out != self.refs.out[self.j]:
                self.s.bad('%s: %s in there %s, instead it %s' % (self.why(), self.side.src(self.j, 'x'), show(out)[:300], show(self.refs.out[self.j])[:300]), self.refs.replay(self.why(), self.j))
        if self.propagate and out[0] != 'ok':
            raise eval(EXCS[0], W)


def u_reenter(u, s, quick):
    """User code that uses the same object in each call, also failing in there"""
    si, ki, i = u
    side = SIDES[si]
    kw = side.sets[ki]
    refs = Refs(side, kw)
    n = side.n
    calls = refs.calls[i]
    for c1 in calls:
        for j in range(n):
            # nothing, or a fault in the inner one
            inner = [{}] + [{c: raiser(EXCS[(c[1] + j) % 2])} for c in (refs.calls[j][::3] if quick else refs.calls[j])]
            for plan in inner:
                o = side.new(kw)
                why = lambda: '%s %r: the call %d of %s of %s does %s%s' % (side.word, kw, c1[1], c1[0], side.src(i, 'x'), side.src(j, 'x'), ' that fails at %r' % list(plan) if plan else '')
                out, _ = do(side, i, o, {c1: Reenter(o, side, j, refs, s, plan, why, False)})
                s.states += 1
                s.transitions += 1
                s.validated += 1
                if out != refs.out[i]:
                    s.bad('%s; it %s, instead it %s' % (why(), show(out)[:300], show(refs.out[i])[:300]), refs.replay(why(), i))
                    return
                if not refs.all_again(o, s, why, [i, j, (i + j) % n] if quick else [i, j] + list(range(0, n, 4))):
                    return
            # the error of the inner one goes through the outer one
            o = side.new(kw)
            do(side, i, o, {c1: Reenter(o, side, j, refs, s, {}, why, True)})
            s.states += 1
            if not refs.all_again(o, s, why, [i, j, (i + 2 * j) % n]):
                return
            if s.full:
                return
        # in each call of the outer one at the same time
        for j in range(i % 3, n, 3) if quick else range(n):
            o = side.new(kw)
            why = lambda: '%s %r: every call of %s does %s' % (side.word, kw, side.src(i, 'x'), side.src(j, 'x'))
            act = Reenter(o, side, j, refs, s, {}, why, False)
            out, _ = do(side, i, o, {c: act for c in calls})
            s.states += 1
            s.validated += 1
            if out != refs.out[i]:
                s.bad('%s; it %s, instead it %s' % (why(), show(out)[:300], show(refs.out[i])[:300]), refs.replay(why(), i))
                return
    # three levels
    for c1 in calls[:: 3 if quick else 1]:
        for j in range(n):
            for c2 in refs.calls[j][:1] if quick else refs.calls[j]:
                for k in (i, j, (i + j + 1) % n):
                    o = side.new(kw)
                    why = lambda: '%s %r: the call %r of %s does %s, the call %r of it does %s' % (side.word, kw, c1, side.src(i, 'x'), side.src(j, 'x'), c2, side.src(k, 'x'))
                    deep = Reenter(o, side, k, refs, s, {}, why, False)
                    mid = Reenter(o, side, j, refs, s, {c2: deep}, why, False)
                    out, _ = do(side, i, o, {c1: mid})
                    s.states += 1
                    s.validated += 1
                    if out != refs.out[i]:
                        s.bad('%s; it %s, instead it %s' % (why(), show(out)[:300], show(refs.out[i])[:300]), refs.replay(why(), i))
                        return
                    if not refs.all_again(o, s, why, [j, k]):
                        return


class LineFault:
    """Raises at the n-th line of the library that is executed"""
    def __init__(self, n, exc, opcodes=False):
        self.n, self.exc = n, exc
        self.event = 'opcode' if opcodes else 'line'
        self.seen = 0
        self.where = None

    def glob(self, frame, event, arg):
        if '/typedload/' in frame.f_code.co_filename:
            if self.event == 'opcode':
                frame.f_trace_opcodes = True
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == self.event:
            self.seen += 1
            if self.seen == self.n:
                self.where = '%s:%s' % (frame.f_code.co_filename.rsplit('/', 1)[-1], frame.f_lineno)
                sys.settrace(None)
                raise self.exc('interrupted')
        return self.local


def u_lines(u, s, quick):
    """An exception raised by a signal handler between any two lines, or bytecode instructions, of the library"""
    si, ki, i, warm, opcodes = u
    side = SIDES[si]
    kw = side.sets[ki]
    refs = Refs(side, kw)
    n = side.n
    point = 0
    while True:
        point += 1
        reached = False
        for exc in (KeyboardInterrupt, ValueError) if not quick else ((KeyboardInterrupt, ValueError)[point % 2],):
            o = side.new(kw)
            if warm:
                for j in range(warm % 3, n, 3):
                    do(side, j, o)
            lf = LineFault(point, exc, opcodes)
            do(side, i, o, trace=lf.glob)
            if lf.where is None:
                continue
            reached = True
            s.states += 1
            why = lambda: '%s %r: %s interrupted at the step number %d that it executes (%s)' % (side.word, kw, side.src(i, 'x'), point, lf.where)
            if not refs.all_again(o, s, why, ([i, (i + point) % n, (i + 5 * point + 1) % n] if quick else [i] + list(range(point % 2, n, 2)))):
                return
        if not reached:
            break
    s.add('interruption_points', point - 1)


def depth():
    f = sys._getframe()
    n = 0
    while f:
        n += 1
        f = f.f_back
    return n


def u_stack(u, s, quick):
    """The stack runs out with any number of frames left"""
    si, ki, i = u
    side = SIDES[si]
    kw = side.sets[ki]
    refs = Refs(side, kw)
    n = side.n
    old = sys.getrecursionlimit()
    for left in range(6, 60):
        o = side.new(kw)
        with Sleep():
            f = side.prepare(i)
        r = None
        sys.setrecursionlimit(depth() + left)
        try:
            f(o)
            r = True
        except BaseException:
            pass
        finally:
            sys.setrecursionlimit(old)
        s.states += 1
        why = lambda: '%s %r: %s with %d frames left in the stack' % (side.word, kw, side.src(i, 'x'), left)
        if not refs.all_again(o, s, why, None if not quick or left < 25 else [i, (i + left) % n]):
            return


def u_warnings(u, s, quick):
    """Warnings turned into errors during an operation"""
    import warnings
    si, ki = u
    side = SIDES[si]
    kw = side.sets[ki]
    refs = Refs(side, kw)
    n = side.n
    for i in range(n):
        for j in range(n):
            o = side.new(kw)
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                do(side, i, o)
                do(side, j, o)
            s.states += 1
            if not refs.all_again(o, s, lambda: '%s %r: %s and %s with warnings as errors' % (side.word, kw, side.src(i, 'x'), side.src(j, 'x')), [i, j, (i + j) % n]):
                return


def run(tier, seed):
    quick = tier == 'quick'
    units = []
    for si, side in enumerate(SIDES):
        for ki in range(len(side.sets)):
            main = ki == 0 or not quick or si == 1
            for i in range(side.n):
                units.append((u_fault, (si, ki, i, len(EXCS) if main else 3)))
                if main:
                    units.append((u_reenter, (si, ki, i)))
                    units.append((u_warmfault, (si, ki, i)))
                    units.append((u_stack, (si, ki, i)))
                    units.append((u_many, (si, ki, i)))
                    if ki == 0:
                        for r in range(2 if quick else 8):
                            js = list(range(side.n))[r::2 if quick else 8]
                            units.append((u_two, (si, ki, i, js)))
                    for warm in (0, 1) if quick else range(4):
                        units.append((u_lines, (si, ki, i, warm, False)))
                        if not quick:
                            units.append((u_lines, (si, ki, i, warm, True)))
            units.append((u_warnings, (si, ki)))
    def f(u, s):
        # interrupted generators that are being closed
        sys.unraisablehook = lambda a: None
        u[0](u[1], s, quick)
    total = core.explore(units, f)
    return total, dict(bound='%d scenarios of load and %d of dump, %d exceptions in each call of user code, pairs of faults, faults repeated up to %d times, reentrant operations up to 3 levels, an interruption at every line, the stack running out with up to 60 frames left' % (len(LOADS), len(DUMPS), len(EXCS), 260 if quick else 1100),
                       assumptions=['with raiseconditionerrors disabled the error of a condition is an answer', 'conditions depend only on the type'])
