"""
C19: for every list of items up to 4 (5), with the wrong or convertible items
in every position, every kind of iterable that has those items, every item
type, container type and context: the outcome of the load is the one of the
list of the items. Iterators count what is taken from them. Iterators that
raise, for every position and kind of exception, make the load fail.
"""
import itertools

from mc.diff import *
from mc.contexts import *
from typedload.exceptions import AnnotationType

KINDS_SRC = '''
class Counter19:
    "One-shot iterator that records what is taken"
    def __init__(self, l): self.l, self.log, self.iters = l, [], 0
    def __iter__(self):
        self.iters += 1
        return self
    def __next__(self):
        n = len(self.log)
        if n >= len(self.l):
            self.log.append('end')
            raise StopIteration
        self.log.append(n)
        return self.l[n]
class GetItem19:
    "Old protocol"
    def __init__(self, l): self.l = l
    def __getitem__(self, i): return self.l[i]
class Lies19(list):
    "The length is wrong"
    def __len__(self): return 1
class Falsy19(list):
    def __bool__(self): return False
class IterOverride19(list):
    "Not the items that the list has"
    def __init__(self, l):
        super().__init__(['hidden', None])
        self.l = l
    def __iter__(self): return iter(self.l)
class Hint19:
    "Iterator with a wrong length hint"
    def __init__(self, l): self.it = iter(l)
    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def __length_hint__(self): return 1000000
class Seq19(collections.abc.Sequence):
    def __init__(self, l): self.l = l
    def __len__(self): return len(self.l)
    def __getitem__(self, i): return self.l[i]
class Loud19(list):
    def __eq__(self, o): raise ValueError('eq')
    __hash__ = None
def gen19(l):
    for i in l: yield i
class Raising19:
    "Raises after n items"
    def __init__(self, l, n, exc): self.l, self.n, self.exc, self.taken = l, n, exc, 0
    def __iter__(self): return self
    def __next__(self):
        if self.taken == self.n:
            raise self.exc
        if self.taken == len(self.l):
            raise StopIteration
        self.taken += 1
        return self.l[self.taken - 1]
class RaisingIter19:
    def __init__(self, exc): self.exc = exc
    def __iter__(self): raise self.exc
def raisinggen19(l, n, exc):
    for k, i in enumerate(l):
        if k == n: raise exc
        yield i
    if n == len(l): raise exc
'''

# name, function of the list of items, one-shot
REUSABLE = [
    ('tuple', 'tuple(%s)'), ('deque', 'collections.deque(%s)'), ('Iter', 'Iter(%s)'), ('SubList', 'SubList(%s)'), ('UserList', 'collections.UserList(%s)'), ('getitem', 'GetItem19(%s)'), ('lies', 'Lies19(%s)'), ('falsy', 'Falsy19(%s)'), ('override', 'IterOverride19(%s)'),
    ('sequence', 'Seq19(%s)'), ('values', 'dict(enumerate(%s)).values()'), ('items of namedtuple', 'collections.namedtuple("x", ["f%%d" %% i for i in range(len(%s))])(*_d)'), ('mapping view', 'collections.OrderedDict(enumerate(%s)).values()'),
    ('loud', 'Loud19(%s)'),
]
ONESHOTS = [('iter', 'iter(%s)'), ('generator', 'gen19(%s)'), ('genexp', '(i for i in %s)'), ('map', 'map(lambda i: i, %s)'), ('filter', 'filter(lambda i: True, %s)'), ('chain', 'itertools.chain(%s)'), ('reversed', 'reversed(%s[::-1])'), ('OneShot', 'OneShot(%s)'), ('hint', 'Hint19(%s)'), ('islice', 'itertools.islice(%s, 100)'), ('zip', '(i for i, in zip(%s))')]
HASHED = [('set', 'set(%s)'), ('frozenset', 'frozenset(%s)'), ('keys', '{i: 1 for i in %s}.keys()')]
# kinds that have items of their own
FIXED = ['range(0)', 'range(3)', 'range(5, 0, -2)', '"12a"', '"123"', '""', 'b"ab"', 'bytearray(b"12")', 'array.array("i", [1, 2])', 'memoryview(b"12")', '{"a": 1, "b": 2}.items()', '{"a": 1, 2: "x"}.keys()', '{1: 2}.values()', 'enumerate(["a"])', 'zip([1, 2], ["a", "b"])', 'SubStr("12")', 'itertools.repeat(1, 3)', 'collections.Counter("aab").keys()', 'E19', 'os.environ.keys() and []', 'types.MappingProxyType({1: 2}).keys()', 'itertools.permutations([1, 2])', 'itertools.groupby([])', 'collections.ChainMap({1: 2}).values()']

ITEMS = {
    'int': [1, '2', 'x', None], 'str': ['a', 1, None], 'Any': [1, None, 'a'], 'Union[int, str]': [1, 'a', None], 'Optional[int]': [1, None, 'x', '3'], 'Union[int, List[int]]': [1, [2], ['x'], 'x'], 'datetime.date': ['2020-01-02', 'x'], 'List[int]': [[1], [], ['x'], 5],
    'N19': [{'a': 1}, {'a': 'x'}, {}], 'Literal[1, "a"]': [1, 'a', 2], 'E19': [1, 2, 3], 'NewInt19': [1, 'x'], 'float': [1.5, 1, 'x'], 'Tuple[int, int]': [[1, 2], [1], (1, 'x')], 'Dict[str, int]': [{'a': 1}, {'a': 'x'}], 'bool': [True, 0], 'None': [None, 1], 'pathlib.Path': ['a', 1], 'Union[N19, int]': [{'a': 1}, 2, 'x'], 'Opt19': [1, 'x'],
}
TDECL = '''
class N19(NamedTuple):
    a: int
class E19(Enum):
    A = 1
    B = 2
NewInt19 = NewType('NewInt19', int)
class C19:
    pass
Opt19 = Union[None, bool, NewInt19]
@dataclass
class DH19:
    f: Any
'''
CONTAINERS = ['List[%s]', 'Tuple[%s, ...]', 'Set[%s]', 'FrozenSet[%s]', 'list[%s]', 'set[%s]', 'tuple[%s, ...]']
QUICKC = CONTAINERS[:4]

WRAP = [
    ('top', '%s', lambda v: v), ('list', 'List[%s]', lambda v: [v]), ('second', 'Tuple[int, %s]', lambda v: [1, v]), ('dict', 'Dict[str, %s]', lambda v: {'k': v}), ('optional', 'Optional[%s]', lambda v: v), ('union', 'Union[int, %s, None]', lambda v: v),
    ('field', None, lambda v: {'f': v}),
]
UNIONS2 = [('union2', 'Union[N19, %s]', lambda v: v), ('union2r', 'Union[%s, N19]', lambda v: v), ('unionlist', 'Union[List[float], %s]', lambda v: v), ('unionlist2', 'Union[List[datetime.date], %s]', lambda v: v)]


ITERABLE = [None]
def canon(e, depth=0):
    path = tuple((i.annotation[0], repr(i.annotation[1]) if i.annotation[0] in (AnnotationType.INDEX, AnnotationType.FIELD) else '') for i in e.trace if i.annotation is not None)
    last = repr(e.value) if path and path[-1][0] == AnnotationType.INDEX and type(e.value) in (int, float, str, bool, type(None)) and e.value is not ITERABLE[0] else ''
    return ('' if depth else type(e).__name__, path, last, tuple(canon(x, depth + 1) for x in e.exceptions) if depth < 5 else 0)


def out(l, t, v):
    try:
        r = l.load(v, t)
    except TypedloadException as e:
        return ('err', canon(e))
    except Exception as e:
        return ('crash', repr(e))
    return ('ok', type(r).__name__, repr(r))


def typeof(wrap, cont, item, ns):
    e = cont % item
    if wrap[1] is None:
        exec('@dataclass\nclass D19:\n    f: %s\n' % e, ns)
        return ns['D19'], 'D19 (f: %s)' % e
    return eval(wrap[1] % e, ns), wrap[1] % e


def lists(item, n):
    for k in range(n + 1):
        for c in itertools.product(ITEMS[item], repeat=k):
            yield list(c)


def hashable(l):
    try:
        set(l)
        return len(set(l)) == len(l)
    except TypeError:
        return False


def report(s, wrap, cont, item, l, kind, cfg, a, b, key=None):
    what = 'load %s of %r into %s with %r (%s): %s, but for the list %s' % (kind, l, cont % item, cfg, wrap[0], str(a)[:300], str(b)[:300])
    s.bad(what, PRELUDE + KINDS_SRC + TDECL + '# ' + what, key)


def consumed(wrap, cont, item, mk, kw, ns, o):
    """
    Key of the known finding if the outcome is the one of trying the members
    of the union one after the other on what is left of the same iterator
    """
    members = [eval({'union2': 'N19', 'union2r': 'N19', 'unionlist': 'List[float]', 'unionlist2': 'List[datetime.date]'}[wrap[0]], ns), eval(cont % item, ns)]
    for order in (members, members[::-1]):
        v = eval(mk, ns)
        ld = Loader(**kw)
        oks = [x for x in (out(ld, t, v) for t in order) if x[0] == 'ok']
        r = oks[0] if oks and not (kw.get('uniondebugconflict') and len(oks) > 1) else 'err'
        if r == (o if o[0] == 'ok' else o[0]):
            return 'one-shot-iterator-in-a-union'
    return None


def explore_one(item, cont, wraps, n, cfgs, s, ns, tier):
    for wrap in wraps:
        t, expr = typeof(wrap, cont, item, ns)
        two = wrap in UNIONS2
        for kw in cfgs:
            ld = Loader(**kw)
            maxn = n if wrap[0] == 'top' else min(n, 2)
            for l in lists(item, maxn):
                ref = out(ld, t, wrap[2](list(l)))
                s.outcomes.add(hash(repr(ref)))
                kinds = list(REUSABLE) + ONESHOTS
                if hashable(l):
                    kinds += HASHED
                for name, fmt in kinds:
                    s.states += 1
                    s.transitions += len(l)
                    s.validated += 1
                    ns['_d'] = list(l)
                    v = eval(fmt % '_d', ns)
                    r = ref
                    if name in ('set', 'frozenset'):
                        r = out(ld, t, wrap[2](list(v)))
                    o = out(ld, t, wrap[2](v))
                    if o != r:
                        oneshot = name in dict(ONESHOTS)
                        report(s, wrap, cont, item, l, name, kw, o, r, consumed(wrap, cont, item, fmt % '_d', kw, ns, o) if two and oneshot else None)
                        if s.full:
                            return
                # what is taken from the iterator
                if not two:
                    c = ns['Counter19'](list(l))
                    s.states += 1
                    s.validated += 1
                    o = out(ld, t, wrap[2](c))
                    if o != ref:
                        report(s, wrap, cont, item, l, 'Counter19', kw, o, ref)
                    wrong = None
                    if ref[0] == 'err':
                        wrong = innerindex(ld, eval(cont % item, ns), l)
                    # with a wrong item: up to it
                    exp = list(range(len(l))) + ['end'] if wrong is None else list(range(wrong + 1))
                    # results that can't be in a set have no index: the load stops where it likes
                    if wrong is None and ref[0] == 'err':
                        exp = exp[:len(c.log)]
                    if c.log != exp:
                        s.bad('load %s of %r into %s with %r: took %r from the iterator instead of %r' % (wrap[0], l, cont % item, kw, c.log, exp), PRELUDE + KINDS_SRC + TDECL)
                    if s.full:
                        return


def innerindex(ld, t, l):
    try:
        ld.load(list(l), t)
    except TypedloadException as e:
        for i in e.trace:
            if i.annotation is not None and i.annotation[0] == AnnotationType.INDEX:
                return i.annotation[1]
    return None


EXCS = ['ValueError("v")', 'TypeError("t")', 'KeyError("k")', 'AttributeError("a")', 'RuntimeError("r")', 'OSError("o")', 'ZeroDivisionError()', 'Custom()', 'AssertionError()', 'IndexError()', 'StopAsyncIteration()', 'UnicodeDecodeError("utf8", b"", 0, 1, "x")', 'typedload.exceptions.TypedloadValueError("mine")', 'typedload.exceptions.TypedloadException("mine")', 'MemoryError()', 'RecursionError()', 'NotImplementedError()', 'EOFError()', 'LookupError()', 'Exception()']


def raising(item, cont, wraps, n, s, ns):
    good = [i for i in ITEMS[item]]
    for wrap in wraps:
        t, expr = typeof(wrap, cont, item, ns)
        for l in lists(item, n):
            if any(type(out(Loader(), eval(item, ns), i)) is tuple and out(Loader(), eval(item, ns), i)[0] != 'ok' for i in l):
                continue
            for pos in range(len(l) + 1):
                for exc in EXCS:
                    for mk in ('Raising19(_d, %d, %s)' % (pos, exc), 'raisinggen19(_d, %d, %s)' % (pos, exc), 'map(lambda x: x, Raising19(_d, %d, %s))' % (pos, exc)) + (('RaisingIter19(%s)' % exc,) if not pos else ()):
                        ns['_d'] = list(l)
                        v = eval(mk, ns)
                        s.states += 1
                        s.validated += 1
                        ld = Loader()
                        try:
                            r = ld.load(wrap[2](v), t)
                            what = 'returned %r' % (r,)
                        except TypedloadException as e:
                            what = None
                            try:
                                str(e)
                            except Exception as e2:
                                what = 'str() of the error raises %r' % e2
                            if what is None and wrap[0] == 'top' and 'mine' not in exc and (e.value is not v or e.type_ is None):
                                what = 'the error has the value %r and the type %r instead of the iterable and its type' % (e.value, e.type_)
                        except Exception as e:
                            what = 'raised %r, that is not a typedload exception' % e
                        if what is None and wrap[0] == 'top':
                            # the loader still works
                            if out(ld, t, list(l)) != out(Loader(), t, list(l)):
                                what = 'the loader is damaged'
                        if what:
                            s.bad('load of %s (items %r) into %s (%s): %s' % (mk, l, cont % item, wrap[0], what), PRELUDE + KINDS_SRC + TDECL)
                            if s.full:
                                return


FIXEDITEMS = ['int', 'str', 'Any', 'Union[int, str]', 'Tuple[int, int]', 'N19', 'E19']
# In no order that something would sort them into
FIXEDPOOL = [8, 1, '16', 'a', (3, 2), (2, 3), None, 33, '']


def tuples(items, n, s, ns, cfgs):
    """Tuples of a fixed size, from everything that has a length"""
    for length in (1, 2, 3) if n > 3 else (2, 3):
        for wrap in WRAP:
            cont = 'Tuple[%s]' % ', '.join((list(items) * 2)[:length])
            t, expr = typeof(wrap, cont, None, ns) if '%s' in cont else typeof(wrap, cont.replace('%', '%%') + '%s', '', ns)
            for l in itertools.chain.from_iterable(itertools.permutations(FIXEDPOOL if n > 3 else FIXEDPOOL[:7], k) for k in range((min(n, 3) if wrap[0] == 'top' else 2) + 1)):
                ns['_d'] = list(l)
                for kw in cfgs + [dict(failonextra=True)]:
                    ld = Loader(**kw)
                    for name, fmt in REUSABLE + HASHED:
                        if name in ('lies', 'override', 'getitem', 'Iter'):
                            continue  # without the length, or with a wrong one
                        s.states += 1
                        s.validated += 1
                        v = eval(fmt % '_d', ns)
                        r = out(ld, t, wrap[2](list(v)))
                        o = out(ld, t, wrap[2](v))
                        if o != r:
                            report(s, wrap, cont + '%.0s', '', list(l), name, kw, o, r)
                            if s.full:
                                return


def run(tier, seed):
    import array, os
    quick = tier == 'quick'
    NS['itertools'] = itertools
    NS['array'] = array
    NS['os'] = os
    import typedload
    NS['typedload'] = typedload
    exec(compile(KINDS_SRC + TDECL, '<c19>', 'exec', dont_inherit=True), NS)
    conts = QUICKC if quick else CONTAINERS
    units = [('eq', item, c) for item in ITEMS for c in conts]
    units += [('raise', item, c) for item in ITEMS for c in QUICKC]
    units += [('fixed', None, c) for c in conts]
    units += [('tuple', (a, b), None) for i, a in enumerate(FIXEDITEMS) for j, b in enumerate(FIXEDITEMS) if not quick or (i - j) % 7 in (0, 3)]
    n4 = 3 if quick else 4
    cfgs = [dict(), dict(basiccast=False)] if quick else [dict(), dict(basiccast=False), dict(failonextra=True), dict(uniondebugconflict=True)]
    def f(u, s):
        kind, item, cont = u
        ns = dict(NS)
        if kind == 'eq':
            n = 3 if quick else 4
            wraps = WRAP + UNIONS2
            explore_one(item, cont, [w for w in wraps], n, [c for c in cfgs if not c.get('uniondebugconflict')], s, ns, tier)
            s.sample('%s of %s: items %r' % (cont, item, ITEMS[item]), 1)
        elif kind == 'tuple':
            tuples(item, n4, s, ns, cfgs)
        elif kind == 'raise':
            raising(item, cont, WRAP, 2 if quick else 3, s, ns)
        else:
            for item in ITEMS:
                for wrap in WRAP + UNIONS2:
                    t, expr = typeof(wrap, cont, item, ns)
                    for v in FIXED:
                        for kw in cfgs:
                            ld = Loader(**kw)
                            s.states += 1
                            s.validated += 1
                            # a string is not the list of its characters for everything that takes a string
                            if eval(v, ns) .__class__ in (str, bytes, bytearray, memoryview, NS['SubStr']) and wrap[0] in ('union',):
                                continue
                            ITERABLE[0] = eval(v, ns)
                            o = out(ld, t, wrap[2](ITERABLE[0]))
                            ITERABLE[0] = out
                            r = out(ld, t, wrap[2](list(eval(v, ns))))
                            if o != r:
                                report(s, wrap, cont, item, v, 'fixed', kw, o, r, consumed(wrap, cont, item, v, kw, ns, o) if wrap in UNIONS2 and hasattr(eval(v, ns), '__next__') else None)
    total = core.explore(units, f)
    return total, dict(bound='items of %d types, all the lists of up to %d items, %d kinds of iterables, %d containers, %d contexts; iterators that raise at every position with %d kinds of exceptions' % (len(ITEMS), 3 if quick else 4, len(REUSABLE) + len(ONESHOTS) + len(HASHED) + len(FIXED), len(conts), len(WRAP + UNIONS2), len(EXCS)),
                       assumptions=['dictionaries are not iterables for typedload', 'a string where a string is a member of the union is that string'])
