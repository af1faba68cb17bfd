"""
C04: only typedload exceptions come out of a load.
1. every type of the grammar x hostile values at every position of a document
2. user code (constructors, post-init, validators, converters, factories,
   enum hooks, str constructed classes, iterators) raising each kind of
   exception at each of its calls, in every context, two levels deep; in a
   union the next alternative must be used.
"""
from mc.diff import *
from mc.docs import *
from mc.contexts import *

HOSTILE = [
    X('float("nan")'), X('float("-inf")'), X('1e308'), X('-1e308'), X('10**400'), X('-10**400'), X('10**5000'), X('2**63'), X('-2**31'),
    X('10**10'), X('complex(0, 1)'), X('decimal.Decimal("NaN")'), X('decimal.Decimal("1e999")'), X('fractions.Fraction(1, 3)'),
    None, True, -1, 0, '', 'x', '\ud800', '\x00', X("'9' * 5000"), X("'(' * 50"), 'a{99999999999999999999}', '*', '(?P<a', '2020-13-45', '25:61', '999.1.1.1', '1/2/3',
    b'', b'\xff', X('bytearray(b"a")'), [], {}, (), [[]], [{}], [None], [1, 2, 3], [2020, 1], [2020, 1, 1, 0, 0, 0, 0, 0, 0], [X('10**30'), 1, 1], [X('float("nan")'), 1, 1], [[1], [2]],
    ['1', '2', '3'], X('set()'), X('{1}'), {1: 2}, {None: 1}, {(1, 2): 3}, {'': 1}, {X('10**5000'): 1}, {b'a': 1}, {X('float("nan")'): X('float("nan")')}, {X('Opaque()'): 1}, {1: 1, 'a': 2},
    {'a': 1}, {'a': X('10**5000')}, {'a': []}, {'t': []}, {'t': {}}, {'a': None, 5: 1, None: 2},
    X('Opaque()'), X('Opaque'), X('int'), X('len'), X('lambda: 1'), X('Namespace()'), X('Namespace(a=1)'), X('Namespace(t=[])'), X('Namespace(keys=1, items=2, a=1)'), X('KeysOnly()'),
    X('OneShot([1, None])'), X('OneShot([])'), X('FailIter([1], KeyError("x"))'), X('FailNext([], ValueError("x"))'), X('FailNext(["a"], RuntimeError())'), X('FailIter([], StopIteration())'),
    X('FailIter([[1]], TypeError())'), X('FailNext([1], Custom())'), X('range(3)'), X('iter({})'), X('memoryview(b"ab")'), X('types.SimpleNamespace(a=1)'), X('Ellipsis'), X('NotImplemented'),
    X('collections.UserDict(a=1)'), X('collections.UserList([1])'), X('datetime.timedelta(1)'), X('datetime.datetime(2020,1,1)'), X('uuid.UUID(int=1)'), X('re.compile("a")'), X('IntE.ONE'), X('IntE'),
    X('SubDict(a=1)'), X('SubList([None])'), X('Iter([])'), X('typing.List[int]'), X('object()'),
]
HOSTILE_SMALL = [X('float("nan")'), X('10**5000'), None, '', '\ud800', [], {}, {1: 2}, X('Opaque()'), X('FailIter([1], KeyError("x"))'), X('FailNext([], ValueError("x"))'), X('Namespace(keys=1)'), X('{1}'), {'a': []}]

CFGS = [Cfg(), Cfg(basiccast=False, failonextra=True), Cfg(uniondebugconflict=True, dictequivalence=False)]

EXCEPTIONS = ['ValueError("x")', 'TypeError("x")', 'KeyError("x")', 'AttributeError("x")', 'IndexError()', 'RuntimeError("x")', 'AssertionError()', 'StopIteration("x")',
              'ZeroDivisionError()', 'UnicodeDecodeError("utf8", b"", 0, 1, "x")', 'OSError(1, "x")', 'RecursionError()', 'Custom()', 'Exception()', 'NotImplementedError()',
              'StopAsyncIteration()', 'MemoryError()', 'LookupError("a", "b")', 'NameError("x")', 'OverflowError()', 'EOFError()', 'ImportError()', 'Warning("x")', 'TypedloadValueError("x")', 'TypedloadException("x")']


class Raw(Node):
    """A class with code, given as text. Each load of doc calls hit() once"""
    def __init__(self, prefix, text, doc, hashable=False):
        self.name = nm(prefix)
        self.decl = text.replace('$', self.name)
        self.doc = doc
        self.hashable = hashable

    def expr(self):
        return self.name

    def _docs(self):
        return [self.doc]


def leaves():
    return [
        Raw('PI', '@dataclass(frozen=True)\nclass $:\n    a: int\n    def __post_init__(self): hit()\n', {'a': 1}),
        Raw('NW', '@dataclass\nclass $:\n    a: int\n    def __new__(cls, *a, **k): hit(); return object.__new__(cls)\n', {'a': 1}),
        Raw('DF', '@dataclass\nclass $:\n    a: int\n    b: int = field(default_factory=hit)\n', {'a': 1}),
        Raw('AP', '@attr.s\nclass $:\n    a = attr.ib(type=int)\n    def __attrs_post_init__(self): hit()\n', {'a': 1}),
        Raw('AV', '@attr.s\nclass $:\n    a = attr.ib(type=int, validator=lambda *a: hit())\n', {'a': 1}),
        Raw('AC', '@attr.s\nclass $:\n    a = attr.ib(converter=hit)\n', {'a': 1}),
        Raw('AF', '@attr.s\nclass $:\n    a = attr.ib(factory=hit)\n', {}),
        Raw('NT', 'class $(NamedTuple("$base", [("a", int)])):\n    def __new__(cls, **k): hit(); return tuple.__new__(cls, k.values())\n', {'a': 1}),
        Raw('EM', 'class $(Enum):\n    A = 1\n    @classmethod\n    def _missing_(cls, v): hit(); return cls.A\n', 'zzz', True),
        Raw('MD', '@dataclass\nclass $:\n    a: int = field(metadata={"name": "b"})\n    def __post_init__(self): hit()\n', {'b': 1}),
    ]


def run_hostile(i, s, tier):
    node = universe('quick')[i]
    for cfg in CFGS:
        loader = Loader(**cfg.kw)
        for d in documents(node, tier, junk=HOSTILE, big_junk=HOSTILE_SMALL if tier == 'quick' else HOSTILE, two=tier != 'quick'):
            out = impl(node, d, cfg, loader)
            s.states += 1
            s.validated += 1
            s.transitions += 1 + (len(out[1].trace) if out[0] == 'err' else 0)
            if out[0] == 'crash':
                report(s, node, d, cfg, ('crash', out[1]), 'which is not a typedload exception')
            elif out[0] == 'err':
                s.add('rejected')
                try:
                    m = str(out[1])
                    assert m and repr(out[1])
                except Exception as e:
                    s.bad('load %s into %s (%r): str() of the error raises %r' % (src(d), node, cfg, e), replay(node, d, cfg, 'str of the error'))
            if s.full:
                return
    s.sample('hostile values into %s' % node.expr(), 1)


def fault_plan():
    """(leaf index, outer context or None, inner context or None, union)"""
    n = len(contexts())
    r = []
    for leaf in range(len(leaves())):
        for outer in [None] + list(range(n)):
            for inner in [None] + list(range(n)):
                if outer is None and inner is not None:
                    continue
                for union in (False, True):
                    r.append((leaf, outer, inner, union))
    return r


def fault_case(plan):
    leaf, outer, inner, union = plan
    x = leaves()[leaf]
    node, doc, calls = x, x.doc, 1
    if union:
        # Falls back to str
        node = UnionT(x, STR)
    cs = contexts()
    for c in (inner, outer):
        if c is None:
            continue
        name, mk, mkdoc, n, hashable, _ = cs[c]
        if hashable and (not x.hashable or union) and not (node is x and x.name.startswith('PI')):
            return None
        if hashable and node is not x:
            return None
        node = mk(node)
        doc = mkdoc([doc] * n)
        calls *= n
    return x, node, doc, calls


def run_fault(plan, s, tier):
    case = fault_case(plan)
    if case is None:
        return
    x, node, doc, calls = case
    union = plan[3]
    fault = NS['Fault']
    NS.setdefault('TypedloadValueError', __import__('typedload.exceptions').exceptions.TypedloadValueError)
    NS.setdefault('TypedloadException', TypedloadException)
    cfg = Cfg()
    if union and x.name.startswith('EM'):
        return  # A string is a basic type, so it's returned as is
    fault.set(-1, None)
    out = impl(node, doc, cfg)
    if out[0] != 'ok' or fault.count != calls:
        s.bad('load %s into %s: %s, calling the class %d times, expected %d\n%s' % (src(doc), node, describe(out), fault.count, calls, node.source()), replay(node, doc, cfg, ''))
        return
    for exc in EXCEPTIONS:
        for k in range(calls):
            fault.set(k, lambda: eval(exc, NS))
            out = impl(node, doc, cfg)
            s.states += 1
            s.transitions += fault.count
            s.validated += 1
            why = None
            if out[0] == 'crash':
                why = 'which is not a typedload exception'
            elif union and out[0] != 'ok':
                why = 'the alternative of the union was not tried'
            elif not union and out[0] == 'ok':
                why = 'the failure was ignored'
            elif union and fault.count != calls:
                why = 'the class was called %d times instead of %d' % (fault.count, calls)
            elif out[0] == 'err':
                try:
                    str(out[1])
                except Exception as e:
                    why = 'str() of the error raises %r' % e
            if why:
                what = 'load %s into %s where %s is raised at call %d of %s: %s; %s' % (src(doc), node.expr(), exc, k, x.name, describe(out) if out[0] != 'err' else type(out[1]), why)
                s.bad(what, replay(node, doc, cfg, what).replace('value =', 'from typedload.exceptions import *\nFault.set(%d, lambda: %s)\nvalue =' % (k, exc)))
                if s.full:
                    return
    s.sample('%s, %s at each of %d calls' % (node.expr(), x.name, calls), 1)


def run_maps(i, s, tier):
    """Objects that are like dictionaries, whose methods raise"""
    node = universe('quick')[i]
    fault = NS['Fault']
    NS.setdefault('TypedloadValueError', __import__('typedload.exceptions').exceptions.TypedloadValueError)
    NS.setdefault('TypedloadException', TypedloadException)
    for d in node.valid()[:2 if tier == 'quick' else 4]:
        pos = [p for p in positions(d) if type(at(d, p)) is dict]
        for p in pos[:4]:
            doc = replaced(d, p, Conv('HitMap(%s)', at(d, p)))
            for cfg in CFGS[:1] if tier == 'quick' else CFGS:
                k = 0
                while True:
                    for exc in (EXCEPTIONS[:6] + EXCEPTIONS[10:13] if tier == 'quick' else EXCEPTIONS):
                        fault.set(k, lambda: eval(exc, NS))
                        out = impl(node, doc, cfg)
                        s.states += 1
                        s.transitions += fault.count
                        s.validated += 1
                        if out[0] == 'crash':
                            what = 'load %s into %s (%r) where %s is raised at call %d of the methods of HitMap: %s' % (src(doc), node.expr(), cfg, exc, k, describe(out))
                            s.bad(what, replay(node, doc, cfg, what).replace('value =', 'from typedload.exceptions import *\nFault.set(%d, lambda: %s)\nvalue =' % (k, exc)))
                            if s.full:
                                return
                    if fault.count <= k:
                        break
                    k += 1
    fault.set(-1, None)


UNRESOLVED = ["'Missing'", "'List[Missing]'", "'List['", "'1/0'", "'int.missing'", "Optional['Missing']", "List['Missing']", "list['Missing']", "'Dict[str, Missing]'", "Tuple['Missing', int]", "'int'", "'lambda: 0'", '1', 'X1', "'X1'", "NewType('Q', 'Missing')", "ClassVar['Missing']", "'ClassVar[Missing]'", "'NotRequired[Missing]'", "list", "'Holder'", "Callable", "Callable[[int], int]", "Iterable[int]", "Type[int]", "T0"]
UNRESOLVED_KINDS = [
    'class $(NamedTuple):\n    a: %s\n',
    'class $(NamedTuple):\n    b: int = 3\n    a: %s = 1\n',
    '@dataclass\nclass $:\n    a: %s\n',
    '@dataclass\nclass $:\n    b: int\n    a: %s = field(default=1, metadata={"name": "a"})\n',
    '@attr.s(auto_attribs=True)\nclass $:\n    a: %s\n',
    '@attr.s(auto_attribs=True)\nclass $:\n    b: int = 1\n    a: %s = attr.ib(default=1)\n',
    'class $(TypedDict):\n    a: %s\n',
    'class $(TypedDict, total=False):\n    b: int\n    a: %s\n',
    'class $(Enum):\n    A: %s = 1\n',
    'class $(Enum):\n    x: int\n    A: %s = 1\n    B: Tuple[int, int] = (1, 2)\n',
    '@attr.s\nclass $:\n    a = attr.ib(converter=(lambda f: (f.__annotations__.update(x=%s), f)[1])(lambda x: x))\n',
]


def run_unresolved(kind, s, tier):
    """Annotations that are not known, not types, or can not be evaluated"""
    NS['X1'] = X('1')
    NS['T0'] = __import__('typing').TypeVar('T0')
    for ann in UNRESOLVED:
        x = Raw('UR', kind % ann, {'a': 1})
        try:
            x.t
        except Exception:
            # Python or typing refuse it
            continue
        for name, mk, mkdoc, n, hashable, _ in [(None, lambda x: x, lambda l: l[0], 1, False, None)] + contexts():
            if hashable:
                continue
            for union in (False, True):
                try:
                    node = mk(UnionT(x, LiteralT('alt')) if union else x)
                    node.t
                except Exception:
                    continue
                for d in ({'a': 1}, {'b': 1}, {'b': 1, 'a': [{}]}, {}, 'zzz', 1, None, [1, 2], X('Opaque()'), {'a': None}, 'alt'):
                    doc = mkdoc([d] * n)
                    for kw in (dict(), dict(pep563=True), dict(failonextra=True, basiccast=False), dict(frefs=None), dict(pep563=True, frefs=None, raiseconditionerrors=False)):
                        cfg = Cfg()
                        cfg.kw = kw
                        out = impl(node, doc, cfg)
                        s.states += 1
                        s.validated += 1
                        if out[0] == 'err':
                            try:
                                str(out[1])
                            except Exception as e:
                                out = ('crash', e)
                        why = None
                        if out[0] == 'crash':
                            why = 'which is not a typedload exception'
                        elif union and d == 'alt' and out[0] != 'ok':
                            why = 'the alternative of the union was not used'
                        if why:
                            what = 'load %s into %s (%r): %r; %s\n%s' % (src(doc), node.expr(), kw, out[1], why, x.decl)
                            s.bad(what, replay(node, doc, cfg, what))
                        if s.full:
                            return


BOMBSRC = """
def bomb(base, value, method, exc):
    "Object of a subclass of base where one method raises"
    def f(self, *a, **k): raise exc()
    ns = {method: property(f) if method == '__class__' else f}
    if method == '__eq__':
        ns['__hash__'] = lambda self: 3
    ns['__reduce__'] = lambda self: 'bomb'
    c = type('Bomb', (base,), ns)
    if base is object:
        return c()
    if base is Namespace:
        return c(**value)
    return c(value)
"""
exec(BOMBSRC, NS)
METHODS = ['__eq__', '__ne__', '__hash__', '__getattr__', '__getattribute__', '__iter__', '__len__', '__int__', '__index__', '__float__', '__bool__', '__str__', '__repr__', '__contains__', '__getitem__', '__lt__', '__fspath__', '__format__',
           '__trunc__', '__dir__', '__next__', 'items', 'keys', 'get', 'values', '__class__', '_get_kwargs', '__complex__', '__buffer__', '_asdict', 'isoformat']
BOMBEXC = ['ValueError', 'RuntimeError', 'TypeError', 'KeyError', 'AttributeError', 'Custom', 'StopIteration', 'IndexError', 'AssertionError']
BASES = ['object', 'dict', 'list', 'str', 'int', 'float', 'tuple', 'set', 'Namespace', 'bytes', 'frozenset']


def bombs():
    r = []
    for b in BASES:
        for m in METHODS:
            v = {'object': 'None', 'dict': '{"a": 1}', 'list': '[1]', 'str': '"1"', 'int': '1', 'float': '1.5', 'tuple': '(1,)', 'set': '{1}', 'Namespace': '{"a": 1}', 'bytes': 'b"1"', 'frozenset': '{1}'}[b]
            try:
                eval('bomb(%s, %s, %r, ValueError)' % (b, v, m), NS)
            except Exception:
                # It can not be created, or found in a container
                continue
            r.append((b, m, v))
    return r


def run_bombs(i, s, tier):
    """Objects that can be of any class, where one special method raises"""
    node = universe('quick')[i]
    try:
        anynode = UnionT(node, ANY)
        anynode.t
    except Exception:
        anynode = None
    docs = node.valid()[:1 if tier == 'quick' else 2]
    n = 0
    for d in docs:
        for p in list(positions(d))[:3 if tier == 'quick' else 6]:
            inner = at(d, p)
            for b, m, v in bombs():
                n += 1
                # with the content that belongs there, if it is of that class
                value = src(inner) if type(inner).__name__ == b or b == 'Namespace' and type(inner) is dict and all(type(k) is str and k.isidentifier() for k in inner) else v
                excs = BOMBEXC if tier != 'quick' else [BOMBEXC[n % len(BOMBEXC)], BOMBEXC[n // 7 % 2]]
                for exc in excs:
                    bx = 'bomb(%s, %s, %r, %s)' % (b, value, m, exc)
                    doc = replaced(d, p, X(bx))
                    try:
                        build(doc)
                    except Exception:
                        continue
                    for cfg in CFGS[:1] if tier == 'quick' else CFGS:
                        out = impl(node, doc, cfg)
                        s.states += 1
                        s.validated += 1
                        why = None
                        if out[0] == 'crash':
                            why = 'raises %r, which is not a typedload exception' % out[1]
                        elif out[0] == 'err':
                            try:
                                str(out[1])
                            except Exception as e:
                                why = 'str() of the error raises %r' % e
                        if why is None and anynode is not None and p == () and not cfg.kw.get('uniondebugconflict'):
                            out = impl(anynode, doc, cfg)
                            s.validated += 1
                            if out[0] != 'ok':
                                why = 'and Any was not tried in an union'
                        if why:
                            what = 'load %s into %s (%r): %s' % (src(doc), node.expr(), cfg, why)
                            s.bad(what, replay(node, doc, cfg, what).replace('value =', BOMBSRC + 'class Custom(Exception): pass\nvalue =', 1))
                            if s.full:
                                return


def run(tier, seed):
    plans = fault_plan()
    units = [('h', i) for i in range(len(universe('quick')))] + [('f', p) for p in plans] + [('m', i) for i in range(len(universe('quick')))]
    units += [('u', k) for k in UNRESOLVED_KINDS] + [('b', i) for i in range(len(universe('quick')))]
    def f(u, s):
        if u[0] == 'u':
            run_unresolved(u[1], s, tier)
        elif u[0] == 'b':
            run_bombs(u[1], s, tier)
        elif u[0] == 'h':
            run_hostile(u[1], s, tier)
        elif u[0] == 'm':
            run_maps(u[1], s, tier)
        else:
            run_fault(u[1], s, tier)
    total = core.explore(units, f)
    return total, dict(bound='types of depth 2 x hostile values at every position; %d exceptions x every call of user code x contexts of depth 2; the methods of mappings raising at each call' % len(EXCEPTIONS))
