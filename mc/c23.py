"""
C23: every predicate on every type of a bounded grammar in every spelling (all
the constructors over all the leaves, and again over a part of those), on all
the ways to make classes, and on values that are not types: true exactly for
the category of the type, a bool, with no exception, the same when asked again
and in any order. Helper functions return the members that the type was built from.
"""
import itertools

from mc.diff import *
from typedload import typechecks as tc

DECL = '''
from enum import *
from typing import *
import attr, attrs, abc
import collections.abc
class NT23(NamedTuple):
    a: int
class NTd23(NamedTuple):
    a: int = 1
    t: Literal['x', 'y'] = 'x'
class NTm23(NamedTuple):
    "doc"
    a: 'NTm23'
    def m(self): return 1
class NTe23(NamedTuple): pass
NTf23 = NamedTuple('NTf23', [('a', int), ('b', str)])
NTg23 = NamedTuple('NTg23', [])
class NTsub23(NT23): pass
T23 = TypeVar('T23')
class NTgen23(NamedTuple, Generic[T23]):
    a: T23
class Mixin23: pass
class E23(Enum): A = 1
class Eempty23(Enum): pass
class Esub23(Eempty23): A = 2
class Eint23(IntEnum): A = 1
class Estr23(StrEnum): A = 'a'
class Eflag23(Flag): A = 1
class Eiflag23(IntFlag): A = 1
class Emix23(str, Enum): A = 'a'
class Emixed23(Mixin23, Enum): A = 1
class Ehint23(Enum):
    _x: int
    A = 1
Ef23 = Enum('Ef23', 'A B')
Ei23 = IntEnum('Ei23', {'A': 1})
@unique
class Eu23(Enum): A = 1
@dataclass
class DC23: a: int
@dataclass
class DCd23:
    a: int = 1
    t: Literal[1, None] = 1
@dataclass
class DCe23: pass
@dataclass(frozen=True)
class DCfr23: a: int
@dataclass(slots=True)
class DCsl23: a: int
@dataclass(kw_only=True, order=True)
class DCkw23: a: int
@dataclass
class DCsub23(DC23): b: int = 2
class DCplainsub23(DC23): pass
DCmk23 = dataclasses.make_dataclass('DCmk23', ['a', ('b', int)])
@dataclass
class DCgen23(Generic[T23]): a: T23
@dataclass
class DCabc23(abc.ABC): a: int
@attr.s
class AT23: a = attr.ib(type=int)
@attr.s(auto_attribs=True)
class ATa23:
    a: int = 1
    t: Literal['q'] = 'q'
@attr.s(slots=True)
class ATs23: a = attr.ib()
@attr.s(frozen=True)
class ATf23: a = attr.ib()
@attr.s
class ATe23: pass
@attr.define
class ATd23: a: int
@attrs.frozen
class ATfr23: a: int
@attrs.mutable
class ATm23: a: int
@attr.dataclass
class ATdc23: a: int
ATmk23 = attr.make_class('ATmk23', ['a'])
@attr.s
class ATsub23(AT23): b = attr.ib(default=1)
class ATplainsub23(AT23): pass
class TD23(TypedDict): a: int
class TDt23(TypedDict, total=False):
    a: int
    t: NotRequired[Literal['x']]
    u: Literal['y']
class TDn23(TypedDict):
    a: NotRequired[int]
    b: Required[int]
class TDsub23(TD23): b: int
class TDe23(TypedDict): pass
TDf23 = TypedDict('TDf23', {'a': int, 'b-c': str})
TDft23 = TypedDict('TDft23', {'a': int}, total=False)
class TDgen23(TypedDict, Generic[T23]): a: T23
NTy23 = NewType('NTy23', int)
NTl23 = NewType('NTl23', List[int])
NTn23 = NewType('NTn23', NTy23)
NTc23 = NewType('NTc23', NT23)
NTu23 = NewType('NTu23', Optional[int])
class Plain23: pass
class Annotated23:
    a: int = 1
    t: Literal['x'] = 'x'
class SubTuple23(tuple): pass
class Fields23(tuple):
    _fields = ('a',)
class HasFields23:
    _fields = ()
    a: int
class SubList23(list): pass
class SubDict23(dict): pass
class SubSet23(set): pass
class SubStr23(str): pass
class GenList23(List[int]): pass
class GenDict23(Dict[str, int]): pass
class Gen23(Generic[T23]): pass
class Proto23(Protocol):
    a: int
class Meta23(type): pass
class WithMeta23(metaclass=Meta23): pass
class Slots23: __slots__ = ('a',)
# with the attributes of something else
class LikeTD23:
    __total__ = True
    __required_keys__ = frozenset(['a'])
    __optional_keys__ = frozenset()
    a: int
class LikeTDdict23(dict):
    __total__ = False
    __required_keys__ = frozenset()
    __optional_keys__ = frozenset(['a'])
    a: int
class LikeNew23:
    __supertype__ = int
class LikeEnum23:
    __members__ = _member_map_ = {'A': 1}
    _value2member_map_ = {1: 'A'}
    _member_names_ = ['A']
    name = 'A'
    value = 1
    A = 1
class LikeRef23:
    __forward_arg__ = 'X'
    __forward_code__ = None
class LikeArgs23:
    __args__ = (int, type(None))
    __parameters__ = ()
class LikeNT23:
    _fields = ('a',)
    _field_defaults = {}
    _asdict = _replace = _make = None
    a: int
class Pattern23:
    pattern = 'a'
    flags = 0
    groupindex = {}
class Any23: pass
Any23.__name__ = Any23.__qualname__ = 'Any'
class Literal23: pass
Literal23.__name__ = Literal23.__qualname__ = 'Literal'
class NoneType23: pass
NoneType23.__name__ = NoneType23.__qualname__ = 'NoneType'
class Union23: pass
Union23.__name__ = Union23.__qualname__ = 'Union'
class list23: pass
list23.__name__ = list23.__qualname__ = 'list'
class List23(Generic[T23]): pass
List23.__name__ = List23.__qualname__ = 'List'
class Raises23:
    def __eq__(self, o): return NotImplemented
    __hash__ = None
CNT23 = collections.namedtuple('CNT23', 'a b')
class CNTsub23(collections.namedtuple('CNTsub23', 'a')): pass
'''

# category of each leaf, None if it has none
LEAVES = {
    None: 'int str float bool bytes object complex type Plain23 Annotated23 SubTuple23 Fields23 HasFields23 SubList23 SubDict23 SubSet23 SubStr23 GenList23 GenDict23 Gen23 Gen23[int] Proto23 WithMeta23 Meta23 Slots23 LikeTD23 LikeTDdict23 LikeNew23 LikeEnum23 LikeRef23 LikeArgs23 LikeNT23 Pattern23 Any23 Literal23 NoneType23 Union23 list23 List23 List23[int] CNT23 CNTsub23 list dict set frozenset tuple datetime.date datetime.datetime datetime.timedelta pathlib.Path uuid.UUID ipaddress.IPv4Address T23 Callable[[int],int] Callable Type[int] Iterable[int] Sequence[int] Mapping[str,int] MutableMapping[str,int] AbstractSet[int] Collection[int] DefaultDict[str,int] OrderedDict[str,int] Counter[str] Deque[int] ChainMap[str,int] collections.abc.Sequence[int] collections.OrderedDict[str,int] collections.deque[int] Match[str] re.Match[str] ClassVar[int] Final[int] Exception NoReturn EnumMeta Hashable SubDict collections.OrderedDict collections.deque range IO[str] types.SimpleNamespace Annotated[int,1] Annotated[List[int],1] Annotated[Optional[int],1] Required[int]'.split(),
    'is_any': ['Any', 'typing.Any'],
    'is_nonetype': ['None', 'type(None)', 'types.NoneType'],
    'is_pattern': ['re.Pattern', 'Pattern', 're.Pattern[str]', 're.Pattern[bytes]', 'Pattern[str]', 'Pattern[bytes]', 'typing.Pattern[str]', 'Pattern[AnyStr]'],
    'is_enum': 'E23 Eempty23 Esub23 Eint23 Estr23 Eflag23 Eiflag23 Emix23 Emixed23 Ehint23 Ef23 Ei23 Eu23 Enum IntEnum'.split(),
    'is_dataclass': 'DC23 DCd23 DCe23 DCfr23 DCsl23 DCkw23 DCsub23 DCplainsub23 DCmk23 DCgen23 DCabc23'.split(),
    'is_attrs': 'AT23 ATa23 ATs23 ATf23 ATe23 ATd23 ATfr23 ATm23 ATdc23 ATmk23 ATsub23 ATplainsub23'.split(),
    'is_namedtuple': 'NT23 NTd23 NTm23 NTe23 NTf23 NTg23 NTsub23 NTgen23'.split(),
    'is_typeddict': 'TD23 TDt23 TDn23 TDsub23 TDe23 TDf23 TDft23 TDgen23'.split(),
    'is_newtype': 'NTy23 NTl23 NTn23 NTc23 NTu23'.split(),
    'is_literal': ['Literal[1]', 'Literal["a", 1, None]', 'Literal[None]', 'Literal[True, False]', 'Literal[b"x"]', 'Literal[E23.A]', 'Literal[Literal[1, 2], 3]', 'Literal["List[int]"]', 'Literal[""]', 'Literal[0]'],
    'is_forwardref': ['ForwardRef("X")', 'ForwardRef("int")', 'ForwardRef("List[int]")', 'ForwardRef("None")'],
    'is_list': ['List'], 'is_dict': ['Dict'], 'is_set': ['Set'], 'is_frozenset': ['FrozenSet'], 'is_tuple': ['Tuple', 'Tuple[()]', 'tuple[()]'],
}
# values that are not types. Instances of dataclasses and attrs have the attributes of their class: unspecified.
VALUES = ['1', '0', '-1.5', '"x"', '""', '"int"', '"List[int]"', 'b""', '()', '(int,)', '(int, ...)', '[]', '[int]', '{}', '{"a": int}', 'set()', 'frozenset()', 'True', 'NotImplemented', '...', 'print', 'len', 'sys', 'lambda x: x', 'NT23(1)', 'E23.A', 'Eint23.A', 'Estr23.A', 'TD23(a=1)', 'LikeTD23()', 'LikeNew23()', 'LikeEnum23()', 'LikeRef23()', 'LikeArgs23()', 'LikeNT23()', 'Pattern23()', '"Literal[1]"', '"Any"', '"None"', '"Optional[int]"', 'Plain23()', 'Raises23()', 'Opaque()', 'object()', 're.compile("a")', 'datetime.date(2020, 1, 2)', 'range(3)', 'iter([])', 'Exception()', 'types.SimpleNamespace(a=1)', 'Namespace(a=1)', 'NamedTuple', 'TypedDict', 'NewType', 'Generic', 'property()', 'staticmethod(print)', 'types', 'float("nan")', 'functools.partial(int)', 'field', 'dataclass', 'attr.s', 'attr.ib', 'List[int].__origin__', 'CNT23(1, 2)', 'inspect_signature', '2 | 1', 'memoryview(b"")', 'types.MappingProxyType({})', '1j', '10**30']

# constructors: name, formats, category, number of arguments
CONSTRUCTORS = [
    (['List[%s]', 'list[%s]', 'typing.List[%s]'], 'is_list', 1),
    (['Set[%s]', 'set[%s]'], 'is_set', 1),
    (['FrozenSet[%s]', 'frozenset[%s]'], 'is_frozenset', 1),
    (['Tuple[%s, ...]', 'tuple[%s, ...]', 'Tuple[%s]', 'tuple[%s]', 'Tuple[%s, %s]', 'tuple[int, %s]'], 'is_tuple', 1),
    (['Dict[str, %s]', 'dict[str, %s]', 'Dict[%s, int]', 'dict[%s, int]'], 'is_dict', 1),
    (['Optional[%s]', 'Union[%s, None]', 'Union[None, %s]', '%s | None', 'None | %s'], 'optional', 1),
    (['Union[%s, bytes]', 'Union[bytes, %s]', '%s | bytes', 'bytes | %s'], 'union', 1),
    (['Union[%s, bytes, None]', '%s | bytes | None', 'Optional[Union[bytes, %s]]', 'Union[bytes, Optional[%s]]'], 'union3', 1),
    (['NotRequired[%s]'], 'is_notrequired', 1),
    (['Type[%s]', 'Iterable[%s]', 'Sequence[%s]', 'Deque[%s]', 'collections.deque[%s]', 'Callable[[%s], int]', 'Mapping[str, %s]', 'DefaultDict[str, %s]', 'collections.OrderedDict[str, %s]', 'AbstractSet[%s]', 'Counter[%s]', 'ClassVar[%s]', 'Required[%s]', 'Final[%s]', 'Gen23[%s]'], None, 1),
]
PREDICATES = ['is_any', 'is_pattern', 'is_attrs', 'is_dataclass', 'is_dict', 'is_enum', 'is_forwardref', 'is_frozenset', 'is_list', 'is_literal', 'is_namedtuple', 'is_nonetype', 'is_set', 'is_tuple', 'is_union', 'is_typeddict', 'is_newtype', 'is_optional', 'is_notrequired']


def members(ns, texts):
    """What is flattened, without repetitions, in order"""
    r = []
    for t in texts:
        x = eval(t, ns)
        if x is None:
            x = type(None)
        for y in (typing.get_args(x) if typing.get_origin(x) in (Union, types.UnionType) else (x,)):
            if not any(y == z for z in r):
                r.append(y)
    return r


def expected(cat, ns, expr):
    """Set of predicates that are true"""
    if cat in ('optional', 'union', 'union3'):
        t = eval(expr, ns)
        args = typing.get_args(t)
        # Union[int] is int
        return None if typing.get_origin(t) not in (Union, types.UnionType) else {'is_union'} | ({'is_optional'} if len(args) == 2 and type(None) in args else set())
    return {cat} if cat else set()


def bases(level, tier):
    """(expression, category)"""
    if level == 0:
        return [(e, c) for c, l in LEAVES.items() for e in l]
    r = []
    prev = bases(level - 1, tier)
    if level == 2:
        prev = prev if tier != 'quick' else prev[::3]
    if level == 3:
        prev = prev[::5]
    for e, c in prev:
        for fmts, cat, n in CONSTRUCTORS:
            for f in fmts:
                r.append((f.replace('%s', e), cat))
    return r


def evaluate(e, ns):
    """The type, or None if Python has no such type"""
    try:
        return (eval(e, ns),)
    except (TypeError, SyntaxError, NameError, KeyError):
        return None


def prettyname(p, x):
    return '%s(%s)' % (p, x)


def run_one(e, cat, ns, s, order):
    v = evaluate(e, ns)
    if v is None:
        s.add('expressions that are not a type in Python')
        return
    v = v[0]
    exp = expected(cat, ns, e)
    if exp is None:
        return
    for k in range(2):
        for p in (order if not k else order[::-1]):
            f = getattr(tc, p)
            s.transitions += 1
            try:
                r = f(v)
            except Exception as x:
                r = x
            if r is not (p in exp):
                what = '%s gives %r instead of %r' % (prettyname(p, e), r, p in exp)
                s.bad(what, PRELUDE + DECL + 'import sys\nfrom typedload import typechecks as tc\nprint(%r)\nprint(tc.%s(%s))\n' % (what, p, e))
                if s.full:
                    return
    s.states += 1
    s.validated += 1
    s.outcomes.add(tuple(sorted(exp)))
    helpers(e, cat, v, ns, s)


def call(f, *a):
    try:
        return ('ok', f(*a))
    except Exception as x:
        return ('exc', type(x).__name__)


def helpers(e, cat, v, ns, s):
    why = None
    if cat in ('optional', 'union', 'union3'):
        inner = tc.uniontypes(v)
        if not isinstance(inner, tuple) or list(inner) != list(typing.get_args(v)):
            why = 'uniontypes gives %r' % (inner,)
    if cat == 'is_literal':
        r = call(tc.literalvalues, v)
        exp = set(typing.get_args(v))
        if r != ('ok', exp) or type(r[1]) is not set or sorted(map(repr, r[1])) != sorted(map(repr, exp)):
            why = 'literalvalues gives %r instead of %r' % (r, exp)
    else:
        r = call(tc.literalvalues, v)
        if r != ('exc', 'ValueError'):
            why = 'literalvalues gives %r instead of ValueError' % (r,)
    if cat == 'is_notrequired':
        if tc.notrequiredtype(v) != typing.get_args(v)[0]:
            why = 'notrequiredtype gives %r' % (tc.notrequiredtype(v),)
    if why:
        s.bad('%s: %s' % (e, why), PRELUDE + DECL + '# ' + why)


def builtmembers(s, ns, tier):
    """uniontypes and literalvalues against what the type was built from"""
    pool = ['int', 'str', 'None', 'NT23', 'DC23', 'E23', 'List[int]', 'Literal[1, 2]', 'Optional[float]', 'Union[bytes, int]', 'NTy23', 'Any', 'TD23', 'ForwardRef("X")', 'Dict[str, Optional[int]]', 're.Pattern[str]', 'tuple[int, ...]']
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for combo in itertools.permutations(pool, n):
            exp = members(ns, combo)
            for expr in ['Union[%s]' % ', '.join(combo), ' | '.join(combo), 'Optional[Union[%s]]' % ', '.join(combo)] + (['Union[%s, Union[%s]]' % (combo[0], ', '.join(combo[1:]))] if n > 1 else []):
                v = evaluate(expr, ns)
                if v is None:
                    continue
                v = v[0]
                x = list(exp)
                if expr.startswith('Optional') and type(None) not in x:
                    x.append(type(None))
                s.states += 1
                s.validated += 1
                isunion = len(x) > 1
                why = None
                if v is not None and tc.is_union(v) is not isunion:
                    why = 'is_union is %r' % tc.is_union(v)
                elif isunion:
                    r = tc.uniontypes(v)
                    # typing shares equal unions, and they are equal in any order
                    if sorted(map(repr, r)) != sorted(map(repr, x)):
                        why = 'uniontypes gives %r instead of %r' % (r, x)
                    opt = len(x) == 2 and type(None) in x
                    if tc.is_optional(v) is not opt:
                        why = 'is_optional is %r' % (not opt)
                if why:
                    s.bad('%s: %s' % (expr, why), PRELUDE + DECL + '# ' + why)
                    if s.full:
                        return
    values = ['1', '"a"', 'None', 'b"x"', '-1', '""', '"None"', 'E23.A', 'False']
    for n in range(1, 4 if tier == 'quick' else 5):
        for combo in itertools.permutations(values, n):
            for expr in ['Literal[%s]' % ', '.join(combo)] + (['Literal[%s, Literal[%s]]' % (combo[0], ', '.join(combo[1:]))] if n > 1 else []):
                s.states += 1
                s.validated += 1
                v = eval(expr, ns)
                exp = set(eval(c, ns) for c in combo)
                r = call(tc.literalvalues, v)
                if r != ('ok', exp):
                    s.bad('literalvalues(%s) gives %r instead of %r' % (expr, r, exp), PRELUDE + DECL)
                    if s.full:
                        return
    # the fields with literals of every kind of object, used to choose the members of unions
    fields = [('a', 'int', None), ('b', 'Literal[1]', {1}), ('c', 'Literal["x", "y"]', {'x', 'y'}), ('d', 'Optional[Literal[1]]', None), ('e', 'List[Literal[1]]', None), ('f', 'Literal[None]', {None})]
    heads = ['class O23(NamedTuple):\n', '@dataclass\nclass O23:\n', '@attr.s(auto_attribs=True)\nclass O23:\n', '@attr.define\nclass O23:\n', 'class O23(TypedDict):\n', 'class O23(TypedDict, total=False):\n', '@dataclass(slots=True)\nclass O23:\n']
    # not exported: not there if the library is organised in another way
    literals = getattr(tc, 'discriminatorliterals', None)
    for n in range(0, 4) if literals else ():
        for combo in itertools.permutations(fields, n):
            for head in heads:
                o = dict(ns)
                exec(compile(head + ''.join('    %s: %s\n' % c[:2] for c in combo) + ('' if combo else '    pass\n'), '<c23>', 'exec', dont_inherit=True), o)
                s.states += 1
                s.validated += 1
                exp = {c[0]: c[2] for c in combo if c[2] is not None}
                for k in range(2):
                    r = call(literals, o['O23'])
                    if r[0] != 'ok' or {k: set(v) for k, v in r[1].items()} != exp:
                        s.bad('discriminatorliterals of %s gives %r instead of %r' % (head + str(combo), r, exp), PRELUDE + DECL)
                        if s.full:
                            return


def exported(s, ns):
    """What the module exports"""
    for p in PREDICATES + ['notrequiredtype', 'uniontypes', 'literalvalues', 'NONETYPE']:
        s.states += 1
        s.validated += 1
        if p not in tc.__all__ or not hasattr(tc, p):
            s.bad('%s is not exported by typechecks' % p)
    extra = [p for p in tc.__all__ if p.startswith('is_') and p not in PREDICATES]
    s.add('predicates unknown to the check', len(extra))
    if tc.NONETYPE is not type(None):
        s.bad('NONETYPE is %r' % tc.NONETYPE)


def run(tier, seed):
    import attrs, abc, inspect
    ns = dict(NS)
    ns['sys'] = sys
    ns['inspect_signature'] = inspect.signature(lambda x: x)
    exec(compile(DECL, '<c23>', 'exec', dont_inherit=True), ns)
    ns['SubDict'] = NS['SubDict']
    cases = []
    levels = 2 if tier == 'quick' else 3
    for l in range(levels + 1):
        cases += bases(l, tier)
    cases += [(v, None) for v in VALUES]
    n = 64
    units = [('cases', i) for i in range(n)] + [('members', 0)]
    def f(u, s):
        if u[0] == 'members':
            builtmembers(s, ns, tier)
            exported(s, ns)
            return
        for e, c in cases[u[1]::n]:
            run_one(e, c, ns, s, PREDICATES)
            if s.full:
                return
        s.sample('%s is %s' % (e, c), 1)
    total = core.explore(units, f)
    return total, dict(bound='%d expressions: all the constructors in all the spellings over %d leaves, up to %d levels, and %d values that are not types; %d predicates, twice in opposite orders' % (len(cases), sum(map(len, LEAVES.values())), levels, len(VALUES), len(PREDICATES)),
                       assumptions=['typing.get_args is right', 'instances of dataclasses and attrs, and bare Union, Optional and Literal, are unspecified'])
