"""
C26: for every bounded value and every hint that it conforms to, in every
spelling, the dump with the hint equals the reference dump, which knows of no
hints: for the default dumper and for dumpers where the handling of basic types
was replaced, extended or preceded by something else. Then dataclasses whose
fields have every kind of annotation.
"""
import itertools

from mc.diff import *
from mc.docs import *
from mc.inhab import *
from mc.c03 import extra_types


class SubTuple26(tuple): pass
class SubSet26(set): pass
class CopyList26(list):
    # copies are not lists
    def copy(self):
        return tuple(self)


NS.update(SubTuple26=SubTuple26, SubSet26=SubSet26, CopyList26=CopyList26)


def mark(v):
    return '%s:%r' % (type(v).__name__, v)


def swap(v):
    return v + 1 if type(v) is int else v


ONLY = {int, str}


def dumpers():
    """(description, factory of the dumper, basic function of the reference)"""
    def replaced(fn, nargs=3):
        def mk(**kw):
            d = Dumper(**kw)
            f = (lambda d, v, t: fn(v))
            d.handlers[0] = (d.handlers[0][0], f)
            return d
        return mk
    def inserted(pos, cond, fn):
        def mk(**kw):
            d = Dumper(**kw)
            d.handlers.insert(pos, (cond, lambda d, v, t: fn(v)))
            return d
        return mk
    def condition(**kw):
        # the default handler for some of the basic types only, another for the rest
        d = Dumper(**kw)
        old = d.handlers[0][1]
        d.handlers[0] = (lambda v: type(v) in (str, bool, type(None)), old)
        d.handlers.append((lambda v: type(v) in (int, float), lambda d, v, t: mark(v)))
        return d
    def fewer(**kw):
        d = Dumper(**kw)
        d.basictypes = {str, bool, type(None)}
        d.handlers.append((lambda v: type(v) in (int, float), lambda d, v, t: mark(v)))
        return d
    def moved(**kw):
        # same handlers, in another order
        d = Dumper(**kw)
        d.handlers.append(d.handlers.pop(0))
        return d
    def subclass(**kw):
        class D2(Dumper):
            pass
        return D2(**kw)
    r = [
        ('default', lambda **kw: Dumper(**kw), None),
        ('basic handler replaced, marks the type', replaced(mark), mark),
        ('basic handler replaced, changes only ints', replaced(swap), swap),
        ('handler before the basic one for int', inserted(0, lambda v: type(v) is int, mark), lambda v: mark(v) if type(v) is int else v),
        ('handler before the basic one for str', inserted(0, lambda v: type(v) is str, mark), lambda v: mark(v) if type(v) is str else v),
        ('handler before the basic one for nothing', inserted(0, lambda v: False, mark), None),
        ('handler after the basic one', inserted(1, lambda v: type(v) is int, mark), None),
        ('basic handler with another condition', condition, lambda v: mark(v) if type(v) in (int, float) else v),
        ('fewer basic types', fewer, lambda v: mark(v) if type(v) in (int, float) else v),
        ('basic handler moved to the end', moved, None),
        ('subclass of Dumper', subclass, None),
    ]
    return r


DUMPERS = dumpers()


def spellings(node):
    e = node.expr()
    r = [e]
    low = e
    for a, b in (('List[', 'list['), ('FrozenSet[', 'frozenset['), ('Set[', 'set['), ('Tuple[', 'tuple['), ('Dict[', 'dict[')):
        low = low.replace(a, b)
    low = low.replace('frozenlist', 'frozenset')
    if low != e:
        r.append(low)
    return r


EXTRA_HINTS = [
    ('[1, 2]', ['List', 'list', 'Iterable[int]', 'Sequence[int]', 'Collection[int]', 'Optional[List[int]]', 'Union[List[int], List[str]]', 'Union[List[str], int]', "'List[int]'", "ForwardRef('List[int]')",
                'List[Any]', 'List[Union[int, str]]', 'List[Optional[int]]', 'object', 'Any', 'List["int"]', "NewType('N', List[int])", "List[NewType('I', int)]", 'List[Literal[1, 2]]', "TypeVar('T')", "List[TypeVar('T')]", 'None', 'int']),
    ('["a", "b"]', ['List[Literal["a", "b"]]', 'List[str]', 'Literal["x"]', 'Tuple[str]', 'Tuple[str, ...]', 'Set[str]', 'Generic', 'Iterable[str]']),
    ('(1, 2)', ['Tuple[int, ...]', 'Tuple[int, int]', 'tuple', 'Tuple', 'Tuple[Any, ...]', 'tuple[int, ...]', 'Optional[Tuple[int, int]]', 'Union[Tuple[int, int], Tuple[int, ...]]', 'Iterable[int]']),
    ('()', ['Tuple[()]', 'Tuple[int, ...]', 'tuple[()]', 'List[int]']),
    ('(datetime.timedelta(1),)', ['Tuple[datetime.timedelta]', 'Tuple[datetime.timedelta, ...]', 'Tuple[Any]']),
    ('(1, [2])', ['Tuple[int, List[int]]', 'Tuple[int, Any]', 'Tuple[Union[int, List[int]], ...]']),
    ('([1], (2,), {3}, frozenset([4]))', ['Tuple[List[int], Tuple[int], Set[int], FrozenSet[int]]', 'Tuple[Any, ...]']),
    ('{1}', ['Set[int]', 'set[int]', 'set', 'AbstractSet[int]', 'FrozenSet[int]']),
    ('{"a": [1]}', ['Dict[str, List[int]]', 'Mapping[str, List[int]]', 'dict', 'Dict', 'List[int]', 'Dict[str, Any]']),
    ('[None, None]', ['List[None]', 'List[type(None)]', 'list[None]', 'Tuple[None, ...]']),
    ('[True, False]', ['List[bool]', 'List[Any]']),
    ('[1.5, 2.0]', ['List[float]', 'list[float]', 'Tuple[float, ...]']),
    ('[[1], [2]]', ['List[List[int]]', 'list[list[int]]', 'List[Any]', 'List[Iterable[int]]']),
    ('[EInt.A]', ['List[EInt]', 'List[Any]']),
    ('[datetime.date(2020,1,2)]', ['List[datetime.date]', 'List[Any]']),
    ('[{"a": {1}}]', ['List[Dict[str, Set[int]]]', 'List[dict]']),
    # subclasses of the containers
    ('collections.OrderedDict(a=1, b=2)', ['Dict[str, int]', 'dict[str, int]', 'OrderedDict[str, int]', 'Dict[str, Any]', 'Mapping[str, int]']),
    ('collections.defaultdict(int, a=1)', ['Dict[str, int]', 'dict[str, int]', 'DefaultDict[str, int]', 'collections.defaultdict[str, int]']),
    ('collections.Counter(a=1)', ['Dict[str, int]', 'Counter[str]']),
    ('SubDict(a=1)', ['Dict[str, int]', 'SubDict', 'Dict[str, Optional[int]]']),
    ('SubList([1, 2])', ['List[int]', 'list[int]', 'SubList', 'List[Any]']),
    ('SubTuple26((1, 2))', ['Tuple[int, int]', 'Tuple[int, ...]']),
    ('SubSet26({1})', ['Set[int]', 'AbstractSet[int]']),
    ('CopyList26([1, 2])', ['List[int]', 'list[int]']),
    ('{"a": collections.OrderedDict(b=1)}', ['Dict[str, Dict[str, int]]', 'dict[str, dict[str, int]]']),
    ('{1: 2}', ['Dict[int, int]', 'dict[int, int]', 'Dict[Any, int]', 'Dict[int, Any]']),
    ('{(1, 2).__len__(): None}', ['Dict[int, None]', 'Dict[int, Optional[int]]']),
    ('5', ['int', 'Any', 'Union[int, str]', 'Literal[5]', 'List[int]', 'Optional[int]']),
]


# Unions of containers, where what the first one says isn't about the value
MEMBERS = [('List[int]', '[1, 2]'), ('List[EInt]', '[EInt.A]'), ('List[List[int]]', '[[1], []]'), ('Tuple[str, ...]', '("a", "b")'), ('Tuple[EInt, int]', '(EInt.A, 1)'), ('FrozenSet[int]', 'frozenset([1])'), ('List[datetime.date]', '[datetime.date(2020, 1, 2)]'),
           ('Dict[str, int]', '{"a": 1}'), ('Dict[str, List[EInt]]', '{"a": [EInt.A]}'), ('None', 'None'), ('int', '1'), ('Iterable[int]', '{1: 2}.keys()')]


def union_hints(i, tier):
    others = [m for m in range(len(MEMBERS)) if m != i]
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for sub in itertools.combinations(others, n):
            for order in itertools.permutations((i,) + sub):
                e = ', '.join(MEMBERS[m][0] for m in order)
                yield 'Union[%s]' % e
                if n == 1:
                    yield 'List[Union[%s]]' % e
                    yield 'Tuple[Union[%s], ...]' % e
                    yield 'Optional[List[Union[%s]]]' % e
                    yield 'Annotated[Union[%s], 1]' % e
                    yield 'NewType("U26", Union[%s])' % e
                    yield ' | '.join(x.replace('List[', 'list[') for x in e.split(', ') if ']' in x or '[' not in x) if e.count(',') == 1 and 'Dict' not in e else 'Union[%s]' % e


def union_case(i, s, tier):
    text = MEMBERS[i][1]
    if 'keys()' in text:
        return
    for h in union_hints(i, tier):
        v = text
        if h.startswith('List') or h.startswith('Optional[List'):
            v = '[%s]' % text
        elif h.startswith('Tuple'):
            v = '(%s,)' % text
        try:
            hint = eval(h, NS)
        except TypeError:
            continue
        case(s, v, h, hint, None)
        if s.full:
            return
    s.sample('%s with unions' % text, 1)


def dump_ref(dc, basic, v):
    c = DCfg(**dc.kw)
    c.basic = basic
    return refdump(c, v)


DC = [DCfg(), DCfg(hidedefault=False, isodates=True)]


def case(s, text, hint_src, hint, node):
    for dc in DC:
        for name, mk, basic in DUMPERS:
            s.states += 1
            v = make(text)
            try:
                exp = dump_ref(dc, basic, v)
            except (Undumpable, TypeError):
                continue
            d = mk(**dc.kw)
            s.transitions += 2
            s.validated += 2
            for label, f in (('with', lambda: d.dump(make(text), hint)), ('without', lambda: d.dump(make(text))), ('again with', lambda: d.dump(make(text), hint))):
                try:
                    got = f()
                except Exception as e:
                    why = 'raises %r' % e
                else:
                    if same(got, exp):
                        continue
                    why = 'gives %r' % (got,)
                what = 'dump of %s %s the hint %s, dumper: %s (%r): %s instead of %r' % (text, label, hint_src, name, dc, why, exp)
                s.bad(what, dump_replay(node, text, dc, what, hint_src) if node else PRELUDE + '# ' + what)
                break
            if s.full:
                return


# ---------------------------------------------------------------- fields

FIELD_TYPES = ['int', 'List[int]', 'list[int]', 'Set[int]', 'Tuple[int, ...]', 'Tuple[int, str]', 'Dict[str, int]', 'List[str]', 'List[List[int]]', 'Optional[List[int]]', 'List[Optional[int]]',
               'List[Any]', 'Any', 'FrozenSet[str]', 'List[EInt]', 'List[bool]', 'Dict[str, List[int]]', 'dict[int, str]', 'Dict[EInt, int]', 'Optional[Dict[str, int]]']
FIELD_VALUES = {
    'int': ['1'], 'List[int]': ['[1, 2]', '[]', 'SubList([1])', 'CopyList26([1])'], 'list[int]': ['[1, 2]'], 'Set[int]': ['{1}', 'set()'], 'Tuple[int, ...]': ['(1, 2)', '()'], 'Tuple[int, str]': ["(1, 'a')"],
    'Dict[str, int]': ["{'a': 1}", 'collections.OrderedDict(b=1, a=2)', 'collections.defaultdict(int, a=1)', 'collections.Counter("aa")', 'SubDict(a=1)', '{}'], 'Dict[str, List[int]]': ["{'a': [1]}", 'collections.OrderedDict(b=[1])', "{'a': SubList([1])}"],
    'dict[int, str]': ["{1: 'a'}", 'collections.OrderedDict({1: "a"})'], 'Dict[EInt, int]': ['{EInt.A: 1}', 'collections.OrderedDict({EInt.A: 1})'], 'Optional[Dict[str, int]]': ['None', 'SubDict(a=1)'], 'List[str]': ["['a', '']"], 'List[List[int]]': ['[[1], []]'], 'Optional[List[int]]': ['None', '[1]'], 'List[Optional[int]]': ['[1, None]'],
    'List[Any]': ['[1, [2], {3: (4,)}]'], 'Any': ['[1, (2, 3)]', '{"a": {1}}'], 'FrozenSet[str]': ["frozenset(['a'])"], 'List[EInt]': ['[EInt.A]'], 'List[bool]': ['[True]'],
}
# text of the class for a field of type %s. $ is the name of the class
FORMS = [
    '@dataclass\nclass $:\n    f: %s\n    g: int = 3\n',
    '@dataclass\nclass $:\n    f: "%s"\n    g: "int" = 3\n',
    '@dataclass\nclass $:\n    f: %s\n    g: "Missing" = 3\n',
    '@dataclass\nclass $:\n    f: "Missing[%s]"\n    g: int = 3\n',
    '@dataclass\nclass $:\n    f: %s\n    g: Optional["$"] = 3\n',
    '@dataclass\nclass $:\n    f: %s\n    g: int = 3\n$.__annotations__ = {}\n',
    '@dataclass\nclass $:\n    f: %s\n    g: int = 3\ndel $.__annotations__\n',
    '@dataclass\nclass B$:\n    f: %s\n@dataclass\nclass $(B$):\n    g: int = 3\n',
    '@dataclass\nclass B$:\n    f: "%s"\n@dataclass\nclass $(B$):\n    g: "Missing" = 3\n',
    '@dataclass\nclass B$:\n    f: List[EInt]\n@dataclass\nclass $(B$):\n    f: %s\n    g: int = 3\n',
    '@dataclass\nclass B$:\n    f: List[int]\nclass M$(B$):\n    f: %s\n@dataclass\nclass $(M$):\n    g: int = 3\n',
    'def $mk():\n    class Local: pass\n    @dataclass\n    class $:\n        f: %s\n        g: "Local" = 3\n    return $\n$ = $mk()\n',
    '$ = dataclasses.make_dataclass("$", [("f", %s), ("g", int, 3)])\n',
    '$ = dataclasses.make_dataclass("$", ["f", ("g", int, 3)])  # %s\n',
    'from __future__ import annotations\n@dataclass\nclass $:\n    f: %s\n    g: int = 3\n',
    'from __future__ import annotations\n@dataclass\nclass $:\n    f: %s\n    g: Missing = 3\n',
    '@dataclass\nclass $:\n    f: %s\n    g: int = 3\n    K: ClassVar[int] = 1\n    def __post_init__(self): pass\n',
    '@dataclass\nclass $(Generic[TypeVar("T")]):\n    f: %s\n    g: int = 3\n',
    '@dataclass(slots=True)\nclass $:\n    f: %s\n    g: int = 3\n',
    '@dataclass\nclass $:\n    f: %s = field(metadata={"name": "F"})\n    g: int = field(default=3, metadata={"name": "f"})\n',
    '@dataclass\nclass $:\n    f: %s\n    g: 1 = 3\n',
    '@dataclass\nclass $:\n    f: %s\n    g: "not valid python" = 3\n',
    '@dataclass\nclass $:\n    f: %s\n    g: None = 3\n',
]


def fields_case(form, ftype, s):
    name = nm('FD')
    text = PRELUDE_FUTURE(form) + form.replace('$', name) % ftype
    exec(compile(text, '<%s>' % name, 'exec', dont_inherit=True), NS)
    c = NS[name]
    renamed = '"name": "F"' in form
    for dc in DC:
        for dname, mk, basic in DUMPERS:
            d = mk(**dc.kw)
            for v in FIELD_VALUES[ftype]:
                for g in ('3', '4', '[1, (2,)]'):
                    cfg = DCfg(**dc.kw)
                    cfg.basic = basic
                    exp = {'F' if renamed else 'f': refdump(cfg, make(v))}
                    if g != '3' or not dc.hidedefault:
                        exp['f' if renamed else 'g'] = refdump(cfg, make(g))
                    o = c(make(v), make(g))
                    for wrap, hint in ((lambda x: x, None), (lambda x: x, c), (lambda x: [x], List[c]), (lambda x: (x,), Tuple[c, ...])):
                        s.states += 1
                        s.validated += 1
                        s.transitions += 1
                        e = exp if isinstance(wrap(1), int) else [exp]
                        try:
                            got = d.dump(wrap(o)) if hint is None else d.dump(wrap(o), hint)
                        except Exception as x:
                            why = 'raises %s: %s' % (type(x).__name__, x)
                        else:
                            if same(got, e):
                                continue
                            why = 'gives %r' % (got,)
                        s.bad('dump of %s(%s, %s), hint %r, dumper: %s (%r): %s instead of %r\n%s' % (name, v, g, hint, dname, dc, why, e, text), PRELUDE + text)
                        return
    s.sample(text[:200], 1)


def PRELUDE_FUTURE(form):
    return ''


def run(tier, seed):
    ts = universe('quick' if tier == 'quick' else 'middle') + extra_types()
    units = [('f', (a, b)) for a in range(len(FORMS)) for b in FIELD_TYPES] + [('h', i) for i in range(len(EXTRA_HINTS))] + [('t', i) for i in range(len(ts))] + [('u', i) for i in range(len(MEMBERS))]
    def f(u, s):
        if u[0] == 'f':
            fields_case(FORMS[u[1][0]], u[1][1], s)
        elif u[0] == 'u':
            E_INT.t
            union_case(u[1], s, tier)
        elif u[0] == 'h':
            E_INT.t
            text, hints = EXTRA_HINTS[u[1]]
            for h in hints:
                case(s, text, h, eval(h, NS), None)
            s.sample('%s with the hints %s' % (text, hints), 1)
        else:
            node = ts[u[1]]
            node.t
            vs = values(node, 4 if tier == 'quick' else 8)
            if tier == 'quick':
                vs = spread(vs, 8)
            for text in vs:
                for sp in spellings(node):
                    case(s, text, sp, eval(sp, NS), node)
                    if s.full:
                        return
    total = core.explore(units, f)
    return total, dict(bound='%d types in every spelling, %d forms of dataclass x %d field types, %d dumpers, unions of up to %d members' % (len(ts), len(FORMS), len(FIELD_TYPES), len(DUMPERS), 3 if tier == 'quick' else 4))
