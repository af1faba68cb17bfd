"""
C17: lists of up to 2 (3) custom handlers (condition, action, position in the
list) for each kind of type, with the type in every context; compared with the
reference model in which the first handler in list order decides. The same for
values when dumping.
"""
import itertools

from mc.diff import *
from mc.contexts import *
from mc.inhab import make
from typedload.exceptions import TypedloadValueError


class CondError(Exception):
    """Raised by a condition"""


class ModelCondError(Exception):
    """The model says that a condition raises"""


BASICTYPES = {int, str, float, bool, type(None), None}


def targets():
    ref = Ref('C17Ref')
    ref.target = obj('nt', [F('z', INT)])
    return [
        ('unknown', Unknown('HC')), ('nt', obj('nt', [F('a', INT)])), ('dc', obj('dc', [F('a', INT), F('b', STR, ('v', "'x'"))])), ('attrs', obj('attrs', [F('a', INT)])), ('td', obj('td', [F('a', INT)])),
        ('list', Seq('List', INT)), ('set', Seq('Set', INT)), ('frozenset', Seq('FrozenSet', INT)), ('tuple', Seq('Tuple', INT)), ('tuplefix', TupleFix(INT, STR)), ('dict', DictT(STR, INT)), ('union', UnionT(INT, Seq('List', INT))), ('literal', LIT), ('enum', E_INT),
        ('date', DATE), ('delta', DELTA), ('path', PATH), ('pattern', PAT), ('newtype', NT_INT), ('any', ANY), ('uuid', UUID_), ('listclass', Seq('List', Unknown('HC3'))),
    ]


OTHER = Unknown('HC2')
OTHER.t


class H:
    """One custom handler"""
    def __init__(self, i, cond, act, pos, T):
        self.i, self.cond, self.act, self.pos, self.T = i, cond, act, pos, T

    def __repr__(self):
        return '%s→%s at %s' % (self.cond, self.act, self.pos)

    def condition(self, t):
        c = self.cond
        if c == 'exact':
            return t == self.T
        if c == 'truthy':
            return ['x'] if t == self.T else ''
        if c == 'all':
            return t not in BASICTYPES and t is not OTHER.t
        if c == 'raise':
            raise CondError()
        if c == 'raisevalue':
            raise ValueError('condition')
        if c == 'raiseexact':
            # raises for the types it does not know
            if t != self.T:
                raise CondError()
            return True
        if c == 'raisethis':
            if t == self.T:
                raise CondError()
            return False
        if c == 'never':
            return False
        raise RuntimeError(c)

    def load(self, l, v, t):
        if self.act == 'mark':
            return ('h%d' % self.i, repr(v), repr(t))
        if self.act == 'fail':
            raise TypedloadValueError('no', value=v, type_=t)
        if self.act == 'delegate':
            return ('d%d' % self.i, l.load(v, OTHER.t))
        raise RuntimeError()


def install(handlers, hs, index, other=True):
    """Puts the handlers in their positions. index: that of the default handler of the target, or None"""
    new = list(handlers)
    anchor = new[index] if index is not None else None
    for h in hs:
        pair = (h.condition, h.load)
        if h.pos == 'start':
            new.insert(0, pair)
        elif h.pos == 'end' or anchor is None:
            new.append(pair)
        else:
            k = new.index(anchor)
            new.insert(k if h.pos == 'before' else k + 1, pair)
    if other:
        new.append((lambda t: t is OTHER.t, lambda l, v, t: ('other', repr(v))))
    return new


def deciding(handlers, t, raising):
    """Index of the first handler whose condition is true"""
    for i, (c, _) in enumerate(handlers):
        try:
            m = c(t)
        except Exception:
            if raising:
                raise ModelCondError()
            m = False
        if m:
            return i
    return None


def model_custom(cfg, handlers, own, raising):
    memo = {}
    def custom(node, v):
        t = node.t
        k = repr(node)
        if k not in memo:
            try:
                memo[k] = deciding(handlers, t, raising)
            except ModelCondError:
                memo[k] = 'raises'
        i = memo[k]
        if i == 'raises':
            raise ModelCondError()
        if i is None:
            return node.bad(v)
        h = own.get(id(handlers[i][0]))
        if h is None:
            return None
        if h == 'other':
            return R([('other', repr(v))], [])
        if h.act == 'mark':
            return R([('h%d' % h.i, repr(v), repr(t))], [])
        if h.act == 'fail':
            return node.bad(v)
        r = OTHER.res(cfg, v)
        return R([('d%d' % h.i, x) for x in r.vals], r.fails)
    return custom, memo


def subtypes(node, seen=None):
    seen = {} if seen is None else seen
    if id(node) not in seen:
        seen[id(node)] = node
        for d in node.deps:
            subtypes(d, seen)
        if isinstance(node, Obj):
            for f in node.allfields():
                subtypes(f.node, seen)
    return seen.values()


def has_union(node):
    return any(isinstance(i, UnionT) for i in subtypes(node))


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def loadcases(s, node, tnode, docs, hs, raising):
    T = tnode.t
    base = Loader(raiseconditionerrors=raising)
    index = None
    for i, (c, _) in enumerate(base.handlers):
        if c(T):
            index = i
            break
    base.handlers = install(base.handlers, hs, index)
    cfg = Cfg()
    own = {}
    k = 0
    for c, f in base.handlers:
        for h in hs:
            if c == h.condition:
                own[id(c)] = h
    own[id(base.handlers[-1][0])] = 'other'
    custom, memo = model_custom(cfg, base.handlers, own, raising)
    cfg.custom = custom
    # conditions that raise can be evaluated for any of the types
    may = False
    if raising:
        for n in subtypes(node):
            try:
                deciding(base.handlers, n.t, True)
            except ModelCondError:
                may = True
    unknown = any(deciding(base.handlers, n.t, False) is None for n in subtypes(node))
    for d in docs:
        s.states += 1
        STEPS[0] = 0
        try:
            r = node.res(cfg, build(d))
        except ModelCondError:
            r = None
        except Unspecified:
            continue
        s.transitions += STEPS[0]
        what = None
        for again in range(2):
            s.validated += 1
            try:
                out = 'ok', base.load(build(d), node.t)
            except TypedloadException as e:
                out = 'err', e
            except Exception as e:
                out = 'crash', e
            if r is None:
                if has_union(node):
                    # other members are possible
                    continue
                if out[0] == 'ok':
                    what = 'returned %r, but a condition raises' % (out[1],)
                elif not any(type(e) in (CondError, ValueError) for e in chain(out[1])):
                    what = 'raised %r, but the error of the condition is lost' % (out[1],)
            elif out[0] != 'ok' and may:
                pass
            elif out[0] == 'err' and unknown and r.must_load and (has_union(node) or isinstance(out[1], TypedloadTypeError)):
                # the handler can be looked for even if there is no data of that type
                pass
            elif out[0] == 'crash':
                what = 'raised %r' % out[1]
            else:
                what = mismatch(r, out)
                if not what and out[0] == 'err' and not has_union(node) and r.fails and all(memo.get(repr(f.node), 0) is None for f in r.fails) and not isinstance(out[1], TypedloadTypeError):
                    what = 'a type with no handler is %s and not a type error' % type(out[1]).__name__
                elif not what and out[0] == 'err' and not has_union(node) and r.fails and all(memo.get(repr(f.node), 0) is None for f in r.fails) and not any(out[1].type_ is f.node.t or out[1].type_ == f.node.t for f in r.fails):
                    what = 'the exception does not tell the type with no handler'
                if what:
                    what = '%s; %s' % (describe(out), what)
            if what:
                what = 'load %s into %s with handlers %s for %s, raiseconditionerrors=%r%s: %s' % (src(d), node.expr(), hs, tnode.expr(), raising, ', second time' if again else '', what)
                s.bad(what, PRELUDE + node.source() + '\n# ' + what)
                return


CONDS = ['exact', 'truthy', 'all', 'never', 'raise', 'raisevalue', 'raiseexact', 'raisethis']
ACTS = ['mark', 'fail', 'delegate']
POS = ['start', 'before', 'after', 'end']


def allcontexts():
    r = [('top', lambda x: x, lambda l: l[0], 1, False, None)] + contexts()
    r.append(('dictkey', lambda x: DictT(x, INT), lambda l: {hash_doc(l[0]): 1}, 1, True, None))
    r.append(('listlist', lambda x: Seq('List', Seq('List', x)), lambda l: [[l[0]], [l[0]]], 1, False, None))
    r.append(('dcdict', lambda x: obj('dc', [F('p', DictT(STR, x)), F('q', x, ('v', 'None'))]), lambda l: {'p': {'k': l[0]}, 'q': l[0]}, 1, False, None))
    r.append(('union', lambda x: UnionT(Seq('Set', STR), x), lambda l: l[0], 1, False, None))
    return r


def hash_doc(d):
    return d if hashable_doc(d) and not isinstance(d, (list, dict)) else 0


def handler_lists(T, tier, n, small=False):
    conds = [c for c in CONDS if not small or c in ('exact', 'all', 'raise', 'raisethis')]
    acts = ACTS if not small else ['mark']
    one = [(c, a, p) for c in conds for a in (acts if c in ('exact', 'all', 'raiseexact') else ['mark']) for p in POS]
    for combo in itertools.product(one, repeat=n):
        yield [H(i, c, a, p, T) for i, (c, a, p) in enumerate(combo)]


# ------------------------------------------------------------------- enum hints and nesting of handlers

def special(s):
    """Enum hints, custom handlers that load other custom types, replaced handlers"""
    DECL = '''
class E1(Enum):
    _x: HC
    A = ('m', 1)
    B = 2
class Node17(NamedTuple):
    h: HC
    n: Optional['Node17'] = None
    l: List['Node17'] = []
class Box:
    def __init__(self, *a): self.a = a
    def __eq__(self, o): return type(o) is Box and o.a == self.a
    def __repr__(self): return 'Box%r' % (self.a,)
@attr.s
class AtC:
    a = attr.ib(converter=conv)
'''
    exec(compile('def conv(x: HC): return ["c", x]\n' + DECL, '<c17>', 'exec', dont_inherit=True), NS)
    def new():
        l = Loader()
        l.handlers.append((lambda t: t is NS['HC'], lambda l, v, t: ('m', l.load(v, int))))
        l.handlers.insert(0, (lambda t: t is NS['Box'], lambda l, v, t: NS['Box'](l.load(v, List[NS['HC']]), l.load({'h': v[0]}, NS['Node17']))))
        return l
    m = lambda i: ('m', i)
    N, B = NS['Node17'], NS['Box']
    cases = [('1', 'E1', NS['E1'].A), ('"1"', 'E1', NS['E1'].A), ('2', 'E1', NS['E1'].B), ('[1, 2]', 'List[E1]', [NS['E1'].A, NS['E1'].B]), ('["1", 2]', 'Box', B([m(1), m(2)], N(m(1)))), ('[[1]]', 'List[Box]', [B([m(1)], N(m(1)))]),
             ('{"a": [3]}', 'Dict[str, Box]', {'a': B([m(3)], N(m(3)))}), ('{"h": 1, "n": {"h": 2, "l": [{"h": 3}]}}', 'Node17', N(m(1), N(m(2), None, [N(m(3))]))), ('{"h": 1, "l": [{"h": 2, "n": {"h": "4"}}]}', 'List[Node17]', None),
             ('[{"h": 1, "l": [{"h": 2, "n": {"h": "4"}}]}]', 'List[Node17]', [N(m(1), None, [N(m(2), N(m(4)))])]), ('{"a": 5}', 'AtC', NS['AtC'](m(5))), ('[{"a": 5}]', 'List[AtC]', [NS['AtC'](m(5))]), ('["x"]', 'Box', None), ('["x"]', 'List[E1]', None), ('"x"', 'E1', None), ('{"h": "x"}', 'Node17', None), ('{"a": "x"}', 'AtC', None)]
    for order in itertools.permutations(range(len(cases)), 2):
        l = new()
        for i in order:
            v, t, exp = cases[i]
            s.states += 1
            s.validated += 1
            try:
                got = l.load(eval(v, NS), eval(t, NS))
            except TypedloadException as e:
                got = None
            if got != exp:
                what = 'handlers for HC and for Box, that loads HC: load %s into %s gives %r instead of %r (order %s)' % (v, t, got, exp, order)
                s.bad(what, PRELUDE + DECL + '# ' + what)
    # every default handler, replaced in place
    for name, tnode in targets():
        if name in ('unknown', 'listclass'):
            continue
        l = Loader()
        i = next(i for i, (c, _) in enumerate(l.handlers) if c(tnode.t))
        l.handlers[i] = (l.handlers[i][0], lambda l, v, t: 'replaced')
        for t, v, exp in ((tnode.t, 1, 'replaced'), (List[tnode.t], [1], ['replaced']), (Dict[str, tnode.t], {'k': 1}, {'k': 'replaced'}), (Tuple[tnode.t, tnode.t], (1, 2), ('replaced', 'replaced'))):
            s.states += 1
            s.validated += 1
            try:
                got = l.load(v, t)
            except Exception as e:
                got = e
            if got != exp and not (got == 'replaced' and name in ('list', 'dict', 'tuplefix', 'tuple')) and not (i == next(i for i, (c, _) in enumerate(Loader().handlers) if c(t)) and got == 'replaced'):
                s.bad('default handler of %s replaced: load of %r into %r gives %r' % (name, v, t, got))
    # lists of handlers given to the constructor
    for n in range(len(Loader().handlers)):
        hs = Loader().handlers
        removed = hs.pop(n)
        l = Loader(handlers=hs)
        for name, tnode in targets() + [('int', INT), ('None', NONE)]:
            i = deciding(hs, tnode.t, False)
            s.states += 1
            s.validated += 1
            d = tnode.valid()[0]
            try:
                got = ('ok', l.load(build(d), tnode.t))
            except TypedloadTypeError as e:
                got = ('type', e)
            except TypedloadException as e:
                got = ('err', e)
            if i is None and got[0] != 'type':
                s.bad('without the handler %d there is no handler for %s, but load of %r %r' % (n, name, d, got))


def undumpable(s):
    """
    What no handler takes is a value error with the value in it, whatever it
    is, wherever it is, with any of the default handlers missing or none at all
    """
    DECL = '''
class BadStr:
    def __str__(self): raise KeyError('str')
class BadRepr:
    def __repr__(self): raise KeyError('repr')
class BadBoth:
    def __repr__(self): raise ZeroDivisionError('repr')
    def __str__(self): raise KeyError('str')
class NotStr:
    def __repr__(self): return 3
class BadFormat:
    def __format__(self, x): raise KeyError('format')
    def __mod__(self, x): raise KeyError('mod')
class Percent:
    def __repr__(self): return '%s %d %(x)s %'
class TwoT(NamedTuple):
    a: Any
    b: int = 2
class BadTuple(tuple):
    def __repr__(self): raise KeyError('repr')
class SlotsOnly:
    __slots__ = ('a',)
'''
    ns = dict(NS)
    exec(compile(DECL, '<c17>', 'exec', dont_inherit=True), ns)
    alone = ['Opaque(1)', 'BadStr()', 'BadRepr()', 'BadBoth()', 'NotStr()', 'BadFormat()', 'Percent()', 'SlotsOnly()', 'object()', 'int', 'len', 'b"%s"', 'complex(1)', '1j', 'iter([])', 'range(3)', 'types.SimpleNamespace(a=1)', 'lambda: 0', 'Exception("%d")', 'memoryview(b"a")', 'BadStr', 'List[int]', 'NotImplemented', '...']
    typed = DVALUES + ['()', '(1, 2)', '(1, 2, 3)', '("%s",)', '{}', '{"a": 1}', '{1: 2}', '[]', 'set()', 'TwoT(1)', 'TwoT((1, 2))', 'BadTuple()', 'BadTuple((1,))', '"%s"', '"%(a)s"', '""', '10**5000', 'float("nan")', '((1, 2), (3,))', '{(): ()}', 'SubList([1])', 'SubDict(a=1)']
    wraps = [('%s', lambda v: v), ('[1, %s]', lambda v: [1, v]), ('(%s,)', lambda v: (v,)), ('{"k": %s}', lambda v: {'k': v}), ('DN(%s)', lambda v: NS['DN'](v)), ('DD([%s])', lambda v: NS['DD']([v])), ('DA(%s)', lambda v: NS['DA'](v)), ('[[%s]]', lambda v: [[v]])]
    def attempt(d, handlers, label, text, v, inner, hint):
        s.states += 1
        s.validated += 1
        what = 'dump of %s%s with %s' % (text, '' if hint is None else ' with the hint %r' % (hint,), label)
        try:
            r = d.dump(v) if hint is None else d.dump(v, hint)
        except TypedloadValueError as e:
            try:
                str(e)
            except Exception as x:
                s.bad('%s: the error has no text: %r' % (what, x), PRELUDE + DDECL + DECL)
                return
            if e.value is not inner or e.type_ is not type(inner):
                s.bad('%s: the value of the error is not the one that has no handler, or the type is %r' % (what, e.type_), PRELUDE + DDECL + DECL)
        except Exception as e:
            s.bad('%s: %r' % (what, e), PRELUDE + DDECL + DECL)
        else:
            s.bad('%s: no error' % what, PRELUDE + DDECL + DECL)
    for text in alone:
        for fmt, wrap in wraps:
            inner = eval(text, ns)
            v = wrap(inner)
            for raising in (True, False):
                for hint in (None, Any):
                    attempt(Dumper(raiseconditionerrors=raising), None, 'the default handlers', fmt % text, v, inner, hint)
                    if s.full:
                        return
    for text in alone + typed:
        for label, hs in [('no handlers', [])] + [('a handler that takes nothing', [(lambda v: False, lambda d, v, t: 1)])]:
            v = eval(text, ns)
            for hint in (None, Tuple[int, ...], Any):
                attempt(Dumper(handlers=list(hs)), hs, label, text, v, v, hint)
                d = Dumper()
                d.handlers[:] = hs
                attempt(d, hs, label + ' (cleared)', text, v, v, hint)
    # without those that take the value
    for text in typed:
        v = eval(text, ns)
        def takes(p):
            try:
                return p[0](v)
            except Exception:
                return False
        hs = [p for p in Dumper().handlers if not takes(p)]
        d = Dumper()
        d.handlers = [p for p in d.handlers if not takes(p)]
        attempt(d, hs, 'without the handlers that take it', text, v, v, None)
        if any(p[0]([1]) for p in d.handlers):
            attempt(d, hs, 'without the handlers that take it', '[%s]' % text, [v], v, None)
        if s.full:
            return


# ------------------------------------------------------------------- dump

DVALUES = ['Opaque(1)', '7', '"s"', 'None', 'True', '1.5', 'SubInt(3)', 'SubStr("t")', 'DN(1)', 'DD(1, [2])', 'DA(1)', '[1]', '(1,)', '{1}', 'frozenset([1])', '{"a": 1}', 'E17.A', 'datetime.date(2020, 1, 2)', 'datetime.timedelta(1)', 'pathlib.Path("a")', 're.compile("a")', 'uuid.UUID(int=1)', 'DN(Opaque(2))', 'DSub(1)', 'range(2)', 'b"x"', 'complex(1)']
DDECL = '''
class DN(NamedTuple):
    a: Any
@dataclass
class DD:
    a: Any
    b: List[int] = field(default_factory=list)
@dataclass
class DSub(DD):
    c: int = 2
@attr.s
class DA:
    a = attr.ib()
class E17(Enum):
    A = 1
@dataclass
class DF:
    x: List[Opaque]
    y: Any = 5
    z: Optional[Opaque] = None
'''
DCONTEXTS = [
    ('top', lambda v: v, lambda x: x), ('list', lambda v: [v, v], lambda x: [x, x]), ('tuple', lambda v: (v, 1), lambda x: [x, 1]), ('dict', lambda v: {'k': v}, lambda x: {'k': x}), ('nt', lambda v: NS['DN'](v), None), ('dc', lambda v: NS['DD'](v), None),
    ('attrs', lambda v: NS['DA'](v), None), ('annotated', lambda v: NS['DF']([v], v, v), None), ('listlist', lambda v: [[v], [1, v]], None), ('hinted', lambda v: [v], None), ('key', lambda v: {v: 1}, None), ('set', lambda v: {v}, None),
]


class DH(H):
    def condition(self, v):
        c = self.cond
        if c == 'exact':
            return type(v) is self.T
        if c == 'instance':
            return isinstance(v, self.T)
        if c == 'truthy':
            return ['x'] if type(v) is self.T else ''
        if c == 'all':
            return type(v) not in BASICTYPES and type(v) is not D17Other
        if c == 'raise':
            raise CondError()
        if c == 'raisenonbasic':
            if type(v) not in BASICTYPES:
                raise CondError()
        if c == 'raisethis':
            if type(v) is self.T:
                raise CondError()
        return False

    def handler(self):
        act, i = self.act, self.i
        if act == 'mark':
            return lambda d, v, t: 'h%d' % i
        if act == 'mark2':
            return lambda d, v: 'h%d' % i
        if act == 'delegate':
            return lambda d, v, t: ['d%d' % i, d.dump(NS['D17Other'](v))]
        if act == 'fail':
            def f(d, v, t):
                raise TypedloadValueError('no', value=v, type_=type(v))
            return f


class D17Other:
    def __init__(self, v): self.v = v


DCONDS = ['exact', 'instance', 'truthy', 'all', 'never', 'raise', 'raisenonbasic', 'raisethis']
DACTS = ['mark', 'mark2', 'delegate', 'fail']


class DFail(Exception):
    pass


def dumpcases(s, vsrc, cname, value, hs, raising, hint=None):
    d = Dumper(raiseconditionerrors=raising)
    base = list(d.handlers)
    v0 = make(vsrc)
    anchor = None
    for p in base:
        if p[0](v0):
            anchor = p
            break
    new = list(base)
    own = {}
    for h in hs:
        pair = (h.condition, h.handler())
        own[id(pair)] = (pair, h)
        if h.pos == 'start':
            new.insert(0, pair)
        elif h.pos == 'end' or anchor is None:
            new.append(pair)
        else:
            k = new.index(anchor)
            new.insert(k if h.pos == 'before' else k + 1, pair)
    opair = (lambda v: type(v) is D17Other, lambda d, v, t: 'other')
    new.append(opair)
    d.handlers = new
    cfg = DCfg()
    def custom(o):
        for p in new:
            try:
                m = p[0](o)
            except Exception:
                if raising:
                    raise ModelCondError()
                m = False
            if m:
                if p is opair:
                    return ('other',)
                if id(p) not in own:
                    if type(o) in (NS['DN'], NS['DD'], NS['DSub'], NS['DA'], NS['DF']):
                        return (dobj(o),)
                    if isinstance(o, range):
                        return ([cfgdump(i) for i in o],)
                    return None
                h = own[id(p)][1]
                if h.act in ('mark', 'mark2'):
                    return ('h%d' % h.i,)
                if h.act == 'fail':
                    raise DFail()
                return (['d%d' % h.i, cfgdump(D17Other(o))],)
        raise Undumpable()
    def cfgdump(o):
        return refdump(cfg, o)
    def dobj(o):
        if isinstance(o, tuple):
            return {'a': cfgdump(o.a)}
        r = {}
        for k, dflt in {'DD': (('a', 0), ('b', [[]])), 'DSub': (('a', 0), ('b', [[]]), ('c', [2])), 'DA': (('a', 0),), 'DF': (('x', 0), ('y', [5]), ('z', [None]))}[type(o).__name__]:
            x = getattr(o, k)
            if dflt and x == dflt[0]:
                continue
            r[k] = cfgdump(x)
        return r
    cfg.custom = custom
    s.states += 1
    exc = None
    try:
        exp = cfgdump(value)
    except ModelCondError:
        exc = CondError
    except Undumpable:
        exc = TypedloadValueError
    except DFail:
        exc = TypedloadValueError
    except TypeError:
        # not hashable key
        return
    for again in range(2):
        s.validated += 1
        why = None
        try:
            got = d.dump(value) if hint is None else d.dump(value, hint)
        except Exception as e:
            if exc is None:
                why = 'raised %r instead of giving %r' % (e, exp)
            elif not isinstance(e, exc):
                why = 'raised %s instead of %s' % (type(e).__name__, exc.__name__)
        else:
            if exc is not None:
                why = 'gave %r instead of raising %s' % (got, exc.__name__)
            elif not same(got, exp):
                why = 'gave %r instead of %r' % (got, exp)
        if why:
            what = 'dump of %r (%s) with handlers %s for %s, raiseconditionerrors=%r%s: %s' % (value, cname, hs, vsrc, raising, ', second time' if again else '', why)
            s.bad(what, PRELUDE + DDECL + '# ' + what)
            return


def dhandlers(T, n, small):
    conds = DCONDS if not small else ['exact', 'all', 'raise', 'raisethis']
    one = [(c, a, p) for c in conds for a in (DACTS if not small and c in ('exact', 'all') else ['mark']) for p in POS]
    for combo in itertools.product(one, repeat=n):
        yield [DH(i, c, a, p, T) for i, (c, a, p) in enumerate(combo)]


def run(tier, seed):
    quick = tier == 'quick'
    exec(compile(DDECL, '<c17>', 'exec', dont_inherit=True), NS)
    NS['D17Other'] = D17Other
    ts = targets()
    cs = allcontexts()
    units = [('special', 0, 0), ('undumpable', 0, 0)]
    units += [('load', i, j) for i in range(len(ts)) for j in range(len(cs))]
    units += [('dump', i, j) for i in range(len(DVALUES)) for j in range(len(DCONTEXTS))]
    for _, t in ts:
        t.t
    def f(u, s):
        kind, i, j = u
        if kind == 'special':
            return special(s)
        if kind == 'undumpable':
            return undumpable(s)
        if kind == 'load':
            tname_, tnode = ts[i]
            c = cs[j]
            if c[4] and tname_ in ('dict', 'list', 'set', 'td', 'any', 'union', 'listclass', 'dc', 'attrs'):
                return
            if c[0] in ('optional', 'union') and tname_ == 'any':
                return
            node = c[1](tnode)
            docs = [c[2]([d] * c[3]) for d in (tnode.valid()[:2] + [None, Opaque1])]
            if c[0] == 'list':
                docs += [[], 5]
            lists = [[]] + [l for l in handler_lists(tnode.t, tier, 1)]
            if not quick or c[0] in ('top', 'list', 'dc', 'union'):
                lists += list(handler_lists(tnode.t, tier, 2, small=quick))
            if not quick and c[0] == 'top':
                lists += list(handler_lists(tnode.t, tier, 3, small=True))
            s.sample('%s in %s: %d lists of handlers' % (tname_, c[0], len(lists)), 1)
            for hs in lists:
                for raising in (True, False):
                    if raising and len(hs) == 2 and quick and not any('raise' in h.cond for h in hs):
                        continue
                    loadcases(s, node, tnode, docs, hs, raising)
                    if s.full:
                        return
        else:
            vsrc = DVALUES[i]
            cname, wrap, _ = DCONTEXTS[j]
            v = make(vsrc)
            if cname in ('key', 'set'):
                try:
                    hash(v)
                except TypeError:
                    return
            value = wrap(v)
            hint = None
            if cname == 'hinted':
                hint = List[type(v)]
            lists = [[]] + list(dhandlers(type(v), 1, False))
            if not quick or cname in ('top', 'list', 'dc', 'hinted'):
                lists += list(dhandlers(type(v), 2, quick))
            for hs in lists:
                for raising in (True, False):
                    dumpcases(s, vsrc, cname, value, hs, raising, hint)
                    if s.full:
                        return
    total = core.explore(units, f)
    return total, dict(bound='%d types in %d contexts and %d values in %d, lists of up to %d custom handlers in 4 positions, %d and %d conditions, 3 and 4 actions' % (len(ts), len(cs), len(DVALUES), len(DCONTEXTS), 2 if quick else 3, len(CONDS), len(DCONDS)),
                       assumptions=['conditions of the dumper depend on the type of the value only (see the known finding of C14)', 'custom conditions do not match the basic types'])


Opaque1 = X('Opaque(1)')
