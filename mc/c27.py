"""
C27: every form of callable (functions with any number of other parameters,
with defaults, keyword only, lambdas, methods, classes, objects, partials,
decorated functions, the converters of attrs) x the type of its parameter x
declared types and shapes of the attribute x values x contexts, against the
reference model of the parameter type; what the converters get is recorded.
Failures of the converter at every call.
"""
import itertools

from mc.diff import *
from mc.universe import *
from mc.contexts import contexts
from mc.c04 import EXCEPTIONS

exec('''
LOG27 = []
FAULT27 = [None, None]
def rec(v):
    LOG27.append(v)
    if FAULT27[0] is not None and len(LOG27) > FAULT27[0]:
        raise FAULT27[1]()
    return ('C', v)
''', NS)
REC27 = '''LOG27 = []
def rec(v):
    LOG27.append(v)
    return ('C', v)
'''

# label, declarations, expression of the converter, what the parameter is: H the type, A no type, O Optional[H], S: str then H does not matter
FORMS = [
    ('def', 'def $f(v: $H):\n    return rec(v)\n', '$f', 'H'),
    ('def return', 'def $f(v: $H) -> int:\n    return rec(v)\n', '$f', 'H'),
    ('quoted', 'def $f(v: "$H") -> "str":\n    return rec(v)\n', '$f', 'H'),
    ('no hint', 'def $f(v):\n    return rec(v)\n', '$f', 'A'),
    ('only return', 'def $f(v) -> $H:\n    return rec(v)\n', '$f', 'A'),
    ('lambda', '', 'lambda v: rec(v)', 'A'),
    ('lambda default', '', 'lambda v, w=3: rec(v)', 'A'),
    ('named return', 'def $f(v: str, return_: int = 2):\n    return rec(v)\n', '$f', 'S'),
    ('other default', 'def $f(v: $H, other: str = ""):\n    return rec(v)\n', '$f', 'H'),
    ('other default, return', 'def $f(v: $H, other: str = "") -> bool:\n    return rec(v)\n', '$f', 'H'),
    ('two others', 'def $f(v: $H, other: str = "", more: int = 1) -> bool:\n    return rec(v)\n', '$f', 'H'),
    ('only other', 'def $f(v, other: $H = None):\n    return rec(v)\n', '$f', 'A'),
    ('keyword only', 'def $f(v, *, base: $H = None):\n    return rec(v)\n', '$f', 'A'),
    ('keyword only, return', 'def $f(v, *, base: $H = None) -> int:\n    return rec(v)\n', '$f', 'A'),
    ('hint and keyword only', 'def $f(v: $H, *, base: int = 3):\n    return rec(v)\n', '$f', 'H'),
    ('positional only', 'def $f(v: $H, /):\n    return rec(v)\n', '$f', 'H'),
    ('positional only and other', 'def $f(v: $H, /, o: str = "", *, k: bytes = b"") -> int:\n    return rec(v)\n', '$f', 'H'),
    ('star', 'def $f(*v: $H):\n    return rec(v[0])\n', '$f', 'H'),
    ('hint, star, kw', 'def $f(v: $H, *a: str, **k: int):\n    return rec(v)\n', '$f', 'H'),
    ('no hint, star, kw', 'def $f(v, *a: str, **k: int):\n    return rec(v)\n', '$f', 'A'),
    ('Optional default', 'def $f(v: Optional[$H] = None):\n    return rec(v)\n', '$f', 'O'),
    ('unknown name', 'def $f(v: "Missing27"):\n    return rec(v)\n', '$f', 'A'),
    ('unknown name in return', 'def $f(v) -> "Missing27":\n    return rec(v)\n', '$f', 'A'),
    ('class init', 'class $f:\n    def __init__(self, v: $H): self.v = rec(v)\n', '$f', 'H'),
    ('class init, default', 'class $f:\n    def __init__(self, v: $H, w: int = 2) -> None: self.v = rec(v)\n', '$f', 'H'),
    ('class init, attributes', 'class $f:\n    label: str\n    def __init__(self, v: $H): self.v = rec(v)\n', '$f', 'H'),
    ('class no hint, attribute', 'class $f:\n    label: int\n    def __init__(self, v): self.v = rec(v)\n', '$f', 'A'),
    ('class attribute of that name', 'class $f:\n    v: bytes\n    def __init__(self, v: $H): self.v = rec(v)\n', '$f', 'H'),
    ('class attribute of that name, no hint', 'class $f:\n    v: int\n    w: str\n    def __init__(self, v): self.v = rec(v)\n', '$f', 'A'),
    ('class new', 'class $f:\n    k: int\n    def __new__(cls, v: $H):\n        o = object.__new__(cls)\n        o.v = rec(v)\n        return o\n', '$f', 'H'),
    ('class base', 'class $b:\n    def __init__(self, v: $H): self.v = rec(v)\nclass $f($b):\n    z: int\n', '$f', 'H'),
    ('class with a metaclass', 'class $b(type): pass\nclass $f(metaclass=$b):\n    k: int\n    def __init__(self, v: $H): self.v = rec(v)\n', '$f', 'H'),
    ('class with a metaclass, no hint', 'class $b(type):\n    v: bytes\nclass $f(metaclass=$b):\n    v: bytes\n    def __init__(self, v): self.v = rec(v)\n', '$f', 'A'),
    ('abstract class', 'import abc\nclass $b(abc.ABC):\n    def __init__(self, v: $H): self.v = rec(v)\nclass $f($b): pass\n', '$f', 'H'),
    ('class with a metaclass, new', 'class $b(type): pass\nclass $f(metaclass=$b):\n    def __new__(cls, v: $H):\n        o = object.__new__(cls)\n        o.v = rec(v)\n        return o\n', '$f', 'H'),
    ('dataclass', '@dataclass\nclass $f:\n    v: $H\n    def __post_init__(self): rec(self.v)\n', '$f', 'H'),
    ('dataclass, more', '@dataclass\nclass $f:\n    v: $H\n    w: int = 3\n    x: str = ""\n    def __post_init__(self): rec(self.v)\n', '$f', 'H'),
    ('attrs class', '@attr.s(auto_attribs=True)\nclass $f:\n    v: $H\n    def __attrs_post_init__(self): rec(self.v)\n', '$f', 'H'),
    ('object', 'class $b:\n    def __call__(self, v: $H): return rec(v)\n$f = $b()\n', '$f', 'H'),
    ('object, return', 'class $b:\n    z: str\n    def __call__(self, v: $H, w: int = 3) -> str: return rec(v)\n$f = $b()\n', '$f', 'H'),
    ('object, no hint', 'class $b:\n    z: int\n    def __call__(self, v): return rec(v)\n$f = $b()\n', '$f', 'A'),
    ('false object', 'class $b:\n    def __call__(self, v: $H): return rec(v)\n    def __bool__(self): return False\n$f = $b()\n', '$f', 'H'),
    ('empty object', 'class $b:\n    def __call__(self, v): return rec(v)\n    def __len__(self): return 0\n$f = $b()\n', '$f', 'A'),
    ('method', 'class $b:\n    def m(self, v: $H) -> int: return rec(v)\n$f = $b().m\n', '$f', 'H'),
    ('method, other', 'class $b:\n    def m(self, v, w: int = 4) -> int: return rec(v)\n$f = $b().m\n', '$f', 'A'),
    ('hinted self', 'class $b:\n    def m(self: "Any", v: $H): return rec(v)\n$f = $b().m\n', '$f', 'H'),
    ('classmethod', 'class $b:\n    @classmethod\n    def m(cls, v: $H): return rec(v)\n$f = $b.m\n', '$f', 'H'),
    ('staticmethod', 'class $b:\n    @staticmethod\n    def m(v: $H, w: str = "") -> int: return rec(v)\n$f = $b.m\n', '$f', 'H'),
    ('partial keyword', 'def $b(v: $H, w: str): return rec(v)\n$f = functools.partial($b, w="x")\n', '$f', 'H'),
    ('partial first', 'def $b(w: str, v: $H): return rec(v)\n$f = functools.partial($b, "x")\n', '$f', 'H'),
    ('partial first, no hint', 'def $b(w: str, v) -> str: return rec(v)\n$f = functools.partial($b, "x")\n', '$f', 'A'),
    ('partial partial', 'def $b(w: str, z: int, v: $H): return rec(v)\n$f = functools.partial(functools.partial($b, "x"), 1)\n', '$f', 'H'),
    ('partial class', 'class $b:\n    z: str\n    def __init__(self, w: str, v: $H): self.v = rec(v)\n$f = functools.partial($b, "x")\n', '$f', 'H'),
    ('lru_cache no hint', '@functools.lru_cache(0)\ndef $b(v): return rec(v)\n$f = lambda v: rec(v)\n', '$f', 'A'),
    ('wraps', 'def $d(g):\n    @functools.wraps(g)\n    def w(*a, **k):\n        return g(*a, **k)\n    return w\n@$d\ndef $f(v: $H, x: str = "") -> int: return rec(v)\n', '$f', 'H'),
    ('wraps no hint', 'def $d(g):\n    @functools.wraps(g)\n    def w(*a: int, **k: str) -> float:\n        return g(*a, **k)\n    return w\n@$d\ndef $f(v): return rec(v)\n', '$f', 'A'),
    ('optional', 'def $f(v: $H) -> int: return rec(v)\n', 'attr.converters.optional($f)', 'O'),
    ('optional no hint', 'def $f(v): return rec(v)\n', 'attr.converters.optional($f)', 'A'),
    ('pipe', 'def $f(v: $H) -> str: return rec(v)\ndef $g(v: bytes) -> int: return ("g", v)\n', 'attr.converters.pipe($f, $g)', 'H'),
    ('list', 'def $f(v: $H) -> str: return rec(v)\ndef $g(v: bytes) -> int: return ("g", v)\n', '[$f, $g]', 'H'),
    ('default_if_none', 'def $f(v: $H) -> str: return rec(v)\n', '[attr.converters.default_if_none(5), $f]', 'A'),
    ('Converter', 'def $f(v: $H) -> str: return rec(v)\n', 'attr.Converter($f)', 'H'),
    ('Converter no hint', 'def $f(v) -> $H: return rec(v)\n', 'attr.Converter($f)', 'A'),
    ('Converter self', 'def $f(v: $H, self_: str) -> str: return rec(v)\n', 'attr.Converter($f, takes_self=True)', 'H'),
    ('Converter self, no hint', 'def $f(v, self_: str) -> str: return rec(v)\n', 'attr.Converter($f, takes_self=True)', 'A'),
    ('Converter self field', 'def $f(v: $H, a, b: bytes) -> str: return rec(v)\n', 'attr.Converter($f, takes_self=True, takes_field=True)', 'H'),
    ('generic class', 'class $f(Generic[T0]):\n    def __init__(self, v: $H): self.v = rec(v)\n', '$f', 'H'),
    ('not resolvable default', 'def $f(v: "$H", w: "int" = 1) -> "None": return rec(v)\n', '$f', 'H'),
]
NS['T0'] = __import__('typing').TypeVar('T0')

INNER_NT = obj('nt', [F('q', INT)])
INNER_DC = obj('dc', [F('q', INT), F('r', STR, ('v', "'r'"), data='@r')])
INNER_AT = obj('attrs', [F('q', INT)])
INNER_TD = obj('td', [F('q', INT)])
TYPES27 = [INT, STR, FLOAT, Seq('List', INT), DictT(STR, INT), UnionT(INT, NONE, spelling='Optional'), UnionT(Seq('List', INT), STR), ANY, DATE, PATH, E_INT, E_HINT, INNER_NT, INNER_DC, INNER_AT, INNER_TD, TupleFix(INT, STR), NONE, NT_INT, LIT, UnionT(INNER_NT, INT), Seq('FrozenSet', STR)]
# declared type of the attribute, other arguments, name, body of the decorator, data name
SHAPES = [
    ('type=int', 'x', '(eq=True)', 'x'),
    ('', 'x', '', 'x'),
    ('type="NoSuch"', 'x', '(frozen=True)', 'x'),
    ('type=List[bytes]', 'x', '(slots=True)', 'x'),
    ('type=str, metadata={"name": "@x"}', 'x', '', '@x'),
    ('type=str, kw_only=True', 'x', '', 'x'),
    ('type=bytes', '_x', '', '_x'),
    ('type=Opaque, metadata={"name": "y"}', '_x', '(frozen=True, slots=True)', 'y'),
]
VALUES27 = [None, 0, 1, '1', 'a', '', 1.5, [], [1], ['1', 2], ['x'], {}, {'q': 1}, {'q': '2', '@r': 's'}, {'q': 'x'}, {'k': '1'}, (1, 'b'), '2020-01-02', [2020, 1, 2], 'a/b', X('Opaque()'), True, b'b', X('float("nan")'), [None]]


class ConvT(Obj):
    """attrs class with one converted attribute, and another one after it"""
    def __init__(self, form, h, shape, extra=''):
        label, decl, expr, what = form
        name = nm('K')
        self.form = form
        self.shape = shape
        args, attrname, opts, data = shape
        subst = lambda t: t.replace('$H', h.expr()).replace('$f', name + 'f').replace('$b', name + 'b').replace('$g', name + 'g').replace('$d', name + 'd')
        node = {'H': h, 'A': ANY, 'O': UnionT(h, NONE, spelling='Optional') if h is not NONE else NONE, 'S': STR}[what]
        if what == 'O' and h is ANY or label in ('optional', 'list', 'pipe', 'attrs class') and h is NONE:
            # attrs takes a None annotation as no annotation
            node = ANY
        self.param = node
        self.attrname = attrname
        self.text = subst(decl) + '@attr.s%s\nclass %s:\n    %s = attr.ib(%s)\n    z = attr.ib(type=int, default=9%s)\n%s' % (
            opts, name, attrname, ', '.join(i for i in ('converter=' + subst(expr), args) if i), ', kw_only=True' if 'kw_only' in args else '', extra)
        Obj.__init__(self, 'attrs', name, [F(attrname, node, data=data if data != attrname else None), F('z', INT, ('v', '9'))], opts=opts)
        self.deps = (h, node)

    def _declare(self):
        return self.text

    def _docs(self):
        return [{self.shape[3]: d} for d in self.param.valid()]


def report27(s, node, doc, cfg, out, why):
    what = 'load %s into %s (%r): %s; %s' % (src(doc)[:300], node.expr(), cfg, describe(out), why)
    s.bad(what, replay(node, doc, cfg, what).replace(PRELUDE, PRELUDE + 'T0 = TypeVar("T0")\n' + REC27, 1))


def run27(s, node, doc, cfg, calls=None, top=None):
    ns_log = NS['LOG27']
    r = model(node, doc, cfg)
    if r is None:
        s.add('unspecified')
        return
    ns_log.clear()
    out = impl(node, doc, cfg)
    s.states += 1
    s.transitions += len(ns_log)
    s.validated += 1
    s.outcomes.add(out[0])
    why = 'it is not a typedload exception' if out[0] == 'crash' else mismatch(r, out)
    if not why and out[0] == 'ok' and calls is not None and len(ns_log) != calls:
        why = 'the converter was called %d times instead of %d' % (len(ns_log), calls)
    if not why and top is not None and out[0] == 'ok':
        v = build(doc)[top.shape[3]]
        pr = top.param.res(cfg, v)
        if not any(same(ns_log[0], x) for x in pr.vals):
            why = 'the converter was given %r instead of %r' % (ns_log[0], pr.vals[:2])
    if not why and top is not None and out[0] == 'err' and r.must_fail and ns_log and not top.param.res(cfg, build(doc).get(top.shape[3])).vals:
        why = 'the converter was called with %r that is not of its type' % ns_log
    if why:
        report27(s, node, doc, cfg, out, why + '\n' + node.source())


CFGS = [Cfg(), Cfg(basiccast=False, failonextra=True), Cfg(uniondebugconflict=True)]


def u_form(u, s, quick):
    fi, hi = u
    form, h = FORMS[fi], TYPES27[hi]
    if form[3] in 'S' and hi:
        return
    if form[3] == 'A' and '$H' not in form[1] and hi > 2:
        return
    ctx = contexts()
    shapes = SHAPES if not quick else [SHAPES[(fi + hi) % len(SHAPES)], SHAPES[(fi * 3 + hi + 1) % len(SHAPES)]]
    k = fi + hi
    for shape in shapes:
        # takes_self converters get the object before it is complete: not with slots in old attrs
        node = ConvT(form, h, shape)
        node.t
        docs = node.param.valid() + VALUES27
        key = shape[3]
        for d in docs:
            for cfg in CFGS:
                one = form[0] not in ('optional', 'optional no hint') or d is not None
                run27(s, node, {key: d}, cfg, 1 if one else 0, node if one and not (form[0] == 'default_if_none' and d is None) else None)
                run27(s, node, {key: d, 'z': '5'}, cfg, None, None)
            if s.full:
                return
        for doc in ({}, {key: docs[0], 'zz': 1}, {key: docs[0], 'z': 'x'}, 5, None, [], X('Namespace(x=1)')):
            for cfg in CFGS:
                run27(s, node, doc, cfg)
        # in contexts, one and two deep
        sel = ctx if not quick else [ctx[k % len(ctx)], ctx[(k + 5) % len(ctx)]]
        for c in sel:
            name, mk, mkdoc, n, hashable, _ = c
            if hashable:
                continue
            outer = mk(node)
            for d in docs[:6] + VALUES27[::3]:
                calls = n if form[0] not in ('optional', 'optional no hint') else None
                doc = {key: d}
                run27(s, outer, mkdoc([doc, {key: docs[0]}][:n]), CFGS[0], calls)
                if s.full:
                    return
            o2 = Seq('List', outer)
            run27(s, o2, [mkdoc([{key: docs[0]}] * n)] * 2, CFGS[1], 2 * n if calls is not None else None)
            alt = UnionT(node, LiteralT('alt'))
            for d in (docs[0], 'alt', None):
                run27(s, alt, {key: d}, CFGS[0])
            run27(s, alt, 'alt', CFGS[0], 0)


def u_fault(u, s, quick):
    """The converter raises"""
    fi, exc = u
    form = FORMS[fi]
    h = ANY
    NS.setdefault('TypedloadValueError', __import__('typedload.exceptions').exceptions.TypedloadValueError)
    NS.setdefault('TypedloadException', TypedloadException)
    fault = NS['FAULT27']
    node = ConvT(form, h, SHAPES[(fi + len(exc)) % len(SHAPES)])
    node.t
    key = node.shape[3]
    ctx = contexts()
    for c in [None] + ctx:
        if c is None:
            outer, doc, n = node, {key: 1}, 1
        else:
            if c[4]:
                continue
            outer, n = c[1](node), c[3]
            doc = c[2]([{key: 1}] * n)
        for union in (False, True):
            if union:
                if c is not None:
                    outer = c[1](UnionT(node, DictT(STR, INT)))
                else:
                    outer = UnionT(node, DictT(STR, INT))
                if c is not None and c[0] == 'optional':
                    continue
            outer.t
            for at_ in range(n):
                fault[:] = [at_, lambda: eval(exc, NS)]
                NS['LOG27'].clear()
                try:
                    out = impl(outer, doc, CFGS[0])
                finally:
                    fault[:] = [None, None]
                s.states += 1
                s.transitions += len(NS['LOG27'])
                s.validated += 1
                why = None
                if out[0] == 'crash':
                    why = 'it is not a typedload exception'
                elif union and out[0] != 'ok':
                    why = 'the other member of the union was not used'
                elif not union and out[0] == 'ok':
                    why = 'the failure was ignored'
                elif out[0] == 'err':
                    str(out[1])
                if why:
                    report27(s, outer, doc, CFGS[0], out, 'the converter raises %s at call %d: %s\n%s' % (exc, at_, why, outer.source()))
                if s.full:
                    return


# Made by the same code: same name, same code object, other hints
MADE27 = {
    'function': 'def $m(h):\n    def conv(v: h) -> int: return rec(v)\n    return conv\n',
    'class': 'def $m(h):\n    class conv:\n        def __init__(self, v: h): self.v = rec(v)\n        def __eq__(self, o): return self.v == o.v\n    return conv\n',
    'object': 'def $m(h):\n    class conv:\n        def __call__(self, v: h): return rec(v)\n        def __eq__(self, o): return type(o).__name__ == "conv"\n        def __hash__(self): return 1\n        def __repr__(self): return "conv"\n    return conv()\n',
    'method': 'def $m(h):\n    class conv:\n        def m(self, v: h): return rec(v)\n        def __eq__(self, o): return type(o).__name__ == "conv"\n        def __hash__(self): return 1\n    return conv().m\n',
    'partial': 'def $m(h):\n    def conv(w: bytes, v: h): return rec(v)\n    return functools.partial(conv, b"")\n',
    'wraps': 'def $m(h):\n    def conv(v: h): return rec(v)\n    @functools.wraps(conv)\n    def w(*a): return conv(*a)\n    return w\n',
    'optional': 'def $m(h):\n    def conv(v: h) -> bool: return rec(v)\n    return attr.converters.optional(conv)\n',
    'Converter': 'def $m(h):\n    def conv(v: h) -> bool: return rec(v)\n    return attr.Converter(conv)\n',
    'pipe': 'def $m(h):\n    def conv(v: h) -> bool: return rec(v)\n    return attr.converters.pipe(conv, lambda v: v)\n',
    'annotations': 'def $m(h):\n    def conv(v): return rec(v)\n    conv.__annotations__ = {"v": h}\n    return conv\n',
    'maybe hint': 'def $m(h):\n    def conv(v): return rec(v)\n    if h is not Any: conv.__annotations__["v"] = h\n    return conv\n',
}


class MadeT(Obj):
    """attrs class, the converters of its attributes made by one function"""
    def __init__(self, maker, kind, hints, declared):
        name = nm('M')
        fs = []
        o = '@attr.s\nclass %s:\n' % name
        for n, h, t in zip('abc', hints, declared):
            o += '    %s = attr.ib(converter=%s(%s), type=%s)\n' % (n, maker.name, h.expr(), t)
            fs.append(F(n, UnionT(h, NONE, spelling='Optional') if kind == 'optional' and h is not ANY else h))
        self.text = o
        Obj.__init__(self, 'attrs', name, fs)
        self.deps = (maker,) + tuple(hints) + tuple(f.node for f in fs)

    def _declare(self):
        return self.text


class Maker(Node):
    def __init__(self, kind):
        self.name = nm('mk')
        self.decl = MADE27[kind].replace('$m', self.name)
        self.deps = ()

    def expr(self):
        return self.name


def u_made(u, s, quick):
    """Converters that look the same, on one loader"""
    kind, i = u
    hs = [INT, STR, ANY, Seq('List', INT), INNER_NT, UnionT(INT, NONE, spelling='Optional'), DATE, E_INT][:None if not quick else 6]
    values = [1, '1', 'x', None, [1], ['1'], {'q': 1}, 1.5, '2020-01-02']
    h1 = hs[i]
    for cfg in CFGS[:2]:
        for h2 in hs:
            m = Maker(kind)
            m.t
            for hints in ((h1, h2), (h2, h1), (h1, h2, h1)):
                one = MadeT(m, kind, hints, ['int', 'str', 'bytes'])
                other = MadeT(m, kind, hints[::-1], ['int', 'int', 'int'])
                for first in (one, other):
                    loader = Loader(**cfg.kw)
                    for node in (first, one, other):
                        for vs in itertools.product(values, repeat=2):
                            doc = dict(zip('abc', vs + (vs[0],)))
                            if len(hints) == 2:
                                doc.pop('c')
                            r = model(node, doc, cfg)
                            if r is None:
                                continue
                            NS['LOG27'].clear()
                            out = impl(node, doc, cfg, loader)
                            s.states += 1
                            s.validated += 1
                            s.transitions += len(NS['LOG27'])
                            why = 'it is not a typedload exception' if out[0] == 'crash' else mismatch(r, out)
                            if why:
                                report27(s, node, doc, cfg, out, 'other classes with converters made by the same code were loaded before: ' + why + '\n' + node.source())
                        if s.full:
                            return


def u_absent(fi, s, quick):
    """The class converts its default, and attributes that are not taken from the data"""
    form = FORMS[fi]
    for default in ('default=5', 'factory=list', 'default=None', 'default=3, init=False', 'factory=dict, init=False'):
        for h in TYPES27[:4]:
            name = nm('D')
            subst = lambda t: t.replace('$H', h.expr()).replace('$f', name + 'f').replace('$b', name + 'b').replace('$g', name + 'g').replace('$d', name + 'd')
            text = subst(form[1]) + '@attr.s\nclass %s:\n    y = attr.ib(type=int)\n    x = attr.ib(type=str, converter=%s, %s)\n' % (name, subst(form[2]), default)
            ns = NS
            exec(text, ns)
            cls = ns[name]
            init = 'init=False' not in default
            param = {'H': h, 'A': ANY, 'O': UnionT(h, NONE, spelling='Optional'), 'S': STR}[form[3]]
            for doc in ({'y': 1}, {'y': 1, 'x': '7'}, {'y': 1, 'x': X('Opaque()')}, {'x': 1}, {'y': 'q', 'x': 1}, {'y': 1, 'x': None}, {'y': 1, 'x': [1]}):
                given = 'x' in doc and init
                exp = 'y' in doc and doc['y'] == 1
                v = build(doc)
                if given:
                    r = param.res(Cfg(), v['x'])
                    if exp and not r.must_load and not r.must_fail:
                        continue
                    exp = exp and r.must_load
                ns['LOG27'].clear()
                s.states += 1
                s.validated += 1
                try:
                    got = Loader().load(v, cls)
                except TypedloadException:
                    got = None
                except Exception as e:
                    s.bad('load %s: %r\n%s' % (src(doc), e, text))
                    continue
                log = list(ns['LOG27'])
                if (got is not None) != exp:
                    s.bad('load %s: %s\n%s' % (src(doc), 'rejected' if got is None else got, text), PRELUDE + REC27 + text + 'import typedload\nprint(typedload.load(%s, %s))\n' % (src(doc), name))
                elif got is not None:
                    arg = None
                    if given:
                        want = r.vals
                    else:
                        d = eval('dict(%s)' % default)
                        want = [d['default'] if 'default' in d else d['factory']()]
                    none = form[0].startswith('optional') and want[0] is None
                    if none:
                        ok = log == []
                    elif form[0] == 'default_if_none' and want[0] is None:
                        ok = log == [5]
                    else:
                        ok = len(log) == 1 and any(same(log[0], w) for w in want)
                    if not ok:
                        s.bad('load %s: the converter got %r instead of %r\n%s' % (src(doc), log, want, text), PRELUDE + REC27 + text + 'import typedload\nprint(typedload.load(%s, %s), LOG27)\n' % (src(doc), name))
                if s.full:
                    return


def run(tier, seed):
    quick = tier == 'quick'
    units = [(u_form, (f, h)) for f in range(len(FORMS)) for h in range(len(TYPES27))]
    units += [(u_fault, (f, e)) for f in range(len(FORMS)) for e in (EXCEPTIONS if not quick else EXCEPTIONS[f % 4::4])]
    units += [(u_made, (k, h)) for k in MADE27 for h in range(6 if quick else 8)]
    units += [(u_absent, f) for f in range(len(FORMS))]
    def f(u, s):
        u[0](u[1], s, quick)
        s.sample('%s(%s)' % (u[0].__name__, u[1]), 1)
    total = core.explore(units, f)
    return total, dict(bound='%d forms of callables x %d types of parameter x %d shapes of the attribute x %d values and those of the type x contexts; converters made by the same code with other hints, on one loader; every form raising each of the exceptions at each call' % (len(FORMS), len(TYPES27), len(SHAPES) if not quick else 2, len(VALUES27)),
                       assumptions=['a parameter annotated with a name that can not be resolved has no type', 'the classes are not generic aliases'])
