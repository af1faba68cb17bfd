"""
C31: every class of the universe is declared twice, normally and with deferred
evaluation of annotations (also only the outermost one, or only the others);
with pep563 each document gives the same outcome as with the normal class, and
the results dump equally. Then classes that inherit from one in another module,
with names that mean something different in each module.
"""
import __future__
import itertools
import sys
import types as types_

from mc.diff import *
from mc.universe import *
from mc.docs import documents
from mc.outcome import norm_error

FLAG = __future__.annotations.compiler_flag
BASENS = {}
exec(PRELUDE, BASENS)
HELPERS = {k for k in BASENS if not k.startswith('__')}


def module(name):
    m = sys.modules.get(name)
    if m is None:
        m = sys.modules[name] = types_.ModuleType(name)
        for k in HELPERS:
            m.__dict__[k] = NS[k]
    return m.__dict__


def declare(node, ns, deferred):
    """deferred(node) says if its class is declared with deferred annotations"""
    for n, decl in node.declarations().items():
        if decl and n.name not in ns:
            flags = FLAG if deferred(n) else 0
            exec(compile(decl, '<%s>' % n.name, 'exec', dont_inherit=True, flags=flags), ns)
    return eval(compile(node.expr(), '<type>', 'eval', dont_inherit=True), ns)


def form(v, d=0):
    """Comparable form that is the same for classes with the same name"""
    t = type(v)
    if t in (int, str, bool, float, type(None), bytes):
        return (t.__name__, repr(v))
    if isinstance(v, enum.Enum):
        return ('enum', t.__name__, v.name)
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return ('nt', t.__name__, tuple((k, form(i)) for k, i in zip(v._fields, v)))
    if t in (list, tuple):
        return (t.__name__, tuple(form(i) for i in v))
    if t in (set, frozenset):
        return (t.__name__, tuple(sorted(map(repr, map(form, v)))))
    if isinstance(v, dict):
        return (t.__name__, tuple((form(k), form(i)) for k, i in v.items()))
    if dataclasses.is_dataclass(t) or hasattr(t, '__attrs_attrs__'):
        names = [f.name for f in dataclasses.fields(t)] if dataclasses.is_dataclass(t) else [a.name for a in t.__attrs_attrs__]
        return ('obj', t.__name__, tuple((k, form(getattr(v, k))) for k in names))
    return (t.__name__, re.sub('0x[0-9a-f]+', '', repr(v)))


MODS = re.compile('mc_[a-z0-9]+[.]')


def clean(x):
    return MODS.sub('', x)


def errform(e, loose, depth=0):
    if not isinstance(e, TypedloadException):
        return ('crash', type(e).__name__)
    path = tuple((i.annotation[0].name, clean(i.annotation[1].__qualname__ if isinstance(i.annotation[1], type) else repr(i.annotation[1])) if i.annotation[0] == AnnotationType.UNION else repr(i.annotation[1])[:200])
                 for i in e.trace if i.annotation and i.annotation[0] != AnnotationType.FORWARDREF)
    if loose:
        path = tuple(p for p in path if p[0] != 'UNION')
        return ('err', path, tuple(sorted((errform(x, loose, depth + 1) for x in e.exceptions), key=repr)) if depth < 4 else 0)
    text = ''.join(sorted(clean(re.sub('0x[0-9a-f]+', '', str(e)))))
    return ('err', type(e).__name__, path, text, tuple(sorted((errform(x, loose, depth + 1) for x in e.exceptions), key=repr)) if depth < 4 else 0)


def outcome31(loader, doc, t, loose):
    try:
        v = loader.load(build(doc), t)
    except Exception as e:
        return errform(e, loose), None
    return ('ok', form(v)), v


def recursive_node(node):
    return any("'Rec" in d for d in node.declarations().values() if d)


def supported(node):
    """With a class whose annotations can be deferred"""
    decls = [n for n in node.declarations() if isinstance(n, Obj)]
    return any(n.kind in ('nt', 'dc', 'td') for n in decls) and not any(n.kind == 'attrsa' for n in decls)


SETTINGS31 = [dict(), dict(failonextra=True), dict(basiccast=False), dict(uniondebugconflict=True), dict(dictequivalence=False, failonextra=True)]


def u_node(i, s, tier):
    quick = tier == 'quick'
    node = universe('quick' if quick else 'middle')[i]
    if not supported(node):
        return
    loose = recursive_node(node)
    # Union[A, B] and Union[B, A] are equal for the caches of typing
    for clear in typing._cleanups:
        clear()
    objs = [n for n in node.declarations() if isinstance(n, Obj) and n.kind in ('nt', 'dc', 'td')]
    te = declare(node, fresh('mc_eval'), lambda n: False)
    ways = [('all deferred', declare(node, module('mc_deferred'), lambda n: True))]
    if len(objs) > 1:
        ways.append(('the outermost deferred', declare(node, fresh('mc_outer'), lambda n: n is objs[-1])))
        ways.append(('the inner ones deferred', declare(node, fresh('mc_inner'), lambda n: n is not objs[-1])))
    ways.append(('none deferred', te))
    for ki, kw in enumerate(SETTINGS31 if node.size() < 6 or not quick else SETTINGS31[:1]):
        le = Loader(**kw)
        lds = [Loader(pep563=True, **kw) for _ in ways]
        for d in documents(node, tier, two=not quick and ki == 0, junk=JUNK if ki == 0 and not quick else JUNK_TINY, conv=ki == 0):
            exp, ve = outcome31(le, d, te, loose)
            for (way, t), ld in zip(ways, lds):
                got, vd = outcome31(ld, d, t, loose)
                s.states += 1
                s.transitions += 2
                s.validated += 1
                s.outcomes.add((got[0], way))
                if got != exp:
                    r = model(node, d, Cfg(**kw))
                    if r is None or len(r.vals) > 1 or got[0] == exp[0] == 'err' and 'Union[' in node.source() + node.expr() and outcome31(Loader(**kw), d, te, True)[0] == outcome31(Loader(pep563=True, **kw), d, t, True)[0]:
                        # More than one member of an union is right
                        s.add('ambiguous')
                        continue
                    what = 'load %s into %s with %r, %s: %s, instead of %s' % (src(d), node, kw, way, str(got)[:300], str(exp)[:300])
                    s.bad(what, rep31(node, d, kw, what))
                elif vd is not None and 'Sub' not in src(d) and 'IntE' not in src(d):
                    # (values of subclasses of the basic types can be dumped or not)
                    for hd in (True, False):
                        try:
                            x = Dumper(hidedefault=hd, isodates=True).dump(ve)
                        except Exception as e:
                            x = type(e)
                        try:
                            y = Dumper(hidedefault=hd, isodates=True).dump(vd)
                        except Exception as e:
                            y = type(e)
                        s.validated += 1
                        if form(x) != form(y) and not (isinstance(x, dict) and isinstance(y, dict) and x == y) and not same_dump(x, y):
                            s.bad('dump of %r: %r with %s, %r with normal annotations' % (vd, y, way, x), rep31(node, d, kw, 'dump differs'))
                if s.full:
                    return
    s.sample('%s, %d ways' % (node, len(ways)), 1)


def same_dump(x, y):
    """The dump of a set has no order"""
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return x.keys() == y.keys() and all(same_dump(v, y[k]) for k, v in x.items())
    if isinstance(x, list):
        return len(x) == len(y) and sorted(map(repr, x)) == sorted(map(repr, y))
    return x == y


_k = [0]


def fresh(prefix):
    _k[0] += 1
    for old in [m for m in sys.modules if m.startswith('mc_') and m[-1].isdigit() and int(re.sub('[^0-9]', '', m)) < _k[0] - 8 and m not in KEEP]:
        del sys.modules[old]
    return module('%s%d' % (prefix, _k[0]))


KEEP = set()


def rep31(node, doc, kw, what):
    return '# deferred\n' + '''
import sys, __future__
PRELUDE = %r
SOURCE = %r
def declare(name, flags):
    import types
    m = sys.modules[name] = types.ModuleType(name)
    exec(PRELUDE, m.__dict__)
    exec(compile(SOURCE, name, 'exec', flags=flags, dont_inherit=True), m.__dict__)
    return m.__dict__
from typedload import load, dump
print(%r)
for name, flags, kw in (('normal', 0, {}), ('deferred', __future__.annotations.compiler_flag, {'pep563': True})):
    ns = declare(name, flags)
    value = eval(%r, ns)
    try:
        r = load(value, eval(%r, ns), **kw, **%r)
        print(name, 'result', r, dump(r))
    except Exception as e:
        print(name, 'raises', type(e), e)
''' % (PRELUDE, node.source(), what, src(doc), node.expr(), kw)


# Classes in two modules: kinds, name of the alias in each module
ALIASES = [('int', 'str'), ('str', 'int'), ('List[int]', 'Dict[str, int]'), ('Literal["a"]', 'Literal["b"]'), ('Optional[int]', 'float'), ('Point', 'Point'), ('Other', 'int')]
DOCS31 = ['{"a": %s, "b": %s}' % (a, b) for a in ('1', '"x"', '"5"', '[1]', '{"k": 1}', '"a"', '"b"', 'None', '1.5', '{"x": 1}', '{"x": "q"}', '{"y": 1}') for b in ('1', '"x"', '[2]', '{"k": 1}', '"a"', '"b"', 'None', '{"x": 1}', '{"y": "q"}')]
DOCS31 += ['{"a": 1}', '{"b": 1}', '{}', '{"a": "x"}', '{"b": "x"}', '{"a": {"x": 1}}', '{"a": 1, "b": 2, "c": 3}']
BASE = {
    'dc': '@dataclass(kw_only=True)\nclass Base:\n    a: {ann}\n',
    'td': 'class Base(TypedDict):\n    a: {ann}\n',
    'tdp': 'class Base(TypedDict, total=False):\n    a: {ann}\n',
    'tdn': 'class Base(TypedDict):\n    a: NotRequired[{ann}]\n',
    'nt': 'class Base(NamedTuple):\n    a: {ann}\n    b: int = 1\n',
    'dcd': '@dataclass(kw_only=True)\nclass Base:\n    a: {ann} = field(default=None)\n',
    'dcm': '@dataclass(kw_only=True)\nclass Base:\n    a: {ann} = field(metadata={{"name": "b"}})\n',
}
DER = {
    'inherit': {'dc': '@dataclass(kw_only=True)\nclass Der(base.Base):\n    b: {ann}\n', 'td': 'class Der(base.Base):\n    b: {ann}\n'},
    'override': {'dc': '@dataclass(kw_only=True)\nclass Der(base.Base):\n    a: {ann}\n'},
    'empty': {'dc': '@dataclass(kw_only=True)\nclass Der(base.Base):\n    pass\n', 'td': 'class Der(base.Base):\n    pass\n'},
    'field': {'dc': '@dataclass\nclass Der:\n    a: base.Base\n    b: {ann}\n', 'td': 'class Der(TypedDict):\n    a: base.Base\n    b: {ann}\n', 'nt': 'class Der(NamedTuple):\n    a: base.Base\n    b: {ann}\n', 'tdn': 'class Der(TypedDict):\n    a: base.Base\n    b: NotRequired[{ann}]\n'},
    'list': {'dc': '@dataclass\nclass Der:\n    a: List[base.Base]\n    b: "{ann}"\n', 'nt': 'class Der(NamedTuple):\n    a: Union[base.Base, None, int]\n    b: Dict[str, {ann}] = {{}}\n'},
    'total': {'td': 'class Der(base.Base, total=False):\n    b: {ann}\n'},
}
POINT = {'b': 'class Point(NamedTuple):\n    x: int\nclass Other(NamedTuple):\n    y: int\n', 'd': 'class Point(NamedTuple):\n    y: str\n'}
WRAPS = ['{0}', '{0}', 'List[{0}]', 'Optional[{0}]']


def combos():
    r = []
    for bk in BASE:
        for how, ders in DER.items():
            for dk in ders:
                if how in ('inherit', 'override', 'empty', 'total') and bk[:2] != dk[:2]:
                    continue
                if how in ('inherit', 'empty', 'total', 'override') and bk == 'nt':
                    continue
                for alias in ALIASES:
                    for ann in ('Ali', 'List[Ali]', 'Optional[Ali]', "Union[Ali, None, Literal['z']]"):
                        r.append((bk, how, dk, alias, ann))
    return r


def two(name, combo, bflags, dflags):
    bk, how, dk, alias, ann = combo
    b = module(name + '_b')
    d = module(name + '_d')
    exec(POINT['b'], b)
    exec(POINT['d'], d)
    b['Ali'] = eval(alias[0], b)
    d['Ali'] = eval(alias[1], d)
    bm = sys.modules[name + '_b']
    d['base'] = bm
    exec(compile(BASE[bk].format(ann=ann), '<b>', 'exec', flags=bflags, dont_inherit=True), b)
    exec(compile(DER[how][dk].format(ann=ann), '<d>', 'exec', flags=dflags, dont_inherit=True), d)
    return d['Der'], b['Base']


def hints(t):
    r = {}
    for k, v in typing.get_type_hints(t, include_extras=True).items():
        r[k] = re.sub('mc_m[0-9]+_[ed][ed]', 'mc', repr(v))
    return r


def u_modules(part, s, tier):
    for ci, combo in list(enumerate(combos()))[part[0]::part[1]]:
        if tier == 'quick' and combo[4][:3] == 'Opt':
            continue
        ref = None
        evaluated = two('mc_m%d_%s' % (ci, 'ee'), combo, 0, 0)
        for kw in SETTINGS31[:2] if tier == 'quick' else SETTINGS31:
            exp = []
            for d in DOCS31:
                for t in evaluated:
                    exp.append(outcome31(Loader(**kw), X(d), t, True)[0])
            for bf, df in itertools.product((0, FLAG), repeat=2):
                name = 'mc_m%d_%s%s' % (ci, 'd' if bf else 'e', 'd' if df else 'e')
                ts = two(name, combo, bf, df) if bf or df else evaluated
                if [hints(x) for x in ts] != [hints(x) for x in evaluated]:
                    # Python itself finds other types: names of an inherited TypedDict are looked up in the module of the derived class
                    s.add('resolved_differently_by_python')
                    continue
                loader = Loader(pep563=True, **kw)
                k = 0
                for d in DOCS31:
                    for t in ts:
                        got, v = outcome31(loader, X(d), t, True)
                        s.states += 1
                        s.transitions += 1
                        s.validated += 1
                        if got != exp[k]:
                            s.bad('two modules %r, base %s, derived %s, %r: load %s into %s: %s instead of %s' % (combo, 'deferred' if bf else 'normal', 'deferred' if df else 'normal', kw, d, t.__name__, str(got)[:300], str(exp[k])[:300]), '# base\n# %s\n# derived\n# %s\n' % (BASE[combo[0]].replace('\n', '\n# '), DER[combo[1]][combo[2]].replace('\n', '\n# ')))
                            if s.full:
                                return
                        k += 1
        for m in [m for m in sys.modules if m.startswith('mc_m%d_' % ci)]:
            del sys.modules[m]


def run(tier, seed):
    quick = tier == 'quick'
    n = len(universe('quick' if quick else 'middle'))
    units = [(u_node, i) for i in range(n)]
    parts = 64
    units += [(u_modules, (p, parts)) for p in range(parts)]
    def f(u, s):
        u[0](u[1], s, tier)
    total = core.explore(units, f)
    return total, dict(bound='the %d types of the universe that contain a NamedTuple, dataclass or TypedDict, in up to 4 ways of deferring; %d pairs of classes in two modules' % (n, len(combos())),
                       assumptions=['the classes are in modules and their annotations mean the same when they are evaluated later'])
