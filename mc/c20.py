"""
C20: classes that refer to themselves (or to an enclosing class) in every kind
of object and every position of a reference, against the same classes unrolled
by hand to the depth of the data, for all the documents of a bounded grammar,
in every context where the class can occur; name tables given by the user
against the type with the names replaced; unknown names; frefs=None.
"""
import itertools
import re

from mc.diff import *
from mc.snap import snap

HEAD = PRELUDE + 'import typedload\nfrom typedload.dataloader import Loader\n'

# expression, documents made with a good child g and any child c
REFS = [
    ('Optional[@]', lambda g, c: [c, None]),
    ('Union[@, None, int]', lambda g, c: [c, 3, 'z']),
    ('Union[int, List[@]]', lambda g, c: [[c], [g, c], 3]),
    ('List[@]', lambda g, c: [[], [c], [g, c]]),
    ('Tuple[@, ...]', lambda g, c: [[], [c], [g, c]]),
    ('Optional[Tuple[int, @]]', lambda g, c: [[1, c], ['1', c], ['x', c], [c]]),
    ('Union[Tuple[@], Tuple[@, @]]', lambda g, c: [[c], [g, c], [c, g], [g, g, c]]),
    ('Dict[str, @]', lambda g, c: [{}, {'k': c}, {'k': g, 'l': c}]),
    ('FrozenSet[@]', lambda g, c: [[], [c], [g, c]]),
    ('list[@]', lambda g, c: [[], [c], [g, c]]),
    ('dict[str, @]', lambda g, c: [{}, {'k': c}]),
    ('tuple[@, ...]', lambda g, c: [[c], [g, c]]),
    ('Optional[tuple[int, @]]', lambda g, c: [[1, c], ['x', c]]),
    ('frozenset[@]', lambda g, c: [[c], [g, c]]),
    ('Optional[List[@]]', lambda g, c: [None, [c]]),
    ('List[List[@]]', lambda g, c: [[[c]], [[], [g, c]]]),
    ('Dict[str, List[@]]', lambda g, c: [{'k': [g, c]}]),
    ('list[dict[str, @]]', lambda g, c: [[{'k': c}]]),
    ('List[Optional[@]]', lambda g, c: [[c, None], [None, c]]),
    ('Optional[Dict[str, Union[@, List[@]]]]', lambda g, c: [{'k': c, 'l': [c]}, {'k': [g, c]}]),
    ('NewType("Wr", List[@])', lambda g, c: [[c], [g, c]]),
    ('Any', lambda g, c: [c]),
]
# The whole annotation is a name
PLAIN = ('@', lambda g, c: [c])

KINDS20 = {
    'nt': 'class %(n)s(NamedTuple):\n    v: int\n    n: %(ref)s = None\n',
    'dc': '@dataclasses.dataclass(frozen=True)\nclass %(n)s:\n    v: int\n    n: %(ref)s = None\n',
    'dcm': '@dataclasses.dataclass(frozen=True)\nclass %(n)s:\n    v: int\n    n: %(ref)s = dataclasses.field(default=None, metadata={"name": "n"})\n',
    'attrs': '@attr.s(auto_attribs=True, frozen=True)\nclass %(n)s:\n    v: int\n    n: %(ref)s = None\n',
    'attrib': '@attr.s(frozen=True)\nclass %(n)s:\n    v = attr.ib(type=int)\n    n = attr.ib(type=%(ref)s, default=None)\n',
    'td': 'class %(n)s(TypedDict, total=False):\n    v: int\n    n: %(ref)s\n',
    'tdnr': 'class %(n)s(TypedDict):\n    v: int\n    n: NotRequired[%(ref)s]\n',
    # through another object: the inner class refers to the enclosing one
    'encnt': 'class %(n)sIn(NamedTuple):\n    o: %(ref)s = None\n    i: int = 0\nclass %(n)s(NamedTuple):\n    v: int\n    n: Optional[%(n)sIn] = None\n',
    'encdc': '@dataclasses.dataclass(frozen=True)\nclass %(n)sIn:\n    o: %(ref)s = None\n    i: int = 0\n@dataclasses.dataclass(frozen=True)\nclass %(n)s:\n    v: int\n    n: Optional[%(n)sIn] = None\n',
    'encmix': 'class %(n)sIn(TypedDict, total=False):\n    o: %(ref)s\n    i: int\n@attr.s(auto_attribs=True, frozen=True)\nclass %(n)s:\n    v: int\n    n: Union[%(n)sIn, None] = None\n',
}

CONTEXTS = [
    ('@', lambda d, g: d),
    ('List[@]', lambda d, g: [g, d]),
    ('Set[@]', lambda d, g: [d]),
    ('Tuple[int, @]', lambda d, g: ['1', d]),
    ('Tuple[@, ...]', lambda d, g: [d, g]),
    ('Dict[str, @]', lambda d, g: {'a': g, 'b': d}),
    ('Optional[@]', lambda d, g: d),
    ('Union[int, @]', lambda d, g: d),
    ('Union[List[@], @]', lambda d, g: [d]),
    ('NewType("Nw", @)', lambda d, g: d),
    ('NamedTuple("Ho", [("f", @)])', lambda d, g: {'f': d}),
    ('TypedDict("Hd", {"f": List[@]})', lambda d, g: {'f': [d]}),
    ('dataclasses.make_dataclass("Hc", [("f", @)])', lambda d, g: {'f': d}),
    ('attr.make_class("Ha", {"f": attr.ib(type=@)})', lambda d, g: {'f': d}),
]
SETTINGS = [dict(), dict(basiccast=False), dict(failonextra=True), dict(uniondebugconflict=True), dict(raiseconditionerrors=False)]

NAMES = ['Node']
# names of the objects of typing and of the builtin generics
ODDNAMES = ['List', 'Dict', 'Tuple', 'Set', 'FrozenSet', 'Optional', 'Union', 'Literal', 'NewType', 'list', 'dict', 'tuple', 'set', 'frozenset', 'Any', 'NoneType', 'Nödé', '_x', '__N', 'type', 'Pattern']


class Family:
    """The recursive class and its unrolled versions, in two namespaces"""
    def __init__(self, kind, ref, name='Node', depth=4, rename=True):
        self.kind, self.ref, self.name = kind, ref, name
        tmpl = KINDS20[kind]
        self.inner = 'o' if kind.startswith('enc') else None
        # the builtin and typing names that the class hides
        dots = {n: ('builtins.' if n in ('list', 'dict', 'tuple', 'set', 'frozenset', 'type') else 'typing.') + n for n in ODDNAMES if name != 'Node'}
        def q(text):
            if name in ('List', 'Dict', 'Tuple', 'Set', 'FrozenSet', 'Optional', 'Union', 'Literal', 'Any', 'NewType', 'list', 'dict', 'tuple', 'set', 'frozenset', 'Pattern'):
                mod = 'builtins' if name[0].islower() else 'typing'
                return re.sub(r'\b%s(?=[\[(])' % name, '%s.%s' % (mod, name), text)
            return text
        self.q = q
        quoted = "'%s'" % name
        self.text = (q(tmpl) % dict(n=name, ref=q(ref).replace('@', quoted))).replace('class %sIn' % name, 'class NodeIn').replace('%sIn]' % name, 'NodeIn]').replace('%sIn,' % name, 'NodeIn,')
        self.ns = dict(NS)
        exec('import builtins, typing', self.ns)
        exec(self.text, self.ns)
        self.rec = self.ns[name]
        self.uns = dict(NS)
        prev = 'NoMore'
        self.uns['NoMore'] = Literal['no more']
        utext = ''
        for i in range(depth + 1):
            n = 'Node_%d' % i
            utext += tmpl % dict(n=n, ref=ref.replace('@', prev))
            prev = n
        exec(utext, self.uns)
        self.flat = self.uns[prev]
        self.flatname = prev

    def types(self, ctx):
        ns = dict(self.ns)
        return eval(self.q(ctx).replace('@', self.name), ns), eval(ctx.replace('@', self.flatname), dict(self.uns))

    def norm(self, text):
        text = re.sub(r"ForwardRef\('(\w+)'[^)]*\)", r'\1', text)
        text = re.sub(r'Node_\d+', 'Node', text).replace("'", '')
        text = re.sub(r'<class ([\w.]+)>', r'\1', text.replace('mc_universe.', ''))
        return text.replace(self.name + 'In', 'NodeIn').replace(self.name, 'Node') if self.name == 'Node' else ''


def canon(o, fam):
    """Content of the result with the levels of the unrolled classes removed"""
    t = type(o)
    if t is dict:
        return ('dict', [(canon(k, fam), canon(v, fam)) for k, v in o.items()])
    if t in (set, frozenset):
        return (t.__name__, sorted((canon(i, fam) for i in o), key=repr))
    if hasattr(o, '_fields'):
        return ('obj', [(k, canon(getattr(o, k), fam)) for k in o._fields])
    if t in (list, tuple):
        return (t.__name__, [canon(i, fam) for i in o])
    if hasattr(t, '__dataclass_fields__') or hasattr(t, '__attrs_attrs__'):
        names = t.__dataclass_fields__ if hasattr(t, '__dataclass_fields__') else [a.name for a in t.__attrs_attrs__]
        return ('obj', re.sub(r'_\d+', '', t.__name__) if fam.name == 'Node' else '', [(k, canon(getattr(o, k), fam)) for k in names])
    return (t.__name__, repr(o))


def path(e):
    r = []
    for i in e.trace:
        a = i.annotation
        if a is None or a[0] == AnnotationType.FORWARDREF:
            continue
        r.append((a[0].value, '' if a[0] == AnnotationType.UNION else repr(a[1])))
    return r


def err(e, fam, depth=0):
    # two nested exceptions of the same member
    return ('err', type(e).__name__, path(e), snap(e.value), fam.norm(repr(e.type_)), sorted((err(x, fam, depth + 1) for x in e.exceptions), key=repr))


def run1(loader, value, t, fam):
    try:
        return ('ok', canon(loader.load(value, t), fam))
    except TypedloadException as e:
        try:
            str(e)
        except Exception as x:
            return ('crash', repr(x))
        return err(e, fam)
    except Exception as e:
        return ('crash', repr(e))


def docs(mk, depth, inner, wide):
    """Documents with up to depth levels"""
    good = {'v': 7}
    l0 = [{'v': 1}, {'v': '2'}, {'v': 'x'}, {}, 5, None]
    if wide:
        l0 += [{'v': 1, 'zz': 1}, [], {'v': None}, 'Node', {'v': 1, 'n': 'bad'}]
    def wrap(x):
        return {'v': 1, 'n': {inner: x}} if inner else {'v': 1, 'n': x}
    level = l0
    r = list(level)
    for d in range(depth):
        nxt = []
        for c in level:
            for x in mk(good, c):
                nxt.append(wrap(x))
        if d == 0:
            nxt += [wrap(5), wrap([5]), wrap({'k': 5})]
            if inner:
                nxt += [{'v': 1, 'n': 5}, {'v': 1, 'n': {}}, {'v': 1, 'n': {'i': '4'}}]
        r += nxt
        level = nxt if wide or len(nxt) < 60 else nxt[::2]
    return r


def replay20(fam, ctx, d, kw, what):
    return HEAD + fam.text + 'print(%r)\nprint(Loader(**%r).load(%r, %s))\n' % (what, kw, d, fam.q(ctx).replace('@', fam.name))


def compare(s, fam, ctx, d, kw, t, u, lr=None):
    s.states += 1
    s.transitions += 1
    s.validated += 2
    a = run1(lr or Loader(**kw), d, t, fam)
    b = run1(Loader(**kw), d, u, fam)
    if a != b and a[0] == 'err' and b[0] == 'err':
        # objects of different classes are equal if their content is
        pass
    s.outcomes.add((a[0], fam.kind))
    if a != b:
        what = 'load %r into %s of\n%s with %r: %s; unrolled: %s' % (d, ctx, fam.text, kw, str(a)[:300], str(b)[:300])
        s.bad(what, replay20(fam, ctx, d, kw, what))
    return a


def u_family(u, s, quick):
    kind, ref, mk = u
    fam = Family(kind, ref)
    dd = docs(mk, 2 if quick else 3, fam.inner, not quick)
    good = {'v': 7}
    k = 0
    for ci, (ctx, cdoc) in enumerate(CONTEXTS):
        if kind.startswith('td') and ctx.startswith(('Set', 'Frozen')):
            continue
        t, w = fam.types(ctx)
        for kw in SETTINGS:
            k += 1
            # every context sees every document; the first settings with all the documents
            sel = dd if ci == 0 else dd[k % 7::7] if quick else dd[k % 2::2]
            # one loader for all of them, so that the caches are warm, and new ones
            shared = Loader(**kw)
            for i, d in enumerate(sel):
                compare(s, fam, ctx, cdoc(d, good), kw, t, w)
                compare(s, fam, ctx, cdoc(d, good), kw, t, w, shared)
                if s.full:
                    return


def u_deep(u, s, quick):
    """Long chains of data: the result and the position of an error at the bottom"""
    kind, ref, mk, link = u
    fam = Family(kind, ref, depth=2)
    for n in ([1, 2, 5, 17, 40] if quick else list(range(1, 41)) + [60]):
        for bottom, bad in (({'v': 1}, False), ({'v': '1'}, False), ({'v': 'x'}, True)):
            d = bottom
            for _ in range(n):
                d = {'v': 1, 'n': link(d)}
            s.states += 1
            s.validated += 1
            try:
                r = Loader().load(d, fam.rec)
            except TypedloadException as e:
                v = e.value
                if not bad or 'v' not in [a for k, a in [(i.annotation[0], i.annotation[1]) for i in e.trace if i.annotation is not None] if k == AnnotationType.FIELD] and not e.exceptions:
                    s.bad('%r at depth %d: %s' % (bottom, n, str(e)[:200]))
                continue
            except Exception as e:
                s.bad('%r at depth %d: %r' % (bottom, n, e))
                continue
            c = 0
            while True:
                v, nx = (r['v'], r.get('n')) if isinstance(r, dict) else (r.v, r.n)
                if v != 1 or type(v) is not int or (not isinstance(r, fam.rec) if kind[:2] != 'td' else type(r) is not dict):
                    s.bad('wrong object at level %d' % c)
                if nx is None:
                    break
                r = link.undo(nx)
                c += 1
            if c != n or bad:
                s.bad('%r: chain of %d became %d' % (bottom, n, c))
        if s.full:
            return


def mklink(do, undo):
    do.undo = undo
    return do


LINKS = [
    ('Optional[@]', mklink(lambda d: d, lambda x: x)),
    ('List[@]', mklink(lambda d: [d], lambda x: x[0])),
    ('Dict[str, @]', mklink(lambda d: {'k': d}, lambda x: x['k'])),
    ('Tuple[@, ...]', mklink(lambda d: [d], lambda x: x[0])),
    ('list[@]', mklink(lambda d: [d], lambda x: x[0])),
    ('@', mklink(lambda d: d, lambda x: x)),
]


def u_names(u, s, quick):
    """The name of the class is that of something of typing, of a builtin, or odd"""
    kind, name = u
    for ref, mk in [r for r in REFS if r[0] in ('Optional[@]', 'List[@]', 'Dict[str, @]', 'list[@]', 'Tuple[@, ...]', 'Union[@, None, int]', 'FrozenSet[@]', 'Optional[List[@]]', 'dict[str, @]')] + [PLAIN]:
        try:
            fam = Family(kind, ref, name)
        except SyntaxError:
            raise
        dd = docs(mk, 1, fam.inner, False)
        for ci, (ctx, cdoc) in enumerate(CONTEXTS):
            if 'Set' in ctx and kind[:2] == 'td':
                continue
            t, w = fam.types(ctx)
            shared = Loader()
            for d in dd:
                compare(s, fam, ctx, cdoc(d, {'v': 7}), {}, t, w)
                compare(s, fam, ctx, cdoc(d, {'v': 7}), {}, t, w, shared)
                if s.full:
                    return


# names given by the user
TABLE = [('int', 'int'), ('str', 'str'), ('list', 'List[int]'), ('union', 'Union[int, List[str]]'), ('class', 'Given'), ('newtype', 'NewType("Q", int)'), ('literal', 'Literal["a", 1]'), ('any', 'Any'), ('dict', 'Dict[str, int]'), ('date', 'datetime.date'), ('none', 'type(None)'), ('enum', 'En'), ('builtin', 'list[int]'), ('chain', 'ForwardRef("Other")'), ('td', 'GivenTD')]
GIVEN = 'class Given(NamedTuple):\n    z: int\n    w: str = ""\nclass En(Enum):\n    A = 1\n    B = "x"\nclass GivenTD(TypedDict):\n    z: int\n'
VALS = [1, '1', 'a', 'x', None, [1], ['1'], ['a'], {'z': 1}, {'z': '1'}, {'w': 1}, {}, [2020, 1, 1], '2020-01-01', 1.5, {'v': 1}, {'v': 'x'}, {'v': 1, 'n': 1}]


def u_given(u, s, quick):
    """
    The holder refers to the name: with the table, the outcome is that of the
    type. Also when the name is that of the holder, of another class that is
    encountered before or after, or is not an identifier.
    """
    kind, (label, texpr) = u
    refs = ['Optional[@]', 'List[@]', 'list[@]', 'Dict[str, @]', '@', 'Tuple[int, @]', 'Union[Dict[int, Early], @]', 'tuple[@, ...]']
    wraps = [lambda v: v, lambda v: [v, v], lambda v: [v], lambda v: {'k': v}, lambda v: v, lambda v: [1, v], lambda v: v, lambda v: [v]]
    for name in ('Name', 'Holder', 'Early', 'Late', 'Outer.Inner', 'int', 'str', 'List'):
        for ref, wrap in zip(refs, wraps):
            ns = dict(NS)
            exec(GIVEN, ns)
            t = eval(texpr, ns)
            decl = ''
            for cls in ('Early', 'Late'):
                decl += 'class %s(NamedTuple):\n    v: int\n' % cls
            quoted = "'%s'" % name
            exec(decl, ns)
            tmpl = {
                'nt': 'class Holder(NamedTuple):\n    a: Optional[Early] = None\n    r: %s = None\n    b: Optional[Late] = None\n',
                'dc': '@dataclasses.dataclass\nclass Holder:\n    a: Optional[Early] = None\n    r: %s = None\n    b: Optional[Late] = None\n',
                'attrs': '@attr.s(auto_attribs=True)\nclass Holder:\n    a: Optional[Early] = None\n    r: %s = None\n    b: Optional[Late] = None\n',
                'td': 'class Holder(TypedDict, total=False):\n    a: Early\n    r: %s\n    b: Late\n',
            }[kind]
            rn = dict(ns)
            exec(tmpl % ref.replace('@', quoted), rn)
            un = dict(ns)
            un['TheType'] = t if label != 'chain' else ns['Given']
            exec(tmpl % ref.replace('@', 'TheType'), un)
            fam = type('F', (), dict(name='', norm=lambda self, x: ''))()
            for v in VALS:
                for pre in ({}, {'a': {'v': 1}}, {'a': {'v': 'x'}}):
                    d = dict(pre, r=wrap(v), b={'v': 2})
                    for how in ('constructor', 'attribute', 'item'):
                        table = {name: t}
                        if label == 'chain':
                            table['Other'] = ns['Given']
                        if how == 'constructor':
                            l = Loader(frefs=dict(table))
                        elif how == 'attribute':
                            l = Loader()
                            l.frefs = dict(table)
                        else:
                            l = Loader()
                            l.frefs.update(table)
                        for again in (0, 1):
                            s.states += 1
                            s.transitions += 1
                            s.validated += 2
                            a = run1(l, d, rn['Holder'], fam)
                            b = run1(Loader(), d, un['Holder'], fam)
                            if a[0] == b[0] == 'err' and ref[0] in 'OU':
                                # the members of an union are not the same if the type is an union
                                a = b
                            if a != b:
                                what = 'load %r with frefs {%r: %s} (%s), %s of %s: %s; with the type itself: %s' % (d, name, texpr, how, ref, kind, str(a)[:300], str(b)[:300])
                                s.bad(what, HEAD + GIVEN + decl + tmpl % ref.replace('@', quoted) + 'print(%r)\nprint(Loader(frefs={%r: %s}).load(%r, Holder))\n' % (what, name, texpr, d))
                        if quick:
                            break
                    if s.full:
                        return


def u_unknown(u, s, quick):
    """
    Names that are not known, or frefs=None: a typedload exception if the name
    is needed, and the same outcome as ever if it is not.
    """
    kind, frefs = u
    for ref, mk in REFS + [PLAIN]:
        if ref == 'Any' or 'NewType' in ref:
            continue
        for name in ('Missing', 'Holder2', 'a.b', '', ' ', 'int', 'é', 'List[int]', 'x' * 200,
                     # what is known to Python but not to the loader
                     'float', 'Any', 'Path', 'Exception',
                     # not quite the name of the class
                     'elsewhere.Node', 'Node.v', 'Node.Node', 'node', 'NODE', 'Nod', 'Nodes', '_Node', 'Node_'):
            text = KINDS20[kind] % dict(n='Node', ref=ref.replace('@', repr(name)))
            ns = dict(NS)
            try:
                exec(text, ns)
            except SyntaxError:
                # typing wants the name to be an expression
                continue
            for d, needed in (({'v': 1}, False), ({'v': '5'}, False), ({'v': 'x'}, None), ({}, kind != 'td' and None)):
                for kw in SETTINGS:
                    s.states += 1
                    s.validated += 1
                    l = Loader(frefs=None, **kw) if frefs is None else Loader(frefs={}, **kw) if frefs else Loader(**kw)
                    try:
                        l.load(d, ns['Node'])
                    except TypedloadException as e:
                        str(e)
                        if needed is False and not (kw.get('basiccast') is False and d == {'v': '5'}):
                            s.bad('load %r into\n%s with %r: %s' % (d, text, kw, str(e)[:200]), HEAD + text + 'print(Loader(frefs=None).load(%r, Node))\n' % d)
                    except Exception as e:
                        s.bad('load %r into\n%s with %r: %r' % (d, text, kw, e), HEAD + text + 'print(Loader(frefs=None).load(%r, Node))\n' % d)
            for c in ({'v': 1}, 5, None, 'q', [], {}, [{'v': 1}]):
                for x in mk({'v': 1}, c):
                    inner = kind.startswith('enc')
                    d = {'v': 1, 'n': {'o': x} if inner else x}
                    for kw in SETTINGS:
                        s.states += 1
                        s.validated += 1
                        l = Loader(frefs=None, **kw) if frefs is None else Loader(frefs={}, **kw) if frefs else Loader(**kw)
                        try:
                            r = l.load(d, ns['Node'])
                        except TypedloadException as e:
                            str(e)
                            continue
                        except Exception as e:
                            s.bad('load %r into\n%s with %r: %r' % (d, text, kw, e), HEAD + text + 'print(Loader(frefs=None).load(%r, Node))\n' % d)
                            continue
                        # it was accepted: then the name can't have been needed
                        if name != 'int' and not spared(ref, x, kw):
                            s.bad('%r is accepted by\n%s but the name is unknown: %r' % (d, text, r), HEAD + text + 'print(Loader(frefs=None).load(%r, Node))\n' % d)
                    if s.full:
                        return


def spared(ref, x, kw):
    """Can x be loaded without the name?"""
    if ref.startswith(('List', 'list', 'Tuple[@, ...]', 'tuple[@, ...]', 'FrozenSet', 'frozenset')) and ref.count('[') == 1:
        return x in ([], '') or x == ()
    if ref == 'List[List[@]]':
        return type(x) is list and all(i in ([], '') for i in x) or x == ''
    if ref == 'List[Optional[@]]':
        return type(x) is list and all(i is None for i in x) or x == ''
    if ref == 'list[dict[str, @]]':
        return type(x) is list and all(i == {} for i in x) or x == ''
    if ref in ('Dict[str, @]', 'dict[str, @]'):
        return x == {}
    if ref == 'Dict[str, List[@]]':
        return type(x) is dict and all(i in ([], '') for i in x.values())
    if ref == 'Union[int, List[@]]':
        return x in ([], '') or isinstance(x, (int, str)) and not isinstance(x, list) and _int(x, kw)
    if ref == 'Union[@, None, int]':
        return x is None or _int(x, kw)
    if ref == 'Optional[List[@]]':
        return x in (None, [], '')
    if ref == 'Optional[Dict[str, Union[@, List[@]]]]':
        return x in (None, {}) or type(x) is dict and all(i in ([], '') for i in x.values())
    if ref.startswith('Optional'):
        return x is None
    return False


def _int(x, kw):
    if type(x) is int:
        return True
    if kw.get('basiccast') is False:
        return False
    try:
        int(x)
        return True
    except Exception:
        return False


def u_disabled(u, s, quick):
    """frefs=None makes no difference when there is no reference"""
    kind, ref, mk = u
    fam = Family(kind, ref)
    for d in docs(mk, 2, fam.inner, False):
        for kw in SETTINGS:
            s.states += 1
            s.validated += 2
            a = run1(Loader(**kw), d, fam.flat, fam)
            b = run1(Loader(frefs=None, **kw), d, fam.flat, fam)
            if a != b:
                s.bad('load %r into an unrolled type: %s; with frefs=None: %s' % (d, a, b), '')
            if s.full:
                return


def u_mutual(u, s, quick):
    """
    Two or three classes that refer to each other by name, one of them also
    directly, entered from every one; the loader knows some of the names from
    the user or from loads done before.
    """
    kinds = u
    decl = {
        'nt': 'class %s(NamedTuple):\n    v: int\n%s',
        'dc': '@dataclasses.dataclass\nclass %s:\n    v: int\n%s',
        'attrs': '@attr.s(auto_attribs=True)\nclass %s:\n    v: int\n%s',
        'td': 'class %s(TypedDict, total=False):\n    v: int\n%s',
    }
    names = ['Aa', 'Bb', 'Cc'][:len(kinds)]
    text = ''
    for i, k in enumerate(kinds):
        fields = ''
        for j, n in enumerate(names):
            fields += '    %s: Optional[%r]%s\n' % (n.lower(), n, '' if k == 'td' else ' = None')
        text += decl[k] % (names[i], fields)
    ns = dict(NS)
    exec(text, ns)
    N = len(names)
    # documents: a chain of names and what there is at the end of it
    chains = [c for n in range(0, 3 if quick else 4) for c in itertools.product(range(N), repeat=n)]
    def walk(d, i, chain, known):
        pass
    for entry in range(N):
        for given in itertools.chain.from_iterable(itertools.combinations(range(N), n) for n in range(N + 1)):
            for before in itertools.chain.from_iterable(itertools.permutations(range(N), n) for n in range(N + 1)):
                for chain in chains:
                    for bottom in (1, '1', 'x'):
                        d = {'v': bottom}
                        for c in reversed(chain):
                            d = {'v': 1, names[c].lower(): d}
                        l = Loader(frefs={names[i]: ns[names[i]] for i in given})
                        for b in before:
                            l.load({'v': 1}, ns[names[b]])
                        known = set(given) | set(before) | {entry}
                        exp = set(chain) <= known and bottom != 'x'
                        s.states += 1
                        s.transitions += 1 + len(before)
                        s.validated += 1
                        try:
                            r = l.load(d, ns[names[entry]])
                        except TypedloadException as e:
                            str(e)
                            if exp:
                                s.bad('load %r into %s of\n%swith frefs of %r, after %r: %s' % (d, names[entry], text, given, before, str(e)[:300]))
                            continue
                        except Exception as e:
                            s.bad('load %r into %s of\n%s: %r' % (d, names[entry], text, e))
                            continue
                        if not exp:
                            s.bad('load %r into %s of\n%swith frefs of %r, after %r: accepted' % (d, names[entry], text, given, before))
                        cur = r
                        for i in (entry,) + chain:
                            pass
                        types_ = (entry,) + chain
                        for pos, i in enumerate(types_):
                            if kinds[i] == 'td':
                                ok = type(cur) is dict and cur['v'] == 1
                            else:
                                ok = type(cur) is ns[names[i]] and cur.v == 1
                            if not ok:
                                s.bad('load %r into %s of\n%s: wrong object %r' % (d, names[entry], text, r))
                                break
                            if pos + 1 < len(types_):
                                nx = names[types_[pos + 1]].lower()
                                cur = cur[nx] if kinds[i] == 'td' else getattr(cur, nx)
                if s.full:
                    return


def run(tier, seed):
    quick = tier == 'quick'
    units = []
    for kind in KINDS20:
        for ref, mk in REFS + [PLAIN]:
            units.append((u_family, (kind, ref, mk)))
            if kind in ('nt', 'dc', 'attrs', 'td') or not quick:
                units.append((u_disabled, (kind, ref, mk)))
        if not kind.startswith('enc'):
            for ref, link in LINKS:
                units.append((u_deep, (kind, ref, None, link)))
        for name in ODDNAMES if not quick else ODDNAMES:
            if quick and kind in ('dcm', 'attrib', 'tdnr', 'encdc', 'encmix'):
                continue
            if name == '__N' and kind.startswith('enc'):
                continue
            units.append((u_names, (kind, name)))
        for f in (None, 0, 1):
            units.append((u_unknown, (kind, f)))
    for kind in ('nt', 'dc', 'attrs', 'td'):
        for t in TABLE:
            units.append((u_given, (kind, t)))
    for n in (1, 2) if quick else (1, 2, 3):
        for kinds in itertools.product(('nt', 'dc', 'attrs', 'td'), repeat=n):
            units.append((u_mutual, kinds))
    units.append((u_mutual, ('nt', 'dc', 'td')))
    def f(u, s):
        u[0](u[1], s, quick)
        s.sample('%s(%s)' % (u[0].__name__, str(u[1][:2])), 1)
    total = core.explore(units, f)
    return total, dict(bound='%d kinds of recursive classes, %d positions of the reference, %d contexts, all the documents of up to %d levels; chains of up to %d objects; %d names given by the user; all the mutual references of up to %d classes, from every entry point and after every sequence of loads of them' % (len(KINDS20), len(REFS) + 1, len(CONTEXTS), 3 if quick else 4, 40 if quick else 60, len(TABLE), 3),
                       assumptions=['no two classes of the same name are used with one loader (documented)'])
