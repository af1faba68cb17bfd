"""
C18: every type of the bounded grammar, written in all the ways that are
combinations of: typing aliases or builtin generics, Union in any nesting, |,
Optional, None or its type, classes or functional syntax or decorators; each
document gives the same outcome (value, or kind and position of the error) and
the same dump as in the first way, with loaders used for one way only and with
one used for all.
"""
import copy
import itertools

from mc.diff import *
from mc.universe import *
from mc.docs import documents
from typedload.exceptions import AnnotationType

SEQ = ['typing', 'builtin', 'mixed']
UNION = ['Union', 'pipe', 'left', 'right', 'optional', 'optpipe', 'unionpipe']
NONES = ['None', 'type(None)']
CLS = ['class', 'func', 'alt']


class Style:
    def __init__(self, seq, union, none, cls):
        self.seq, self.union, self.none, self.cls = seq, union, none, cls

    def __repr__(self):
        return '/'.join((self.seq, self.union, self.none, self.cls))


class RSeq(Seq): pass


class RUnion(Node):
    def __init__(self, members, style, top):
        self.deps = tuple(members)
        self.style = style
        self.members = members

    def expr(self):
        m = [i.expr() for i in self.members]
        st = self.style
        if len(m) == 1:
            return m[0]
        def pipe(l):
            # strings and None have no operator
            if any(e[0] in '\'"' for e in l) or sum(1 for e in l if e == 'None') == len(l):
                return 'Union[%s]' % ', '.join(l)
            if l[0] == 'None' and len(l) > 1 and l[1] == 'None':
                return 'Union[%s]' % ', '.join(l)
            return ' | '.join(l)
        if st == 'pipe':
            return pipe(m)
        last = m[-1] in ('None', 'type(None)')
        if st == 'optional' and last:
            return 'Optional[%s]' % ('Union[%s]' % ', '.join(m[:-1]) if len(m) > 2 else m[0])
        if st == 'optpipe' and last:
            return 'Optional[%s]' % pipe(m[:-1])
        if len(m) > 2:
            if st == 'left':
                return 'Union[Union[%s], %s]' % (', '.join(m[:-1]), m[-1])
            if st == 'right':
                return 'Union[%s, Union[%s]]' % (m[0], ', '.join(m[1:]))
            if st == 'unionpipe':
                return 'Union[%s, %s]' % (pipe(m[:2]), ', '.join(m[2:]))
        return 'Union[%s]' % ', '.join(m)


class RObj(Obj):
    def _declare(self):
        cls = self._cls
        if cls == 'class' or self.body or self.base:
            return Obj._declare(self)
        if cls == 'func':
            if self.kind == 'nt':
                if any(f.default for f in self.fields):
                    return Obj._declare(self)
                return '%s = NamedTuple(%r, [%s])\n' % (self.name, self.name, ', '.join('(%r, %s)' % (f.name, f.annotation()) for f in self.fields))
            if self.kind == 'td':
                e = lambda f: 'NotRequired[%s]' % f.annotation() if f.notrequired and self.total else f.annotation()
                return '%s = TypedDict(%r, {%s}%s)\n' % (self.name, self.name, ', '.join('%r: %s' % (f.name, e(f)) for f in self.fields), '' if self.total else ', total=False')
            if self.kind == 'dc':
                if self.opts:
                    return Obj._declare(self)
                r = []
                for f in self.fields:
                    a = []
                    if f.default:
                        a.append('default=' + f.default[1] if f.default[0] == 'v' else 'default_factory=' + f.default[1])
                    if not f.init:
                        a.append('init=False')
                    if f.kw:
                        a.append('kw_only=True')
                    if f.metadata():
                        a.append('metadata=%r' % f.metadata())
                    r.append('(%r, %s, field(%s))' % (f.name, f.annotation(), ', '.join(a)))
                return '%s = dataclasses.make_dataclass(%r, [%s])\n' % (self.name, self.name, ', '.join(r))
            if self.opts:
                return Obj._declare(self)
            r = []
            for f in self.fields:
                a = ['type=' + f.annotation()]
                if f.default:
                    a.append({'v': 'default=%s', 'f': 'factory=%s', 'fs': 'default=attr.Factory(%s, takes_self=True)'}[f.default[0]] % f.default[1])
                if not f.init:
                    a.append('init=False')
                if f.kw:
                    a.append('kw_only=True')
                if f.metadata():
                    a.append('metadata=%r' % f.metadata())
                r.append('%r: attr.ib(%s)' % (f.name, ', '.join(a)))
            return '%s = attr.make_class(%r, {%s})\n' % (self.name, self.name, ', '.join(r))
        # alt: the other kind of attrs, the other syntax of optional keys
        if self.kind == 'attrs':
            self.kind = 'attrsa'
            d = Obj._declare(self)
            self.kind = 'attrs'
            return d
        if self.kind == 'attrsa' and not self.opts:
            return Obj._declare(self).replace('@attr.s(auto_attribs=True)', '@attr.define')
        if self.kind == 'td' and not self.total:
            self.total = True
            d = Obj._declare(self)
            self.total = False
            return d
        if self.kind == 'td' and self.fields and all(f.notrequired for f in self.fields):
            self.total = False
            d = Obj._declare(self)
            self.total = True
            return d
        return Obj._declare(self)


BUILTIN = {'List': 'list', 'Set': 'set', 'FrozenSet': 'frozenset', 'Tuple': 'tuple', 'Dict': 'dict'}


def respell(n, st, memo=None, depth=0):
    """Copy of the node, that is the same type written in another way. Only for its source"""
    memo = {} if memo is None else memo
    if id(n) in memo:
        return memo[id(n)]
    def sp(k):
        b = st.seq == 'builtin' or st.seq == 'mixed' and depth % 2 == 0
        return BUILTIN[k] if b else k
    go = lambda x: respell(x, st, memo, depth + 1)
    if isinstance(n, Basic):
        r = Basic(st.none) if n.py is type(None) else n
    elif isinstance(n, Seq):
        r = RSeq(n.kind, go(n.elem), sp(n.kind))
    elif isinstance(n, TupleFix):
        r = TupleFix(*[go(i) for i in n.items], spelling=sp('Tuple'))
    elif isinstance(n, DictT):
        r = DictT(go(n.k), go(n.v), sp('Dict'))
    elif isinstance(n, UnionT):
        r = RUnion([go(i) for i in n.members], st.union, depth == 0)
    elif isinstance(n, NewTypeT):
        r = NewTypeT(n.name, go(n.base))
    elif isinstance(n, EnumT):
        r = copy.copy(n)
        if n.hints:
            hints = [(k, go(v)) for k, v in n.hints]
            r = EnumT(n.name, n.members, hints)
        elif st.cls == 'func':
            r.decl = '%s = Enum(%r, [%s])\n' % (n.name, n.name, ', '.join('(%r, %s)' % (k, src(v)) for k, v in n.members))
    elif isinstance(n, LiteralT):
        r = copy.copy(n)
        if st.cls != 'class' and len(n.values) > 1:
            vs = [repr(v) for v in n.values]
            e = 'Literal[Literal[%s], %s]' % (vs[0], ', '.join(vs[1:])) if st.cls == 'func' else 'Literal[%s, Literal[%s]]' % (vs[0], ', '.join(vs[1:]))
            r.expr = lambda: e
    elif isinstance(n, PatternT):
        r = copy.copy(n)
        if st.seq != 'typing':
            e = 're.' + n.expr().split('.')[-1]
        else:
            e = 'typing.' + n.expr().split('.')[-1]
        r.expr = lambda: e
    elif isinstance(n, Obj):
        fields = []
        r = RObj.__new__(RObj)
        r._cls = st.cls
        memo[id(n)] = r
        for f in n.fields:
            f2 = copy.copy(f)
            f2.node = go(f.node)
            fields.append(f2)
        base = go(n.base) if n.base else None
        r.__init__(n.kind, n.name, fields, n.opts, n.total, n.body, base)
    elif isinstance(n, Ref):
        r = copy.copy(n)
    else:
        r = n
    memo[id(n)] = r
    return r


def styles():
    return [Style(*i) for i in itertools.product(SEQ, UNION, NONES, CLS)]


def spellings(node):
    """Distinct (style, source, expression), the first is the reference"""
    seen = {}
    for st in styles():
        r = respell(node, st)
        key = (r.source(), r.expr())
        if key not in seen:
            seen[key] = st
    return [(st, s, e) for (s, e), st in seen.items()]


CFGS = [Cfg(), Cfg(basiccast=False, failonextra=True), Cfg(uniondebugconflict=True)]


def same_class_values(v):
    return repr(v)


def canon_error(e, depth=0):
    """Kind and position of the error, without the names of the types"""
    path = tuple((i.annotation[0], repr(i.annotation[1]) if i.annotation[0] != AnnotationType.UNION else '') for i in e.trace if i.annotation is not None)
    return (type(e).__name__, path, repr(e.value), tuple(canon_error(x, depth + 1) for x in e.exceptions) if depth < 5 else 0)


def out(l, t, d):
    try:
        v = l.load(build(d), t)
    except TypedloadException as e:
        return ('err', canon_error(e)), None
    except Exception as e:
        return ('crash', type(e).__name__), None
    return ('ok', repr(v), type(v).__name__), v


def explore_type(node, docs, tier, s):
    sps = spellings(node)
    s.add('spellings', len(sps))
    if len(sps) == 1:
        return
    s.sample('%s: %d spellings, for example %s %s' % (node.expr(), len(sps), sps[-1][1].replace('\n', '; ')[:150], sps[-1][2]), 1)
    shared = [Loader(**c.kw) for c in CFGS]
    ref = None
    for n, (st, source, expr) in enumerate(sps):
        ns = dict(NS)
        # the same names are declared again
        for k in node.declarations():
            if k.name:
                ns.pop(k.name, None)
        # typing gives an Union that was created before with the members in another order
        for clean in typing._cleanups:
            clean()
        exec(compile(source, '<c18>', 'exec', dont_inherit=True), ns)
        t = eval(compile(expr, '<type>', 'eval', dont_inherit=True), ns)
        mine = []
        for i, c in enumerate(CFGS):
            own = Loader(**c.kw)
            # names of classes are resolved by name: a loader can't be used for classes with the same name
            loaders = [own] if source.strip() else [own, shared[i]]
            for d in docs:
                s.states += 1
                for l in loaders:
                    s.validated += 1
                    o, v = out(l, t, d)
                    if l is own:
                        dumps = None
                        if o[0] == 'ok' and i == 0:
                            dumps = tuple(repr(outdump(kw, v, h)) for kw in ({}, {'hidedefault': False}) for h in (None, t))
                        mine.append((o, dumps))
                    elif o != mine[-1][0]:
                        bad(s, node, st, source, expr, d, c, o, mine[-1][0], 'with a loader that is used for the other spellings too')
        s.outcomes.add(hash(repr(mine)))
        if ref is None:
            ref = mine
            continue
        j = 0
        for c in CFGS:
            for d in docs:
                if mine[j] != ref[j]:
                    bad(s, node, st, source, expr, d, c, mine[j], ref[j], 'instead of what happens with\n%s%s' % (sps[0][1], sps[0][2]))
                    break
                j += 1
                s.transitions += 1
            else:
                continue
            break
        if s.full:
            return


def outdump(kw, v, h):
    try:
        d = Dumper(**kw)
        return d.dump(v) if h is None else d.dump(v, h)
    except Exception as e:
        return type(e).__name__


def bad(s, node, st, source, expr, d, c, a, b, why):
    what = 'load %s into\n%s%s\n(%r, spelling %r): %s %s: %s' % (src(d), source, expr, c, st, str(a)[:400], why, str(b)[:400])
    s.bad(what, PRELUDE + source + '''
from typedload.dataloader import Loader
print(Loader(%r).load(%s, %s))
''' % (c, src(d), expr))


def more_types():
    """Unions of all sizes over members of all kinds, alone and inside of containers"""
    r = []
    mem = [INT, STR, NONE, DATE, E_INT, LIT, Seq('List', INT), DictT(STR, INT), obj('nt', [F('a', INT)]), obj('td', [F('a', INT)]), TupleFix(INT, STR), NT_INT]
    for a, b, c in itertools.permutations(mem[:9], 3):
        if a is NONE or b is NONE:
            continue
        u = UnionT(a, b, c)
        r.append(u)
    for a, b in itertools.combinations(mem, 2):
        u = UnionT(a, b)
        r += [Seq('List', u), DictT(STR, u), TupleFix(u, INT), obj('dc', [F('p', u), F('q', Seq('List', u), ('f', 'list'))]), Seq('Tuple', UnionT(u, NONE))]
    return r


def run(tier, seed):
    uni = universe('quick' if tier == 'quick' else 'middle') + more_types()
    def f(i, s):
        node = uni[i]
        limit = 25 if tier == 'quick' else 200
        docs = list(itertools.islice(documents(node, 'quick'), limit * 4))
        if len(docs) > limit:
            # evenly over the enumeration, which goes from well formed documents to edited ones
            step = len(docs) / limit
            docs = [docs[int(k * step)] for k in range(limit)]
        explore_type(node, docs, tier, s)
    total = core.explore(list(range(len(uni))), f)
    return total, dict(bound='%d types, all the combinations of %d x %d x %d x %d styles that give distinct sources, 3 settings, %d documents each' % (len(uni), len(SEQ), len(UNION), len(NONES), len(CLS), 25 if tier == 'quick' else 200),
                       assumptions=['typing.Required and type aliases with the type statement are not supported by typedload, in any spelling'])
