"""
C05: the location reported by the exception is one of those that the reference
model knows to be wrong, with the value and the type required there; the same
for the nested exceptions of unions and enums.
"""
from mc.diff import *
from mc.docs import *
from mc.contexts import *

CFGS = [Cfg(), Cfg(basiccast=False, failonextra=True), Cfg(failonextra=True, uniondebugconflict=True)]


def norm(t):
    return type(None) if t is None else t


def steps(trace):
    return tuple((t.annotation.annotation_type.value, t.annotation.value) for t in trace if t.annotation is not None)


def same_path(p, q):
    return len(p) == len(q) and all(a[0] == b[0] and same(a[1], b[1]) for a, b in zip(p, q))


def same_value(v, f):
    if same(v, f.value):
        return True
    if f.data is None:
        return False
    if isinstance(f.data, tuple):
        d = f.data[1]
    else:
        d = f.data
    return isinstance(v, dict) and (same(dict(v), d) or all(same(v[k], d.get(k)) for k in v if k in d))


def check(e, path, fails):
    """None if e, that is at path, is one of the fails"""
    here = [f for f in fails if same_path(path, f.path)]
    if not here:
        return 'the error is located at %r, but what is wrong is %r' % (path, fails[:4])
    here = [f for f in here if norm(e.type_) == norm(f.node.t)]
    if not here:
        return 'the error at %r is for the type %r, but what is wrong is %r' % (path, e.type_, fails[:4])
    here = [f for f in here if same_value(e.value, f)]
    if not here:
        return 'the error at %r has the value %.100r, but what is wrong is %r' % (path, e.value, fails[:4])
    if any(f.subs is None for f in here):
        return None
    why = None
    for f in here:
        why = check_subs(e, f)
        if why is None:
            return None
    return why


def check_subs(e, f):
    if f.subs == 'conflict':
        return None
    if len(e.exceptions) != len(f.subs):
        return '%d nested exceptions for the %d alternatives of %r' % (len(e.exceptions), len(f.subs), f.node)
    left = list(f.subs)
    for x in e.exceptions:
        if not x.trace or x.trace[0].annotation is None or x.trace[0].annotation.annotation_type != AnnotationType.UNION:
            return 'a nested exception does not tell which alternative it is of'
        t = x.trace[0].annotation.value
        for i, (mt, r) in enumerate(left):
            if norm(mt) == norm(t):
                del left[i]
                break
        else:
            return 'a nested exception is of %r, which is not one of the alternatives left %r' % (t, left)
        why = check(x, steps(x.trace[1:]), r.fails)
        if why:
            return 'in the alternative %r: %s' % (t, why)
    return None


def located(e, path=()):
    """The paths from the root of the data of the error and of all those inside of it"""
    path += tuple(p for p in steps(e.trace) if p[0] in ('field', 'index'))
    yield path
    for x in e.exceptions:
        yield from located(x, path)


def check_message(e):
    """Every error of the message has its path from the root of the data"""
    m = str(e)
    lines = [l.partition('Path: ')[2] for l in m.split('\n') if l.lstrip(' ').startswith('Path: ')]
    paths = list(located(e))
    if len(lines) != len(paths):
        return '%d paths in the message for %d errors' % (len(lines), len(paths))
    for n, (p, path) in enumerate(zip(lines, paths)):
        pos = 0
        for kind, v in path:
            name = '[%d]' % v if kind == 'index' else str(v)
            i = p.find(name, pos)
            if i < 0:
                return 'the path %r of %s does not contain %s, that is in %r' % (p, 'the nested error %d in the message' % n if n else 'the message', name, [v for _, v in path])
            pos = i + len(name)
    for x in everything(e):
        if x.args[0] and str(x.args[0]).split('\n')[0] not in m:
            return 'the message does not have %r, that is one of the errors' % x.args[0]
    return None


def everything(e):
    yield e
    for x in e.exceptions:
        yield from everything(x)


HANDLERLESS = [('complex', '5'), ('Iterable[int]', '[1]'), ('Callable[[int], str]', '"x"'), ('bytearray', '[]'), ('type', 'None'), ('object', '{}'), ('int | complex', '[]')]


def handlerless(i, s):
    """Types that can't be loaded, in every position: the error says which type, and has a part of the data"""
    from mc.c13 import Other
    expr, doc = HANDLERLESS[i]
    t = eval(expr, NS)
    leaf = complex if '|' in expr else t
    cs = [c for c in contexts()]
    todo = [(('top',), Other(expr), eval(doc))]
    for c in cs:
        if not c[4] or '[' not in doc and '{' not in doc:
            todo.append(((c[0],), c[1](Other(expr)), c[2]([eval(doc)] * c[3])))
        for c2 in cs:
            if not c[4] and not c2[4]:
                todo.append(((c2[0], c[0]), c2[1](c[1](Other(expr))), c2[2]([c[2]([eval(doc)] * c[3])] * c2[3])))
    # as keys
    for k in (1, 'a', (1, 2), None):
        todo.append((('key',), DictT(Other(expr), INT), {k: 1}))
        todo.append((('list', 'key'), Seq('List', DictT(Other(expr), INT)), [{k: 1}]))
    for name, node, d in todo:
        for cfg in CFGS:
            s.states += 1
            s.validated += 1
            out = impl(node, d, cfg)
            if out[0] == 'ok' and (d is None or 'optional' in name or '|' in expr and name[-1] == 'key'):
                continue
            if out[0] != 'err':
                report(s, node, d, cfg, out, 'there is no handler for %s' % expr)
                continue
            e = out[1]
            parts = [at(d, p) for p in positions(d)] + [k for x in [at(d, p) for p in positions(d)] if type(x) is dict for k in x]
            # the names can be those of the fields
            parts += [{k.lstrip('@'): v for k, v in x.items()} for x in parts if type(x) is dict and '@p' in x]
            bad = [x for x in everything(e) if not any(same(x.value, v) for v in parts)]
            if bad:
                report(s, node, d, cfg, out, 'the value %r of an error is not a part of the data' % (bad[0].value,))
            elif not any(norm(x.type_) == leaf for x in everything(e)):
                report(s, node, d, cfg, out, 'none of the errors is for the type %s' % expr)
            else:
                why = check_message(e)
                if why:
                    report(s, node, d, cfg, out, why)
            if s.full:
                return


def unit(tier):
    def f(i, s):
        if type(i) is tuple and i[0] == 'handlerless':
            return handlerless(i[1], s)
        if type(i) is tuple:
            for k, (n, docs) in enumerate(deep(i, tier)):
                one(n, docs, s, [CFGS[k % 3]])
                if s.full:
                    return
                s.sample('%s ...' % n.expr(), 1)
            return
        node = universe(tier)[i]
        one(node, documents(node, tier, two=False), s)
        s.sample('%s x %d configurations' % (node.expr(), len(CFGS)), 1)
    def one(node, docs, s, cfgs=CFGS):
        docs = list(docs)
        for cfg in cfgs:
            loader = Loader(**cfg.kw)
            for d in docs:
                STEPS[0] = 0
                r = model(node, d, cfg)
                s.states += 1
                s.transitions += STEPS[0]
                if r is None or not r.fails:
                    continue
                out = impl(node, d, cfg, loader)
                if out[0] != 'err':
                    continue
                e = out[1]
                s.validated += 1
                s.add('nested', len(e.exceptions))
                if not e.trace or e.trace[0].annotation is not None or norm(e.trace[0].type_) != norm(node.t):
                    why = 'the trace does not start from the root'
                else:
                    p = steps(e.trace)
                    why = check(e, p, r.fails) or check_message(e)
                if why:
                    report(s, node, d, cfg, out, why)
                    if s.full:
                        return
    return f


def run(tier, seed):
    total = core.explore(list(range(len(universe(tier)))) + deep_units(tier) + [('handlerless', i) for i in range(len(HANDLERLESS))], unit(tier))
    return total, dict(bound='types of depth 2 (quick) or 3 (thorough), documents within 1 edit; all the types of %d of the wrappers, documents with one fault at every level; 3 configurations' % (5 if tier == 'thorough' else 4))
