"""
C09: uniondebugconflict. The reference model knows which unions are satisfied by
more than one member; besides, if none is, the outcome must be the same without
the option.
"""
from mc.diff import *
from mc.unions import *
from mc import c05

CFGS = [Cfg(uniondebugconflict=True), Cfg(uniondebugconflict=True, basiccast=False, failonextra=True)]


def check(s, node, d, cfg):
    STEPS[0] = 0
    AMBIGUOUS[0] = False
    r = model(node, d, cfg)
    s.states += 1
    s.transitions += STEPS[0]
    if r is None:
        return
    out = impl(node, d, cfg)
    s.validated += 1
    why = 'which is not a typedload exception' if out[0] == 'crash' else mismatch(r, out)
    if not why and out[0] == 'err':
        e = out[1]
        p = c05.steps(e.trace)
        here = [f for f in r.fails if c05.same_path(p, f.path) and c05.norm(f.node.t) == c05.norm(e.type_)]
        if here and all(f.subs == 'conflict' for f in here):
            s.add('conflicts')
            if not isinstance(e, TypedloadTypeError):
                why = 'a conflict is a type error'
        elif not here:
            why = 'what is wrong is %r' % r.fails[:3]
    if not why and not AMBIGUOUS[0] and not has_oneshot(d):
        off = Cfg(**{k: v for k, v in cfg.kw.items() if k != 'uniondebugconflict'})
        other = impl(node, d, off)
        s.add('compared_without_the_option')
        if out[0] != other[0] or (out[0] == 'ok' and not same(out[1], other[1])):
            why = 'no union is ambiguous, but without the option it %s' % describe(other)
        elif out[0] == 'err' and not (type(out[1]) is type(other[1]) and c05.same_path(c05.steps(out[1].trace), c05.steps(other[1].trace))):
            why = 'no union is ambiguous, but without the option it %s' % describe(other)
    if why:
        report(s, node, d, cfg, out, why)


def run(tier, seed):
    p = pool()
    us = unions(tier)
    ts = tagged_unions()
    cs = contexts()
    uni = universe('quick' if tier == 'quick' else 'middle')
    def f(u, s):
        kind, i = u
        if kind == 'g':
            node = uni[i]
            ds = list(documents(node, 'quick', junk=JUNK_SMALL, two=tier != 'quick'))
        elif kind == 't':
            node = ts[i]
            ds = tag_docs(node)[::1 if tier != 'quick' else 2]
        else:
            node = us[i]
            ds = list(docs_for(node, p, tier))
        for cfg in CFGS:
            for n, d in enumerate(ds):
                check(s, node, d, cfg)
                if kind != 'g':
                    c = cs[(n + i) % len(cs)]
                    if not c[4] and not has_oneshot(d):
                        key = (id(node), c[0])
                        ctx = CTX.get(key)
                        if ctx is None:
                            ctx = CTX[key] = c[1](node)
                        check(s, ctx, c[2]([d] * c[3]), cfg)
                if s.full:
                    return
        s.sample('%s with %d documents' % (node.expr(), len(ds)), 1)
    units = [('u', i) for i in range(len(us))] + [('t', i) for i in range(len(ts))] + [('g', i) for i in range(len(uni))]
    total = core.explore(units, f)
    return total, dict(bound='%d unions with the documents of all the members of a pool, types of depth 2 with documents within 1 edit' % len(us + ts))


CTX = {}
