"""
C08: unions. All pairs (and triples) of members from a pool of types that
overlap, with the documents of every member of the pool; every context; tagged
unions with every combination of tags, under several orders of iteration of
the sets (hash seeds).
"""
import json
import os
import subprocess
import sys

from mc.diff import *
from mc.unions import *
from mc import c05

CFGS = [Cfg(), Cfg(basiccast=False), Cfg(failonextra=True)]

EXTRACT = {
    'list': lambda o: o[-1], 'tuple': lambda o: o[-1], 'tuplefix': lambda o: o[-1], 'dictvalue': lambda o: list(o.values())[-1],
    'nt': lambda o: o.q, 'dc': lambda o: o.q, 'dcmangled': lambda o: o.q, 'attrs': lambda o: o.q, 'td': lambda o: o['q'], 'newtype': lambda o: o,
}


def check(s, node, d, cfg, nested=None):
    """nested: the outcome of the union alone, and how to extract it from this one"""
    STEPS[0] = 0
    r = model(node, d, cfg)
    s.states += 1
    s.transitions += STEPS[0]
    if r is None:
        return None
    out = impl(node, d, cfg)
    s.validated += 1
    if out[0] == 'crash':
        why = 'which is not a typedload exception'
    else:
        why = mismatch(r, out)
    if not why and out[0] == 'err':
        s.add('nested_exceptions', len(out[1].exceptions))
        why = c05.check(out[1], c05.steps(out[1].trace), r.fails)
    if not why and nested:
        (kind, val), extract = nested
        if kind != out[0]:
            why = 'but the union alone %s' % describe((kind, val))
        elif kind == 'ok' and extract and not same(extract(out[1]), val):
            why = 'but the union alone gives %r' % (val,)
    if why:
        report(s, node, d, cfg, out, why)
    return out


def same_order(t, u):
    """typing caches List[Union[...]] ignoring the order of the members"""
    a = getattr(t, '__args__', None)
    if not a:
        return True
    for x in a:
        if typing.get_origin(x) is typing.Union and x == u:
            return x.__args__ == u.__args__
    return True


def unit_union(u, s, tier, docs, cs, nctx):
    for cfg in CFGS:
        for n, d in enumerate(docs):
            out = check(s, u, d, cfg)
            if s.full:
                return
            if out is None or cfg is CFGS[2] or nctx == 0 or has_oneshot(d):
                continue
            # in the contexts
            for k in range(nctx):
                c = cs[(n + k * 5) % len(cs)] if nctx < len(cs) else cs[k]
                name, mk, mkdoc, cnt, hashable, _ = c
                if hashable:
                    continue
                key = (id(u), name)
                node = CTX.get(key)
                if node is None:
                    node = CTX[key] = mk(u)
                nested = (out, EXTRACT.get(name)) if name != 'optional' and same_order(node.t, u.t) else None
                good = next((g for g in u.valid()), d)
                if nested and cnt > 1 and impl(u, good, cfg)[0] != 'ok':
                    good = d
                check(s, node, mkdoc([good] * (cnt - 1) + [d]), cfg, nested)
                if s.full:
                    return
    s.sample('%s with %d documents' % (u.expr(), len(docs)), 1)


CTX = {}


def tags_main():
    """In a process with another hash seed"""
    s = core.Shard()
    for u in tagged_unions():
        for cfg in CFGS[:2]:
            for d in tag_docs(u)[:1500]:
                check(s, u, d, cfg)
                if s.full:
                    break
    print(json.dumps([s.states, s.transitions, s.validated, [(v.what, v.replay) for v in s.violations]]))


def run(tier, seed):
    p = pool()
    us = unions(tier)
    ts = tagged_unions()
    cs = contexts()
    def f(u, s):
        kind, i = u
        if kind == 'u':
            unit_union(us[i], s, tier, list(docs_for(us[i], p, tier)), cs, 2 if tier == 'quick' else 4)
        elif kind == 't':
            unit_union(ts[i], s, tier, tag_docs(ts[i])[::1 if tier != 'quick' else 2], cs, 1)
        elif kind == 'c':
            # all the contexts for a few unions
            unit_union(us[i], s, tier, list(docs_for(us[i], p[::4], 'quick'))[:60], cs, len(cs))
        else:
            env = dict(os.environ, PYTHONHASHSEED=str(i))
            r = subprocess.run([sys.executable, '-c', 'from mc import c08; c08.tags_main()'], env=env, capture_output=True, text=True, cwd=core.VERIF)
            if r.returncode:
                raise RuntimeError(r.stderr)
            a, b, c, v = json.loads(r.stdout.strip().split('\n')[-1])
            s.states += a
            s.transitions += b
            s.validated += c
            s.add('hash_seeds')
            for what, rep in v:
                s.bad('PYTHONHASHSEED=%d: %s' % (i, what), rep)
    units = [('h', i) for i in range(4 if tier == 'quick' else 24)] + [('t', i) for i in range(len(ts))] + \
        [('u', i) for i in range(len(us))] + [('c', i) for i in range(0, len(us), 12 if tier == 'quick' else 3)]
    total = core.explore(units, f)
    return total, dict(bound='%d unions of 2 to 10 members, documents of all the members of the pool and within 1 edit of one, contexts of depth 1' % len(us + ts),
                       assumptions=['the order among members that accept the same value is unspecified'])
