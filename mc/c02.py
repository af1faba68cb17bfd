"""
C02: the real loader against the reference interpreter, on every type of the
grammar and every document within one edit (two for small types) of a well
formed one.
"""
from mc.diff import *
from mc.docs import *
from mc.contexts import *

CFGS = [Cfg(), Cfg(basiccast=False, failonextra=True)]


def unit(tier):
    def f(i, s):
        if type(i) is tuple:
            for k, (n, docs) in enumerate(deep(i, tier)):
                one(n, docs, s, [CFGS[k % 2]])
                s.sample('%s ...' % n.expr(), 1)
                if s.full:
                    return
            return
        node = universe(tier)[i]
        n = one(node, documents(node, tier), s)
        s.sample('%s: %d documents' % (node.expr(), n), 1)
    def one(node, docs, s, cfgs=CFGS):
        n = 0
        docs = list(docs)
        for cfg in cfgs:
            for d in docs:
                STEPS[0] = 0
                r = model(node, d, cfg)
                s.states += 1
                s.transitions += STEPS[0]
                if r is None:
                    s.add('unspecified')
                    continue
                out = impl(node, d, cfg)
                s.validated += 1
                s.add('accepted' if out[0] == 'ok' else 'rejected')
                why = mismatch(r, out, node)
                if why:
                    report(s, node, d, cfg, out, why)
                    if s.full:
                        return n
                n += 1
        return n
    return f


def run(tier, seed):
    units = list(range(len(universe(tier)))) + deep_units(tier)
    total = core.explore(units, unit(tier))
    return total, dict(bound='types: depth 2 (quick) or 3 (thorough); documents: 1 edit, 2 edits for small types; 2 configurations; all the types of %d of the wrappers, with one fault at every level' % (5 if tier == 'thorough' else 4))
