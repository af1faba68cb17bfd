"""
C01: whatever is accepted is an instance of the type. The oracle is the
definition of instance, that knows nothing of how things are converted. The
loader of each configuration is reused for all the documents of a type.
"""
from mc.diff import *
from mc.docs import *

QUICK = [Cfg(), Cfg(basiccast=False), Cfg(failonextra=True, mangle_key='other'), Cfg(uniondebugconflict=True, dictequivalence=False)]
THOROUGH = [Cfg(basiccast=a, failonextra=b, uniondebugconflict=c, dictequivalence=d, mangle_key=m)
            for a in (True, False) for b in (True, False) for c in (True, False) for d, m in ((True, 'name'), (False, 'other'))]


def unit(tier):
    cfgs = QUICK if tier == 'quick' else THOROUGH
    def f(i, s):
        node = universe(tier if tier == 'quick' else 'middle')[i]
        for cfg in cfgs:
            loader = Loader(**cfg.kw)
            for d in documents(node, 'quick'):
                out = impl(node, d, cfg, loader)
                s.states += 1
                s.validated += 1
                if out[0] != 'ok':
                    s.add('rejected')
                    continue
                s.add('accepted')
                s.transitions += 1
                if not node.conforms(out[1]):
                    report(s, node, d, cfg, out, 'which is not an instance of the type')
                    if s.full:
                        return
        s.sample('%s x %d configurations' % (node.expr(), len(cfgs)), 1)
    return f


def run(tier, seed):
    total = core.explore(list(range(len(universe('quick' if tier == 'quick' else 'middle')))), unit(tier))
    return total, dict(bound='types of depth 2, documents within 1 edit (2 for small types), %d configurations' % len(QUICK if tier == 'quick' else THOROUGH),
                       assumptions=['an instance of a subclass of a basic type is an instance of it inside of a container'])
