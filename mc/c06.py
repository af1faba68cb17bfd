"""
C06: with basiccast disabled.
1. the strict loader against the reference model, with values of every class
   at every basic position of every context (two levels)
2. what the strict loader accepts is accepted with the same result by the
   casting one, for the types that have no unions
3. every basic value at a basic position of the result is the very object that
   was in the data
"""
from mc.diff import *
from mc.docs import *
from mc.contexts import *

STRICT = [Cfg(basiccast=False), Cfg(basiccast=False, failonextra=True)]
CAST = [Cfg(), Cfg(failonextra=True)]
VALUES = [None, True, False, 0, 1, -3, X('2**70'), 0.0, 1.0, 2.5, X('float("nan")'), '', 'a', '1', '1.5', 'True', 'None', b'1', b'', X('SubInt(3)'), X('SubStr("s")'), X('IntE.ONE'),
          X('decimal.Decimal("1")'), X('fractions.Fraction(1,1)'), [], {}, [1], X('Opaque()')]


def has_union(node, seen=None):
    seen = seen if seen is not None else set()
    if id(node) in seen:
        return False
    seen.add(id(node))
    if isinstance(node, (UnionT, EnumT)):
        return True
    if isinstance(node, Ref):
        return has_union(node.target, seen)
    return any(has_union(d, seen) for d in node.deps)


def positions_units():
    """Every basic type and unions of them in every context, two levels deep"""
    leaves = BASICS + [UnionT(INT, STR), UnionT(INT, NONE, spelling='Optional'), UnionT(FLOAT, BOOL), NewTypeT(nm('Nw'), FLOAT), UnionT(STR, Seq('List', INT)), E_HINT, LIT]
    cs = contexts() + [('dictkey', lambda x: DictT(x, INT), lambda l: {d: 1 for d in l}, 2, True, None),
                       ('mixed', lambda x: TupleFix(STR, x, INT), lambda l: ['s', l[0], 1], 1, False, None),
                       ('default', lambda x: obj('dc', [F('p', x, ('v', '1')), F('q', STR, ('v', "''"))]), lambda l: {'p': l[0]}, 1, False, None)]
    r = []
    for i in range(len(leaves)):
        for a in range(-1, len(cs)):
            for b in range(-1, len(cs)):
                if a == -1 and b != -1:
                    continue
                r.append((i, a, b))
    return leaves, cs, r


def hashable_value(d):
    try:
        hash(build(d))
        return True
    except TypeError:
        return False


def run_positions(u, s, tier, leaves, cs):
    i, a, b = u
    node = leaves[i]
    fs = []
    for c in (b, a):
        if c != -1:
            name, mk, mkdoc, n, hashable, _ = cs[c]
            if hashable and node is not leaves[i]:
                return
            node = mk(node)
            fs.append((mkdoc, n))
    good = leaves[i].valid()[0]
    key = cs[b][4] if b != -1 else cs[a][4] if a != -1 else False
    for v in VALUES:
        if key and not hashable_value(v):
            continue
        for alt in ([v], [good, v], [v, good]) if fs and fs[0][1] == 2 else ([v],):
            d = v
            first = True
            for mkdoc, n in fs:
                if first:
                    d = mkdoc((alt * n)[:n] if n == 2 else alt)
                else:
                    d = mkdoc([d] * n)
                first = False
            compare(node, d, s, fast=tier == 'quick')
            if s.full:
                return


def compare(node, d, s, fast=False):
    nou = not has_union(node)
    for strict, cast in zip(STRICT, CAST):
        STEPS[0] = 0
        r = model(node, d, strict)
        s.states += 1
        s.transitions += STEPS[0]
        if r is None:
            continue
        out = impl(node, d, strict)
        s.validated += 1
        why = mismatch(r, out)
        if why:
            report(s, node, d, strict, out, why)
            return
        if out[0] == 'ok' and nou and not has_oneshot(d):
            out2 = impl(node, d, cast)
            s.add('compared_with_casting')
            if out2[0] != 'ok' or not same(out2[1], out[1]):
                report(s, node, d, cast, out2, 'but without casting it %s' % describe(out))
                return


def run(tier, seed):
    leaves, cs, plans = positions_units()
    units = [('p', p) for p in plans] + [('u', i) for i in range(len(universe('quick' if tier == 'quick' else 'middle')))]
    def f(u, s):
        if u[0] == 'p':
            run_positions(u[1], s, tier, leaves, cs)
            return
        node = universe('quick' if tier == 'quick' else 'middle')[u[1]]
        for d in documents(node, 'quick', junk=JUNK if tier != 'quick' else JUNK_SMALL + VALUES, two=tier != 'quick'):
            compare(node, d, s)
            if s.full:
                return
        s.sample('%s' % node.expr(), 1)
    total = core.explore(units, f)
    return total, dict(bound='%d values at every basic position of contexts of depth 2; types of depth 2 with documents within 1 edit' % len(VALUES),
                       assumptions=['an instance of a subclass of a basic type inside of a container is unspecified'])
