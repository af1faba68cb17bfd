"""Unions and documents for C08 and C09"""
import itertools

from mc.docs import *
from mc.contexts import *


def pool():
    """Members of unions. Objects that accept the same data, containers that do, scalars that do"""
    nt = obj('nt', [F('a', INT)])
    nt2 = obj('nt', [F('a', INT), F('b', STR, ('v', "'x'"))])
    dc = obj('dc', [F('a', INT)])
    dcs = obj('dc', [F('a', STR), F('b', INT)])
    at = obj('attrs', [F('b', INT)])
    atd = obj('attrs', [F('a', INT, ('v', '0')), F('b', INT, ('v', '0'))])
    td = obj('td', [F('a', INT), F('b', INT)])
    tdp = obj('td', [F('a', STR)], total=False)
    mang = obj('dc', [F('a', INT, data='b')])
    nest = obj('nt', [F('a', UnionT(INT, Seq('List', INT)))])
    return BASICS + [LIT, LITN, E_INT, E_STR, E_MIX, E_HINT, DATE, DATETIME, DELTA, PATS, PATB, PATH, IP4, UUID_, NT_INT,
                     Seq('List', INT), Seq('List', STR), Seq('Set', INT), Seq('Tuple', STR), TupleFix(INT, INT), TupleFix(STR), DictT(STR, INT), DictT(INT, STR),
                     nt, nt2, dc, dcs, at, atd, td, tdp, mang, nest]


def unions(tier):
    p = pool()
    r = [UnionT(a, b) for a, b in itertools.combinations(p, 2)]
    objs = p[28:]
    assert all(isinstance(o, (Obj, DictT)) or True for o in objs)
    few = [INT, STR, NONE, LIT, E_MIX, DATE, Seq('List', INT), Seq('Tuple', STR), DictT(STR, INT)] + p[-10:-4:2]
    r += [UnionT(*c) for c in itertools.combinations(few, 3)]
    if tier == 'thorough':
        r += [UnionT(*c) for c in itertools.combinations(p[::2], 3)]
        r += [UnionT(*c) for c in itertools.combinations(few, 4)]
        r += [UnionT(*reversed(c)) for c in itertools.combinations(p[-10:], 3)]
    # the order of declaration of the objects
    r += [UnionT(*reversed(c)) for c in itertools.combinations(p[-10:], 2)]
    r += [UnionT(INT, FLOAT, BOOL, STR, NONE), UnionT(*p[5:12]), UnionT(NONE, *p[-10:]), UnionT(*p[-10:], STR, INT)]
    r += [UnionT(Seq('List', UnionT(INT, STR)), INT), UnionT(Seq('List', UnionT(*p[-10:-7])), DictT(STR, UnionT(INT, NONE))), UnionT(TupleFix(UnionT(INT, STR), NONE), STR),
          UnionT(obj('dc', [F('a', UnionT(INT, STR)), F('b', UnionT(Seq('List', INT), DATE, NONE), ('v', 'None'))]), STR, NONE)]
    # more than one member gives None, or something that is false
    enone = EnumT(nm('ENone'), [('A', None), ('B', 0), ('C', '')])
    ntl = NewTypeT(nm('NtNone'), LiteralT(None, 0))
    r += [UnionT(*c) for c in itertools.permutations([STR, BOOL, LiteralT(None), LiteralT(0, '', None), enone], 2)] + [UnionT(STR, ntl), UnionT(ntl, LiteralT(None), BOOL), UnionT(enone, INT, NONE), UnionT(Seq('List', LiteralT(None)), Seq('Tuple', STR), NONE)]
    r += [UnionT(INT, ANY), UnionT(ANY, Seq('List', INT)), UnionT(LiteralT(1), ANY, NONE)]
    return r


def tagged_unions():
    return tagged() + tagged(['nt', 'dc'], 'kind') + tagged(['td'], 'get')[:3]


def docs_for(u, p, tier):
    seen = set()
    def new(d):
        k = src(d)
        if k in seen:
            return False
        seen.add(k)
        return True
    for m in u.members:
        for d in m.valid():
            if new(d):
                yield d
    for j in (JUNK if tier != 'quick' else JUNK_SMALL):
        if new(j):
            yield j
    for m in p:
        for d in m.valid()[:3 if tier != 'quick' else 2]:
            if new(d):
                yield d
    for m in u.members:
        for d in edits(m.valid()[0], JUNK_SMALL if tier != 'quick' else JUNK_TINY, conv=tier != 'quick'):
            if new(d):
                yield d


def tag_docs(u):
    """Every combination of tag and of the other fields"""
    tags = ['a', 'b', 'c', 'd', 'i', 1, True, None, [], {}, 'zz', 2]
    names = set()
    for m in u.members:
        if isinstance(m, Obj):
            names.update(f.data or f.name for f in m.allfields())
    names = sorted(names)
    values = [1, 'a', 'x', {'t': 'i'}]
    r = []
    for n in range(len(names) + 1):
        for sub in itertools.combinations(names, n):
            for vals in itertools.product(*[(tags if k in ('t', 'kind', 'get') else ['x', 'y', 'a', []] if k in ('u', 't2') else values) for k in sub]):
                d = dict(zip(sub, vals))
                r.append(d)
                if n > 1:
                    r.append(dict(reversed(list(d.items()))))
    return r + [Conv('Namespace(**%s)', d) for d in r[:200]] + [Conv('types.MappingProxyType(%s)', d) for d in r[:200]] + JUNK_SMALL
