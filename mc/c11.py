"""
C11: for every type and document: snapshot of the data, of every class
involved and of the settings of the loader before and after; ownership of every
mutable object of the result (typed by the node that produced it) against those
of the data and of the previous result.
"""
import gc

from mc.diff import *
from mc.docs import *
from mc.snap import *
from mc.c03 import extra_types

CFGS = [Cfg(), Cfg(basiccast=False, failonextra=True), Cfg(uniondebugconflict=True)]


def shared_types():
    """Types where sharing is tempting: same type on the way in and out, defaults that are containers"""
    L, D, S = Seq('List', INT), DictT(STR, INT), Seq('Set', INT)
    r = [Seq('List', L), Seq('List', D), DictT(STR, L), DictT(STR, D), TupleFix(L, D, S), UnionT(L, D), UnionT(L, NONE), Seq('List', UnionT(L, INT)),
         Seq('List', UnionT(INT, STR)), NewTypeT(nm('Nw'), L), Seq('Tuple', L), Seq('Tuple', D), Seq('List', Seq('List', L)), Seq('List', STR), DictT(STR, DictT(STR, L))]
    for k in KINDS:
        f = [F('a', L), F('b', D), F('c', S)]
        r.append(obj(k, f))
        r.append(obj(k, [F('a', Seq('List', obj(k, [F('x', L)])))]))
        if k != 'td':
            d = [F('a', L, ('v', '[1]') if k == 'nt' else ('f', '(lambda: [1])')), F('b', D, ('v', "{'x': 1}") if k == 'nt' else ('f', "(lambda: {'x': 1})"))]
            r.append(obj(k, d))
    r.append(obj('dc', [F('a', L, data='A'), F('b', D, data='B')]))
    r.append(obj('attrs', [F('a', L, data='A'), F('b', D, data='B')]))
    for n in SPECIAL:
        r.append(n)
    return r


class LiteralTagged(Obj):
    pass


SPECIAL = [
    obj('td', [F('a', INT), F('b', Seq('List', INT), notrequired=True), F('c', UnionT(INT, NONE), notrequired=True)]),
    obj('td', [F('a', Seq('List', INT))], total=False),
]


def owned(node, o, out, depth=0):
    """ids of the mutable objects of the result that the load must have created"""
    t = type(node)
    if t is UnionT:
        for m in node.members:
            if m.conforms(o):
                owned(m, o, out, depth)
                return out
    elif t is NewTypeT:
        owned(node.base, o, out, depth)
    elif t is Ref:
        owned(node.target, o, out, depth)
    elif t is Seq:
        if type(o) in (list, set):
            out[id(o)] = o
        for i in o:
            owned(node.elem, i, out, depth)
    elif t is TupleFix:
        for x, i in zip(node.items, o):
            owned(x, i, out, depth)
    elif t is DictT:
        out[id(o)] = o
        for k, v in o.items():
            owned(node.k, k, out, depth)
            owned(node.v, v, out, depth)
    elif t is Obj:
        out[id(o)] = o
        for f in node.allfields():
            if node.kind == 'td':
                if f.name in o:
                    owned(f.node, o[f.name], out, depth)
                continue
            if f.default is not None or not f.init:
                # may be the default of the class, that is shared by design; factories are C22
                x = getattr(o, f.name)
                d = default_object(node, f)
                if x is d or not f.node.conforms(x):
                    continue
            owned(f.node, getattr(o, f.name), out, depth)
    return out


def default_object(node, f):
    if node.kind == 'nt':
        return node.t._field_defaults.get(f.name)
    if node.kind == 'dc':
        x = node.t.__dataclass_fields__[f.name].default
        return x
    for a in node.t.__attrs_attrs__:
        if a.name == f.name:
            return a.default
    return None


def input_mutables(v, out, depth=0):
    if depth > 12 or type(v) in (int, str, float, bool, type(None), bytes):
        return out
    if isinstance(v, (list, dict, set)) or hasattr(v, '__dict__'):
        out[id(v)] = v
    if isinstance(v, (dict, types.MappingProxyType)):
        for k, x in v.items():
            input_mutables(k, out, depth + 1)
            input_mutables(x, out, depth + 1)
    elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        for x in v:
            input_mutables(x, out, depth + 1)
    elif isinstance(v, argparse.Namespace):
        for x in vars(v).values():
            input_mutables(x, out, depth + 1)
    elif isinstance(v, NS['Iter']):
        for x in v.l:
            input_mutables(x, out, depth + 1)
    return out


def all_classes(node, seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    if id(node) in seen:
        return out
    seen.add(id(node))
    if isinstance(node, (Obj, EnumT)):
        out.append(node.t)
    for d in node.deps:
        all_classes(d, seen, out)
    if isinstance(node, Ref) and node.target:
        all_classes(node.target, seen, out)
    return out


def check(s, node, d, cfg, loader, classes, before):
    s.states += 1
    v = build(d)
    i1 = snap(v, True)
    set1 = settings(loader)
    oneshot = has_oneshot(d)
    keep = []
    results = []
    for round_ in range(2):
        try:
            x = loader.load(v, node.t)
            results.append(x)
            s.add('accepted')
        except Exception as e:
            keep.append(e)
            s.add('rejected')
        s.transitions += 1
    s.validated += 1
    why = None
    if snap(v, True) != i1:
        why = 'the data became %r' % (v,)
    elif settings(loader) != set1:
        why = 'the settings of the loader changed from %r to %r' % (set1, settings(loader))
    else:
        for c, b in zip(classes, before):
            a = classsnap(c)
            if a != b:
                diff = [(x, y) for x, y in zip(b, a) if x != y] or [(set(b) ^ set(a))]
                why = 'the class %s changed: %s' % (c.__name__, str(diff)[:300])
    if not why and results and not oneshot:
        mine = input_mutables(v, {})
        first = owned(node, results[0], {})
        for k, o in first.items():
            if k in mine:
                why = '%r in the result is the same object as in the data' % (o,)
        if not why and len(results) == 2:
            for k, o in owned(node, results[1], {}).items():
                if k in first:
                    why = '%r in the result is the same object as in the result of the previous load' % (o,)
                elif k in mine:
                    why = '%r in the result is the same object as in the data' % (o,)
    if why:
        report(s, node, d, cfg, ('ok', results[0]) if results else ('err', keep[0]), why)
    return why


def run(tier, seed):
    ts = shared_types() + universe('quick' if tier == 'quick' else 'middle') + extra_types()
    def f(i, s):
        node = ts[i]
        node.t
        classes = all_classes(node)
        before = [classsnap(c) for c in classes]
        for cfg in CFGS if tier != 'quick' or i < 40 else CFGS[:2]:
            loader = Loader(**cfg.kw)
            for d in documents(node, tier, junk=JUNK_SMALL, two=tier != 'quick'):
                if check(s, node, d, cfg, loader, classes, before):
                    before = [classsnap(c) for c in classes]
                if s.full:
                    return
        s.sample('%s, %d classes observed' % (node.expr(), len(classes)), 1)
    total = core.explore(list(range(len(ts))), f)
    return total, dict(bound='%d types, documents up to one edit (two in the thorough tier)' % len(ts),
                       assumptions=['reading a one-shot iterator is not a modification of it', 'frefs is documented to be filled by the loader'])
