"""
C12: every bounded value of every type, for every setting of the dumper:
only plain data, equal to the reference dump, not connected with the value or
the class (no shared mutable object; after the dump is destroyed the value and
the class are as before), same again with the same and with a new dumper.
"""
from mc.diff import *
from mc.docs import *
from mc.inhab import *
from mc.contexts import *
from mc.snap import *
from mc.c03 import types_for

DC = [DCfg(hidedefault=h, isodates=i, mangle_key=m) for h in (True, False) for i in (True, False) for m in ('name', 'other')]
PLAIN = (int, str, bool, float, type(None), bytes)


def plain(o):
    """The first thing that is not plain, if any"""
    t = type(o)
    if t in PLAIN:
        return None
    if t is list:
        for i in o:
            x = plain(i)
            if x is not None:
                return x
        return None
    if t is dict:
        for k, v in o.items():
            x = plain(k) or plain(v)
            if x is not None:
                return x
        return None
    return (o,)


def destroy(o):
    """Changes every container of the dump"""
    if type(o) is list:
        for i in o:
            destroy(i)
        o.append('changed')
        if len(o) > 1:
            o[0] = 'changed'
    elif type(o) is dict:
        for i in list(o.values()):
            destroy(i)
        for k in list(o):
            o[k] = 'changed'
        o['changed!'] = 1


def classes_in(o, out, seen):
    if id(o) in seen or type(o) in PLAIN:
        return out
    seen.add(id(o))
    if type(o) in CLASSES or isinstance(o, enum.Enum):
        out.add(type(o))
        if isinstance(o, enum.Enum):
            return out
    if isinstance(o, dict):
        for k, v in o.items():
            classes_in(k, out, seen)
            classes_in(v, out, seen)
    elif isinstance(o, (list, tuple, set, frozenset)):
        for i in o:
            classes_in(i, out, seen)
    elif type(o) in CLASSES:
        for f in CLASSES[type(o)].allfields():
            classes_in(getattr(o, f.name), out, seen)
    return out


def check(s, node, text, dumpers):
    for dc, dumper in dumpers:
        s.states += 1
        v = make(text)
        try:
            ref = refdump(dc, v)
        except (Undumpable, TypeError):
            s.add('outside_of_the_domain')
            continue
        cl = classes_in(v, set(), set())
        before = [(c, classsnap(c)) for c in cl]
        sv = snap(v, True)
        set1 = settings(dumper)
        mine = containers(v)
        for hint in (None, node.t):
            s.validated += 1
            d1 = dumper.dump(v) if hint is None else dumper.dump(v, hint)
            s.transitions += 1
            why = None
            if plain(d1):
                why = 'the dump %r contains %r' % (d1, plain(d1)[0])
            elif not same(d1, ref):
                why = 'the dump is %r instead of %r' % (d1, ref)
            elif any(i in mine for i in containers(d1)):
                why = 'the dump shares %r with the value' % [o for i, o in containers(d1).items() if i in mine][0]
            elif snap(v, True) != sv:
                why = 'the value became %r' % (v,)
            elif len(containers(d1)) != count(d1):
                why = 'the dump %r contains the same list or dictionary more than once' % (d1,)
            elif settings(dumper) != set1:
                why = 'the settings of the dumper changed'
            else:
                d2 = dumper.dump(v) if hint is None else dumper.dump(v, hint)
                if not same(d1, d2):
                    why = 'dumping again gives %r instead of %r' % (d2, d1)
                elif any(i in containers(d1) for i in containers(d2)):
                    why = 'dumping again gives objects of the previous dump'
                else:
                    destroy(d1)
                    if snap(v, True) != sv:
                        why = 'changing the dump changes the value to %r' % (v,)
                    elif not same(d2, ref):
                        why = 'changing the dump changes the other dump to %r' % (d2,)
                    else:
                        for c, b in before:
                            if classsnap(c) != b:
                                why = 'the class %s is changed' % c.__name__
                        destroy(d2)
                        d3 = dumper.dump(v) if hint is None else dumper.dump(v, hint)
                        if not same(d3, ref):
                            why = why or 'after changing the previous dumps, the dump is %r instead of %r' % (d3, ref)
            if why:
                what = 'dump of %s, of type %s (%r)%s: %s' % (text, node.expr(), dc, ' with hint' if hint else '', why)
                s.bad(what, dump_replay(node, text, dc, what))
                return


def count(o):
    if type(o) is list:
        return 1 + sum(map(count, o))
    if type(o) is dict:
        return 1 + sum(map(count, o.values()))
    return 0


SHARED = []


def shared():
    """Values with the same object in more than one place, and equal to the default objects"""
    if SHARED:
        return SHARED
    L, D = Seq('List', INT), DictT(STR, INT)
    a = obj('dc', [F('a', L), F('b', L)])
    b = obj('attrs', [F('a', Seq('List', L)), F('b', D, ('f', 'dict'))])
    n = obj('nt', [F('a', L, ('v', '[1]')), F('b', D, ('v', "{'x': 1}"))])
    x = obj('dc', [F('a', ANY, ('f', 'list')), F('b', ANY, ('v', 'None'))])
    nested = obj('dc', [F('o', a), F('p', a)])
    r = [(a, '(lambda l: %s(l, l))([1, 2])' % a.name), (b, '(lambda l: %s([l, l, l], {}))([1, 2])' % b.name), (n, '%s()' % n.name), (n, '%s([1], {"x": 1})' % n.name),
         (n, '(lambda n: %s(n._field_defaults["a"], {}))(%s)' % (n.name, n.name)),
         (x, '(lambda l: %s(l, {"k": l, "o": (l, l)}))([1])' % x.name), (x, '%s({1, 2}, frozenset([1]))' % x.name), (x, '%s([[[]]], {"a": {"b": {}}})' % x.name),
         (nested, '(lambda o: %s(o, o))(%s([1], [2]))' % (nested.name, a.name)),
         (Seq('List', L), '(lambda l: [l, l])([1])'), (DictT(STR, L), '(lambda l: {"a": l, "b": l})([1])'), (Seq('List', D), '(lambda l: [l, l])({"a": 1})'),
         (ANY, '(lambda l: [l, (l, l), {"a": l}])([])')]
    SHARED.extend(r)
    return r


def run(tier, seed):
    ts = types_for(tier)
    sh = shared()
    def f(u, s):
        dumpers = [(dc, Dumper(**dc.kw)) for dc in DC]
        if u[0] == 's':
            n, text = sh[u[1]]
            n.t
            check(s, n, text, dumpers)
            return
        if u[0] == 'deep':
            for k, (node, _) in enumerate(deep(u, tier)):
                for text in values(node, 3):
                    check(s, node, text, [dumpers[k % 8]])
                if s.full:
                    return
                s.sample('%s ...' % node.expr(), 1)
            return
        node = ts[u[1]]
        vs = values(node, 6 if tier == 'quick' else 8)
        for text in vs:
            check(s, node, text, dumpers)
            if s.full:
                return
        s.sample('%s: %d values' % (node.expr(), len(vs)), 1)
    total = core.explore([('s', i) for i in range(len(sh))] + [('t', i) for i in range(len(ts))] + deep_units(tier), f)
    return total, dict(bound='%d types and all those of %d of the wrappers, bounded values, %d settings of the dumper, with and without type hint' % (len(ts), 5 if tier == 'thorough' else 4, len(DC)))
