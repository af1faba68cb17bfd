"""
C13: all the histories of loads with one loader, for families of related types
(the same class alone, in containers, in unions, as a field; classes with the
same name; equal types; types that can't be loaded; loads that fail at every
stage), explored breadth first to closure, and all the sequences of 3 loads.
The outcome, errors included, must be that of a new loader, and the value the
one of the reference model.
"""
import itertools

from mc.diff import *
from mc.docs import *
from mc.histories import *
from mc.outcome import *
from mc.contexts import *
from mc.snap import ATOMS


class Other(Node):
    """A type that is not in the model"""
    def __init__(self, e):
        self.e = e

    def expr(self):
        return self.e

    def _res(self, cfg, v, elem):
        raise Unspecified()

    def conforms(self, o, elem=False):
        return False

    def _docs(self):
        return [1, None]


NONLOADABLE = Other('complex')
GENERATOR = Other('Iterable[int]')


def families():
    """name -> list of (node, docs)"""
    r = {}
    tx = lambda t, n, **k: {'t': t, 'v': n, **k}
    for kind in KINDS:
        kk = 'attrsa' if kind == 'attrs' else kind
        a = obj(kk, [F('t', LiteralT('a')), F('v', INT)])
        b = obj(kk, [F('t', LiteralT('b')), F('v', INT)])
        u = UnionT(a, b)
        ub = UnionT(b, a)
        us = UnionT(a, STR, b)
        r['tagged-' + kind] = [(a, [tx('a', 1), tx('b', 1)]), (u, [tx('a', 1), tx('b', 2), tx('c', 1), tx([], 1), 5]), (ub, [tx('b', 1), tx('a', 'x')]), (Seq('List', u), [[tx('a', 1), tx('b', 1)], [tx('b', 1), 3]]),
                               (us, [tx('b', 1), 's', {'t': 1}])]
        # the tags do not tell which one it is: the order of the members does. Equal unions can have different orders.
        a2, b2 = [obj(kk, [F('t', LiteralT(*l)), F('v', x)]) for l, x in ((('a', 'b'), INT), (('b', 'c'), STR))]
        c2 = obj(kk, [F('t', LiteralT('b')), F('k', LiteralT('q'))])
        w = lambda t, v='1': {'t': t, 'v': v}
        r['ambiguous-' + kind] = [(UnionT(*m), [w('b'), w('a', 'x'), {'t': 'b', 'k': 'q'}]) for m in ((a2, b2), (b2, a2), (b2, c2, a2))]
        r['ambiguous-' + kind] += [(Seq('List', UnionT(*m), spelling='list'), [[w('b'), w('a')]]) for m in ((b2, a2),)]
        c = obj(kk, [F('a', INT), F('b', Seq('List', INT), None)])
        d = obj(kk, [F('a', UnionT(INT, NONE)), F('c', c)])
        g = {'a': 1, 'b': [1]}
        r['fields-' + kind] = [(c, [g, {'a': 'x', 'b': []}, {'a': 1}, {'a': 1, 'b': [1, 'y']}]), (d, [{'a': None, 'c': g}, {'a': 1, 'c': {'a': 1}}, {'a': [], 'c': g}]), (Seq('List', INT), [[1, '2'], ['x']]),
                               (DictT(STR, c), [{'k': g}, {'k': 1}]), (UnionT(c, d), [g, {'a': 1, 'c': g}, {}])]
    td = obj('td', [F('a', INT), F('b', INT, notrequired=True), F('c', UnionT(STR, NONE), notrequired=True)])
    tn = obj('td', [F('a', INT), F('b', STR)], total=False)
    ti = obj('td', [F('z', INT)], base=td)
    r['typeddict'] = [(td, [{'a': 1}, {'a': 1, 'b': '2'}, {'b': 1}, {'a': 1, 'b': 'x'}, {'a': 1, 'c': None}]), (tn, [{}, {'a': 1}, {'b': 3}]), (ti, [{'a': 1, 'z': 1}, {'a': 1}]), (Seq('List', td), [[{'a': 1}, {'a': 2, 'b': 3}]])]
    m = obj('dc', [F('a', INT, data='b'), F('b', STR, data='a')])
    m2 = obj('dc', [F('c', INT, ('v', '3'))], base=m)
    m3 = obj('attrs', [F('a', INT, data='b'), F('b', STR, data='a')])
    g = {'b': 1, 'a': 'x'}
    r['mangled'] = [(m, [g, {'a': 1, 'b': 'x'}, {'a': 1}]), (m2, [g, {**g, 'c': 4}, {'c': 1}]), (m3, [g, {'a': 1, 'b': 'x'}]), (UnionT(m, m3), [g, {}]), (DictT(STR, m2), [{'k': g}])]
    r['handlerless'] = [(NONLOADABLE, [1]), (GENERATOR, [[1]]), (Seq('List', NONLOADABLE), [[1], []]), (UnionT(INT, NONLOADABLE), [1, 'x', []]), (UnionT(NONLOADABLE, Seq('List', INT)), [[1], 'x']),
                        (obj('dc', [F('a', NONLOADABLE), F('b', INT, ('v', '1'))]), [{'a': 1}, {'b': 1}]), (INT, [1, '1', 'x'])]
    r['dicts'] = [(DictT(STR, INT), [{'a': 1}, {1: '2'}, {'a': 'x'}, {(): 1}]), (DictT(INT, STR), [{1: 'a'}, {'1': 2}, {'a': 'b'}]), (DictT(STR, DictT(STR, INT)), [{'a': {'b': 1}}, {'a': 1}]),
                  (DictT(NT_INT, INT), [{1: 1}, {'2': '2'}, {'x': 1}]), (DictT(E_STR, Seq('List', INT)), [{'a': [1]}, {'zz': []}]), (DictT(Seq('Tuple', INT), INT), [{(1, 2): 1}, {('x',): 1}]), (DictT(Seq('List', INT), INT), [{(1, 2): 1}])]
    r['unions'] = [(UnionT(INT, STR), [1, 'a', None, 1.5]), (UnionT(STR, INT), [1.5, '1', []]), (UnionT(INT, NONE), [None, 'x', '1']), (UnionT(Seq('List', INT), Seq('List', STR)), [[1], ['a'], [[]]]),
                   (UnionT(Seq('List', STR), Seq('List', INT)), [[1], ['a']]), (Seq('List', UnionT(INT, STR)), [[1, 'a', 1.5], [None]]), (Seq('List', UnionT(STR, INT)), [[1.5]])]
    r['literals'] = [(LiteralT(1), [1, '1', 2]), (LiteralT(True), [True, 'x', 2]), (LiteralT('a', 'b'), ['a', 'c', []]), (LiteralT('b', 'a'), ['a', 'c']), (UnionT(LiteralT(1), STR), [1, 2, 'x']), (Seq('List', LiteralT('a', 'b')), [['a'], ['c']]), (LiteralT(None), [None, 0])]
    r['scalars'] = [(E_INT, [1, 'x', '1']), (E_HINT, [[1, 2], [9, 9], 'x']), (DATE, ['2020-01-02', [2020, 1, 2], 'x']), (DATETIME, [[2020, 1, 2], 5]), (DELTA, [1, 'x']), (PAT, ['a+', '(']), (PATH, ['a', 1]), (NT_LIST, [[1], ['x']]), (IP4, ['1.1.1.1', 'x'])]
    r['sequences'] = [(Seq('List', INT), [[1], ['x'], (1,)]), (Seq('List', INT, spelling='list'), [['2'], 1]), (Seq('Set', INT), [[1, 1], [[]]]), (TupleFix(INT, STR), [[1, 'a'], [1], ['x', 'y']]), (Seq('Tuple', INT), [[1, 2], [None]]),
                      (TupleFix(INT), [[1], ['x']]), (Seq('FrozenSet', LITS), [['a'], ['z']]), (ANY, [1, [], {}])]
    # more than one way fits: which one is taken does not depend on what worked before
    e1 = EnumT(nm('EWays'), [('A', 1), ('B', '1.5'), ('C', 'None'), ('D', (1,))], [('x', INT), ('y', STR), ('z', TupleFix(INT))])
    e2 = EnumT(nm('EWays'), [('A', 1), ('B', '1.5'), ('C', 'None'), ('D', (1,))], [('z', TupleFix(INT)), ('y', STR), ('x', INT)])
    r['enum-hints'] = [(e1, [1.5, None, [1], '1', 'x']), (e2, [1.5, None, ['1']]), (Seq('List', e1), [[1.5, None], [None, 1.5]]), (UnionT(e1, e2), [1.5, [1]])]
    r['enum-hints2'] = [(EnumT(nm('EWays'), [('A', 1), ('B', True), ('C', 'True'), ('D', 2)], [('y', STR), ('x', INT)]), [True, 2.0, 1.5, 'True', 2, '2']), (DictT(STR, e1), [{'a': 1.5, 'b': None}])]
    oa, ob, oc = [obj(k, [F('a', INT), F('b', x, ('v', '1'))]) for k, x in (('dc', INT), ('nt', STR), ('attrsa', UnionT(INT, NONE)))]
    r['ways'] = [(UnionT(oa, ob, oc), [{'a': 1}, {'a': 1, 'b': 'x'}, {'a': 1, 'b': None}, {'a': 'x'}]), (UnionT(oc, ob, oa), [{'a': 1}, {'a': 1, 'b': 'x'}]), (Seq('List', UnionT(oa, ob, oc)), [[{'a': 1}, {'a': 1, 'b': 'x'}, {'a': 1}]])]
    r['ways2'] = [(UnionT(DATE, PATH, E_STR), ['2020-01-02', 'x', 1]), (UnionT(TupleFix(INT, INT), Seq('List', STR), Seq('Set', INT)), [[1, 2], ['a', 'b'], [1]]), (UnionT(DictT(INT, INT), DictT(STR, STR)), [{'1': '1'}, {'a': 'b'}, {}]),
                  (UnionT(Seq('List', UnionT(INT, NONE)), Seq('List', STR)), [['1', None], ['a'], []])]
    # values that are equal and are not the same
    eqs = [1, True, 1.0, 0, False, 0.0, -0.0, '1']
    r['equals'] = [(n, eqs) for n in (LiteralT(1, 'a'), UnionT(INT, STR))] 
    r['equals2'] = [(UnionT(LiteralT(True), STR), [1, True, 1.0, '1']), (UnionT(FLOAT, LiteralT(1)), [1, True, 1.0]), (LiteralT(True, 0), [1, True, 0, False, 0.0]), (UnionT(BOOL, STR), [1, 1.0, True])]
    r['equals3'] = [(Seq('List', INT), [[1], [True], [1.0], (1,)]), (UnionT(LiteralT(1), STR), [1, True, 1.0]), (ANY, [1, True, 1.0]), (EnumT(nm('EEq'), [('A', 1), ('B', 'x')]), [1, True, 1.0])]
    r['equals4'] = [(DictT(UnionT(INT, STR), ANY), [{1: 1}, {True: 1}, {1: True}, {1.0: 1}, {'1': 1.0}]), (STR, [1, True, 1.0, -0.0, 0.0]), (FLOAT, [0.0, -0.0, 0, False])]
    # the same name for different classes
    name = nm('Same')
    same_ = []
    for i, f in enumerate(([F('a', INT)], [F('a', STR), F('b', INT, ('v', '2'))], [F('b', INT)])):
        o = Obj(['dc', 'nt', 'attrsa'][i], name, f)
        o.decl += '%s_%d = %s\n' % (name, i, name)
        o.expr = lambda i=i: '%s_%d' % (name, i)
        o.name = '%s_%d' % (name, i)
        same_.append(o)
    r['same-name'] = [(o, [{'a': 1}, {'b': 1}, {'a': 'x'}]) for o in same_] + [(UnionT(same_[0], same_[2]), [{'a': 1}, {'b': '5'}, {}]), (Seq('List', same_[1]), [[{'a': 1}], [{}]])]
    # classes that raise, have factories, post init
    p = obj('dc', [F('a', INT), F('b', Seq('List', INT), ('f', 'list'))], body='def __post_init__(self):\n    if self.a < 0: raise ValueError("negative")\n    if self.a == 7: raise KeyError("seven")\n    self.b.append(self.a)')
    q = obj('attrs', [F('a', INT), F('b', Seq('List', INT), ('fs', '(lambda self: [self.a])')), F('_c', INT, ('v', '1'))])
    n = obj('nt', [F('a', INT), F('b', Seq('List', INT), ('v', '[]'))])
    r['code'] = [(q, [{'a': 1}, {'a': 1, 'b': [2], '_c': 3}, {'a': 'x'}]), (n, [{'a': 1}, {'a': 2, 'b': [1]}]), (UnionT(q, n, STR), [{'a': 1}, {}]), (Raising(p), [{'a': 1}, {'a': -1}, {'a': 7}, {'a': 1, 'b': [1]}]), (Seq('List', Raising(p)), [[{'a': 1}, {'a': -1}]])]
    # recursive, every class has its own name
    for k, node in enumerate(recursive()[:6]):
        if k in (1, 3, 5):
            continue
        r['recursive%d' % k] = [(node, [{'v': 1}, {'v': 1, 'n': {'v': 2}}, {'v': 1, 'n': {'v': 'x'}}, {}, {'v': 1, 'd': {'k': {'v': 2}}}]), (Seq('List', node), [[{'v': 1}], [{'v': 1, 'n': {'v': 1}}]]), (UnionT(node, NONE), [None, {'v': 1, 'n': None}])]
    # oneshot and strange values
    r['iterators'] = [(Seq('List', INT), [X('OneShot([1, 2])'), X('OneShot([1, None])'), X('FailIter([1], KeyError("x"))'), [1]]), (Seq('Tuple', STR), [X('OneShot(["a"])'), X('FailNext([], ValueError("x"))'), 5]), (DictT(STR, Seq('List', INT)), [{'a': X('OneShot([1])')}, {'a': X('FailIter([1], StopIteration())')}])]
    return r


class Raising(Node):
    """An object whose post init has effects: only compared with a new loader"""
    def __init__(self, o):
        self.o = o
        self.deps = (o,)

    def expr(self):
        return self.o.expr()

    def _res(self, cfg, v, elem):
        raise Unspecified()

    def conforms(self, o, elem=False):
        return True

    def _docs(self):
        return []


CFGS = [Cfg(), Cfg(basiccast=False, failonextra=True), Cfg(uniondebugconflict=True)]


def run_op(loader, op):
    node, d, t = op
    v = build(d)
    res = []
    def f():
        x = loader.load(v, t)
        res.append(x)
        return x
    o = outcome(f)
    return o, res


def become(v, new):
    """Changes v in place to be equal to new, keeping all the objects inside of it that can be kept"""
    if type(v) is dict:
        items = [(k, become(v[k], x) if k in v and type(v[k]) is type(x) and type(x) in (dict, list) else x) for k, x in new.items()]
        v.clear()
        v.update(items)
    elif type(v) is list:
        items = [become(v[k], x) if k < len(v) and type(v[k]) is type(x) and type(x) in (dict, list) else x for k, x in enumerate(new)]
        v[:] = items
    return v


def nodocs(v):
    """No iterators in it"""
    return type(v) in ATOMS or type(v) in (list, dict) and all(nodocs(i) for i in (v if type(v) is list else v.values()))


def inplace(s, fam, cfg, k, depth):
    """
    The same data object is changed in place between the loads: what the loader
    remembers can not be about the identity of the data. Also loads of it with
    other types of the family in between.
    """
    ops, oracle, mvals = prepare(fam, cfg)
    check = checker(s, cfg, oracle, mvals)
    ops = [op for op in ops if type(op[1]) in (dict, list) and nodocs(op[1])]
    for w in itertools.product(range(len(ops)), repeat=depth):
        if w[0] != k:
            continue
        l = Loader(**cfg.kw)
        shared = {dict: {}, list: []}
        s.states += 1
        for n, i in enumerate(w):
            node, d, t = ops[i]
            v = become(shared[type(d)], build(d))
            for again in range(2):
                res = []
                def f():
                    x = l.load(v, t)
                    res.append(x)
                    return x
                out = outcome(f), res
                s.transitions += 1
                s.validated += 1
                check([ops[j] for j in w[:n]], ops[i], out)
        if s.full:
            return


def checker(s, cfg, oracle, mvals):
    def check(hist, op, out):
        o, res = out
        node, d, t = op
        exp = oracle[id(op)]
        why = None
        if o != exp:
            why = 'a new loader %s' % show(exp)
        elif res and mvals[id(op)] is not None and not any(same(res[0], x) for x in mvals[id(op)].vals):
            why = 'the rules give %r' % (mvals[id(op)].vals[:2],)
        elif not res and mvals[id(op)] is not None and not mvals[id(op)].fails:
            why = 'the rules accept it'
        s.outcomes.add(hash(repr(o)))
        if why:
            h = '; '.join('load(%s, %s)' % (src(b), a.expr()) for a, b, _ in hist)
            what = '(%r) after the history [%s], load %s into %s %s, but %s' % (cfg, h, src(d), node.expr(), show(o), why)
            s.bad(what, hist_replay(cfg, hist + [op], what))
    return check


def hist_replay(cfg, ops, what):
    decl = {}
    for n, _, _ in ops:
        n.declarations(decl)
    return PRELUDE + '\n'.join(d for d in decl.values() if d) + '''
from typedload.dataloader import Loader
l = Loader(%r)
print(%r)
for value, type_ in [%s]:
    for name, x in ('reused', l), ('new', Loader(%r)):
        try:
            print(name, 'loader:', repr(x.load(value(), type_)))
        except Exception as e:
            print(name, 'loader:', type(e).__name__, e)
''' % (cfg, what, ', '.join('(lambda: %s, %s)' % (src(d), n.expr()) for n, d, _ in ops), cfg)


def foreign(n):
    return isinstance(n, Other) or any(foreign(d) for d in n.deps)


def prepare(fam, cfg):
    ops, oracle, mvals = [], {}, {}
    for node, docs in fam:
        for d in docs:
            ops.append((node, d, node.t))
    for op in ops:
        oracle[id(op)] = run_op(Loader(**cfg.kw), op)[0]
        try:
            mvals[id(op)] = None if foreign(op[0]) else model(op[0], op[1], cfg)
        except Exception:
            # iterators that fail
            mvals[id(op)] = None
    # once more, so that a change of the classes is seen
    return ops, oracle, mvals


def run(tier, seed):
    fams = families()
    names = sorted(fams)
    mixed = []
    for n in names:
        # a good and a bad load of the first types of each family
        for node, docs in fams[n][:3 if tier == 'quick' else 5]:
            mixed.append((node, docs[:2]))
    quickn = 3
    units = [('bfs', n, c) for n in names for c in range(len(CFGS))]
    units += [('w', n, c, k) for n in names for c in (range(1) if tier == 'quick' else range(len(CFGS))) for k in range(sum(len(d) for _, d in fams[n]))]
    nm_ = sum(len(d) for _, d in mixed)
    units += [('m', None, 0, k) for k in range(nm_)]
    units += [('i', n, c, k) for n in names for c in range(2) for k in range(sum(1 for _, docs in fams[n] for d in docs if type(d) in (dict, list) and nodocs(d)))]
    def f(u, s):
        cfg = CFGS[u[2]]
        fam = fams[u[1]] if u[1] else mixed
        if u[0] == 'i':
            return inplace(s, fam, cfg, u[3], 3 if tier != 'quick' or u[2] == 0 else 2)
        ops, oracle, mvals = prepare(fam, cfg)
        check = checker(s, cfg, oracle, mvals)
        new = lambda: Loader(**cfg.kw)
        if u[0] == 'bfs':
            done = bfs(s, ops, new, run_op, check, limit=(800 if u[2] == 0 else 100) if tier == 'quick' else 5000)
            s.add('families_explored')
            s.sample('family %s, %d operations, closed: %s' % (u[1], len(ops), 'states_beyond_the_limit' not in s.extra), 1)
        elif u[0] == 'w':
            words(s, ops, new, run_op, check, 3 if tier == 'quick' else 4 if len(ops) < 14 else 3, u[3])
        else:
            words(s, ops, new, run_op, check, 2 if tier == 'quick' else 3, u[3])
    total = core.explore(units, f)
    return total, dict(bound='%d families of types; breadth first over the states of the loader; all the sequences of 3 operations in a family and of 2 over all' % len(names),
                       assumptions=['states with the same remembered content are merged in the breadth first part only', 'forward references by name to another class are excluded, as documented'])
