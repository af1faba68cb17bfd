"""
C03: load(dump(v)) == v for all the bounded values of all the types, for every
setting of the dumper and the matching ones of the loader.
The domain (values whose documented dump determines them) is decided by the
reference model alone: reference dump, then reference load.
"""
from mc.diff import *
from mc.docs import *
from mc.inhab import *
from mc.contexts import *

DC = [DCfg(hidedefault=h, isodates=i, mangle_key=m) for h in (True, False) for i in (True, False) for m in ('name', 'other')]
LC = [dict(), dict(basiccast=False, failonextra=True), dict(failonextra=True, dictequivalence=False), dict(basiccast=False, uniondebugconflict=True)]


def extra_types():
    """Shapes about dumping that are not in the grammar"""
    r = []
    for k in ('dc', 'attrs', 'attrsa'):
        r.append(obj(k, [F('a', INT), F('b', INT, ('v', '5'), init=False), F('c', STR, ('v', "'q'"))]))
        r.append(obj(k, [F('a', INT, data='A'), F('b', INT, ('v', '5'), init=False, data='B'), F('c', Seq('List', INT), ('f', 'list'), data='C')]))
        r.append(obj(k, [F('a', Seq('List', INT), ('f', '(lambda: [1, 2])')), F('b', DictT(STR, INT), ('f', "(lambda: {'x': 1})")), F('c', Seq('Set', INT), ('f', 'set'))]))
        r.append(obj(k, [F('a', UnionT(INT, NONE), ('v', '3')), F('b', UnionT(STR, NONE), ('v', 'None')), F('c', BOOL, ('v', 'True')), F('d', FLOAT, ('v', '0.0'))]))
        r.append(obj(k, [F('a', E_INT, ('v', 'EInt.B')), F('b', DATE, ('v', 'datetime.date(2020, 1, 2)')), F('c', TupleFix(INT, INT), ('v', '(1, 2)'))]))
        inner = obj(k, [F('x', INT, ('v', '1'))])
        r.append(obj(k, [F('a', inner, ('f', inner.name)), F('b', inner, ('f', '(lambda: %s(x=2))' % inner.name))]))
        r.append(obj(k, [F('a', Seq('List', inner)), F('b', DictT(STR, inner), ('f', 'dict'))]))
    r.append(obj('attrsa', [F('_x', INT), F('_y_', INT, ('v', '2')), F('_z', INT, ('v', '1'), data='zed')]))
    r.append(obj('attrs', [F('_x', Seq('List', INT), ('f', 'list')), F('y', INT, ('fs', '(lambda self: len(self._x))'))]))
    r.append(obj('dc', [F('_x', INT), F('_y_', INT, ('v', '2'))]))
    base = obj('dc', [F('a', INT, ('v', '1'), data='A')])
    r.append(obj('dc', [F('b', INT, ('v', '2'), data='B')], base=base))
    r.append(obj('dc', [F('a', STR, ('v', "'z'"))], base=base))
    r.append(obj('dc', [F('a', INT), F('b', INT, init=False)], body='def __post_init__(self):\n    self.b = self.a * 2'))
    r.append(obj('dc', [F('a', INT), F('b', Seq('List', INT), ('f', 'list'), init=False)]))
    r.append(obj('nt', [F('a', INT, ('v', '1')), F('b', Seq('List', INT), ('v', '[1]')), F('c', UnionT(INT, NONE), ('v', '0'))]))
    r.append(obj('dc', [F('a', DictT(E_STR, E_INT)), F('b', DictT(INT, DATE), ('f', 'dict')), F('c', DictT(UUID_, PATH), ('f', 'dict'))]))
    r.append(obj('dc', [F('a', Seq('List', INT), ('f', 'list'))], body='K: ClassVar[int] = 3\nX: ClassVar[List[int]] = []'))
    r.append(obj('dc', [F('a', INT, kw=True, default=('v', '1')), F('b', STR)], opts='(frozen=True, order=True)'))
    r.append(obj('attrs', [F('a', INT), F('b', STR, ('v', "'x'"))], opts='(frozen=True, slots=True, order=True)'))
    r.append(obj('attrs', [F('a', INT)], body='@property\ndef double(self): return self.a * 2'))
    r.append(obj('dc', [F('a', INT)], body='@property\ndef double(self): return self.a * 2'))
    r += [TimeDeltaT(), Seq('List', TIME), DictT(DATE, INT)]
    return r


_EXTRA = None


def types_for(tier):
    global _EXTRA
    if _EXTRA is None:
        _EXTRA = extra_types()
    return universe('quick' if tier == 'quick' else 'middle') + _EXTRA


def check(s, node, text, tier, dcs=DC):
    for dc in dcs:
        s.states += 1
        try:
            ref = refdump(dc, make(text))
        except (Undumpable, TypeError):
            s.add('outside_of_the_domain')
            continue
        lcs = [Cfg(mangle_key=dc.mangle_key, **k) for k in LC]
        got = None
        for lc in lcs:
            STEPS[0] = 0
            ONESHOT[0] = False
            v = make(text)
            try:
                r = node.res(lc, ref)
            except Unspecified:
                continue
            s.transitions += STEPS[0]
            if r.fails or not all(same(x, v) for x in r.vals):
                s.add('outside_of_the_domain')
                continue
            if got is None:
                got = Dumper(**dc.kw).dump(v)
            s.validated += 1
            try:
                back = Loader(**lc.kw).load(got, node.t)
            except Exception as e:
                why = 'loading the dump %r with (%r) raises %s: %s' % (got, lc, type(e).__name__, str(e)[:200])
            else:
                if same(back, make(text)):
                    continue
                why = 'loading the dump %r with (%r) gives %r' % (got, lc, back)
            what = 'dump of %s, of type %s (%r): %s' % (text, node.expr(), dc, why)
            s.bad(what, dump_replay(node, text, dc, what) + "print(typedload.dataloader.Loader(%r).load(r, %s))\n" % (lc, node.expr()))
            return


def run(tier, seed):
    ts = types_for(tier)
    def f(i, s):
        if type(i) is tuple:
            for k, (node, _) in enumerate(deep(i, tier)):
                for text in values(node, 2):
                    check(s, node, text, tier, [DC[k % 8]])
                if s.full:
                    return
                s.sample('%s ...' % node.expr(), 1)
            return
        vs = values(ts[i], 6 if tier == 'quick' else 8)
        for text in vs:
            check(s, ts[i], text, tier)
            if s.full:
                return
        s.sample('%s: %d values' % (ts[i].expr(), len(vs)), 1)
    total = core.explore(list(range(len(ts))) + deep_units(tier), f)
    return total, dict(bound='%d types and all those of %d of the wrappers, bounded values, %d dumper x %d loader settings' % (len(ts), 5 if tier == 'thorough' else 4, len(DC), len(LC)),
                       assumptions=['values whose reference dump does not determine them (ambiguous unions, keys that dump to lists) are outside of the domain'])
