"""
C21: every combination of kinds of default over 3 fields x every combination of
values equal/different from the default x settings, in every container, against
the reference; and all the sequences of dumps and changes of two objects.
"""
import itertools

from mc.diff import *
from mc.contexts import *
from mc.inhab import *

DC = [DCfg(hidedefault=h, mangle_key=m) for h in (True, False) for m in ('name', 'other')]

LIST = Seq('List', INT)
DICT = DictT(STR, INT)


def variants(kind, n, i):
    """The kinds of field: (F, values as source)"""
    r = [
        (F(n, ANY), ['0', 'None', "''", '[]']),
        (F(n, INT, ('v', '1')), ['1', '2', '0', 'True', '1.0']),
        (F(n, UnionT(INT, NONE), ('v', 'None')), ['None', '0', "''"]),
    ]
    if kind == 'nt':
        r += [(F(n, LIST, ('v', '[]')), ['[]', '[0]', '()', 'None']), (F(n, STR, ('v', "''")), ["''", "'a'", 'None', '0'])]
        return r
    r += [
        (F(n, LIST, ('f', 'list')), ['[]', '[0]', '()', 'None']),
        (F(n, DICT, ('f', "(lambda: {'k': 1})")), ["{'k': 1}", '{}', "{'k': 2}", "{'k': True}"]),
        (F(n, INT, ('v', '1'), data='@' + n), ['1', '2']),
        (F(n, LIST, ('f', '(lambda: [1, 2])'), data='@' + n), ['[1, 2]', '[2, 1]', '[]']),
        (F(n, STR, ('v', "''"), kw=True), ["''", "'x'"]),
        (F(n, INT, ('v', '3'), init=False), ['3', '4']),
        (F(n, LIST, ('f', 'list'), init=False), ['[]', '[1]']),
    ]
    if kind in ('attrs', 'attrsa') and i > 0:
        r += [
            (F(n, INT, ('fs', '(lambda self: (self.a if isinstance(self.a, int) else 0) + 1)')), ['1', '2', '3']),
            (F(n, LIST, ('fs', '(lambda self: [self.a])'), data='@' + n), ['[0]', '[1]', '[]']),
        ]
    return r


def classes(tier):
    r = []
    for kind in ('nt', 'dc', 'attrs', 'attrsa'):
        vs = [variants(kind, n, i) for i, n in enumerate('abc')]
        for k, combo in enumerate(itertools.product(*[range(len(v)) for v in vs])):
            if tier == 'quick' and kind == 'attrsa' and k % 3:
                continue
            fields = [v[i] for v, i in zip(vs, combo)]
            # required fields first
            if any(f.default is None and not f.kw and any(g.default is not None and not g.kw for g, _ in fields[:j]) for j, (f, _) in enumerate(fields)):
                fields.sort(key=lambda x: x[0].default is not None)
                if fields[0][0].name != 'a' and any(f.default and f.default[0] == 'fs' for f, _ in fields):
                    continue
            r.append((kind, fields))
    return r


def objects_of(node, fields):
    for combo in itertools.product(*[v for _, v in fields]):
        args = ', '.join('%s=%s' % (f.name, v) for (f, _), v in zip(fields, combo) if f.init)
        text = '%s(%s)' % (node.name, args)
        later = [(f.name, v) for (f, _), v in zip(fields, combo) if not f.init]
        yield text, later


def build_obj(text, later):
    o = make(text)
    for k, v in later:
        setattr(o, k, make(v))
    return o


WRAP = [('[%s]', lambda o: [o]), ('(%s, 1)', lambda o: (o, 1)), ("{'k': %s}", lambda o: {'k': o}), ("{'k': [%s]}", lambda o: {'k': [o]})]


def bad(s, node, what):
    s.bad(what, PRELUDE + node.source() + '\n# ' + what)


def one(s, node, o, text, dc, dumper):
    s.states += 1
    s.validated += 1
    exp = refdump(dc, o)
    got = dumper.dump(o)
    s.transitions += len(exp) if isinstance(exp, dict) else 1
    if not same(exp, got):
        bad(s, node, 'dump of %s (%r): %r instead of %r' % (text, dc, got, exp))
        return False
    return True


def explore_class(i, s, cl, tier):
    kind, fields = cl[i]
    node = obj(kind, [f for f, _ in fields])
    node.t
    dumpers = [(dc, Dumper(**dc.kw)) for dc in DC]
    outer = obj(['nt', 'dc', 'attrs'][i % 3], [F('x', node), F('y', Seq('List', node), None)])
    outer.t
    for n, (text, later) in enumerate(objects_of(node, fields)):
        o = build_obj(text, later)
        for dc, dumper in dumpers:
            one(s, node, o, text, dc, dumper)
            if n % 4 == i % 4:
                for t, w in WRAP:
                    one(s, node, w(o), t % text, dc, dumper)
                one(s, outer, outer.t(x=o, y=[o]), '%s(x=%s, y=...)' % (outer.name, text), dc, dumper)
        if s.full:
            return
    s.sample(node.decl.replace('\n', '; ')[:250], 1)


OPTS = {
    'dc': ['(slots=True)', '(frozen=True)', '(order=True)', '(kw_only=True)', '(eq=False)', '(slots=True, frozen=True)', '(repr=False)', '(unsafe_hash=True)', '(match_args=False)'],
    'attrs': ['(slots=True)', '(frozen=True)', '(order=True)', '(kw_only=True)', '(eq=False)', '(slots=True, frozen=True)', '(hash=True)', '(these=None)', '(slots=True, weakref_slot=False)'],
    'attrsa': ['@attr.define', '@attr.frozen', '@attr.mutable', '@attr.define(slots=False)', '@attr.define(kw_only=True)', '@attr.dataclass', '(auto_attribs=True, slots=True)', '(auto_attribs=True, init=True, eq=False)'],
}


def optional_kinds(kind, n):
    """The kinds of field with a default, for the options of the classes"""
    return [
        (F(n, INT, ('v', '1')), ['1', '2']),
        (F(n, UnionT(INT, NONE), ('v', 'None')), ['None', '0']),
        (F(n, LIST, ('f', 'list')), ['[]', '[0]']),
        (F(n, INT, ('v', '1'), data='@' + n), ['1', '2']),
        (F(n, STR, ('v', "''"), kw=True), ["''", "'x'"]),
    ]


def styled(kind, opts, s):
    """Classes with options, derived classes, derived classes that redefine a default, and derived classes that are not decorated"""
    for va, vb in itertools.product(optional_kinds(kind, 'a'), optional_kinds(kind, 'b')):
        base = obj(kind, [va[0], vb[0]], opts=opts)
        base.t
        derived = obj(kind, [F('c', INT, ('v', '3')), F('d', LIST, ('f', 'list'))], opts=opts, base=base)
        redefined = obj(kind, [F('b', INT, ('v', '7')), F('d', STR, ('v', "'d'"))], opts=opts, base=base)
        bodied = obj(kind, [va[0], vb[0]], opts=opts, body='ONE: ClassVar[int] = 1\n@property\ndef two(self):\n    return 2\n@classmethod\ndef three(cls):\n    return 3')
        cases = [(base, [va, vb]), (derived, [va, vb, (derived.fields[0], ['3', '1']), (derived.fields[1], ['[]', '[3]'])]),
                 (redefined, [va, (redefined.fields[0], ['7', '1', 'None', '[]', "''"]), (redefined.fields[1], ["'d'", "''"])]), (bodied, [va, vb])]
        for node, vs in cases:
            node.t
            plain = type('Plain', (node.t,), {va[0].name: 5} if 'slots' not in opts and opts not in ('@attr.define', '@attr.frozen', '@attr.mutable', '@attr.define(kw_only=True)') else {})
            if kind == 'dc' and 'frozen' in opts and 'slots' in opts:
                plain = None
            if plain is not None:
                CLASSES[plain] = node
            for combo in itertools.product(*[v for _, v in vs]):
                args = ', '.join('%s=%s' % (f.name, v) for (f, _), v in zip(vs, combo))
                for c, name in ((node.t, node.name), (plain, 'a class derived from ' + node.name)):
                    if c is None:
                        continue
                    o = c(**{f.name: make(v) for (f, _), v in zip(vs, combo)})
                    for dc in DC:
                        for v, text in ((o, '%s(%s)'), ([o, o], '2*[%s(%s)]')):
                            one(s, node, v, text % (name, args), dc, Dumper(**dc.kw))
                if s.full:
                    return
    s.sample('%s %s' % (kind, opts), 1)


ODDEQ = [('def __eq__(self, o):\n    return self.x == o.x', 'only compares with its own class'), ('def __eq__(self, o):\n    return True', 'is equal to anything'),
         ('def __eq__(self, o):\n    raise RuntimeError("eq")', 'can not be compared'), ('def __eq__(self, o):\n    return [] if o is self else [1]', 'gives something that is not a bool'),
         ('def __bool__(self):\n    raise RuntimeError("bool")', 'has no truth value'), ('def __len__(self):\n    return 0', 'is empty')]


def oddeq(kind, s):
    """The values of the fields that have no default are never compared with anything"""
    for body, what in ODDEQ:
        for vk in ('dc', 'attrs', 'nt'):
            opts = {'dc': '(eq=False)', 'attrs': '(eq=False)', 'nt': ''}[vk]
            v = obj(vk, [F('x', INT)], opts=opts, body=body)
            v.t
            for fields in ([F('a', ANY)], [F('a', v), F('b', INT, ('v', '1'))], [F('a', ANY, data='@a'), F('b', v)] if kind != 'nt' else [F('a', ANY), F('b', v)],
                           [F('a', Seq('List', v)), F('b', UnionT(v, NONE))], [F('a', v, init=False), F('b', v)] if kind == 'dc' else [F('a', v)], [F('a', v, kw=True)] if kind != 'nt' else [F('a', v)]):
                node = obj(kind, fields)
                node.t
                for x in ('1', '2'):
                    o = node.t(**{f.name: make(('[%s(x=%s)]' if isinstance(f.node, Seq) else '%s(x=%s)') % (v.name, x)) if f.default is None else int(x) for f in fields if f.init})
                    for f in fields:
                        if not f.init:
                            setattr(o, f.name, make('%s(x=%s)' % (v.name, x)))
                    for dc in DC:
                        for value in (o, [o], {'k': (o,)}):
                            s.states += 1
                            s.validated += 1
                            exp = refdump(dc, value)
                            try:
                                got = Dumper(**dc.kw).dump(value)
                            except Exception as e:
                                got = e
                            if isinstance(got, Exception) or not same(exp, got):
                                bad(s, node, 'dump of an object with required fields that contain %s(x=%s), which %s: %r instead of %r' % (v.name, x, what, got, exp))
                                return
    s.sample('odd equality %s' % kind, 1)


def nested(s):
    """Defaults that are themselves objects, compared by value"""
    for kind in ('dc', 'attrs', 'attrsa'):
        inner = obj(kind, [F('x', INT, ('v', '1')), F('l', LIST, ('f', 'list'))], opts={'dc': '(eq=True, frozen=True)', 'attrs': '(frozen=True, hash=True)', 'attrsa': '(auto_attribs=True, frozen=True, hash=True)'}[kind])
        inner.t
        forms = [('f', inner.name), ('f', '(lambda: %s(x=2))' % inner.name), None]
        for da, db in itertools.product(forms, repeat=2):
            fs = [F('a', inner, da), F('b', Seq('List', inner), ('f', '(lambda: [%s()])' % inner.name)), F('c', UnionT(inner, NONE), ('v', 'None'))]
            if db is not None:
                fs.append(F('d', inner, db))
            node = obj(kind, fs)
            node.t
            vals = ['%s()' % inner.name, '%s(x=2)' % inner.name, '%s(l=[1])' % inner.name]
            dumpers = [(dc, Dumper(**dc.kw)) for dc in DC]
            for a, b, c, d in itertools.product(vals, ['[]', '[%s]' % vals[0], '[%s]' % vals[1]], ['None', vals[0], vals[1]], vals if db is not None else [None]):
                text = '%s(a=%s, b=%s, c=%s%s)' % (node.name, a, b, c, ', d=' + d if d else '')
                for dc, dumper in dumpers:
                    one(s, node, make(text), text, dc, dumper)
                if s.full:
                    return
    s.sample('objects as defaults', 1)


def sequences(kind, s, depth):
    """All the histories of dumps and changes of two objects of a class, with one dumper"""
    fs = [F('a', LIST, ('v', '[]') if kind == 'nt' else ('f', 'list')), F('b', DICT, ('v', '{}') if kind == 'nt' else ('f', 'dict')), F('n', INT, ('v', '1'))]
    node = obj(kind, fs)
    node.t
    # the NamedTuple shares its default between the objects: passed explicitly
    text = '%s([], {}, 1)' % node.name
    text2 = '%s()' % node.name if kind != 'nt' else '%s([1], {}, 2)' % node.name
    ops = [('dump', 0), ('dump', 1), ('append', 0), ('clear', 0), ('setkey', 1), ('append', 1), ('dumplist', 0)]
    for dc in (DCfg(), DCfg(hidedefault=False)):
        for hist in itertools.product(ops, repeat=depth):
            objs = [make(text), make(text2)]
            dumper = Dumper(**dc.kw)
            for op, i in hist:
                o = objs[i]
                s.transitions += 1
                if op == 'append':
                    o.a.append(1)
                elif op == 'clear':
                    o.a.clear()
                elif op == 'setkey':
                    o.b['k'] = 1
                else:
                    v = o if op == 'dump' else [o, objs[1]]
                    exp = refdump(dc, v)
                    got = dumper.dump(v)
                    s.validated += 1
                    if not same(exp, got):
                        bad(s, node, 'after %r, dump of %r (%r): %r instead of %r' % (hist, v, dc, got, exp))
                        break
            s.states += 1
            if s.full:
                return
    s.sample('histories %s of %r' % (kind, ops), 1)


def run(tier, seed):
    cl = classes(tier)
    def f(u, s):
        if u[0] == 'c':
            explore_class(u[1], s, cl, tier)
        elif u[0] == 'n':
            nested(s)
        elif u[0] == 'e':
            oddeq(u[1], s)
        elif u[0] == 'o':
            styled(u[1], u[2], s)
        else:
            sequences(u[1], s, 4 if tier == 'quick' else 6)
    units = [('h', k) for k in ('dc', 'attrs', 'attrsa', 'nt')] + [('n', 0)] + [('e', k) for k in ('nt', 'dc', 'attrs', 'attrsa')] + [('o', k, o) for k in OPTS for o in OPTS[k] + ['']] + [('c', i) for i in range(len(cl))]
    total = core.explore(units, f)
    return total, dict(bound='3 fields, every combination of kinds of default and values; histories of %d operations' % (4 if tier == 'quick' else 6),
                       assumptions=['factories that return different values at different times, and attrs fields with repr=False, are unspecified'])
