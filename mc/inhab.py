"""
Values of a type, as source text, for the checks about dumping: everything of
bounded size, enumerated from the type.
"""
import itertools

from mc.universe import *

_code = {}


def make(text):
    c = _code.get(text)
    if c is None:
        c = _code[text] = compile(text, '<value>', 'eval')
    return eval(c, NS)


BASIC_VALUES = {
    int: ['1', '0', '-5', '2**70'],
    str: ["'a'", "''", "'1'", "'\\u20ac x'", "'None'"],
    bool: ['True', 'False'],
    float: ['1.5', '0.0', '-0.25', '1e300', 'float("inf")', '3.0'],
    type(None): ['None'],
}
DATES = {
    'date': ['datetime.date(2020, 1, 2)', 'datetime.date(1, 1, 1)', 'datetime.date(9999, 12, 31)'],
    'time': ['datetime.time(1, 2, 3, 4)', 'datetime.time(0)', 'datetime.time(23, 59, 59, 999999)'],
    'datetime': ['datetime.datetime(2020, 1, 2, 3, 4, 5, 6)', 'datetime.datetime(1, 1, 1)', 'datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc)',
                 'datetime.datetime(2020, 1, 2, 3, tzinfo=datetime.timezone(datetime.timedelta(hours=-5, minutes=-30)))'],
}


def spread(l, n):
    """n elements of l, the first and the last included"""
    if len(l) <= n:
        return l
    return [l[i * (len(l) - 1) // (n - 1)] for i in range(n)] if n > 1 else l[:1]


def hashable_src(text):
    try:
        hash(make(text))
        return True
    except TypeError:
        return False


_memo = {}


def values(node, n=6):
    key = (id(node), n)
    if key not in _memo:
        node.t
        seen = []
        for v in _values(node, n):
            if v not in seen:
                seen.append(v)
        _memo[key] = (node, seen)
    return _memo[key][1]


_depth = [0]


def _values(node, n):
    t = type(node)
    m = max(2, n - 2)
    if t is Basic:
        return spread(BASIC_VALUES[node.py], n)
    if t is AnyT:
        return ['1', "{'k': [None, 1.5, {'x': []}]}", "['a', [], {}]", 'None'][:n]
    if t is LiteralT:
        return [repr(v) for v in node.values]
    if t is EnumT:
        return ['%s.%s' % (node.name, k) for k, _ in node.members]
    if t is DateT:
        return spread(DATES[node.kind], n)
    if t is TimeDeltaT:
        return ['datetime.timedelta(seconds=1, microseconds=5)', 'datetime.timedelta(0)', 'datetime.timedelta(days=-3, hours=5)', 'datetime.timedelta(days=40, microseconds=1)'][:n]
    if t is PatternT:
        return ["re.compile(b'a+')", "re.compile(b'')"] if node.arg == 'bytes' else ["re.compile('a+')", "re.compile('')"]
    if t is StrC:
        return ['%s(%r)' % (node.e, d) for d in node.docs]
    if t is NewTypeT:
        return values(node.base, n)
    if t is Ref:
        if _depth[0] >= 2:
            return []
        _depth[0] += 1
        try:
            return _values(node.target, 2)[:3]
        finally:
            _depth[0] -= 1
    if t is UnionT:
        r = []
        for x in node.members:
            r += spread(values(x, m) if _depth[0] == 0 else _values(x, m), 3)
        return r
    if t is Seq:
        e = values(node.elem, m) if _depth[0] == 0 else _values(node.elem, m)
        f = {'List': '[%s]', 'Set': 'set([%s])', 'FrozenSet': 'frozenset([%s])', 'Tuple': 'tuple([%s])'}[node.kind]
        if node.kind in ('Set', 'FrozenSet'):
            e = [x for x in e if hashable_src(x)]
        r = [[]] + [[x] for x in spread(e, 3)]
        if len(e) > 1:
            r += [[e[0], e[1]], [e[-1], e[0], e[1]]]
        if e and node.kind in ('List', 'Tuple'):
            r.append([e[0], e[0], e[-1]])
        return [f % ', '.join(x) for x in r]
    if t is TupleFix:
        es = [values(x, m) if _depth[0] == 0 else _values(x, m) for x in node.items]
        if not all(es):
            return []
        k = max(map(len, es), default=1)
        return ['(%s)' % ''.join(e[min(i, len(e) - 1)] + ', ' for e in es) for i in range(min(k, 4))] if node.items else ['()']
    if t is DictT:
        ks = [x for x in (values(node.k, m) if _depth[0] == 0 else _values(node.k, m)) if hashable_src(x)]
        vs = values(node.v, m) if _depth[0] == 0 else _values(node.v, m)
        r = ['{}']
        if ks and vs:
            r += ['{%s: %s}' % (ks[0], v) for v in spread(vs, 3)]
            r += ['{%s}' % ', '.join('%s: %s' % (k, vs[i % len(vs)]) for i, k in enumerate(ks))]
        return r
    if t is Obj:
        fields = [f for f in node.allfields() if f.init]
        opts = []
        for f in fields:
            o = spread(values(f.node, m) if _depth[0] == 0 else _values(f.node, m), 4 if len(fields) < 3 else 3)
            if f.default is not None or f.notrequired:
                o = [None] + o
                if f.default and f.default[0] in ('v', 'f'):
                    # explicit, equal to the default
                    o.append(f.default[1] if f.default[0] == 'v' else '(%s)()' % f.default[1])
            opts.append(o)
        if len(fields) <= 2:
            combos = list(itertools.product(*opts))
        else:
            # each value of each field with the first of the others, then all together
            combos = []
            first = [o[0] if o else None for o in opts]
            for i, o in enumerate(opts):
                for v in o:
                    combos.append(tuple(first[:i] + [v] + first[i + 1:]))
            for k in range(3):
                combos.append(tuple(o[min(k, len(o) - 1)] for o in opts))
        r = []
        for c in combos:
            args = ['%s%s%s' % (f.name if node.kind == 'td' else node.constructor_name(f), ': ' if False else '=', v) for f, v in zip(fields, c) if v is not None]
            text = ('dict(%s)' if node.kind == 'td' else node.name + '(%s)') % ', '.join(args)
            try:
                make(text)
            except Exception:
                continue
            r.append(text)
        return spread(r, 40)
    raise TypeError(node)


# ---------------------------------------------------------------- helpers on values

def containers(o, seen=None):
    """All the list, dict and set objects reachable from o"""
    if seen is None:
        seen = {}
    t = type(o)
    if t in BASIC or isinstance(o, (type, enum.Enum)) or id(o) in seen:
        return seen
    if isinstance(o, (list, dict, set)):
        seen[id(o)] = o
    if isinstance(o, dict):
        for k, v in o.items():
            containers(k, seen)
            containers(v, seen)
    elif isinstance(o, (list, tuple, set, frozenset)):
        for i in o:
            containers(i, seen)
    elif t in CLASSES:
        for f in CLASSES[t].allfields():
            containers(getattr(o, f.name), seen)
    return seen


def dump_replay(node, value, cfg, text, hint=None):
    return PRELUDE + '\n' + node.source() + '''
import typedload
from typedload.datadumper import Dumper
value = %s
print('dump', repr(value), 'with', %r)
print(%r)
try:
    r = Dumper(%s).dump(value%s)
    print('result:', repr(r))
except Exception as e:
    print('raised', type(e).__name__)
    print(str(e))
''' % (value, repr(cfg), text, repr(cfg), ', ' + hint if hint else '')
