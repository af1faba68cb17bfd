"""
C29: every length up to a bound (and lengths around the powers of 2 and of 10)
and every position of a special element, for every container and object, both
directions. What is expected is put together from what happens with one
element alone.
"""
import itertools

from mc.diff import *
from mc.outcome import typekey

NS29 = dict(NS)
DECL29 = '''
class N29(NamedTuple):
    a: int
@dataclass(frozen=True)
class D29:
    a: int = 3
    b: str = 'b'
class T29(TypedDict):
    a: int
class E29(Enum):
    A: int = 1
    B: str = 'b'
    C: Tuple[int, int] = (1, 2)
class U29(NamedTuple):
    k: Literal['u']
    a: int
class V29(NamedTuple):
    k: Literal['v']
    a: str
'''
exec(DECL29, NS29)


def ev(t):
    return eval(t, NS29)


# element type, normal documents (cycled), special documents, hashable results
ELEMS = [
    ('int', ['@i'], ['7', 7.5, 'x', None, [], 10**400], True),
    ('str', ['s@i'], [5, 1.5, None], True),
    ('float', ['@i + 0.5'], ['1.5', 2, 'x', None], True),
    ('Optional[int]', ['@i', None], ['7', 'x', 2.5, []], True),
    ('Union[int, str]', ['@i', 's@i'], [1.5, None, []], True),
    ('Union[int, str, None, float]', ['@i', None, '@i + 0.5'], [[], {}], True),
    ('N29', [{'a': '@i'}], [{'a': 'x'}, {}, 5, {'a': '1', 'z': 2}], True),
    ('D29', [{'a': '@i'}, {}], [{'a': 'x'}, {'b': 5}, None], True),
    ('T29', [{'a': '@i'}], [{'a': '1'}, {}, 'x'], False),
    ('E29', [1, 'b'], [[1, 2], '1', 'zz', None], True),
    ('datetime.date', [[2020, 1, 2]], ['2020-02-03', [2020, 2, 30], 'x'], True),
    ('List[int]', [['@i', 1], []], [['1'], ['x'], 5, [1, 2, 'x']], False),
    ('Tuple[int, str]', [['@i', 'a']], [['1', 2], ['x', 'a'], [1]], True),
    ('Dict[str, int]', [{'k': '@i'}], [{'k': '1'}, {'k': 'x'}, {1: 1}, []], False),
    ('Any', ['@i'], [[], None, 'x'], False),
    ('Literal[1, "a"]', [1, 'a'], ['1', 2, None], True),
    ('Union[U29, V29]', [{'k': 'u', 'a': '@i'}, {'k': 'v', 'a': 's@i'}], [{'k': 'w', 'a': 1}, {'k': 'u', 'a': 'x'}, 5], True),
    ('Union[int, List[int]]', ['@i', ['@i']], [['x'], '5', 'x'], False),
    ('NewType("W29", int)', ['@i'], ['7', 'x'], True),
    # where all of them are converted
    ('int', ['#i'], [7, 7.5, 'x', None], True),
    ('str', ['@i'], ['s', 1.5, None], True),
    ('float', ['#i'], [1.5, 2, 'x'], True),
    ('Optional[int]', ['#i', None], [7, 'x', []], True),
    ('datetime.date', ['2020-01-02'], [[2020, 2, 3], [2020, 2, 30], 'x'], True),
]
CASTED = range(len(ELEMS) - 5, len(ELEMS) - 1)


def gen(doc, i):
    """The normal document number i"""
    if type(doc) is str:
        if doc == '#i':
            return str(i)
        if doc == '@i':
            return i
        if doc == '@i + 0.5':
            return i + 0.5
        return doc.replace('@i', str(i))
    if type(doc) is list:
        return [gen(d, i) for d in doc]
    if type(doc) is dict:
        return {k: gen(v, i) for k, v in doc.items()}
    return doc


BIG = [127, 128, 129, 199, 200, 255, 256, 257, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 9999, 10000, 10001, 16384, 20000]
HUGE = [32767, 32768, 32769, 50000, 65535, 65536, 65537, 99999, 100000, 100001, 131072, 200000]


def edges(n, dense):
    """Positions of interest"""
    if n <= dense:
        return range(n)
    r = {0, 1, 2, 3, n // 2, n - 3, n - 2, n - 1}
    p = 8
    while p < n:
        r |= {p - 1, p, p + 1}
        p *= 2 if n <= 1100 else 4
    p = 10
    while p < n:
        r |= {p - 1, p, p + 1}
        p *= 10
    return sorted(i for i in r if 0 <= i < n)


class Alone:
    """What happens to each document on its own"""
    def __init__(self, t, kw):
        self.t = t
        self.l = Loader(**kw)
        self.seen = {}

    def get(self, d):
        k = repr(d)
        if k not in self.seen:
            try:
                # as the only element of a list, because the booleans and such differ
                self.seen[k] = ('ok', self.l.load([d], List[self.t])[0])
            except TypedloadException as e:
                self.seen[k] = ('err', type(e).__name__, [(i.annotation[0], i.annotation[1]) if i.annotation else None for i in e.trace][1:], e.value, len(e.exceptions))
        return self.seen[k]


def check_err(e, alone, path, what):
    """None or what is wrong with the error of an element found at path"""
    if not isinstance(e, TypedloadException):
        return 'raises %r' % e
    got = [(i.annotation[0], i.annotation[1]) for i in e.trace if i.annotation]
    inner = [i for i in alone[2] if i]
    # alone has its own index 0 first
    exp = path + inner[1:]
    if got != exp:
        return 'the error is at %r instead of %r' % (got, exp)
    if type(e).__name__ != alone[1] or repr(e.value) != repr(alone[3]) or len(e.exceptions) != alone[4]:
        return 'the error is %s of %.50r instead of %s of %.50r' % (type(e).__name__, e.value, alone[1], alone[3])
    return None


SEQ29 = [('List', list), ('Tuple', tuple), ('Set', set), ('FrozenSet', frozenset)]


def u_seq(u, s, quick):
    """One special element in a sequence"""
    ei, ki, kwi, lengths, dense = u
    texpr, normal, special, hashable = ELEMS[ei]
    t = ev(texpr)
    kw = [dict(), dict(basiccast=False, failonextra=True)][kwi]
    kind, py = SEQ29[ki]
    if py in (set, frozenset) and not hashable:
        return
    full = eval('%s[t%s]' % (kind, ', ...' if kind == 'Tuple' else ''), dict(NS, t=t))
    alone = Alone(t, kw)
    loader = Loader(**kw)
    for n in lengths:
        docs = [gen(normal[i % len(normal)], i) for i in range(n)]
        exp = [alone.get(d) for d in docs] if n <= 300 else None
        if exp is None:
            # they are all alike
            l1 = Loader(**kw)
            exp = [('ok', l1.load([d], List[t])[0]) for d in docs]
        base = [r[1] for r in exp]
        cases = [(None, None)] + [(p, sp) for p in edges(n, dense) for sp in (special if n <= dense else special[:3] if n <= 1100 else [special[p % len(special)]])]
        conv = [list, tuple, iter, NS['OneShot'], NS['Iter']]
        for c, (p, sp) in enumerate(cases):
            data = list(docs)
            want = list(base)
            r = None
            if p is not None:
                data[p] = sp
                r = alone.get(sp)
                if r[0] == 'ok':
                    want[p] = r[1]
            shape = conv[c % len(conv)] if n <= 1100 else list
            s.states += 1
            s.transitions += n
            s.validated += 1
            try:
                got = ('ok', loader.load(shape(data), full))
            except Exception as e:
                got = ('err', e)
            s.outcomes.add((kind, got[0], r is None or r[0]))
            why = None
            if r is None or r[0] == 'ok':
                if got[0] == 'err':
                    why = 'raises %s' % str(got[1])[:200]
                elif not same29(got[1], py(want), py):
                    why = 'returned something else: %s' % difference(got[1], want)
            elif got[0] == 'ok':
                why = 'accepted'
            else:
                why = check_err(got[1], r, [(AnnotationType.INDEX, p)], None)
            if why:
                what = 'load a %s of %d into %s[%s] with %r, with %r at position %r: %s' % (shape.__name__, n, kind, texpr, kw, sp, p, why)
                s.bad(what, seq_replay(what, normal, n, p, sp, '%s[%s%s]' % (kind, texpr, ', ...' if kind == 'Tuple' else ''), kw))
                if s.full:
                    return
        # two wrong elements: the first is reported
        wrong = [d for d in special if alone.get(d)[0] == 'err']
        if wrong and n > 1 and shape29(n, lengths):
            for p, q in itertools.combinations(edges(n, min(dense, 12)), 2):
                data = list(docs)
                data[p] = wrong[0]
                data[q] = wrong[-1]
                s.states += 1
                s.transitions += n
                s.validated += 1
                try:
                    loader.load(data, full)
                    why = 'accepted'
                except Exception as e:
                    why = check_err(e, alone.get(wrong[0]), [(AnnotationType.INDEX, p)], None)
                if why:
                    s.bad('load a list of %d into %s[%s] with wrong elements at %d and %d: %s' % (n, kind, texpr, p, q, why))
                if s.full:
                    return


def shape29(n, lengths):
    return n <= 1100


def seq_replay(what, normal, n, p, sp, t, kw):
    return PRELUDE + DECL29 + '''
import typedload
def gen(doc, i):
    if type(doc) is str:
        return i if doc == '@i' else i + 0.5 if doc == '@i + 0.5' else doc.replace('@i', str(i))
    if type(doc) is list:
        return [gen(d, i) for d in doc]
    if type(doc) is dict:
        return {k: gen(v, i) for k, v in doc.items()}
    return doc
normal = %r
data = [gen(normal[i %% len(normal)], i) for i in range(%d)]
if %r is not None:
    data[%r] = %r
print(%r)
print(str(typedload.load(data, %s, **%r))[:1000])
''' % (normal, n, p, p or 0, sp, what, t, kw)


def same29(a, b, py):
    if type(a) is not py or len(a) != len(b):
        return False
    if py in (set, frozenset):
        return a == b and sorted(map(repr, a)) == sorted(map(repr, b))
    for x, y in zip(a, b):
        if x is not y and (type(x) is not type(y) or x != y or type(x) in (list, dict, tuple) and repr(x) != repr(y)):
            return False
    return True


def difference(a, b):
    try:
        if len(a) != len(b):
            return '%d elements instead of %d' % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y or type(x) is not type(y):
                return '%r instead of %r at %d' % (x, y, i)
    except Exception as e:
        return repr(e)
    return repr(type(a))


def u_dict(u, s, quick):
    ei, kwi, lengths, dense = u
    texpr, normal, special, hashable = ELEMS[ei]
    t = ev(texpr)
    kw = [dict(), dict(basiccast=False, failonextra=True)][kwi]
    alone = Alone(t, kw)
    loader = Loader(**kw)
    asvalue = Dict[str, t]
    askey = Dict[t, int] if hashable else None
    for n in lengths:
        docs = [gen(normal[i % len(normal)], i) for i in range(n)]
        l1 = Loader(**kw)
        base = [l1.load([d], List[t])[0] for d in docs]
        cases = [(None, None)] + [(p, sp) for p in edges(n, dense) for sp in (special if n <= dense else [special[p % len(special)]])]
        for p, sp in cases:
            data = {'k%d' % i: d for i, d in enumerate(docs)}
            want = {'k%d' % i: d for i, d in enumerate(base)}
            r = None
            if p is not None:
                data['k%d' % p] = sp
                r = alone.get(sp)
                if r[0] == 'ok':
                    want['k%d' % p] = r[1]
            one(s, loader, data, asvalue, want, r, AnnotationType.VALUE, sp, 'Dict[str, %s]' % texpr, n, p, kw)
            if s.full:
                return
        if askey is None or any(type(d) in (list, dict) for d in docs + special) and True and any(type(gen(d, 0)) in (list, dict) for d in normal):
            continue
        # as keys
        for p, sp in cases:
            if type(sp) in (list, dict):
                continue
            items = [(d, i) for i, d in enumerate(docs)]
            wanted = [(d, i) for i, d in enumerate(base)]
            r = None
            if p is not None:
                r = alone.get(sp)
                items[p] = (sp, p)
                if r[0] == 'ok':
                    wanted[p] = (r[1], p)
            data = dict(items)
            want = {}
            # the same as going through the data
            order = []
            for k, v in data.items():
                src_ = sp if p is not None and k is sp else None
                rk = alone.get(k) if n <= 300 else None
                if rk is None:
                    try:
                        rk = ('ok', l1.load([k], List[t])[0])
                    except TypedloadException:
                        rk = alone.get(k)
                if rk[0] == 'ok':
                    want[rk[1]] = v
            one(s, loader, data, askey, want, r, AnnotationType.KEY, sp, 'Dict[%s, int]' % texpr, n, p, kw)
            if s.full:
                return


def one(s, loader, data, t, want, r, ann, sp, shown, n, p, kw):
    s.states += 1
    s.transitions += n
    s.validated += 1
    try:
        got = ('ok', loader.load(data, t))
    except Exception as e:
        got = ('err', e)
    why = None
    if r is None or r[0] == 'ok':
        if got[0] == 'err':
            why = 'raises %s' % str(got[1])[:200]
        elif got[1] != want or list(map(repr, got[1].items())) != list(map(repr, want.items())):
            why = 'returned something else: %s' % difference(list(got[1].items()), list(want.items()))
    elif got[0] == 'ok':
        why = 'accepted'
    else:
        why = check_err(got[1], r, [(ann, sp)], None)
    if why:
        s.bad('load a dict of %d into %s with %r, with %r at position %r: %s' % (n, shown, kw, sp, p, why), PRELUDE + DECL29 + 'import typedload\ntypedload.load(%s, %s, **%r)\n' % (repr(data)[:100000], shown, kw))


def u_tuple(u, s, quick):
    """Tuples of a fixed size, with items of one type or of alternating types"""
    lengths, dense, mixed = u
    for n in lengths:
        elems = [ELEMS[(i % CASTED[0]) if mixed else 0] for i in range(n)]
        ts = [ev(e[0]) for e in elems]
        full = Tuple[tuple(ts)] if n else Tuple[()]
        for kw in (dict(), dict(basiccast=False, failonextra=True)):
            alones = {}
            for e, t in zip(elems, ts):
                alones.setdefault(e[0], Alone(t, kw))
            loader = Loader(**kw)
            docs = [gen(e[1][i % len(e[1])], i) for i, e in enumerate(elems)]
            # in a fixed tuple basic types are compared exactly: same for these documents
            base = [alones[e[0]].get(d)[1] for e, d in zip(elems, docs)]
            cases = [(None, None)] + [(p, sp) for p in edges(n, dense) for sp in (elems[p][2] if n <= 40 else elems[p][2][:2])]
            for p, sp in cases:
                data, want, r = list(docs), list(base), None
                if p is not None:
                    data[p] = sp
                    r = alones[elems[p][0]].get(sp)
                    if r[0] == 'ok':
                        want[p] = r[1]
                s.states += 1
                s.transitions += n
                s.validated += 1
                try:
                    got = ('ok', loader.load(data, full))
                except Exception as e:
                    got = ('err', e)
                why = None
                if r is None or r[0] == 'ok':
                    if got[0] == 'err':
                        why = 'raises %s' % str(got[1])[:200]
                    elif not same29(got[1], tuple(want), tuple):
                        why = difference(got[1], want)
                elif got[0] == 'ok':
                    why = 'accepted'
                else:
                    why = check_err(got[1], r, [(AnnotationType.INDEX, p)], None)
                if why:
                    s.bad('load a list of %d into a Tuple of %d types with %r, with %r at %r: %s' % (n, n, kw, sp, p, why))
                if s.full:
                    return
            # one item more, one less
            for d, ok in ((docs + [1], not kw), (docs[:-1], n == 0), (docs + [None] * 3, not kw)):
                s.states += 1
                s.validated += 1
                try:
                    r = loader.load(d, full)
                    bad = not ok or not same29(r, tuple(base), tuple)
                except TypedloadException:
                    bad = ok
                if bad:
                    s.bad('load %d items into a Tuple of %d types with %r' % (len(d), n, kw))


OBJ29 = {
    'nt': ('class $(NamedTuple):\n%s', '    %(n)s: %(t)s\n', '    %(n)s: %(t)s = %(d)s\n'),
    'dc': ('@dataclass\nclass $:\n%s', '    %(n)s: %(t)s\n', '    %(n)s: %(t)s = %(d)s\n'),
    'dcm': ('@dataclass\nclass $:\n%s', '    %(n)s: %(t)s = field(metadata={"name": "@%(n)s"})\n', '    %(n)s: %(t)s = field(default=%(d)s, metadata={"name": "@%(n)s"})\n'),
    'attrs': ('@attr.s\nclass $:\n%s', '    %(n)s = attr.ib(type=%(t)s)\n', '    %(n)s = attr.ib(type=%(t)s, default=%(d)s)\n'),
    'attrsm': ('@attr.s\nclass $:\n%s', '    %(n)s = attr.ib(type=%(t)s, metadata={"name": "@%(n)s"})\n', '    %(n)s = attr.ib(type=%(t)s, default=%(d)s, metadata={"name": "@%(n)s"})\n'),
    'td': ('class $(TypedDict):\n%s', '    %(n)s: %(t)s\n', '    %(n)s: NotRequired[%(t)s]\n'),
}


def u_obj(u, s, quick):
    """Objects with n fields"""
    kind, n, dense, mode = u
    head, req, opt = OBJ29[kind]
    # which fields have a default: none, all, the last half
    first = {'required': n, 'optional': 0, 'half': n // 2}[mode]
    fields = []
    text = ''
    for i in range(n):
        e = ELEMS[(i * 5) % CASTED[0]]
        name = 'f%d' % i
        fields.append((name, e))
        text += (req if i < first else opt) % dict(n=name, t=e[0], d='-%d' % (i + 1))
    decl = head.replace('$', 'O29') % (text or '    pass\n')
    ns = dict(NS29)
    exec(decl, ns)
    cls = ns['O29']
    dn = (lambda x: '@' + x) if kind in ('dcm', 'attrsm') else (lambda x: x)
    get = (lambda o, k: o[k]) if kind == 'td' else getattr
    has = (lambda o, k: k in o) if kind == 'td' else hasattr
    for kw in (dict(), dict(basiccast=False, failonextra=True)):
        loader = Loader(**kw)
        alones = {e[0]: Alone(ev(e[0]), kw) for _, e in fields}
        docs = {name: gen(e[1][0], i) for i, (name, e) in enumerate(fields)}
        base = {name: loader.load(docs[name], ev(e[0])) for name, e in fields}
        def attempt(data, want, err, what, missing=None):
            s.states += 1
            s.transitions += n
            s.validated += 1
            try:
                o = loader.load(data, cls)
            except Exception as e:
                why = None
                if err is None:
                    why = 'raises %s' % str(e)[:200]
                elif not isinstance(e, TypedloadException):
                    why = 'raises %r' % e
                elif err[0] == 'field':
                    why = check_err(e, err[2], [(AnnotationType.FIELD, err[1])], None)
                elif err[0] == 'shape' and [i for i in e.trace if i.annotation]:
                    why = 'the error is not about the object: %s' % e
                if why:
                    s.bad('%s with %d fields (%s), %r, %s: %s' % (kind, n, mode, kw, what, why), PRELUDE + DECL29 + decl + 'import typedload\nprint(typedload.load(%r, O29, **%r))\n' % (data, kw))
                return None
            why = None
            if err is not None:
                why = 'accepted'
            elif type(o) is not (dict if kind == 'td' else cls):
                why = 'it is a %s' % type(o)
            else:
                for i, (name, e) in enumerate(fields):
                    if name in want:
                        if not has(o, name) or get(o, name) != want[name] or type(get(o, name)) is not type(want[name]):
                            why = 'field %s is %r instead of %r' % (name, get(o, name), want[name])
                    elif kind == 'td':
                        if name in o:
                            why = 'field %s was not in the data' % name
                    elif get(o, name) != -(i + 1):
                        why = 'field %s is %r instead of its default' % (name, get(o, name))
            if why:
                s.bad('%s with %d fields (%s), %r, %s: %s' % (kind, n, mode, kw, what, why), PRELUDE + DECL29 + decl + 'import typedload\nprint(typedload.load(%r, O29, **%r))\n' % (data, kw))
            return o
        full = {dn(k): v for k, v in docs.items()}
        o = attempt(full, base, None, 'all the fields')
        attempt(dict(reversed(list(full.items()))), base, None, 'all the fields reversed')
        if s.full:
            return
        # dump with and without hiding
        if o is not None and kind != 'td':
            for hd in (True, False):
                exp = {dn(k): Dumper().dump(v) for k, v in base.items()}
                got = Dumper(hidedefault=hd).dump(o)
                for k in exp:
                    if k not in got or got[k] != exp[k] and Dumper(hidedefault=hd).dump(base[k.lstrip('@')]) != got[k]:
                        s.bad('dump of %s with %d fields: field %s is %r' % (kind, n, k, got.get(k)), PRELUDE + DECL29 + decl)
                if set(got) != set(exp):
                    s.bad('dump of %s with %d fields: the fields are %r' % (kind, n, sorted(got)[:20]))
        absent = attempt({k: v for k, v in list(full.items())[:first]}, {k: base[k] for k, _ in fields[:first]}, None, 'only the required fields')
        for p in edges(n, dense):
            name, e = fields[p]
            # absent
            d = {k: v for k, v in full.items() if k != dn(name)}
            w = {k: v for k, v in base.items() if k != name}
            attempt(d, w, ('shape',) if p < first else None, 'without field %d' % p)
            # only that one
            if first == 0:
                ob = attempt({dn(name): docs[name]}, {name: base[name]}, None, 'only field %d' % p)
                if ob is not None and kind != 'td':
                    got = Dumper().dump(ob)
                    s.validated += 1
                    if set(got) != {dn(name)}:
                        s.bad('dump of %s with %d fields, only field %d is not the default: %r' % (kind, n, p, sorted(got)[:10]), PRELUDE + DECL29 + decl)
                    got = Dumper(hidedefault=False).dump(ob)
                    if set(got) != set(full) or any(got[dn(q)] != -(i + 1) for i, (q, _) in enumerate(fields) if q != name):
                        s.bad('dump of %s with %d fields, only field %d is not the default: %r' % (kind, n, p, got), PRELUDE + DECL29 + decl)
            for sp in e[2] if n <= 40 else e[2][:2]:
                r = alones[e[0]].get(sp)
                direct = None
                # the rule for one value in a field
                l1 = Loader(**kw)
                try:
                    direct = l1.load(sp, ev(e[0]))
                except TypedloadException:
                    pass
                data = dict(full)
                data[dn(name)] = sp
                want = dict(base)
                if r[0] == 'ok':
                    want[name] = direct
                attempt(data, want, None if r[0] == 'ok' else ('field', name, r), '%r in field %d' % (sp, p))
            # an extra key, before or after
            for q in (0, 1):
                x = {'zz%d' % p: 1}
                data = {**x, **full} if q else {**full, **x}
                attempt(data, base, ('shape',) if kw else None, 'an extra key')
            if kind in ('dcm', 'attrsm'):
                attempt({**full, name: 1}, base, ('any',) if kw else None, 'the Python name of field %d' % p)
            if s.full:
                return


def u_union(n, s, quick):
    """Unions of n members: each of them is found, failures have one exception for each"""
    text = ''
    for i in range(n):
        text += 'class M%d(NamedTuple):\n    a%d: int\n' % (i, i)
        text += 'class L%d(NamedTuple):\n    k: Literal["k%d"]\n    a: int\n' % (i, i)
    ns = dict(NS29)
    exec(text, ns)
    for pre in 'ML':
        members = [ns['%s%d' % (pre, i)] for i in range(n)]
        for extra in ((), (int,), (type(None),), (int, str)):
            for front in (False, True):
                t = Union[tuple(extra) + tuple(members)] if front else Union[tuple(members) + tuple(extra)]
                for kw in (dict(), dict(failonextra=True), dict(uniondebugconflict=True)):
                    l = Loader(**kw)
                    for p in range(n):
                        d = {'a%d' % p: p} if pre == 'M' else {'k': 'k%d' % p, 'a': p}
                        s.states += 1
                        s.transitions += n
                        s.validated += 1
                        try:
                            r = l.load(d, t)
                        except TypedloadException as e:
                            r = e
                        ok = type(r) is members[p] and r[-1] == p
                        if str in extra and kw.get('uniondebugconflict'):
                            # str accepts everything
                            ok = isinstance(r, TypedloadException)
                        if not ok:
                            s.bad('load %r into an union of %d: %r' % (d, n, r), PRELUDE + text + 'import typedload\nprint(typedload.load(%r, Union[%s]))\n' % (d, ', '.join(m.__name__ for m in members)))
                        r = l.load([d, d], List[t]) if ok and str not in extra else None
                        if r is not None and [type(i) for i in r] != [members[p]] * 2:
                            s.bad('load %r into a list of an union of %d: %r' % ([d, d], n, r))
                        w = {'a%d' % p: 'x'} if pre == 'M' else {'k': 'k%d' % p, 'a': 'x'}
                        if str in extra:
                            continue
                        s.validated += 1
                        try:
                            r = l.load(w, t)
                            s.bad('load %r into an union of %d: %r' % (w, n, r))
                        except TypedloadException as e:
                            members_ = n + len(extra)
                            if members_ > 1:
                                if len(e.exceptions) != members_:
                                    s.bad('load %r into an union of %d: %d exceptions' % (w, members_, len(e.exceptions)))
                                elif sorted(str(x.trace[0].annotation[1]) for x in e.exceptions) != sorted(map(str, t.__args__)):
                                    s.bad('load %r into an union of %d: the exceptions are of other members' % (w, members_))
                        if s.full:
                            return
    # literals and enums with n values
    if n:
        t = Literal[tuple('v%d' % i for i in range(n))]
        en = __import__('enum').Enum('Big', {'V%d' % i: 'v%d' % i for i in range(n)})
        hinted = dict(NS29)
        exec('class Hn(Enum):\n' + ''.join('    V%d: Tuple[int, int] = (%d, 0)\n' % (i, i) for i in range(n)), hinted)
        for p in range(n):
            s.states += 1
            s.validated += 3
            if Loader().load('v%d' % p, t) != 'v%d' % p:
                s.bad('literal of %d, value %d' % (n, p))
            if Loader().load('v%d' % p, en) is not en['V%d' % p]:
                s.bad('enum of %d, value %d' % (n, p))
            if Loader().load([p, '0'], hinted['Hn']) is not hinted['Hn']['V%d' % p]:
                s.bad('enum with hints of %d, value %d' % (n, p))
            if Dumper().dump(en['V%d' % p]) != 'v%d' % p or Dumper().dump(hinted['Hn']['V%d' % p]) != [p, 0]:
                s.bad('dump of an enum of %d, value %d' % (n, p))
        for bad in ('v%d' % n, 'v', None, n, 'V0'):
            for tt in (t, en):
                try:
                    Loader().load(bad, tt)
                    s.bad('%r into %r of %d' % (bad, tt, n))
                except TypedloadException as e:
                    str(e)


def u_depth(u, s, quick):
    """Containers inside of containers, n deep"""
    name, depths = u
    wrapt, wrapd, ann = {
        'List': (lambda t: List[t], lambda d: [d], (AnnotationType.INDEX, 0)),
        'Tuple': (lambda t: Tuple[t, ...], lambda d: [d], (AnnotationType.INDEX, 0)),
        'TupleFix': (lambda t: Tuple[int, t], lambda d: [1, d], (AnnotationType.INDEX, 1)),
        'Dict': (lambda t: Dict[str, t], lambda d: {'k': d}, (AnnotationType.VALUE, None)),
        'ListTwo': (lambda t: List[t], lambda d: [d, d] if False else [d], (AnnotationType.INDEX, 0)),
        'NT': (lambda t: NamedTuple('G29', [('f', t)]), lambda d: {'f': d}, (AnnotationType.FIELD, 'f')),
        'DC': (lambda t: dataclasses.make_dataclass('G29', [('f', t)]), lambda d: {'f': d}, (AnnotationType.FIELD, 'f')),
        'TD': (lambda t: TypedDict('G29', {'f': t}), lambda d: {'f': d}, (AnnotationType.FIELD, 'f')),
        'AT': (lambda t: attr.make_class('G29', {'f': attr.ib(type=t)}), lambda d: {'f': d}, (AnnotationType.FIELD, 'f')),
        'FrozenSet': (lambda t: FrozenSet[t], lambda d: [d], (AnnotationType.INDEX, 0)),
        'Optional list': (lambda t: List[Optional[t]], lambda d: [d], (AnnotationType.INDEX, 0)),
    }[name]
    for n in depths:
        for leaf, goods, bads in ((int, [(5, 5), ('5', 5)], ['x', [], {}]), (NS29['N29'], [({'a': '1'}, NS29['N29'](1))], [{'a': 'x'}, {}])):
            t = leaf
            for _ in range(n):
                t = wrapt(t)
            for v, exp in goods:
                d = v
                for _ in range(n):
                    d = wrapd(d)
                s.states += 1
                s.transitions += n
                s.validated += 2
                try:
                    r = Loader().load(d, t)
                except Exception as e:
                    s.bad('%s %d deep of %r: %s' % (name, n, v, str(e)[-300:]))
                    continue
                dumped = Dumper(hidedefault=False).dump(r)
                x = dumped
                for _ in range(n):
                    x = x['k' if name == 'Dict' else 'f'] if isinstance(x, dict) else x[-1]
                if x != Dumper().dump(exp):
                    s.bad('%s %d deep of %r dumps with %r inside' % (name, n, v, x))
                for _ in range(n):
                    r = r['k'] if name == 'Dict' else r['f'] if isinstance(r, dict) else r.f if hasattr(r, 'f') else list(r)[-1]
                if r != exp or type(r) is not type(exp):
                    s.bad('%s %d deep of %r: %r inside' % (name, n, v, r))
            if name == 'Optional list':
                continue
            for v in bads:
                d = v
                for _ in range(n):
                    d = wrapd(d)
                s.states += 1
                s.transitions += n
                s.validated += 1
                try:
                    r = Loader().load(d, t)
                    s.bad('%s %d deep of %r: %r' % (name, n, v, r))
                except TypedloadException as e:
                    got = [i.annotation for i in e.trace if i.annotation]
                    inner = 1 if v == {'a': 'x'} else 0
                    if len(got) != n + inner or any(a[0] != ann[0] or ann[1] is not None and a[1] != ann[1] for a in got[:n]):
                        s.bad('%s %d deep of %r: the path is %r' % (name, n, v, got))
                except Exception as e:
                    s.bad('%s %d deep of %r: %r' % (name, n, v, e))
            if s.full:
                return


DUMPED = ['@i', '"s%d" % i', 'N29(i)', 'D29(i)', 'E29.A', 'E29.C', '[i]', '(i, "a")', '{"k": i}', 'datetime.date(2020, 1, 2)', 'pathlib.Path("a")', 'None', '1.5', 'True', 'datetime.timedelta(1)', 'uuid.UUID(int=i)', '{"a": 3}', 'frozenset({1})', 're.compile("x")', '[]', 'D29()', 'str(i)', 'str(float(i))']


def u_dump(u, s, quick):
    """Dump of n elements, one of which is different"""
    bi, lengths, dense = u
    mk = lambda src_: eval('lambda i: ' + src_.replace('@i', 'i'), NS29)
    base = mk(DUMPED[bi])
    others = [mk(x) for x in DUMPED]
    # what each one is alone
    dumper = Dumper()
    for n in lengths:
        vals = [base(i) for i in range(n)]
        exp = [Dumper().dump(v) for v in vals]
        for c, p in enumerate([None] + list(edges(n, dense))):
            for o in ([None] if p is None else range(len(others)) if n <= 12 else [(p + n) % len(others), (p * 7 + 3) % len(others)]):
                v, e = list(vals), list(exp)
                if p is not None:
                    v[p] = others[o](p)
                    e[p] = Dumper().dump(v[p])
                for kind in ('list', 'tuple', 'dict', 'hint'):
                    s.states += 1
                    s.transitions += n
                    s.validated += 1
                    try:
                        if kind == 'dict':
                            r = dumper.dump({'k%d' % i: x for i, x in enumerate(v)})
                            ok = type(r) is dict and list(r) == ['k%d' % i for i in range(n)]
                            r = list(r.values())
                        elif kind == 'hint':
                            if p is not None:
                                continue
                            r = dumper.dump(v, annotated_type=List[type(v[0])]) if n else dumper.dump(v, annotated_type=List[int])
                            ok = type(r) is list
                        else:
                            r = dumper.dump(v if kind == 'list' else tuple(v))
                            ok = type(r) is list and r is not v
                    except Exception as x:
                        s.bad('dump of a %s of %d (%s) with %r at %r: %r' % (kind, n, DUMPED[bi], o, p, x))
                        continue
                    if not ok or len(r) != n or any(x != y or type(x) is not type(y) for x, y in zip(r, e)):
                        s.bad('dump of a %s of %d (%s) with %s at %r: %s' % (kind, n, DUMPED[bi], None if o is None else DUMPED[o], p, difference(r, e)))
                    # fresh containers
                    elif any(x is y and type(x) in (list, dict) for x, y in zip(r, v)):
                        s.bad('dump of a %s of %d (%s): shares data with the value' % (kind, n, DUMPED[bi]))
                    if s.full:
                        return
            # a set has no positions, but it can have items that look alike
            if p is None:
                for bj in [None] + ([1, 2, 3, 7, 10, 15, 21, 22] if n < 200 else [21]):
                    mix = mk(DUMPED[bj]) if bj is not None else base
                    try:
                        st = [set, frozenset][n % 2](vals + [mix(i) for i in range(n)] if n % 3 else vals[:n // 2] + [mix(i) for i in range(max(0, n // 2 - 1), n)])
                    except TypeError:
                        continue
                    r = dumper.dump(st)
                    s.validated += 1
                    s.states += 1
                    if type(r) is not list or sorted(map(repr, r)) != sorted(repr(Dumper().dump(x)) for x in st):
                        s.bad('dump of a set of %d (%s, %s)' % (len(st), DUMPED[bi], None if bj is None else DUMPED[bj]))
        # something that can't be dumped
        for p in edges(n, min(dense, 20)):
            for kind in ('list', 'dict'):
                v = list(vals)
                v[p] = NS['Opaque']()
                s.states += 1
                s.validated += 1
                try:
                    dumper.dump(v if kind == 'list' else {'k%d' % i: x for i, x in enumerate(v)})
                    s.bad('dump of a %s of %d (%s) with something else at %d: no error' % (kind, n, DUMPED[bi], p))
                except ValueError:
                    pass
                if s.full:
                    return


def u_magnitude(k, s, quick):
    """Long texts and large numbers are like the others"""
    l = Loader()
    strict = Loader(basiccast=False)
    vals = []
    for e in range(k * 16, k * 16 + 16):
        for d in (-1, 0, 1):
            vals += [2**e + d, -(2**e) + d]
        if e < 64:
            vals += [10**e, 'x' * e]
        vals.append('é' * (e * 7))
        vals.append(float(2**e) if e < 1000 else 1e308)
        vals.append(2.0**-e)
    for v in vals:
        t = type(v)
        s.states += 1
        s.validated += 6
        for ld in (l, strict):
            for data, tt, un in ((v, t, lambda r: r), ([v], List[t], lambda r: r[0]), ((v,), Tuple[t], lambda r: r[0]), ({'k': v}, Dict[str, t], lambda r: r['k']), (v, Union[t, None], lambda r: r), ({v: 1}, Dict[t, int], lambda r: list(r)[0])):
                r = un(ld.load(data, tt))
                if type(r) is not t or r != v:
                    s.bad('load %.50r into %r: %.50r' % (data, tt, r))
        if t is int and abs(v) < 10**600:
            if l.load(str(v), int) != v:
                s.bad('load %.50r into int' % str(v))
        r = Dumper().dump([v, {'k': v}])
        if r != [v, {'k': v}] or type(r[0]) is not t:
            s.bad('dump %.50r' % v)


def run(tier, seed):
    quick = tier == 'quick'
    small = list(range(0, 36)) if quick else list(range(0, 131))
    dense = 35 if quick else 130
    mid = [48, 63, 64, 65, 66, 99, 100, 101, 102] if quick else []
    units = []
    slow = {'N29', 'D29', 'T29', 'E29', 'Union[U29, V29]', 'Union[int, List[int]]', 'Dict[str, int]', 'List[int]', 'Tuple[int, str]', 'datetime.date'}
    for ei, e in enumerate(ELEMS):
        for ki in range(len(SEQ29)):
            for kwi in (0, 1) if ei not in CASTED else (0,):
                parts = 2 if quick else 8
                for i in range(parts):
                    units.append((u_seq, (ei, ki, kwi, small[i::parts], dense)))
                units.append((u_seq, (ei, ki, kwi, mid, dense)))
                big = BIG if not quick else [b for b in BIG if b <= 1100] if e[0] in slow else BIG
                if quick and ki in (2, 3):
                    big = BIG[:8:3]
                for i in range(2 if quick else 4):
                    units.append((u_seq, (ei, ki, kwi, big[i::2 if quick else 4], 30)))
                if e[0] in ('int', 'Union[int, str]', 'N29', 'Optional[int]') and ki < 2:
                    for h in HUGE if not quick else [32768, 65537, 100001]:
                        if not quick or e[0] == 'int' or h == 65537:
                            units.append((u_seq, (ei, ki, kwi, [h], 4)))
        for kwi in (0, 1) if ei not in CASTED else (0,):
            for i in range(2 if quick else 6):
                units.append((u_dict, (ei, kwi, (list(range(0, 20)) + mid[::2] if quick else small)[i::2 if quick else 6], 20 if quick else 60)))
            units.append((u_dict, (ei, kwi, [127, 128, 129, 256, 257, 500, 1000, 1001] if quick else BIG[:-8], 10)))
            if e[0] in ('int', 'str', 'Union[int, str]', 'Optional[int]', 'E29', 'Any') or not quick:
                units.append((u_dict, (ei, kwi, [1002, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2050], 2)))
                units.append((u_dict, (ei, kwi, [4095, 4096, 4097, 4098, 5000, 5001, 5002], 2)))
                if e[0] in ('int', 'str') or not quick:
                    units.append((u_dict, (ei, kwi, [8193, 10000, 10001, 10002, 16385], 1)))
                    units.append((u_dict, (ei, kwi, [65538], 1)))
                    units.append((u_dict, (ei, kwi, [100002], 1)))
    for mixed in (False, True):
        for i in range(4):
            units.append((u_tuple, ((small if not quick else small + mid + [127, 128, 129])[i::4], dense, mixed)))
        units.append((u_tuple, ([255, 256, 257, 300, 513] if quick else [b for b in BIG if b <= 1100], 20, mixed)))
    ns = list(range(0, 18)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257] if quick else list(range(0, 131)) + [199, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000]
    for kind in OBJ29:
        for n in ns:
            for mode in ('required', 'optional', 'half'):
                if n > 130 and mode == 'half' and quick:
                    continue
                units.append((u_obj, (kind, n, 33 if quick else 70, mode)))
    for n in (list(range(1, 18)) + [32, 33, 64, 65] if quick else list(range(1, 70)) + [100, 128, 129]):
        units.append((u_union, n))
    for name in ('List', 'Tuple', 'TupleFix', 'Dict', 'NT', 'DC', 'TD', 'AT', 'FrozenSet', 'Optional list'):
        units.append((u_depth, (name, list(range(0, 34 if quick else 51)) + [60, 64, 65, 80])))
    for bi in range(len(DUMPED)):
        units.append((u_dump, (bi, small + mid, dense)))
        units.append((u_dump, (bi, [127, 128, 129, 255, 256, 257, 499, 500, 501, 1000, 1001, 1023, 1024, 1025, 4096, 4097, 10000, 10001] if not quick else [128, 129, 256, 257, 500, 1000, 1001, 1025, 4097, 10001], 8)))
    for k in range(8 if quick else 64):
        units.append((u_magnitude, k))
    def f(u, s):
        u[0](u[1], s, quick)
        s.sample('%s(%s)' % (u[0].__name__, str(u[1])[:80]), 1)
    total = core.explore(units, f)
    return total, dict(bound='sequences of every length up to %d with a special element at every position, and of %d other lengths up to %d with it at the positions next to the powers of 2 and 10; objects of up to %d fields, unions of up to %d members, nesting up to 80' % (small[-1], len(BIG) + len(HUGE), HUGE[-1] if not quick else 100001, ns[-1], 65 if quick else 129),
                       assumptions=['the outcome for one element alone is checked by C02, C05 and C12'])
