"""
C22: all the objects with up to 3 fields of a pool (required, plain defaults of
the right and of the wrong type, factories, factories that take the object,
computed fields, absent keys of TypedDict), of every kind; for each, every
subset of present fields with every value of theirs, including the empty ones;
in every context, with a new and with a reused loader. Calls to the factories
are counted and objects are identified.
"""
import itertools

from mc.diff import *

SRC = '''
class Counter22:
    calls = []
    made = []
def made22(name, o):
    Counter22.calls.append(name)
    Counter22.made.append(o)
    return o
SENTINEL22 = Opaque(22)
LISTDEF22 = [1, 2]
class Sub22(NamedTuple):
    x: int
SUBDEF22 = Sub22(99)
EQSUB22 = Sub22(99)
class Yes22:
    def __eq__(self, o): return True
    __hash__ = object.__hash__
class Boom22:
    def __eq__(self, o): raise RuntimeError('eq')
    __hash__ = object.__hash__
class NoBool22:
    def __bool__(self): raise TypeError('bool')
    def __eq__(self, o): return NoBool22()
    __hash__ = object.__hash__
YESDEF22, BOOMDEF22, NOBOOLDEF22 = Yes22(), Boom22(), NoBool22()
'''
# name, type, default kind, default, present documents and their loaded values
POOL = [
    ('req', 'int', None, None, [('0', '0'), ('"7"', '7')]),
    ('plain', 'int', 'v', '5', [('0', '0'), ('5', '5')]),
    ('zero', 'int', 'v', '0', [('1', '1'), ('0', '0')]),
    ('wrong', 'int', 'v', '"12"', [('0', '0'), ('"3"', '3')]),
    ('none', 'int', 'v', 'None', [('0', '0')]),
    ('opt', 'Optional[int]', 'v', '3', [('None', 'None'), ('0', '0')]),
    ('text', 'str', 'v', '"d"', [('""', '""'), ('"d"', '"d"')]),
    ('flag', 'bool', 'v', 'True', [('False', 'False')]),
    ('any', 'Any', 'v', 'SENTINEL22', [('None', 'None'), ('[]', '[]')]),
    ('sub', 'Sub22', 'v', 'SUBDEF22', [('{"x": 0}', 'Sub22(0)')]),
    ('raw', 'Sub22', 'v', '("x", 1)', [('{"x": "1"}', 'Sub22(1)')]),
    ('tup', 'Tuple[int, ...]', 'v', '("1", "2")', [('[]', '()'), ('["1"]', '(1,)')]),
    ('enumerated', 'Literal[1, 2]', 'v', '1', [('2', '2')]),
    ('shared', 'List[int]', 'm', 'LISTDEF22', [('[]', '[]')]),
    ('flist', 'List[int]', 'f', 'lambda: made22("flist", [])', [('[]', '[]'), ('["1"]', '[1]')]),
    ('fdict', 'Dict[str, int]', 'f', 'lambda: made22("fdict", {"k": 1})', [('{}', '{}')]),
    ('fnone', 'Optional[List[int]]', 'f', 'lambda: made22("fnone", [7])', [('None', 'None'), ('[]', '[]')]),
    ('fwrong', 'int', 'f', 'lambda: made22("fwrong", "wrong")', [('0', '0')]),
    ('fsub', 'Sub22', 'f', 'lambda: made22("fsub", {"x": "1"})', [('{"x": 5}', 'Sub22(5)')]),
    ('fself', 'List[int]', 's', 'lambda self: made22("fself", [self])', [('[]', '[]')]),
    ('comp', 'int', 'i', '8', [('1', None), ('"bad"', None)]),
    ('fcomp', 'List[int]', 'if', 'lambda: made22("fcomp", [1])', [('[]', None)]),
    ('key', 'int', 'n', None, [('0', '0')]),
    # what is present is equal to the default, or almost
    ('eqany', 'Any', 'v', '1', [('True', 'True'), ('1.0', '1.0'), ('1', '1'), ('0', '0')]),
    ('eqzero', 'Any', 'v', '0', [('False', 'False'), ('0.0', '0.0'), ('""', '""'), ('None', 'None')]),
    ('eqfloat', 'float', 'v', '2', [('2.0', '2.0')]),
    ('eqbool', 'bool', 'v', '1', [('True', 'True')]),
    ('equnion', 'Union[float, bool, None]', 'v', '1', [('True', 'True'), ('1.0', '1.0')]),
    ('eqlit', 'Literal[1, "1"]', 'v', '"1"', [('1', '1'), ('"1"', '"1"')]),
    ('eqlist', 'Any', 'f', 'lambda: made22("eqlist", [])', [('[]', '[]'), ('{}', '{}'), ('()', '()')]),
    ('eqlist2', 'List[Any]', 'f', 'lambda: made22("eqlist2", [1])', [('[1]', '[1]'), ('[True]', '[True]'), ('[1.0]', '[1.0]')]),
    ('eqsub', 'Sub22', 'v', 'EQSUB22', [('{"x": 99}', 'Sub22(99)')]),
    # that are equal to anything, or can't be compared
    ('eqyes', 'Any', 'v', 'YESDEF22', [('0', '0')]),
    ('eqboom', 'Any', 'v', 'BOOMDEF22', [('0', '0'), ('None', 'None')]),
    ('eqnobool', 'Any', 'v', 'NOBOOLDEF22', [('0', '0'), ('[]', '[]')]),
    ('eqshared', 'List[int]', 'm', 'LISTDEF22', [('[1, 2]', '[1, 2]'), ('["1", "2"]', '[1, 2]')]),
]
KINDS22 = ['nt', 'dc', 'dcfrozen', 'dcslots', 'dckw', 'dcname', 'dcinherit', 'attrs', 'attrsa', 'attrsslots', 'attrsname', 'td', 'tdtotal', 'ntfunc']
ALLOWED = {
    'nt': {None, 'v', 'm'}, 'ntfunc': {None}, 'td': {None, 'n'}, 'tdtotal': {'n'},
    'dc': {None, 'v', 'f', 'i', 'if'}, 'attrs': {None, 'v', 'm', 'f', 's', 'i', 'if'},
}


def allowed(kind):
    return ALLOWED.get(kind) or ALLOWED[kind.rstrip('a') if kind == 'attrsa' else 'dc' if kind.startswith('dc') else 'attrs']


def declare(kind, fields, name):
    if not fields and kind in ('nt', 'td', 'tdtotal'):
        return 'class %s(%s):\n    pass\n' % (name, 'NamedTuple' if kind == 'nt' else 'TypedDict')
    if kind == 'nt':
        return 'class %s(NamedTuple):\n' % name + ''.join('    %s: %s%s\n' % (n, t, ' = ' + d if k else '') for n, t, k, d, _ in fields)
    if kind == 'ntfunc':
        return '%s = NamedTuple(%r, [%s])\n' % (name, name, ', '.join('(%r, %s)' % (n, t) for n, t, *_ in fields))
    if kind == 'td':
        return 'class %s(TypedDict):\n' % name + ''.join('    %s: %s\n' % (n, 'NotRequired[%s]' % t if k == 'n' else t) for n, t, k, d, _ in fields)
    if kind == 'tdtotal':
        return 'class %s(TypedDict, total=False):\n' % name + ''.join('    %s: %s\n' % (n, t) for n, t, *_ in fields)
    if kind.startswith('dc'):
        deco = {'dcfrozen': '(frozen=True)', 'dcslots': '(slots=True)', 'dckw': '(kw_only=True)'}.get(kind, '')
        def one(f):
            n, t, k, d, _ = f
            a = []
            if k in ('v', 'i'):
                a.append('default=' + d)
            elif k in ('f', 'if'):
                a.append('default_factory=' + d)
            if k in ('i', 'if'):
                a.append('init=False')
            if kind == 'dcname':
                a.append('metadata={"name": "@%s"}' % n)
            return '    %s: %s = field(%s)\n' % (n, t, ', '.join(a))
        if kind == 'dcinherit':
            return '@dataclass\nclass %sBase:\n' % name + (''.join(map(one, fields[:1])) or '    pass\n') + '@dataclass\nclass %s(%sBase):\n' % (name, name) + (''.join(map(one, fields[1:])) or '    pass\n')
        return '@dataclass%s\nclass %s:\n' % (deco, name) + (''.join(map(one, fields)) or '    pass\n')
    def one(f):
        n, t, k, d, _ = f
        a = []
        if kind != 'attrsa':
            a.append('type=' + t)
        if k in ('v', 'i', 'm'):
            a.append('default=' + d)
        elif k in ('f', 'if'):
            a.append('factory=' + d)
        elif k == 's':
            a.append('default=attr.Factory(%s, takes_self=True)' % d)
        if k in ('i', 'if'):
            a.append('init=False')
        if kind == 'attrsname':
            a.append('metadata={"name": "@%s"}' % n)
        return '    %s%s = attr.ib(%s)\n' % (n, ': ' + t if kind == 'attrsa' else '', ', '.join(a))
    deco = {'attrsa': '(auto_attribs=True)', 'attrsslots': '(slots=True)'}.get(kind, '')
    return '@attr.s%s\nclass %s:\n' % (deco, name) + (''.join(map(one, fields)) or '    pass\n')


# context: how many objects the document has, type, document, objects of the result
CONTEXTS = [
    ('top', 1, 'T22', lambda l: l[0], lambda r: [r]),
    ('list', 2, 'List[T22]', lambda l: l, lambda r: r),
    ('optional', 1, 'Optional[T22]', lambda l: l[0], lambda r: [r]),
    ('dict', 2, 'Dict[str, T22]', lambda l: {'a': l[0], 'b': l[1]}, lambda r: [r['a'], r['b']]),
    ('tuple', 2, 'Tuple[T22, T22]', lambda l: l, lambda r: r),
    ('field', 2, 'Pair22', lambda l: {'p': l[0], 'q': l[1]}, lambda r: [r.p, r.q]),
    ('union', 1, 'Union[int, T22, List[int]]', lambda l: l[0], lambda r: [r]),
    ('newtype', 1, 'New22', lambda l: l[0], lambda r: [r]),
]
WRAPPERS = '''
class Pair22(NamedTuple):
    p: T22
    q: T22
New22 = NewType('New22', T22)
'''
SETTINGS = [dict(), dict(failonextra=True), dict(basiccast=False), dict(uniondebugconflict=True)]


def get(o, kind, n):
    if kind in ('td', 'tdtotal'):
        return o.get(n, Ellipsis)
    return getattr(o, n, Ellipsis)


def documents(kind, fields):
    """(document source by field, present fields)"""
    per = []
    for n, t, k, d, docs in fields:
        opts = [(n, s, v) for s, v in docs]
        # computed fields do not need to be there
        if k is not None:
            opts.append(None)
        per.append(opts)
    for combo in itertools.product(*per):
        yield [c for c in combo if c is not None]


def docsrc(kind, present):
    at = '@' if kind.endswith('name') else ''
    return '{%s}' % ', '.join('"%s%s": %s' % (at, n, s) for n, s, _ in present)


def explore(kind, combo, tier, s, ns):
    fields = list(combo)
    decl = declare(kind, fields, 'T22')
    ns = dict(ns)
    exec(compile(decl + WRAPPERS, '<c22>', 'exec', dont_inherit=True), ns)
    counter = ns['Counter22']
    docs = list(documents(kind, fields))
    casts = lambda p: any(n in ('req', 'wrong', 'raw', 'tup', 'flist', 'eqshared') and '"' in src_ and not src_ == '""' for n, src_, _ in p)
    reused = {}
    seen = set()
    keep = []
    for ci, (cname, n, texpr, mk, parts) in enumerate(CONTEXTS):
        t = eval(texpr, ns)
        for si, kw in enumerate(SETTINGS):
            if si and ci not in (0, 1) and tier == 'quick':
                continue
            for di, present in enumerate(docs):
                # the second object has less fields, if there are two
                group = [present] if n == 1 else [present, docs[(di * 7 + 3) % len(docs)]]
                if not kw.get('basiccast', True) and any(casts(p) for p in group):
                    continue
                for new in (True, False):
                    if new:
                        ld = Loader(**kw)
                    else:
                        ld = reused.setdefault((si,), Loader(**kw))
                    text = [docsrc(kind, p) for p in group]
                    value = mk([eval(x, ns) for x in text])
                    counter.calls.clear()
                    counter.made.clear()
                    s.states += 1
                    s.transitions += len(fields)
                    s.validated += 1
                    why = None
                    try:
                        r = parts(ld.load(value, t))
                    except Exception as e:
                        why = 'raised %s: %s' % (type(e).__name__, str(e)[:200])
                    else:
                        calls = list(counter.calls)
                        s.outcomes.add(hash((cname, tuple(sorted(calls)), len(group[0]))))
                        made = [(a, o) for a, o in zip(counter.calls, counter.made)]
                        expcalls = sorted(f[0] for p in group for f in fields if f[2] in ('f', 's', 'if') and (f[2] == 'if' or f[0] not in [x[0] for x in p]))
                        if sorted(calls) != expcalls:
                            why = 'called the factories %r instead of %r' % (sorted(calls), expcalls)
                        usable = list(made)
                        for o, p in zip(r, group):
                            have = {x[0]: x for x in p}
                            for f in fields:
                                fn, ft, fk, fd, _ = f
                                got = get(o, kind, fn)
                                if fn in have and have[fn][2] is not None:
                                    if not same(got, eval(have[fn][2], ns)):
                                        why = why or 'the field %s is %r instead of %s, that is in the data' % (fn, got, have[fn][2])
                                    if any(got is m for m in counter.made) or fd and fd[-2:] == '22' and got is eval(fd, ns):
                                        why = why or 'the field %s is the default' % fn
                                elif fk in ('v', 'm', 'i'):
                                    exp = eval(fd, ns)
                                    if not same(got, exp) or (fd.isupper() or fd[-2:] == '22') and got is not exp:
                                        why = why or 'the field %s is %r instead of its default %s' % (fn, got, fd)
                                elif fk == 'n':
                                    if got is not Ellipsis:
                                        why = why or 'the field %s, that is absent, is %r' % (fn, got)
                                else:
                                    mine = [i for i, (a, m) in enumerate(usable) if a == fn and m is got]
                                    if not mine:
                                        why = why or 'the field %s is not a new object of the factory: %r' % (fn, got if fk != 's' else '')
                                    else:
                                        # the same object isn't used twice
                                        del usable[mine[0]]
                                    if fk == 's' and got[0] is not o:
                                        why = why or 'the factory of %s had another object' % fn
                            if kind in ('td', 'tdtotal') and set(o) - {f[0] for f in fields}:
                                why = why or 'unexpected keys %r' % o
                    if why:
                        what = 'load %s into %s (%s) with %r, %s loader: %s' % (', '.join(text), texpr, decl.strip().replace('\n', ' / '), kw, 'new' if new else 'reused', why)
                        s.bad(what, PRELUDE + SRC + decl + WRAPPERS + 'from typedload.dataloader import Loader\nt = %s\nvalue = %r\nprint(%r)\nr = Loader(**%r).load(value, t)\nprint(r, Counter22.calls)\n' % (texpr, value, what, kw))
                        if s.full:
                            return


def run(tier, seed):
    quick = tier == 'quick'
    ns = NS
    exec(compile(SRC, '<c22>', 'exec', dont_inherit=True), ns)
    units = []
    for kind in KINDS22:
        pool = [f for f in POOL if f[2] in allowed(kind)]
        deep = 3 if not quick or kind in ('dc', 'attrs', 'nt') else 2
        if kind in ('dcslots', 'dcfrozen', 'attrsslots', 'ntfunc') and quick:
            deep = 1
        if not quick and kind in ('dc', 'attrs'):
            deep = 4
        for n in range(0 if kind != 'ntfunc' else 1, deep + 1):
            for combo in itertools.combinations(pool, n):
                if n > 2 and any(f[0].startswith('eq') for f in combo) or n == 2 and quick and all(f[0].startswith('eq') for f in combo):
                    continue
                if quick and n == 3 and not ({f[2] for f in combo} & {'f', 's', 'i', 'if', None} or kind == 'nt'):
                    continue
                # those with no default go first, POOL is sorted
                units.append((kind, tuple(f[0] for f in combo)))
    byname = {f[0]: f for f in POOL}
    def f(u, s):
        kind, names = u
        explore(kind, [byname[n] for n in names], tier, s, ns)
        s.add('classes')
        s.sample('%s with fields %s' % u, 1)
    total = core.explore(units, f)
    return total, dict(bound='objects of %d kinds with up to 2 or 3 (thorough 3 or 4) fields of a pool of %d; all the subsets of present fields and values, %d contexts, new and reused loaders, %d settings' % (len(KINDS22), len(POOL), len(CONTEXTS), len(SETTINGS)),
                       assumptions=['the factories are deterministic'])
