"""Documents shared by the generic checks"""
from mc.universe import *


def tupled(d):
    if type(d) in (list, tuple):
        return tuple(map(tupled, d))
    if type(d) is dict:
        return {k: tupled(v) for k, v in d.items()}
    return d


# Objects that are what loading gives, not data
LOADED = [X(i) for i in ("SubDict(a=1)", "collections.OrderedDict([(1, 'a'), ('2', 3)])", "pathlib.Path('a')", "uuid.UUID(int=5)", "re.compile('a')", "re.compile(b'a')", "datetime.datetime(2020,1,2,3,4,5)", "datetime.time(1,2)", "datetime.timedelta(1,2)",
                         "ipaddress.ip_address('127.0.0.1')", "ipaddress.ip_network('10.0.0.0/31')", "ipaddress.ip_interface('::1/8')")]


def loaded(node):
    """Instances of the classes in the type, with things in them that are not of their types"""
    todo, seen, r = [node], set(), []
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        todo += list(getattr(n, 'deps', ()))
        if isinstance(n, Obj) and n.kind != 'td':
            n.t
            r.append(X("raw(%s, 'a')" % n.name))
            if len(r) < 3:
                r.append(X("raw(%s, [])" % n.name))
    return r


def documents(node, tier, junk=JUNK, big_junk=JUNK_TINY, two=True, conv=True):
    """
    Well formed documents, all the junk at the root, everything one edit away
    from them and, for small types, two edits. Simplest first, no repetitions.
    """
    big = node.size() > 4
    thorough = tier == 'thorough'
    seen = set()
    base = node.valid()
    def out(d):
        s = src(d)
        if s in seen:
            return False
        seen.add(s)
        return True
    for d in base:
        if out(d):
            yield d
    for j in junk:
        if out(j):
            yield j
    objects = loaded(node)
    for j in LOADED + objects:
        if out(j):
            yield j
    for b in base[:1]:
        for p in positions(b):
            if p:
                for j in objects + (LOADED if not big or thorough else LOADED[:1]):
                    d = replaced(b, p, j)
                    if out(d):
                        yield d
    j1 = junk if (not big or thorough) else big_junk
    nbase = base if thorough else base[:3] if not big else base[:2]
    for i, b in enumerate(nbase):
        for d in edits(b, j1 if i == 0 else big_junk, conv):
            if out(d):
                yield d
    # with tuples instead of lists
    for b in [x for x in base if tupled(x) != x][:1]:
        for d in edits(tupled(b), j1 if two else big_junk, conv=False):
            if out(d):
                yield d
    if two and (not big or thorough):
        for b in base[:1]:
            for d in edits(b, big_junk, conv=False):
                for d2 in edits(d, [None, 'a', 0] if thorough else [None, 'a'], conv=False):
                    if out(d2):
                        yield d2
