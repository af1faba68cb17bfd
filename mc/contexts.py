"""
Contexts: the ways in which a type can occur inside of another. Each one is
(name, node -> node, [documents] -> document, number of documents).
"""
import itertools

from mc.universe import *


def _c(name, mk, doc, n=2, hashable=False, path=None):
    return (name, mk, doc, n, hashable, path)


def contexts():
    f2 = lambda k, **kw: (lambda x: obj(k, [F('p', x), F('q', x)], **kw))
    fd = lambda l: {'p': l[0], 'q': l[1]}
    return [
        _c('list', lambda x: Seq('List', x), lambda l: list(l)),
        _c('set', lambda x: Seq('Set', x), lambda l: list(l), 2, True),
        _c('frozenset', lambda x: Seq('FrozenSet', x), lambda l: list(l), 2, True),
        _c('tuple', lambda x: Seq('Tuple', x), lambda l: list(l)),
        _c('tuplefix', lambda x: TupleFix(x, x), lambda l: list(l)),
        _c('dictvalue', lambda x: DictT(STR, x), lambda l: {'k%d' % i: d for i, d in enumerate(l)}),
        _c('nt', f2('nt'), fd),
        _c('dc', f2('dc'), fd),
        _c('dcmangled', lambda x: obj('dc', [F('p', x, data='@p'), F('q', x)]), lambda l: {'@p': l[0], 'q': l[1]}),
        _c('attrs', f2('attrs'), fd),
        _c('td', f2('td'), fd),
        _c('optional', lambda x: UnionT(x, NONE, spelling='Optional'), lambda l: l[0], 1),
        _c('newtype', lambda x: NewTypeT(nm('Nw'), x), lambda l: l[0], 1),
    ]


# ---------------------------------------------------------------- deep types

def wrappers():
    """(name, node -> node, (document, good document) -> document with them inside)"""
    g = lambda x: x
    return [
        ('list', lambda x: Seq('List', x), lambda d, o: [o, d]),
        ('tuplefix', lambda x: TupleFix(INT, x), lambda d, o: [1, d]),
        ('dict', lambda x: DictT(STR, x), lambda d, o: {'k': o, 'l': d}),
        ('nt', lambda x: obj('nt', [F('p', x), F('q', x)]), lambda d, o: {'q': d, 'p': o}),
        ('dc', lambda x: obj('dc', [F('p', x, data='@p'), F('q', INT, ('v', '1'))]), lambda d, o: {'@p': d}),
        ('attrs', lambda x: obj('attrs', [F('q', INT, ('v', '1')), F('p', x, ('v', 'None'), data='q q')]), lambda d, o: {'q q': d}),
        ('td', lambda x: obj('td', [F('p', x), F('q', INT)]), lambda d, o: {'p': d, 'q': 1}),
        ('union', lambda x: UnionT(x, E_STR, NONE), lambda d, o: d),
        ('unionobj', lambda x: UnionT(obj('dc', [F('u', x)]), obj('nt', [F('w', x)]), INT), lambda d, o: {'w': d}),
        ('newtype', lambda x: NewTypeT(nm('Nw'), x), lambda d, o: d),
        ('seq', lambda x: Seq('Tuple', x), lambda d, o: (d, o)),
    ]


LEAVES = [(INT, 1, ['x', None, [], {}, 1.5, '7']), (STR, 'a', [None, [], 5, b'a']), (LIT, 1, ['b', None, [1]]), (DATE, [2020, 1, 2], [[2020, 13, 1], 'x', None]), (PATH, 'a', [5, None])]
BADS = [5, 'x', None, [], {}, [[]], {'p': []}, X('Opaque()')]


def deep_units(tier):
    n = len(wrappers())
    return [('deep', c) for c in itertools.product(range(n), repeat=2)]


def deep(u, tier):
    """(node, documents) of the types with 4 (5) wrappers, that start with those of the unit; each document is well formed except in one place"""
    ws = wrappers()
    thorough = tier == 'thorough'
    n = len(ws)
    longer = [(u[1] * 4)[2:m] for m in (6, 7, 8)] + [(u[1] + u[1][::-1] + u[1] + u[1])[2:8], (u[1][1],) * 5, (u[1][1], 0, 3, 4, 5), (6, u[1][1], 1, 2, 3)]
    for rest in itertools.chain(longer, itertools.product(range(n), repeat=2 if not thorough else 3)):
        seq = [ws[i] for i in u[1] + rest]
        k = sum(u[1]) + sum(rest) * 3
        leaf, good, bads = LEAVES[k % len(LEAVES)]
        node = leaf
        goods = [good]
        ok = True
        for name, mk, doc in reversed(seq):
            if name == 'union' and isinstance(node, UnionT) and any(m is NONE for m in node.members):
                ok = False
                break
            node = mk(node)
            goods.append(doc(goods[-1], goods[-1]))
        if not ok:
            continue
        docs = [goods[-1]]
        for level in range(len(goods)):
            # the document that is at that level becomes something else
            for b in bads if level == 0 else (BADS if k % 4 == 0 else BADS[k % 2::2]):
                d = b
                for i in range(level, len(seq)):
                    d = list(reversed(seq))[i][2](d, goods[i])
                docs.append(d)
        yield node, docs
