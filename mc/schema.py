"""
Reference model: types as an abstract syntax independent from typing, with

 * the source text of the Python type (so that every case is a standalone program)
 * res(cfg, value): what the documentation says loading does: every acceptable
   value, every part of the data that is wrong
 * conforms(value): what it means to be an instance of the type
 * valid(): well formed documents, simplest first
 * refdump(): what the documentation says dumping does

It never looks at the implementation; it is written from the documentation.
"""
import argparse
import collections
import dataclasses
import datetime
import enum
import ipaddress
import itertools
import math
import pathlib
import re
import sys
import types
import typing
import uuid
from typing import *

import attr

PRELUDE = '''
import argparse, collections, dataclasses, decimal, fractions, datetime, enum, functools, ipaddress, pathlib, re, types, typing, uuid
from argparse import Namespace
from dataclasses import dataclass, field
from enum import Enum
from typing import *
import attr

class Opaque:
    "Object of an unrelated class"
    def __init__(self, tag=0): self.tag = tag
    def __eq__(self, o): return type(o) is Opaque and o.tag == self.tag
    def __hash__(self): return hash(self.tag)
    def __repr__(self): return 'Opaque(%r)' % self.tag

class OneShot:
    "Iterator with a deterministic repr"
    def __init__(self, l): self.it = iter(l)
    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def __repr__(self): return 'OneShot'

class Iter:
    "Iterable that is not a sequence"
    def __init__(self, l): self.l = l
    def __iter__(self): return iter(self.l)
    def __eq__(self, o): return type(o) is Iter and o.l == self.l
    def __repr__(self): return 'Iter'

class KeysOnly:
    def keys(self): return ['a']
    def __eq__(self, o): return type(o) is KeysOnly
    def __repr__(self): return 'KeysOnly'

class Fault:
    "Raises at the chosen call of hit()"
    n = -1
    count = 0
    exc = None
    @classmethod
    def set(cls, n, exc): cls.n, cls.exc, cls.count = n, exc, 0

def hit(x=None):
    Fault.count += 1
    if Fault.count - 1 == Fault.n:
        raise Fault.exc()
    return x

class Custom(Exception): pass

class FailIter:
    "Iterable that raises after some items"
    def __init__(self, l, exc): self.l, self.exc = l, exc
    def __iter__(self):
        for i in self.l: yield i
        raise self.exc
    def __repr__(self): return 'FailIter'

class FailNext:
    "Iterator that raises after some items"
    def __init__(self, l, exc): self.it, self.exc = iter(l), exc
    def __iter__(self): return self
    def __next__(self):
        for i in self.it: return i
        raise self.exc
    def __repr__(self): return 'FailNext'

class HitMap:
    "Like a dictionary, any of its methods and iterators can raise"
    def __init__(self, d, short=False): self.d, self.short = d, short
    def keys(self):
        hit()
        return self.gen(self.d.keys())
    def items(self):
        hit()
        return self.gen(self.d.items())
    def gen(self, l):
        for i in l:
            hit()
            yield i
        hit()
    def __iter__(self): return self.keys()
    def __len__(self): return len(self.d)
    def __contains__(self, k):
        hit()
        return k in self.d
    def __getitem__(self, k):
        hit()
        return self.d[k]
    def get(self, k, default=None):
        hit()
        return self.d.get(k, default)
    def values(self):
        hit()
        return self.gen(self.d.values())
    def __repr__(self): return 'HitMap'

def raw(cls, x):
    "An object of the class with x in all its fields, without calling the constructor"
    if hasattr(cls, '_fields'):
        return tuple.__new__(cls, [x] * len(cls._fields))
    r = object.__new__(cls)
    for f in [i.name for i in getattr(cls, '__attrs_attrs__', ())] + list(getattr(cls, '__dataclass_fields__', ())):
        object.__setattr__(r, f, x)
    return r

class SubInt(int): pass
class SubStr(str): pass
class SubList(list): pass
class SubDict(dict): pass
class IntE(enum.IntEnum):
    ONE = 1
'''

U = types.ModuleType('mc_universe')
sys.modules['mc_universe'] = U
exec(PRELUDE, U.__dict__)
NS = U.__dict__


class Unspecified(Exception):
    """The documentation does not say what happens"""


BASIC = (int, bool, float, str, type(None))
MAX_ALTERNATIVES = 48


# ---------------------------------------------------------------- documents

class X:
    """A leaf of a document, written as an expression, built anew every time"""
    __slots__ = ('src', 'code')
    def __init__(self, src):
        self.src = src
        self.code = compile(src, '<doc>', 'eval')
    def __repr__(self):
        return self.src
    def __eq__(self, o):
        return type(o) is X and o.src == self.src
    def __hash__(self):
        return hash(self.src)


def build(d):
    t = type(d)
    if t is X:
        return eval(d.code, NS)
    if t is list:
        return [build(i) for i in d]
    if t is dict:
        return {build(k): build(v) for k, v in d.items()}
    if t is tuple:
        return tuple([build(i) for i in d])
    if t is Conv:
        return d.build()
    return d


class Conv:
    """A document where a container is of another class: fmt has one %s"""
    __slots__ = ('fmt', 'inner', 'code')
    def __init__(self, fmt, inner):
        self.fmt = fmt
        self.inner = inner
        self.code = compile(fmt % '_d', '<doc>', 'eval')
    def build(self):
        return eval(self.code, NS, {'_d': build(self.inner)})
    def __repr__(self):
        return self.fmt % src(self.inner)


def src(d):
    """Source of the document"""
    t = type(d)
    if t is list:
        return '[' + ', '.join(map(src, d)) + ']'
    if t is tuple:
        return '(' + ', '.join(map(src, d)) + (',)' if len(d) == 1 else ')')
    if t is dict:
        return '{' + ', '.join(src(k) + ': ' + src(v) for k, v in d.items()) + '}'
    if t is float and (d != d or d in (math.inf, -math.inf)):
        return 'float(%r)' % str(d)
    return repr(d)


JUNK = [
    None, True, False, 0, 1, 7, -1, 1.5, 0.0, X('float("nan")'), X('float("inf")'), X('2**70'),
    '', 'a', '1', ' 2 ', '1.5', 'True', 'None', '2020-01-02', '127.0.0.1',
    b'', b'a', [], [1], ['a'], [None], [[1]], [1, 'x', 3], {}, {'a': 1}, {1: 'a'}, {'a': {'a': 1}},
    (), (1,), ('a', 'b'), X('{1}'), X('frozenset({"a"})'), X('Opaque()'), X('OneShot([1])'), X('range(2)'),
    X('Namespace(a=1)'), X('Namespace()'), X('datetime.date(2020,1,2)'), X('KeysOnly()'), X('int'), X('IntE.ONE'),
    X('SubInt(3)'), X('SubStr("s")'), X('collections.deque([1, 2])'), X('complex(1,1)'),
]
JUNK_SMALL = [None, True, 0, 1, 1.5, '', 'a', '1', b'a', [], [1], ['a', None], {}, {'a': 1}, (1, 2), X('Opaque()'), X('float("nan")'), X('Namespace(a=1)'), X('OneShot([1])')]
JUNK_TINY = [None, 0, 'a', '1', [], {}, X('Opaque()')]

CONVERSIONS = ['tuple(%s)', 'OneShot(%s)', 'Iter(%s)', 'collections.deque(%s)', 'SubList(%s)']
DICTCONV = ['collections.OrderedDict(%s)', 'SubDict(%s)', 'types.MappingProxyType(%s)']


def positions(d, path=()):
    """All the positions in a document, the root first"""
    yield path
    t = type(d)
    if t in (list, tuple):
        for i, v in enumerate(d):
            yield from positions(v, path + (i,))
    elif t is dict:
        for i, (k, v) in enumerate(d.items()):
            yield from positions(v, path + (('v', k),))


def at(d, path):
    for p in path:
        d = d[p[1]] if isinstance(p, tuple) else d[p]
    return d


def replaced(d, path, new):
    if not path:
        return new
    p = path[0]
    if isinstance(p, tuple):
        k = p[1]
        return {kk: (replaced(v, path[1:], new) if kk is k or kk == k else v) for kk, v in d.items()}
    r = [replaced(v, path[1:], new) if i == p else v for i, v in enumerate(d)]
    return tuple(r) if type(d) is tuple else r


def edits(d, junk, conv=True):
    """
    Every document that is one edit away: replacing, deleting, duplicating,
    adding any part, changing the class of any container, renaming any key.
    """
    for path in positions(d):
        here = at(d, path)
        for j in junk:
            if not (type(j) is type(here) and j == here):
                yield replaced(d, path, j)
        t = type(here)
        if t is list or t is tuple:
            mk = tuple if t is tuple else list
            l = list(here)
            for i in range(len(l)):
                yield replaced(d, path, mk(l[:i] + l[i+1:]))
                yield replaced(d, path, mk(l[:i+1] + l[i:]))
            if len(l) > 1:
                yield replaced(d, path, mk(l[::-1]))
            for j in junk[:6]:
                yield replaced(d, path, mk(l + [j]))
            if conv:
                for c in CONVERSIONS:
                    yield replaced(d, path, Conv(c, l))
        elif t is dict:
            for k in list(here):
                yield replaced(d, path, {a: b for a, b in here.items() if a != k})
                for nk in ('zz', 1, None, '1'):
                    if nk not in here:
                        yield replaced(d, path, {(nk if a == k else a): b for a, b in here.items()})
                # the keys that have parts
                if type(k) is tuple:
                    for p in positions(k):
                        for j in (None, 'x', 5, (), ('x', None)):
                            nk = replaced(k, p, j)
                            if p and nk not in here:
                                yield replaced(d, path, {(nk if a == k else a): b for a, b in here.items()})
                                yield replaced(d, path, {**here, nk: here[k]})
            for nk in ('zz', 'a', 'b', 3, None, (1, 'x')):
                if nk not in here:
                    yield replaced(d, path, {**here, nk: 1})
                    yield replaced(d, path, {nk: 'x', **here})
            if len(here) > 1:
                yield replaced(d, path, dict(reversed(list(here.items()))))
            if conv:
                for c in DICTCONV:
                    yield replaced(d, path, Conv(c, here))
                if all(type(k) is str for k in here):
                    yield replaced(d, path, Conv('Namespace(**%s)', here))


# ---------------------------------------------------------------- results

class Fail:
    """
    A part of the data that can't be loaded.
    path: steps from the value being loaded to the part
    """
    __slots__ = ('path', 'value', 'node', 'subs', 'data')
    def __init__(self, path, value, node, subs=None, data=None):
        self.path = path
        self.value = value
        self.node = node
        self.subs = subs  # for unions and enums: list of (python type, R)
        self.data = data  # other representation of value that is the same for the user

    def under(self, step):
        return Fail((step,) + self.path, self.value, self.node, self.subs, self.data)

    def __repr__(self):
        return 'Fail(%s, %.60r, %s)' % (self.path, self.value, self.node)


class R:
    """
    Result of the model. vals: acceptable values. fails: parts that are wrong.
    With no vals it must fail, with no fails it must succeed.
    """
    __slots__ = ('vals', 'fails')
    def __init__(self, vals, fails):
        self.vals = vals
        self.fails = fails

    @property
    def must_fail(self):
        return not self.vals

    @property
    def must_load(self):
        return not self.fails


class Cfg:
    def __init__(self, **kw):
        self.kw = kw
        self.basiccast = kw.get('basiccast', True)
        self.failonextra = kw.get('failonextra', False)
        self.uniondebugconflict = kw.get('uniondebugconflict', False)
        self.dictequivalence = kw.get('dictequivalence', True)
        self.mangle_key = kw.get('mangle_key', 'name')
        # function of node and value, for types that have a custom handler
        self.custom = None

    def __repr__(self):
        return ', '.join('%s=%r' % i for i in self.kw.items())


STEPS = [0]
# The document contains one-shot iterators. The alternatives of a union can't all read them.
ONESHOT = [False]
# Set when some union is satisfied by more than one member
AMBIGUOUS = [False]


def combine(parts, make, node, value):
    """
    parts: list of (step, R). make(list of values) gives the value of the whole.
    """
    fails = []
    bad = False
    for step, r in parts:
        if r.fails:
            fails.extend(f.under(step) if step is not None else f for f in r.fails)
            bad = bad or not r.vals
    if bad:
        return R([], fails)
    n = 1
    for _, r in parts:
        n *= len(r.vals)
    if n > MAX_ALTERNATIVES:
        raise Unspecified()
    vals = []
    for combo in itertools.product(*[r.vals for _, r in parts]):
        try:
            vals.append(make(combo))
        except Exception:
            fails.append(Fail((), value, node))
    return R(vals, fails)


def unhashable(values):
    for v in values:
        try:
            hash(v)
        except Exception:
            return True
    return False


# ---------------------------------------------------------------- types

class Node:
    deps = ()
    name = None
    decl = None
    _t = None
    basic = False
    objkind = False

    def expr(self):
        raise NotImplementedError

    def declarations(self, seen=None):
        """Sources of the classes needed, in order"""
        if seen is None:
            seen = {}
        if self in seen:
            return seen
        seen[self] = None
        for d in self.deps:
            d.declarations(seen)
        if self.decl:
            # after the dependencies
            del seen[self]
            seen[self] = self.decl
        return seen

    def source(self):
        return '\n'.join(d for d in self.declarations().values() if d)

    @property
    def t(self):
        """The Python type"""
        if self._t is None:
            for d in self.deps:
                d.t
            if self.decl and self.name not in NS:
                exec(compile(self.decl, '<%s>' % self.name, 'exec', dont_inherit=True), NS)
            self._t = eval(compile(self.expr(), '<type>', 'eval', dont_inherit=True), NS)
            BYTYPE.setdefault(id(self._t), self)
        return self._t

    def res(self, cfg, v, elem=False):
        STEPS[0] += 1
        if cfg.custom is not None:
            r = cfg.custom(self, v)
            if r is not None:
                return r
        return self._res(cfg, v, elem)

    def bad(self, v, subs=None, data=None):
        return R([], [Fail((), v, self, subs, data)])

    def __repr__(self):
        return self.expr()

    _valid = None
    def valid(self):
        if self._valid is None:
            self._valid = list(self._docs())
        return self._valid

    def size(self):
        return 1 + sum(d.size() for d in self.deps)


BYTYPE = {}
CLASSES = {}


class Basic(Node):
    basic = True
    def __init__(self, name):
        self.n = name
        self.py = type(None) if name in ('None', 'type(None)') else eval(name)

    def expr(self):
        return self.n

    def _res(self, cfg, v, elem):
        if type(v) is self.py:
            return R([v], [])
        alts = []
        if elem and isinstance(v, self.py):
            # Instances of subclasses in a container: both are fine
            alts = [v]
        if self.py is type(None):
            return self.bad(v)
        if cfg.basiccast:
            if isinstance(v, (typing.Iterator,)) and self.py is str:
                pass
            try:
                r = self.py(v)
            except Exception:
                r = None
            else:
                return R(alts + [r], [])
        return R(alts, [Fail((), v, self)])

    def conforms(self, o, elem=False):
        return type(o) is self.py or (elem and isinstance(o, self.py))

    def _docs(self):
        return {int: [1, 0], str: ['a', ''], bool: [True, False], float: [1.5, 0.0], type(None): [None]}[self.py]


class AnyT(Node):
    def expr(self):
        return 'Any'

    def _res(self, cfg, v, elem):
        return R([v], [])

    def conforms(self, o, elem=False):
        return True

    def _docs(self):
        return [1, None, {'a': [1]}, X('Opaque(3)')]


class LiteralT(Node):
    def __init__(self, *values):
        self.values = values

    def expr(self):
        return 'Literal[%s]' % ', '.join(map(repr, self.values))

    def _res(self, cfg, v, elem):
        exact = [i for i in self.values if type(i) is type(v) and i == v]
        if exact:
            return R([v], [])
        try:
            if any(i == v for i in self.values):
                # 1 and True are equal, but it's not said whether that is enough
                return R([v], [Fail((), v, self)])
        except Exception:
            pass
        return self.bad(v)

    def conforms(self, o, elem=False):
        return any(o == i for i in self.values)

    def _docs(self):
        return list(self.values)


class EnumT(Node):
    def __init__(self, name, members, hints=(), base='Enum'):
        """members: list of (name, value), hints: list of (name, Node)"""
        self.name = name
        self.members = members
        self.hints = hints
        self.deps = tuple(h for _, h in hints)
        self.decl = 'class %s(%s):\n' % (name, base) + ''.join('    %s: %s\n' % (n, h.expr()) for n, h in hints) + \
            ''.join('    %s = %s\n' % (n, src(v)) for n, v in members)

    def expr(self):
        return self.name

    def find(self, v):
        for m in self.t.__members__.values():
            if m is v:
                return m
        for m in self.t.__members__.values():
            try:
                if m.value == v:
                    return m
            except Exception:
                pass
        return None

    def _res(self, cfg, v, elem):
        m = self.find(v)
        if m is not None:
            return R([m], [])
        if ONESHOT[0] and len(self.hints) > 1:
            raise Unspecified()
        outs = []
        subs = []
        for _, h in self.hints:
            r = h.res(cfg, v)
            found = []
            allfound = bool(r.vals) and not r.fails
            fails = list(r.fails)
            for val in r.vals:
                m = self.find(val)
                if m is None:
                    allfound = False
                    fails.append(Fail((), v, h))
                else:
                    found.append(m)
            outs += found
            subs.append((h.t, R(found, fails)))
            if allfound:
                return R(outs, [])
        return R(outs, [Fail((), v, self, subs)])

    def conforms(self, o, elem=False):
        return isinstance(o, self.t)

    def _docs(self):
        r = [v for _, v in self.members]
        for _, h in self.hints:
            r += [d for d in h.valid()]
        return r


class Seq(Node):
    """List, Set, FrozenSet, Tuple[x, ...]"""
    def __init__(self, kind, elem, spelling=None):
        self.kind = kind
        self.elem = elem
        self.deps = (elem,)
        self.spelling = spelling
        self.py = {'List': list, 'Set': set, 'FrozenSet': frozenset, 'Tuple': tuple}[kind]

    def expr(self):
        if self.kind == 'Tuple':
            return '%s[%s, ...]' % (self.spelling or 'Tuple', self.elem.expr())
        return '%s[%s]' % (self.spelling or self.kind, self.elem.expr())

    def _res(self, cfg, v, elem):
        if isinstance(v, dict):
            return self.bad(v)
        try:
            items = list(iter(v))
        except TypeError:
            return self.bad(v)
        parts = [(('index', i), self.elem.res(cfg, x, True)) for i, x in enumerate(items)]
        r = combine(parts, self.py, self, v)
        if r.fails and self.kind in ('Set', 'FrozenSet') and unhashable(x for _, p in parts for x in p.vals):
            r.fails.append(Fail((), v, self))
        return r

    def conforms(self, o, elem=False):
        return type(o) is self.py and all(self.elem.conforms(i, True) for i in o)

    def _docs(self):
        v = self.elem.valid()
        yield [v[0]]
        yield []
        if len(v) > 1:
            yield [v[0], v[1]]
            yield [v[1]]
        if self.kind in ('List', 'Tuple'):
            yield [v[0], v[0], v[-1]]
        if len(v) > 2:
            yield list(v[:4])


class TupleFix(Node):
    def __init__(self, *items, spelling='Tuple'):
        self.items = items
        self.deps = items
        self.spelling = spelling

    def expr(self):
        return '%s[%s]' % (self.spelling, ', '.join(i.expr() for i in self.items) or '()')

    def _res(self, cfg, v, elem):
        if isinstance(v, dict):
            return self.bad(v)
        try:
            n = len(v)
            items = list(iter(v))
        except Exception:
            return self.bad(v)
        parts = [(('index', i), t.res(cfg, x)) for i, (x, t) in enumerate(zip(items, self.items))]
        fails = []
        if n < len(self.items) or (n > len(self.items) and cfg.failonextra):
            fails = [Fail((), v, self)]
            for s, r in parts:
                fails += [f.under(s) for f in r.fails]
            return R([], fails)
        return combine(parts, tuple, self, v)

    def conforms(self, o, elem=False):
        return type(o) is tuple and len(o) == len(self.items) and all(t.conforms(i) for t, i in zip(self.items, o))

    def _docs(self):
        vs = [i.valid() for i in self.items]
        yield [v[0] for v in vs]
        yield [v[-1] for v in vs]
        yield tuple(v[min(1, len(v) - 1)] for v in vs)


def pairs_of(cfg, v):
    """(found, items): the items of something dict-like"""
    if isinstance(v, (dict, types.MappingProxyType)):
        return True, list(v.items())
    if isinstance(v, argparse.Namespace) and cfg.dictequivalence:
        return True, list(vars(v).items())
    return False, None


class DictT(Node):
    def __init__(self, k, v, spelling='Dict'):
        self.k = k
        self.v = v
        self.deps = (k, v)
        self.spelling = spelling

    def expr(self):
        return '%s[%s, %s]' % (self.spelling, self.k.expr(), self.v.expr())

    def _res(self, cfg, v, elem):
        ok, items = pairs_of(cfg, v)
        if not ok:
            return self.bad(v)
        data = dict(items) if isinstance(v, argparse.Namespace) else None
        parts = []
        for k, x in items:
            parts.append((('key', k), self.k.res(cfg, k, True)))
            parts.append((('value', x), self.v.res(cfg, x, True)))
        def make(l):
            r = {}
            for i in range(0, len(l), 2):
                r[l[i]] = l[i + 1]
            return r
        r = combine(parts, make, self, v)
        if r.fails and unhashable(x for (kind, _), p in parts for x in p.vals if kind == 'key'):
            r.fails.append(Fail((), v, self))
        for f in r.fails:
            if f.node is self and not f.path:
                f.data = data
        return r

    def conforms(self, o, elem=False):
        return type(o) is dict and all(self.k.conforms(k, True) and self.v.conforms(v, True) for k, v in o.items())

    def _docs(self):
        ks = [d for d in map(hashable_doc, self.k.valid()) if d is not Ellipsis]
        vs = self.v.valid()
        if not ks:
            return [{}]
        r = [{ks[0]: vs[0]}, {}]
        for i, v in enumerate(vs[1:4]):
            r.append({ks[0]: vs[0], ks[-1]: v})
        return r


def hashable_doc(d):
    """The same document as a key of a dictionary, or Ellipsis"""
    if isinstance(d, (list, tuple)):
        r = tuple(hashable_doc(i) for i in d)
        return Ellipsis if Ellipsis in r else r
    if isinstance(d, (dict, Conv)):
        return Ellipsis
    return d


class F:
    """Field. default: None, ('v', source) or ('f', source of the factory) or ('fs', source, takes self)"""
    def __init__(self, name, node, default=None, data=None, init=True, key='name', kw=False, notrequired=False, quoted=False, names=(), alias=None):
        # the name in the constructor, of attrs classes
        self.alias = alias
        # other names, by metadata key
        self.names = dict(names)
        self.name = name
        self.node = node
        self.default = default
        self.data = data
        self.init = init
        self.key = key
        self.kw = kw
        self.notrequired = notrequired
        self.quoted = quoted

    def metadata(self):
        m = dict(self.names)
        if self.data is not None:
            m[self.key] = self.data
        return m

    def dataname(self, cfg_key):
        return self.metadata().get(cfg_key, self.name)

    @property
    def required(self):
        return self.default is None and self.init and not self.notrequired

    def annotation(self):
        e = self.node.expr()
        return repr(e) if self.quoted else e


class Obj(Node):
    """
    kind: nt, dc, attrs (attr.ib(type=)), attrsa (annotated), td
    """
    objkind = True
    def __init__(self, kind, name, fields, opts='', total=True, body='', base=None):
        self.kind = kind
        self.name = name
        self.fields = fields
        self.deps = tuple(f.node for f in fields)
        self.total = total
        if kind == 'td' and not total:
            for f in fields:
                f.notrequired = True
        if base:
            self.deps += (base,)
        self.base = base
        self.opts = opts
        self.body = body
        self.decl = self._declare()

    def allfields(self):
        if not self.base:
            return self.fields
        mine = {f.name for f in self.fields}
        return [f for f in self.base.allfields() if f.name not in mine] + list(self.fields)

    def expr(self):
        return self.name

    def _declare(self):
        o = ''
        b = '(%s)' % self.base.name if self.base else ''
        if self.kind == 'nt':
            o = 'class %s(NamedTuple):\n' % self.name
            for f in self.fields:
                o += '    %s: %s%s\n' % (f.name, f.annotation(), ' = ' + f.default[1] if f.default else '')
        elif self.kind == 'td':
            o = 'class %s(%s):\n' % (self.name, (self.base.name if self.base else 'TypedDict') + ('' if self.total else ', total=False'))
            for f in self.fields:
                e = f.annotation()
                if f.notrequired and self.total:
                    e = 'NotRequired[%s]' % e
                o += '    %s: %s\n' % (f.name, e)
        elif self.kind == 'dc':
            o = '%s\nclass %s%s:\n' % (self.opts if self.opts[:1] == '@' else '@dataclass' + self.opts, self.name, b)
            for f in self.fields:
                a = []
                if f.default:
                    a.append('default=' + f.default[1] if f.default[0] == 'v' else 'default_factory=' + f.default[1])
                if not f.init:
                    a.append('init=False')
                if f.kw:
                    a.append('kw_only=True')
                if f.metadata():
                    a.append('metadata=%r' % f.metadata())
                o += '    %s: %s%s\n' % (f.name, f.annotation(), ' = field(%s)' % ', '.join(a) if a else '')
        else:
            o = '%s\nclass %s%s:\n' % (self.opts if self.opts[:1] == '@' else '@attr.s' + (self.opts or ('(auto_attribs=True)' if self.kind == 'attrsa' else '')), self.name, b)
            for f in self.fields:
                a = []
                if self.kind == 'attrs':
                    a.append('type=' + f.annotation())
                if f.default:
                    if f.default[0] == 'v':
                        a.append('default=' + f.default[1])
                    elif f.default[0] == 'f':
                        a.append('factory=' + f.default[1])
                    else:
                        a.append('default=attr.Factory(%s, takes_self=True)' % f.default[1])
                if not f.init:
                    a.append('init=False')
                if f.kw:
                    a.append('kw_only=True')
                if f.metadata():
                    a.append('metadata=%r' % f.metadata())
                if f.alias:
                    a.append('alias=%r' % f.alias)
                o += '    %s%s = attr.ib(%s)\n' % (f.name, '' if self.kind == 'attrs' else ': ' + f.annotation(), ', '.join(a))
        if self.body:
            o += ''.join('    ' + l + '\n' for l in self.body.split('\n'))
        elif not self.fields:
            o += '    pass\n'
        return o

    @property
    def t(self):
        r = Node.t.fget(self)
        CLASSES[r] = self
        return r

    def constructor_name(self, f):
        if self.kind in ('attrs', 'attrsa'):
            return f.alias or f.name.lstrip('_')
        return f.name

    def make(self, params):
        """params by field name"""
        if self.kind == 'td':
            return dict(params)
        names = {f.name: self.constructor_name(f) for f in self.allfields()}
        return self.t(**{names[k]: v for k, v in params.items()})

    def _res(self, cfg, v, elem):
        ok, items = pairs_of(cfg, v)
        if not ok:
            return self.bad(v)
        key = cfg.mangle_key if self.kind in ('dc', 'attrs', 'attrsa') else None
        fields = self.allfields()
        byname = {f.dataname(key): f for f in fields}
        isns = isinstance(v, argparse.Namespace)
        data = dict(items)
        shape = []
        if any(f.required and f.dataname(key) not in data for f in fields):
            shape = [Fail((), v, self)]
        elif cfg.failonextra and any(k not in byname for k in data):
            shape = [Fail((), v, self)]
        parts = []
        names = []
        for k, x in items:
            f = byname.get(k)
            if f is None or not f.init:
                continue
            names.append(f.name)
            parts.append((('field', f.name), f.node.res(cfg, x)))
        pynames = {f.name for f in fields}
        mangled = {(byname[k].name if k in byname else k): x for k, x in items if k in byname or k not in pynames}
        if shape:
            fails = shape
            for s, r in parts:
                fails += [f.under(s) for f in r.fails]
            res = R([], fails)
        else:
            res = combine(parts, lambda l: self.make(dict(zip(names, l))), self, v)
        for f in res.fails:
            if not f.path and f.node is self:
                f.data = ('mangled', mangled)
        return res

    def conforms(self, o, elem=False):
        fields = self.allfields()
        if self.kind == 'td':
            if type(o) is not dict:
                return False
            names = {f.name: f for f in fields}
            return all(k in names and names[k].node.conforms(v) for k, v in o.items()) and \
                all(f.name in o for f in fields if f.required)
        if type(o) is not self.t:
            return False
        for f in fields:
            try:
                x = getattr(o, f.name)
            except AttributeError:
                return False
            if f.default is not None:
                # defaults are not loaded, they are of any type
                d = self.default_of(f, o)
                if x is d or same(x, d):
                    continue
            if not f.init:
                continue
            if not f.node.conforms(x):
                return False
        return True

    def default_of(self, f, o=None):
        d = eval(f.default[1], NS)
        if f.default[0] == 'v':
            return d
        if f.default[0] == 'f':
            return d()
        return d(o)

    def _docs(self):
        fields = [f for f in self.allfields() if f.init]
        full = {f.data if f.data is not None else f.name: f.node.valid() for f in fields}
        yield {k: v[0] for k, v in full.items()}
        req = {(f.data if f.data is not None else f.name) for f in fields if f.required}
        if len(req) < len(full):
            yield {k: v[0] for k, v in full.items() if k in req}
        yield {k: v[-1] for k, v in full.items()}
        if any(len(v) > 2 for v in full.values()):
            yield {k: v[min(1, len(v) - 1)] for k, v in full.items()}


class UnionT(Node):
    def __init__(self, *members, spelling=None):
        self.deps = members
        self.spelling = spelling
        # A union of unions is a single union, without repetitions
        flat = []
        for m in members:
            for x in (m.members if isinstance(m, UnionT) else (m,)):
                if not any(x is y or x.expr() == y.expr() for y in flat):
                    flat.append(x)
        self.members = tuple(flat)

    def expr(self):
        if self.spelling == '|':
            return ' | '.join(m.expr() for m in self.deps)
        if self.spelling == 'Optional':
            return 'Optional[%s]' % self.deps[0].expr()
        return 'Union[%s]' % ', '.join(m.expr() for m in self.deps)

    def _res(self, cfg, v, elem):
        for m in self.members:
            if m.basic and type(v) is m.py:
                return R([v], [])
        if ONESHOT[0] and (cfg.uniondebugconflict or sum(1 for m in self.members if not m.basic) > 1):
            raise Unspecified()
        rs = [(m, m.res(cfg, v)) for m in self.members]
        subs = [(m.t, r) for m, r in rs]
        fail = Fail((), v, self, subs)
        sure = sum(1 for _, r in rs if not r.fails)
        maybe = sum(1 for _, r in rs if r.vals)
        if maybe == 0:
            return R([], [fail])
        conflict = Fail((), v, self, 'conflict')
        if cfg.uniondebugconflict:
            if maybe > 1:
                AMBIGUOUS[0] = True
            if sure > 1:
                return R([], [conflict])
            vals = [x for _, r in rs for x in r.vals]
            fails = []
            if maybe > 1:
                fails.append(conflict)
            if sure == 0:
                fails.append(fail)
            return R(vals, fails)
        nonbasic = [r for m, r in rs if not m.basic]
        vals = [x for r in nonbasic for x in r.vals]
        if any(not r.fails for r in nonbasic):
            return R(vals, [])
        basic = [r for m, r in rs if m.basic]
        vals += [x for r in basic for x in r.vals]
        if any(not r.fails for r in basic):
            return R(vals, [])
        return R(vals, [fail])

    def conforms(self, o, elem=False):
        return any(m.conforms(o) for m in self.members)

    def _docs(self):
        seen = []
        for m in self.members:
            for d in m.valid()[:3]:
                if not any(type(d) is type(s) and d == s for s in seen):
                    seen.append(d)
                    yield d


class NewTypeT(Node):
    def __init__(self, name, base):
        self.name = name
        self.base = base
        self.deps = (base,)
        self.decl = '%s = NewType(%r, %s)\n' % (name, name, base.expr())

    def expr(self):
        return self.name

    def _res(self, cfg, v, elem):
        return self.base.res(cfg, v)

    def conforms(self, o, elem=False):
        return self.base.conforms(o)

    def _docs(self):
        return self.base.valid()


class Unknown(Node):
    """A class that typedload knows nothing about"""
    def __init__(self, name):
        self.name = name
        self.decl = 'class %s:\n    def __init__(self, x=0): self.x = x\n    def __eq__(self, o): return type(o) is type(self) and o.x == self.x\n    def __hash__(self): return hash(self.x)\n    def __repr__(self): return %r %% (self.x,)\n' % (name, name + '(%r)')

    def expr(self):
        return self.name

    def _res(self, cfg, v, elem):
        return self.bad(v)

    def conforms(self, o, elem=False):
        return type(o) is self.t

    def _docs(self):
        return [1, 'a', [1]]


class Ref(Node):
    """Forward reference, by name, to a node set later"""
    def __init__(self, name, expr=None):
        self.refname = name
        self.target = None
        self._e = expr
        self.depth = 0

    def expr(self):
        return repr(self.refname)

    @property
    def t(self):
        return typing.ForwardRef(self.refname)

    def _res(self, cfg, v, elem):
        r = self.target.res(cfg, v)
        step = ('forwardref', self.refname)
        return R(r.vals, [f.under(step) for f in r.fails])

    def conforms(self, o, elem=False):
        return self.target.conforms(o)

    def _docs(self):
        # One more level, without recursion
        if self.depth >= 1:
            return [None]
        self.depth += 1
        saved = self.target._valid
        self.target._valid = None
        try:
            r = [d for d in self.target._docs()]
        finally:
            self.depth -= 1
            self.target._valid = saved
        return r[:2]

    def size(self):
        return 1


class DateT(Node):
    def __init__(self, kind):
        self.kind = kind
        self.py = getattr(datetime, kind)

    def expr(self):
        return 'datetime.' + self.kind

    def _res(self, cfg, v, elem):
        try:
            if isinstance(v, str):
                return R([self.py.fromisoformat(v)], [])
            return R([self.py(*v)], [])
        except Exception:
            return self.bad(v)

    def conforms(self, o, elem=False):
        return type(o) is self.py

    def _docs(self):
        return {'date': ['2020-01-02', [2020, 1, 2]],
                'time': ['10:20:30', [10, 20, 30, 5], []],
                'datetime': ['2020-01-02T10:20:30', [2020, 1, 2, 3, 4, 5, 6], [2020, 1, 2], '2020-01-02T10:20:30+02:00'],
                }[self.kind]


class TimeDeltaT(Node):
    def expr(self):
        return 'datetime.timedelta'

    def _res(self, cfg, v, elem):
        try:
            return R([datetime.timedelta(seconds=v)], [])
        except Exception:
            return self.bad(v)

    def conforms(self, o, elem=False):
        return type(o) is datetime.timedelta

    def _docs(self):
        return [1.5, 0, -3600, 86400 * 3 + 0.25]


class PatternT(Node):
    def __init__(self, arg=None):
        self.arg = arg

    def expr(self):
        return 're.Pattern' + ('[%s]' % self.arg if self.arg else '')

    def _res(self, cfg, v, elem):
        if self.arg and type(v).__name__ != self.arg:
            return self.bad(v)
        if type(v) not in (str, bytes):
            # compiled patterns, subclasses
            if isinstance(v, (str, bytes, re.Pattern)):
                raise Unspecified()
            return self.bad(v)
        try:
            return R([re.compile(v)], [])
        except Exception:
            return self.bad(v)

    def conforms(self, o, elem=False):
        return isinstance(o, re.Pattern) and (not self.arg or type(o.pattern).__name__ == self.arg)

    def _docs(self):
        if self.arg == 'bytes':
            return [b'a+', b'']
        return ['a+', '', '(b)']


class StrC(Node):
    def __init__(self, expr, docs):
        self.e = expr
        self.py = eval(expr)
        self.docs = docs

    def expr(self):
        return self.e

    def _res(self, cfg, v, elem):
        try:
            return R([self.py(v)], [])
        except Exception:
            return self.bad(v)

    def conforms(self, o, elem=False):
        return isinstance(o, self.py)

    def _docs(self):
        return self.docs


# ---------------------------------------------------------------- comparison

def same(a, b, depth=0):
    """Equal, and of the same types, at every depth"""
    if a is b:
        return True
    t = type(a)
    if t is not type(b):
        return False
    if t is float:
        return repr(a) == repr(b)
    if t is complex:
        return repr(a) == repr(b)
    if t in (list, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if issubclass(t, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if issubclass(t, dict):
        if len(a) != len(b):
            return False
        rest = list(b.items())
        for k, v in a.items():
            for i, (k2, v2) in enumerate(rest):
                if same(k, k2):
                    if not same(v, v2):
                        return False
                    del rest[i]
                    break
            else:
                return False
        return True
    if issubclass(t, (set, frozenset)):
        if len(a) != len(b):
            return False
        rest = list(b)
        for k in a:
            for i, k2 in enumerate(rest):
                if same(k, k2):
                    del rest[i]
                    break
            else:
                return False
        return True
    if issubclass(t, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if issubclass(t, argparse.Namespace):
        return same(vars(a), vars(b))
    if issubclass(t, enum.Enum):
        return False
    if issubclass(t, re.Pattern):
        return a.pattern == b.pattern and a.flags == b.flags
    if t is datetime.time or t is datetime.datetime:
        return a == b and a.tzinfo == b.tzinfo and (a.utcoffset() == b.utcoffset())
    if dataclasses.is_dataclass(t):
        return all(same(getattr(a, f.name, None), getattr(b, f.name, None)) for f in dataclasses.fields(t))
    if hasattr(t, '__attrs_attrs__'):
        return all(same(getattr(a, f.name, None), getattr(b, f.name, None)) for f in t.__attrs_attrs__)
    if t is NS['OneShot']:
        return same(list(a), list(b))
    if t is NS['Iter']:
        return same(a.l, b.l)
    if t is memoryview or isinstance(a, collections.abc.Iterator):
        return repr(type(a)) == repr(type(b))
    if t is types.MappingProxyType:
        return same(dict(a), dict(b))
    if t.__eq__ is object.__eq__:
        # Objects of a class with no equality: the same fields
        return hasattr(a, '__dict__') and same(vars(a), vars(b))
    try:
        return bool(a == b)
    except Exception:
        return False


# ---------------------------------------------------------------- dumping

class DCfg:
    def __init__(self, **kw):
        self.kw = kw
        self.hidedefault = kw.get('hidedefault', True)
        self.isodates = kw.get('isodates', False)
        self.mangle_key = kw.get('mangle_key', 'name')
        # function used instead of the default handler for basic types
        self.basic = None
        # function of the value, gives a tuple with the dump if there is a custom handler
        self.custom = None

    def __repr__(self):
        return ', '.join('%s=%r' % i for i in self.kw.items())


class Undumpable(Exception):
    pass


def refdump(cfg, o):
    """The documented dump of a value"""
    t = type(o)
    if cfg.custom is not None:
        r = cfg.custom(o)
        if r is not None:
            return r[0]
    if t in BASIC:
        return cfg.basic(o) if cfg.basic else o
    node = CLASSES.get(t)
    if node is not None:
        r = {}
        for f in node.allfields():
            x = getattr(o, f.name)
            if cfg.hidedefault and f.default is not None and (node.default_of(f, o) == x):
                continue
            r[f.dataname(cfg.mangle_key if node.kind != 'nt' else None)] = refdump(cfg, x)
        return r
    if isinstance(o, enum.Enum):
        return refdump(cfg, o.value)
    if isinstance(o, dict):
        return {refdump(cfg, k): refdump(cfg, v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [refdump(cfg, i) for i in o]
    if isinstance(o, (datetime.date, datetime.time)):
        if cfg.isodates:
            return o.isoformat()
        if getattr(o, 'tzinfo', None) is not None:
            raise Undumpable()
        if t is datetime.datetime:
            return [o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond]
        if t is datetime.time:
            return [o.hour, o.minute, o.second, o.microsecond]
        return [o.year, o.month, o.day]
    if isinstance(o, datetime.timedelta):
        return o.total_seconds()
    if isinstance(o, re.Pattern):
        return o.pattern
    if isinstance(o, (pathlib.PurePath, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Address, ipaddress.IPv4Network,
                      ipaddress.IPv6Network, ipaddress.IPv4Interface, ipaddress.IPv6Interface)):
        return str(o)
    raise Undumpable()


def same_order(a, b):
    """a and b, that are the same, have their dictionaries in the same order"""
    if a is b:
        return True
    t = type(a)
    if issubclass(t, dict):
        return all(same(k, k2) and same_order(v, v2) for (k, v), (k2, v2) in zip(a.items(), b.items()))
    if issubclass(t, (list, tuple)):
        return all(same_order(x, y) for x, y in zip(a, b))
    if t in CLASSES:
        return all(same_order(getattr(a, f.name, None), getattr(b, f.name, None)) for f in CLASSES[t].allfields())
    return True


# ---------------------------------------------------------------- replay programs

def replay(node, doc, cfg, text):
    return PRELUDE + '\n' + node.source() + '''
import typedload
from typedload.dataloader import Loader
value = %s
type_ = %s
print('load', repr(value), 'into', type_, 'with', %r)
print(%r)
try:
    r = Loader(%s).load(value, type_)
    print('result:', repr(r))
except Exception as e:
    print('raised', type(e).__name__)
    print(str(e))
''' % (src(doc), node.expr(), repr(cfg), text, repr(cfg))
