"""
Deep, hashable snapshots of values and of classes, to see if they are changed.
"""
import argparse
import collections.abc
import dataclasses
import enum
import functools
import types

# Modules of classes whose objects have no content that can change
IMMUTABLE = ('ipaddress', 'pathlib', 'uuid', 'datetime', 're', 'decimal', 'fractions')
ATOMS = (int, float, str, bytes, bool, type(None), complex)


def snap(o, ids=False, seen=None, depth=0):
    """Content of a value; with ids also the identity of the mutable parts"""
    t = type(o)
    if t in ATOMS:
        if t is int and abs(o) > 2**200:
            return (t, hash(o))
        return (t, repr(o))
    if isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)) or o is Ellipsis or o is NotImplemented:
        return ('ref', id(o))
    if seen is None:
        seen = {}
    if id(o) in seen:
        return ('seen', seen[id(o)])
    seen[id(o)] = len(seen)
    tag = (t.__name__, id(t), id(o) if ids else 0)
    if isinstance(o, enum.Enum):
        return ('enum', id(t), o.name)
    if isinstance(o, collections.abc.Iterator):
        return tag
    if t.__module__ in IMMUTABLE:
        # They remember what was computed from them, when they are used
        return (tag, repr(o))
    r = []
    if isinstance(o, (dict, types.MappingProxyType)):
        r += [(snap(k, ids, seen), snap(v, ids, seen)) for k, v in o.items()]
    elif isinstance(o, (set, frozenset)):
        r += [frozenset(snap(i, ids, seen) for i in o)]
    elif isinstance(o, (list, tuple, collections.deque)):
        r += [snap(i, ids, seen) for i in o]
    elif isinstance(o, functools.partial):
        r += [snap(o.args, ids, seen), snap(o.keywords, ids, seen)]
    d = getattr(o, '__dict__', None)
    if isinstance(d, dict):
        r += [(k, snap(v, ids, seen)) for k, v in d.items()]
    for c in t.__mro__:
        sl = c.__dict__.get('__slots__', ())
        for k in (sl,) if isinstance(sl, str) else sl:
            try:
                r.append((k, snap(getattr(o, k), ids, seen)))
            except AttributeError:
                pass
    if not r and t.__module__ != 'mc_universe' and not isinstance(o, (dict, list, tuple, set, frozenset)):
        try:
            return (tag, repr(o))
        except Exception:
            return tag
    return (tag, tuple(r))


_SKIP = {'__dict__', '__weakref__', '__doc__', '__module__', '_abc_impl', '__dataclass_params__', '__subclasshook__'}


def classsnap(c):
    """Everything that a class has: annotations, defaults, attributes, members"""
    r = []
    for k, v in sorted(vars(c).items()):
        if k in _SKIP or isinstance(v, (types.FunctionType, classmethod, staticmethod, property, types.MemberDescriptorType, types.GetSetDescriptorType)):
            continue
        if k == '__annotations__' and not v:
            # Python creates it when it's read
            continue
        if k == '__dataclass_fields__':
            v = {n: (f.name, id(f.type), id(f), f.default, f.default_factory, f.init, dict(f.metadata), f.kw_only) for n, f in v.items()}
        elif k == '__attrs_attrs__':
            v = [(a.name, id(a.type), id(a), a.default, id(a.converter), a.init, dict(a.metadata), a.repr) for a in v]
        elif k == '__annotations__' or k == '__orig_bases__':
            v = [(n, id(x), repr(x)) for n, x in v.items()] if isinstance(v, dict) else repr(v)
        r.append((k, snap(v)))
    return tuple(r)


SETTINGS = ['basictypes', 'basiccast', 'failonextra', 'raiseconditionerrors', 'dictequivalence', 'mangle_key', 'uniondebugconflict', 'strconstructed',
            'pep563', 'handlers', 'hidedefault', 'isodates']


def settings(l):
    """Public settings of a loader or dumper, but frefs that is documented to grow"""
    r = []
    for k in SETTINGS:
        if hasattr(l, k):
            v = getattr(l, k)
            if k == 'handlers':
                v = tuple((id(a), id(b)) for a, b in v)
            elif isinstance(v, (set, frozenset)):
                v = frozenset(map(id, v))
            r.append((k, v))
    return tuple(r)
