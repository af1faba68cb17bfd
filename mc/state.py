"""
Fingerprint of everything that the library remembers: the attributes of a
loader or dumper, and the globals, function attributes, default arguments and
closures of the modules of typedload. It does not depend on how the state is
organised: whatever is reachable is included.
"""
import sys
import types

from mc.snap import snap


def modstate():
    r = []
    for name, m in sorted(sys.modules.items()):
        if name != 'typedload' and not name.startswith('typedload.'):
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith('__') or isinstance(v, types.ModuleType):
                continue
            r.append((name, k, one(v, name)))
    return tuple(r)


def one(v, name):
    if isinstance(v, types.FunctionType):
        if not v.__module__ or not v.__module__.startswith('typedload'):
            return id(v)
        return ('f', id(v), snap(v.__defaults__), snap(v.__kwdefaults__), snap(vars(v)),
                tuple(cell(c) for c in v.__closure__ or ()))
    if hasattr(v, 'cache_info'):
        return ('lru', id(v), tuple(v.cache_info())[3])
    if isinstance(v, type):
        if not v.__module__.startswith('typedload'):
            return id(v)
        return ('t', id(v), tuple((k, one(x, name)) for k, x in sorted(vars(v).items()) if not k.startswith('__') and not k.startswith('_abc')))
    if isinstance(v, (dict, list, set)):
        return snap(v)
    return id(v) if not isinstance(v, (int, str, tuple)) else snap(v)


def cell(c):
    try:
        return snap(c.cell_contents) if isinstance(c.cell_contents, (dict, list, set, int, str, tuple)) else id(c.cell_contents)
    except ValueError:
        return None


IGNORE = {'handlers'}


def canon(v, depth=0):
    """Content without the order of insertion"""
    if isinstance(v, dict):
        return ('d', frozenset((canon_key(k), canon(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return ('s', frozenset(canon_key(i) for i in v))
    if isinstance(v, (list, tuple)):
        return ('l', tuple(canon(i, depth + 1) for i in v))
    if isinstance(v, (str, int, float, bool, type(None), bytes)):
        return v
    if isinstance(v, types.FunctionType):
        # created by the instance: the code is what matters
        return ('f', id(v.__code__))
    return canon_key(v)


def canon_key(k):
    if isinstance(k, (str, int, float, bool, type(None), bytes)):
        return (type(k).__name__, k)
    if isinstance(k, type):
        return ('type', id(k))
    return ('x', repr(k)[:200])


def state(l):
    return (tuple((k, canon(v)) for k, v in sorted(vars(l).items()) if k not in IGNORE), modstate())
