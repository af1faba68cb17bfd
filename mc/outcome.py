"""Comparable form of what a load or a dump did"""
import re

from mc.snap import snap
from typedload.exceptions import TypedloadException, AnnotationType


def typekey(t):
    try:
        return (re.sub('0x[0-9a-f]+', '', repr(t)), getattr(t, '__qualname__', ''))
    except Exception:
        return id(t)


def norm_error(e, depth=0):
    if not isinstance(e, TypedloadException):
        return ('crash', type(e).__name__, ''.join(sorted(re.sub('0x[0-9a-f]+', '', str(e)))))
    try:
        # the order of the names in a message may depend on that of a set
        text = ''.join(sorted(re.sub('0x[0-9a-f]+', '', str(e))))
    except Exception as x:
        text = 'str() raises %r' % x
    return ('err', type(e).__name__, text, typekey(e.type_), snap(e.value),
            tuple((snap(i.value), typekey(i.type_), None if i.annotation is None else (i.annotation[0], typekey(i.annotation[1]) if i.annotation[0] == AnnotationType.UNION else snap(i.annotation[1]))) for i in e.trace),
            tuple(norm_error(x, depth + 1) for x in e.exceptions) if depth < 6 else len(e.exceptions))


def outcome(f):
    """('ok', snapshot, value) or the normal form of the exception"""
    try:
        v = f()
    except Exception as e:
        return norm_error(e)
    return ('ok', snap(v))


def show(o):
    if o[0] == 'ok':
        return 'returns %s' % (o[1],)
    if o[0] == 'crash':
        return 'raises %s' % o[1]
    return 'raises %s with %d nested exceptions' % (o[1], len(o[6]) if isinstance(o[6], tuple) else o[6])
