"""Runs the reference model and the implementation on the same case"""
from mc import core
from mc.schema import *
from typedload.dataloader import Loader
from typedload.datadumper import Dumper
from typedload.exceptions import TypedloadException, TypedloadTypeError, AnnotationType


def has_oneshot(d):
    t = type(d)
    if t is X:
        return 'OneShot' in d.src or 'iter(' in d.src
    if t in (list, tuple):
        return any(has_oneshot(i) for i in d)
    if t is dict:
        return any(has_oneshot(i) for i in d.values()) or any(has_oneshot(i) for i in d)
    if t is Conv:
        return 'OneShot' in d.fmt or has_oneshot(d.inner)
    return False


def model(node, doc, cfg):
    """R, or None if it is unspecified"""
    v = build(doc)
    ONESHOT[0] = has_oneshot(doc)
    try:
        return node.res(cfg, v)
    except Unspecified:
        return None


def impl(node, doc, cfg, loader=None):
    """('ok', value) or ('err', typedload exception) or ('crash', other exception)"""
    if loader is None:
        loader = Loader(**cfg.kw)
    v = build(doc)
    try:
        return 'ok', loader.load(v, node.t)
    except TypedloadException as e:
        return 'err', e
    except Exception as e:
        return 'crash', e


def describe(out):
    k, v = out
    if k == 'ok':
        return 'returned %r' % (v,)
    return 'raised %s: %s' % (type(v).__name__, str(v)[:300])


def ordered(node, seen=()):
    """The order of the keys of a TypedDict is not specified"""
    r = ORDERED.get(id(node))
    if r is None:
        r = any(isinstance(i, DictT) for i in tree(node)) and not any(isinstance(i, Obj) and i.kind == 'td' for i in tree(node))
        ORDERED[id(node)] = r
        KEEP.append(node)
    return r


ORDERED = {}
KEEP = []


def tree(node, seen=None):
    seen = {} if seen is None else seen
    if id(node) in seen:
        return []
    seen[id(node)] = node
    r = [node]
    for d in node.deps:
        r += tree(d, seen)
    return r


def mismatch(r, out, node=None):
    """None if the outcome is one the model allows; with node, also the order of the dictionaries is compared"""
    kind, v = out
    if kind == 'ok':
        if r.must_fail:
            return 'accepted, but the rules reject it because of %r' % r.fails[:3]
        if not any(same(v, x) for x in r.vals):
            return 'the rules give %s' % ' or '.join(map(repr, r.vals[:3]))
        if node is not None and ordered(node) and not any(same(v, x) and same_order(v, x) for x in r.vals):
            return 'the rules give %s, in this order' % ' or '.join(map(repr, r.vals[:3]))
        return None
    if r.must_load:
        return 'rejected, but the rules give %s' % ' or '.join(map(repr, r.vals[:3]))
    return None


def report(shard, node, doc, cfg, out, why, key=None):
    what = 'load %s into %s (%r): %s; %s' % (src(doc)[:300], node.expr(), cfg, describe(out), why)
    shard.bad(what, replay(node, doc, cfg, what), key)
