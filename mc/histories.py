"""
Exhaustive exploration of the histories of operations on one object.

bfs: breadth first over the operations, until no new state of the object (see
state.py) is found; each state is reached by replaying its history on a new
object, and every operation is tried from it.
words: every sequence up to a length, with no merging of states, so that it
does not depend on the fingerprint.
"""
import itertools

from mc.state import state


def bfs(s, ops, new, run, check, limit=4000, depth=None):
    """
    ops: list. new() -> object. run(obj, op) -> outcome. check(history, op, outcome).
    Returns True if the state space was completed.
    """
    seen = {state(new()): ()}
    queue = [()]
    while queue:
        hist = queue.pop(0)
        s.states += 1
        for i, op in enumerate(ops):
            o = new()
            for j in hist:
                run(o, ops[j])
            out = run(o, op)
            s.transitions += 1
            s.validated += 1
            check([ops[j] for j in hist], op, out)
            if s.full:
                return False
            if depth is None or len(hist) < depth:
                k = state(o)
                if k not in seen:
                    if len(seen) >= limit:
                        s.add('states_beyond_the_limit')
                        continue
                    seen[k] = hist + (i,)
                    queue.append(hist + (i,))
    s.add('histories_families_completed')
    return True


def words(s, ops, new, run, check, depth, first=None):
    """Every sequence of exactly depth operations (checking each one)"""
    idx = range(len(ops))
    for w in itertools.product(*([idx if first is None else [first]] + [idx] * (depth - 1))):
        o = new()
        s.states += 1
        for n, i in enumerate(w):
            out = run(o, ops[i])
            s.transitions += 1
            s.validated += 1
            check([ops[j] for j in w[:n]], ops[i], out)
        if s.full:
            return
