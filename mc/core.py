"""
Runner shared by all the checks: finds the code under test, shards the
enumerated space over processes, collects counts, writes the evidence file,
the replay files and the VIOLATION / KNOWN-FINDING lines.
"""
import json
import os
import sys
import signal
import time
import traceback
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import warnings
warnings.simplefilter('ignore')


class Violation:
    """
    what: one line description
    replay: a standalone Python program showing it (text)
    known: key used in the known findings file, if any
    """
    def __init__(self, what, replay='', key=None):
        self.what = what
        self.replay = replay
        self.key = key


class Shard:
    """Counters of one shard (or of the whole run once merged)."""
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.extra = {}
        self.samples = []
        self.violations = []
        self.known = {}
        self.outcomes = set()
        self.max_violations = 5

    def bad(self, what, replay='', key=None):
        if key is not None and key in KNOWN:
            self.known[key] = KNOWN[key]
            return
        if len(self.violations) < self.max_violations:
            self.violations.append(Violation(what, replay, key))

    @property
    def full(self):
        return len(self.violations) >= self.max_violations

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.validated += o.validated
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        self.samples += o.samples
        self.violations += o.violations
        self.known.update(o.known)
        self.outcomes |= o.outcomes


KNOWN = {}

UNIT_CPU_LIMIT = 150


class Hang(BaseException):
    pass


def _hang(sig, frame):
    raise Hang()


def load_known(prop):
    """
    Reads known_findings.txt. Lines:
      finding: property=<id> key=<key> <what fails>
      fixed: property=<id> <commit> <what failed>
    Only the first kind has any effect.
    """
    KNOWN.clear()
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('finding: property=%s key=' % prop):
                rest = line.split('key=', 1)[1]
                key, what = rest.split(' ', 1)
                KNOWN[key] = what


def _worker(args):
    fn, units, idx, n = args
    s = Shard()
    signal.signal(signal.SIGVTALRM, _hang)
    for u in units[idx::n]:
        if _FOUND is not None and _FOUND.value and time.time() - _FOUND.value > 30:
            # Enough to report
            break
        # CPU time, so that a busy machine makes no difference
        signal.setitimer(signal.ITIMER_VIRTUAL, UNIT_CPU_LIMIT, 20)
        try:
            fn(u, s)
        except Hang:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            s.bad('no result within %d s of CPU time: unit %r' % (UNIT_CPU_LIMIT, u))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if any(os.sep + 'typedload' + os.sep in f.filename for f in tb):
                # The code under test raised where the check did not expect anything
                s.bad('unexpected %s: %s\n%s' % (type(e).__name__, str(e)[:200], traceback.format_exc()[-1500:]))
            else:
                return ('error', traceback.format_exc(), s)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if s.violations and _FOUND is not None and not _FOUND.value:
            _FOUND.value = time.time()
        if s.full:
            break
    return ('ok', '', s)


_FN = None
# When the first violation was found by any of the processes
_FOUND = None
_UNITS = None


def _worker_global(a):
    return _worker((_FN, _UNITS, a[0], a[1]))


def explore(units, fn, procs=None):
    """
    Calls fn(unit, shard) for every unit, in forked processes. Complete: every
    unit is explored, unless a shard already has enough violations.
    """
    global _FN, _UNITS, _FOUND
    if procs is None:
        procs = int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
    total = Shard()
    total.extra['units'] = len(units)
    if procs == 1 or len(units) <= 1:
        r = [_worker((fn, units, 0, 1))]
    else:
        # More chunks than processes, to balance. Interleaved assignment is deterministic.
        chunks = min(len(units), procs * 8)
        _FN, _UNITS = fn, units
        ctx = multiprocessing.get_context('fork')
        _FOUND = ctx.Value('d', 0.0)
        with ctx.Pool(procs) as pool:
            r = pool.map(_worker_global, [(i, chunks) for i in range(chunks)], chunksize=1)
    errors = [t for kind, t, s in r if kind == 'error']
    for kind, t, s in r:
        total.merge(s)
    if errors and not total.violations:
        raise RuntimeError('error in the exploration:\n' + errors[0][-3000:])
    return total


def finish(prop, tier, seed, total, level, t0, assumptions=(), exhaustive=True, bound=None):
    replays = os.path.join(VERIF, 'replays')
    cov = {
        'states': total.states,
        'transitions': total.transitions,
        'traces_validated_against_impl': total.validated,
        'distinct_outcomes': len(total.outcomes),
        'samples': total.samples[:8] or ['none'],
        'exhaustive': bool(exhaustive) and not total.violations,
    }
    if bound:
        cov['bound'] = bound
    cov.update(total.extra)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': cov, 'assumptions': list(assumptions),
        'wall_s': round(time.time() - t0, 2), 'violations': len(total.violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for key, what in sorted(total.known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    print('%s %s: %d states, %d transitions, %d traces validated, %s, %.1fs' % (
        prop, tier, total.states, total.transitions, total.validated, total.extra, time.time() - t0))
    if not total.violations:
        return 0
    os.makedirs(replays, exist_ok=True)
    for i, v in enumerate(total.violations[:3]):
        path = os.path.join(replays, '%s-%d.py' % (prop, i))
        with open(path, 'w') as f:
            f.write('# %s\n' % v.what.replace('\n', '\n# '))
            f.write(v.replay or '')
        print('  ' + v.what.replace('\n', '\n  ')[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1
