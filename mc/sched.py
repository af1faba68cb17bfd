"""
Stateless exploration of the interleavings of real threads.

Each line (or each bytecode instruction that can touch something shared, or
each call and return) of typedload is a scheduling point. Exactly one thread runs at any time. A schedule is a
list of switches (thread, number of its scheduling points after which it is
suspended, next thread); with no switches left a thread runs to its end and the
suspended ones are resumed in order. All the schedules with at most a given
number of preemptions are run, on a new object each time.

Locks created by typedload through the threading module are replaced by ones
that let the other threads run instead of blocking.
"""
import dis
import gc
import os
import sys
import threading
import types
import _thread

_real_lock = _thread.allocate_lock


TOOL = 4
mon = sys.monitoring
_codes = {}  # code -> mode
_stored = set()
_mode = None

# instructions that can read or write something that is shared
SHARED = ('LOAD_ATTR', 'STORE_ATTR', 'DELETE_ATTR', 'BINARY_SUBSCR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'BINARY_SLICE', 'STORE_SLICE', 'CALL', 'CALL_FUNCTION_EX', 'CONTAINS_OP', 'FOR_ITER', 'COMPARE_OP', 'STORE_GLOBAL',
          'LOAD_DEREF', 'STORE_DEREF', 'UNPACK_SEQUENCE', 'GET_ITER', 'BINARY_OP', 'LOAD_SUPER_ATTR', 'IMPORT_NAME')


def on_line(code, line):
    r = Run.current
    if r is not None:
        t = r.idents.get(_thread.get_ident())
        if t is not None and r.active[t]:
            r.point(t)


def on_return(code, offset, value):
    on_line(code, offset)


def on_instruction(code, offset):
    if offset not in _codes[code][1]:
        return mon.DISABLE
    r = Run.current
    if r is not None:
        t = r.idents.get(_thread.get_ident())
        if t is not None and r.active[t]:
            r.point(t)


def all_codes(prefix):
    """All the code objects from the files under prefix"""
    seen = set()
    todo = []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(prefix):
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        todo.extend(i for i in c.co_consts if isinstance(i, types.CodeType))
    return seen


def instrument(prefix, gran):
    """Makes the code under prefix stop at each of its scheduling points"""
    global _mode
    if _mode == (prefix, gran, os.getpid()):
        return
    _mode = (prefix, gran, os.getpid())
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'interleavings')
        mon.register_callback(TOOL, mon.events.LINE, on_line)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, on_instruction)
        mon.register_callback(TOOL, mon.events.PY_START, on_line)
        mon.register_callback(TOOL, mon.events.PY_RETURN, on_return)
    codes = all_codes(prefix)
    stored = {i.argval for c in codes for i in dis.get_instructions(c) if i.opname == 'STORE_GLOBAL'}
    for c in codes:
        ok = {i.offset for i in dis.get_instructions(c) if i.opname in SHARED or i.opname == 'LOAD_GLOBAL' and i.argval in stored}
        _codes[c] = (gran, ok)
        mon.set_local_events(TOOL, c, {'opcodes': mon.events.INSTRUCTION, 'lines': mon.events.LINE, 'calls': mon.events.PY_START | mon.events.PY_RETURN}[gran])
    mon.restart_events()


class Stuck(BaseException):
    pass


class Run:
    """One execution of the bodies under a schedule"""
    current = None

    def __init__(self, bodies, schedule, gran, prefix):
        self.n = len(bodies)
        self.bodies = bodies
        self.gran = gran
        self.prefix = prefix
        self.schedule = list(schedule)
        self.pos = 0
        self.count = [0] * self.n
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.locks = [_real_lock() for _ in range(self.n)]
        for l in self.locks:
            l.acquire()
        self.finished = _real_lock()
        self.finished.acquire()
        self.idents = {}
        self.active = [False] * self.n
        # next (thread, count) where a switch happens
        self.trigger = [-1] * self.n
        self.switches = 0
        self.suspended = []

    def arm(self, t):
        """Sets the point where the thread t is suspended"""
        self.trigger[t] = -1
        if self.pos < len(self.schedule):
            who, at, to = self.schedule[self.pos]
            if who == t:
                self.trigger[t] = at

    def point(self, t):
        c = self.count[t] = self.count[t] + 1
        if c == self.trigger[t]:
            who, at, to = self.schedule[self.pos]
            self.pos += 1
            if not self.done[to]:
                self.switch(t, to)

    def switch(self, t, to):
        self.switches += 1
        self.suspended.append(t)
        if to in self.suspended:
            self.suspended.remove(to)
        self.arm(to)
        self.locks[to].release()
        self.locks[t].acquire()

    def block(self):
        """Called by a thread that waits for a lock: somebody else has to run"""
        t = self.idents[_thread.get_ident()]
        others = [i for i in range(self.n) if i != t and not self.done[i]]
        if not others:
            raise Stuck('deadlock')
        # round robin
        to = min(others, key=lambda i: (i - t) % self.n)
        self.blocked = getattr(self, 'blocked', 0) + 1
        if self.blocked > 10000:
            raise Stuck('deadlock')
        self.switch(t, to)

    def body(self, t):
        self.idents[_thread.get_ident()] = t
        self.locks[t].acquire()
        instrument(self.prefix, self.gran)
        f = self.bodies[t]
        self.active[t] = True
        try:
            r = f()
        except BaseException as e:
            r = ('exception', e)
        self.active[t] = False
        self.results[t] = r
        self.done[t] = True
        # the switches that were planned for this thread are not possible any more
        while self.pos < len(self.schedule) and self.schedule[self.pos][0] == t:
            self.pos += 1
        rest = [i for i in range(self.n) if not self.done[i]]
        if not rest:
            self.finished.release()
            return
        nxt = None
        for i in self.suspended:
            if not self.done[i]:
                nxt = i
                break
        if nxt is None:
            nxt = rest[0]
        else:
            self.suspended.remove(nxt)
        self.arm(nxt)
        self.locks[nxt].release()

    def go(self, first):
        Run.current = self
        ts = []
        for i in range(self.n):
            ts.append(POOL.submit(self.body, i))
        self.arm(first)
        self.locks[first].release()
        if not self.finished.acquire(timeout=60):
            raise RuntimeError('the threads are stuck')
        for done in ts:
            done.acquire()
        Run.current = None
        return self


class Pool:
    """Threads that are used again, as creating them is slow"""
    def __init__(self):
        self.free = []
        self.pid = None

    def submit(self, f, *a):
        if self.pid != os.getpid():
            self.free, self.pid = [], os.getpid()
        w = self.free.pop() if self.free else Worker(self)
        done = _real_lock()
        done.acquire()
        w.job = (f, a, done)
        w.wake.release()
        return done


class Worker:
    def __init__(self, pool):
        self.pool = pool
        self.wake = _real_lock()
        self.wake.acquire()
        _thread.start_new_thread(self.loop, ())

    def loop(self):
        while True:
            self.wake.acquire()
            f, a, done = self.job
            try:
                f(*a)
            except BaseException:
                import traceback
                traceback.print_exc()
            self.pool.free.append(self)
            done.release()


POOL = Pool()


class CoopLock:
    """Never blocks the process: other threads of the exploration run instead"""
    def __init__(self, reentrant=False):
        self.l = _real_lock()
        self.re = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.re and self.owner == me:
            self.depth += 1
            return True
        while not self.l.acquire(False):
            r = Run.current
            if not blocking:
                return False
            if r is None or me not in r.idents:
                self.l.acquire()
                break
            r.block()
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if self.re:
            self.depth -= 1
            if self.depth:
                return
        self.owner = None
        self.l.release()

    def locked(self):
        return self.l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def reload_with_locks():
    """Imports typedload again, with locks that know the scheduler"""
    for m in [m for m in sys.modules if m == 'typedload' or m.startswith('typedload.')]:
        del sys.modules[m]
    saved = threading.Lock, threading.RLock
    threading.Lock = lambda: CoopLock()
    threading.RLock = lambda: CoopLock(True)
    import typedload.dataloader, typedload.datadumper, typedload
    # they stay replaced: instances may create locks later. Nothing else here uses threading.
    return saved


def schedules(mk, first, pb, gran, prefix, run, part=(0, 1)):
    """
    Every schedule of two or three threads, starting with the first one, with
    up to pb preemptions. mk() -> bodies. run(Run) is called after each.
    part=(k, n): only the k-th part of the positions of the first preemption.
    """
    def execute(sched):
        r = Run(mk(), sched, gran, prefix).go(first)
        run(r, sched)
        return r
    base = execute(()) if part[0] == 0 else Run(mk(), (), gran, prefix).go(first)
    n = base.n

    def extend(sched, r, me):
        """r ran with sched; me is the thread that ran after the last switch"""
        if len(sched) >= pb:
            return
        for who in range(n):
            if who != me and (n == 2 or not sched):
                # with two threads, when me ends there is nobody else to switch to
                continue
            start = max([at for w, at, _ in sched if w == who], default=0)
            if who != me and not start:
                continue
            for at in range(start + 1, r.count[who] + 1):
                if not sched and at % part[1] != part[0]:
                    continue
                for to in range(n):
                    if to == who:
                        continue
                    s2 = sched + ((who, at, to),)
                    r2 = execute(s2)
                    if r2.pos < len(s2) or r2.switches < len(s2):
                        # the other thread was already finished
                        continue
                    extend(s2, r2, to)
    extend((), base, first)
