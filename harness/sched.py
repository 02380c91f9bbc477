"""A deterministic scheduler for real threads.

Exactly one managed thread runs at a time.  Every executed source line (or
byte code) of valori code is a point where the scheduler may let another
thread run instead, chosen from a seed.  Locks created by valori code are
replaced by locks that tell the scheduler when a thread would block (install()
must be called before valori is imported).  Whatever the scheduler does, what
happens is an execution that real threads could produce.
"""
import os
import sys
import threading

import core

SRC = os.path.join(os.path.realpath(core.REPO), "src", "valori") + os.sep
_RLock, _Lock = threading.RLock, threading.Lock
_local = threading.local()
_ours = {}


def _from_valori():
    f = sys._getframe(2)
    for _ in range(3):
        if f is None:
            return False
        if os.path.realpath(f.f_code.co_filename).startswith(SRC):
            return True
        if f.f_code.co_filename != "<string>":
            return False
        f = f.f_back
    return False


class CoopLock:
    """A lock; a managed thread that cannot get it lets others run."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        s = getattr(_local, "sched", None)
        if s is None or s.free:
            return self._real.acquire(blocking, timeout)
        s.point()
        while not self._real.acquire(False):
            if not blocking:
                return False
            if not s.block(self):
                if timeout >= 0:
                    return False
                if s.free:
                    return self._real.acquire(True, timeout)
        return True

    def release(self):
        self._real.release()
        s = getattr(_local, "sched", None)
        if s is not None and not s.free:
            s.unblock(self)
            s.point()

    def locked(self):
        return self._real.locked() if hasattr(self._real, "locked") else False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle lock")


def install():
    def rlock():
        return CoopLock(_RLock()) if _from_valori() else _RLock()

    def lock():
        return CoopLock(_Lock()) if _from_valori() else _Lock()
    threading.RLock, threading.Lock = rlock, lock


class Deadlock(BaseException):
    pass


class Sched:
    """Runs the given functions as threads under a schedule.

    choose(step, me, runnable) -> thread to go on with.
    """

    def __init__(self, choose, opcodes=False, limit=200000):
        self.choose, self.opcodes, self.limit = choose, opcodes, limit
        self.step = 0
        self.free = False
        self.dead = False
        self.slow = False
        self.trail = []

    # called by the running managed thread
    def point(self):
        if self.free:
            return
        me = _local.me
        self.step += 1
        if self.step > self.limit:
            self.dead = True
        if self.dead:
            raise Deadlock()
        run = self.runnable()
        to = self.choose(self.step, me, run) if len(run) > 1 else me
        if to != me:
            self.trail.append((self.step, to))
            self.hand(to)

    def runnable(self):
        return [i for i in range(self.n) if not self.finished[i] and self.blocked[i] is None]

    def hand(self, to):
        me = _local.me
        self.sem[to].release()
        self.wait(me)

    def wait(self, me):
        self.sem[me].acquire()
        if self.dead:
            raise Deadlock()

    def block(self, lock):
        """The running thread cannot get lock.  False if nobody else can run."""
        me = _local.me
        self.blocked[me] = lock
        run = self.runnable()
        if not run:
            self.blocked[me] = None
            self.dead = True
            for i in range(self.n):
                if i != me and not self.finished[i]:
                    self.sem[i].release()
            raise Deadlock()
        self.step += 1
        to = self.choose(self.step, None, run)
        self.hand(to)
        self.blocked[me] = None
        return True

    def unblock(self, lock):
        for i in range(self.n):
            if self.blocked[i] is lock:
                self.blocked[i] = None

    def tracer(self, frame, event, arg):
        name = frame.f_code.co_filename
        ours = _ours.get(name)
        if ours is None:
            ours = _ours[name] = os.path.realpath(name).startswith(SRC)
        if not ours:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event in ("line", "opcode"):
            self.point()
        return self.local

    def run(self, funcs, timeout=20):
        """Returns True if all ran to their end."""
        self.n = len(funcs)
        self.sem = [threading.Semaphore(0) for _ in funcs]
        self.finished = [False] * self.n
        self.blocked = [None] * self.n
        over = threading.Event()
        errors = []

        def body(i):
            _local.sched, _local.me = self, i
            try:
                self.wait(i)
                sys.settrace(self.tracer)
                try:
                    funcs[i]()
                finally:
                    sys.settrace(None)
            except Deadlock:
                pass
            except BaseException as x:      # a bug of the harness
                errors.append(x)
            finally:
                self.finished[i] = True
                _local.sched = None
                run = self.runnable()
                if all(self.finished):
                    over.set()
                elif self.dead or self.free or not run:
                    if not run and not self.free:
                        self.dead = True
                    for j in range(self.n):
                        if not self.finished[j]:
                            self.sem[j].release()
                else:
                    self.sem[self.choose(self.step, None, run)].release()

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sem[self.choose(0, None, list(range(self.n)))].release()
        last = -1
        while not over.wait(3.0):
            if self.step == last:
                if self.slow:
                    self.dead = True
                    return False
                # somebody blocks on something we do not control: let all run
                self.slow = self.free = True
                for s in self.sem:
                    s.release()
                over.wait(timeout)
            last = self.step
        if errors:
            raise core.Machinery("harness thread failed: %r" % errors[0])
        return not self.dead


# ------------------------------------------------------------- schedules
def random_choice(rng, p):
    """Switch with probability p at every point."""
    def f(step, me, run):
        if me is not None and me in run and rng.random() >= p:
            return me
        return rng.choice(run)
    return f


def pct(rng, n, length, depth):
    """Probabilistic concurrency testing: random priorities, depth change points."""
    prio = list(range(n))
    rng.shuffle(prio)
    prio = [x + depth for x in prio]
    changes = {rng.randint(1, max(1, length)): i for i in range(depth)}

    def f(step, me, run):
        if me is not None and step in changes:
            prio[me] = changes[step]
        return max(run, key=lambda i: prio[i])
    return f


def preempt(first, points):
    """Run thread `first`; at step s (for (s, t) in points) continue with t."""
    at = dict(points)

    def f(step, me, run):
        if me is None:
            return first if first in run and step == 0 else run[0]
        t = at.get(step)
        return t if t is not None and t in run else (me if me in run else run[0])
    return f
