"""Deterministic scheduler: real threads that run one at a time, chosen by a seeded strategy.

Every simulated thread ("task") is a real OS thread parked on its own baton (a raw lock).  Exactly one baton
is out at any time.  Control can change hands only inside `Sched.point`, which is reached from
  * sys.monitoring LINE / INSTRUCTION events of the code under test,
  * simulated lock, queue, join and I/O operations,
  * explicit `point()` calls of the harness' own merge methods.
Which task continues is decided by a strategy object driven by one `random.Random`.
"""
import _thread
import random
import sys

RUNNABLE, BLOCKED, DONE = 0, 1, 2
_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread
INF = float("inf")


class StopRun(BaseException):
    """never raised into tasks; the run is ended by leaving the process"""


class Task:
    __slots__ = ("tid", "name", "state", "baton", "wait_on", "deadline", "timed_out", "pending_exc", "wake_exc", "prio",
                 "thread", "steps", "parent")

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.state = RUNNABLE
        self.baton = _real_lock()
        self.baton.acquire()
        self.wait_on = None
        self.deadline = None
        self.timed_out = False
        self.pending_exc = None
        self.wake_exc = False
        self.prio = 0.0
        self.thread = None
        self.steps = 0
        self.parent = None

    def __repr__(self):
        return f"T{self.tid}"


# ---------------------------------------------------------------- strategies

class Strategy:
    """next_preempt: absolute step of the next voluntary decision; choose(): who runs when a decision is due."""
    fine = True   # whether LINE/INSTRUCTION events count as yield points

    def start(self, sched):
        self.s = sched

    def next_preempt(self, step, coarse):
        return INF

    def choose(self, runnable, cur, forced):
        # forced: the current task cannot continue
        if cur is not None and cur in runnable:
            return cur
        return min(runnable, key=lambda t: t.tid)

    def on_new(self, task):
        pass

    on_wake = None


class RandomStrategy(Strategy):
    def __init__(self, rng, p, fine=True):
        self.rng, self.p, self.fine = rng, p, fine

    def next_preempt(self, step):
        # geometric gap
        import math
        if self.p <= 0:
            return INF
        if self.p >= 1:
            return step + 1
        return step + 1 + int(math.log(1.0 - self.rng.random()) / math.log(1.0 - self.p))

    def choose(self, runnable, cur, forced):
        return runnable[self.rng.randrange(len(runnable))] if len(runnable) > 1 else runnable[0]


class RoundRobin(Strategy):
    def __init__(self, quantum, fine=True):
        self.q, self.fine = quantum, fine

    def next_preempt(self, step):
        return step + self.q

    def choose(self, runnable, cur, forced):
        tids = sorted(runnable, key=lambda t: t.tid)
        c = cur.tid if cur is not None else -1
        for t in tids:
            if t.tid > c:
                return t
        return tids[0]


class PCT(Strategy):
    """probabilistic concurrency testing: random priorities, d priority change points"""
    def __init__(self, rng, depth, length, fine=True):
        self.rng, self.fine = rng, fine
        self.changes = sorted(rng.randrange(1, max(2, length)) for _ in range(depth))
        self.all_changes = set(self.changes)
        self.low = 0.0

    def on_wake(self, task):
        self.s.preempt_now()

    def on_new(self, task):
        task.prio = 1.0 + self.rng.random()
        self.s.preempt_now()

    def next_preempt(self, step):
        while self.changes and self.changes[0] <= step:
            self.changes.pop(0)
        return self.changes[0] if self.changes else INF

    def choose(self, runnable, cur, forced):
        if not forced and cur is not None and self.s.step in self.all_changes:
            self.low -= 1.0
            cur.prio = self.low
        return max(runnable, key=lambda t: (t.prio, -t.tid))


class Scripted(Strategy):
    """replays recorded deviations {step: tid}; default: keep current, else the lowest runnable tid"""
    def __init__(self, dev, fine=True):
        self.fine = fine
        self.dev = {int(k): v for k, v in dev.items()}
        self.keys = sorted(self.dev)
        self.i = 0

    def next_preempt(self, step):
        while self.i < len(self.keys) and self.keys[self.i] <= step:
            self.i += 1
        return self.keys[self.i] if self.i < len(self.keys) else INF

    def choose(self, runnable, cur, forced):
        want = self.dev.get(self.s.step)
        if want is not None:
            for t in runnable:
                if t.tid == want:
                    return t
        if not forced and cur is not None:
            return cur
        return min(runnable, key=lambda t: t.tid)


def make_strategy(spec):
    k = spec["kind"]
    fine = spec.get("fine", True)
    if k == "random":
        return RandomStrategy(random.Random(spec["seed"]), spec["p"], fine)
    if k == "rr":
        return RoundRobin(spec["q"], fine)
    if k == "pct":
        return PCT(random.Random(spec["seed"]), spec["d"], spec["len"], fine)
    if k == "script":
        return Scripted(spec["dev"], fine)
    if k == "none":
        return Strategy0(fine)
    raise ValueError(k)


class Strategy0(Strategy):
    def __init__(self, fine=True):
        self.fine = fine

    def next_preempt(self, step):
        return INF


# ---------------------------------------------------------------- scheduler

class Sched:
    def __init__(self):
        self.active = False
        self.tasks = []
        self.cur = None
        self.step = 0
        self.now = 0.0          # virtual seconds
        self.cap = 10 ** 9
        self.on_fatal = None    # called with (kind, detail); must not return
        self.strategy = None
        self.deviations = []
        self.switches = 0
        self.sig = 0            # rolling hash of the switch sequence
        self.injections = []    # sorted list of (step, callable) ; run when reached
        self.next_event = INF
        self.trace = None       # optional list of events for determinism checks

    # -- lifecycle
    def begin(self, strategy, cap, on_fatal):
        self.tasks = []
        self.strategy = strategy
        strategy.start(self)
        self.cap = cap
        self.on_fatal = on_fatal
        self.step = 0
        self.now = 0.0
        self.deviations = []
        self.switches = 0
        self.sig = 0
        t = Task(0, "main")
        t.thread = _thread.get_ident()
        self.tasks.append(t)
        self.cur = t
        self.preempt_at = INF
        self.active = True
        strategy.on_new(t)
        self.preempt_at = strategy.next_preempt(0)
        self._recalc()

    def end(self):
        self.active = False

    def preempt_now(self):
        self.preempt_at = min(self.preempt_at, self.step + 1)
        self._recalc()

    def _recalc(self):
        n = self.preempt_at
        if self.injections and self.injections[0][0] < n:
            n = self.injections[0][0]
        if self.cap < n:
            n = self.cap
        self.next_event = n

    def inject_at(self, step, fn):
        self.injections.append((step, fn))
        self.injections.sort(key=lambda x: x[0])
        self._recalc()

    def alive(self):
        return [t for t in self.tasks if t.state != DONE]

    # -- the yield points
    def point(self):
        """yield point at which an asynchronous exception may be delivered (source lines, I/O)"""
        self.step += 1
        if self.step >= self.next_event:
            self._slow()
            cur = self.cur
            if cur.pending_exc is not None:
                e, cur.pending_exc = cur.pending_exc, None
                raise e

    def quiet(self):
        """yield point inside library synchronisation code: never raises"""
        self.step += 1
        if self.step >= self.next_event:
            self._slow()

    def fire(self):
        while self.injections and self.injections[0][0] <= self.step:
            _, fn = self.injections.pop(0)
            fn()

    def _slow(self):
        cur = self.cur
        self.fire()
        if self.step >= self.cap:
            self.on_fatal("step-cap", f"{self.step} steps")
        if self.step >= self.preempt_at:
            runnable = [t for t in self.tasks if t.state == RUNNABLE]
            nxt = self.strategy.choose(runnable, cur, False)
            self.preempt_at = self.strategy.next_preempt(self.step)
            self._recalc()
            if nxt is not cur:
                self.deviations.append((self.step, nxt.tid))
                self._switch(nxt)
        else:
            self._recalc()
        if cur.pending_exc is not None:
            self.next_event = self.step + 1

    def _switch(self, nxt):
        cur = self.cur
        self.switches += 1
        self.sig = hash((self.sig, self.step, nxt.tid))
        self.cur = nxt
        nxt.baton.release()
        cur.baton.acquire()
        if cur.pending_exc is not None:
            self.next_event = self.step + 1

    def _pick_forced(self, cur):
        """cur cannot continue: pick another task, advancing the clock if necessary"""
        while True:
            runnable = [t for t in self.tasks if t.state == RUNNABLE]
            if runnable:
                nxt = self.strategy.choose(runnable, None, True)
                dflt = min(runnable, key=lambda t: t.tid)
                if nxt is not dflt:
                    self.deviations.append((self.step, nxt.tid))
                return nxt
            timed = [t for t in self.tasks if t.state == BLOCKED and t.deadline is not None]
            if timed:
                t = min(timed, key=lambda t: (t.deadline, t.tid))
                self.now = max(self.now, t.deadline)
                t.timed_out = True
                t.state = RUNNABLE
                continue
            # nothing can run: before declaring a deadlock, fire interrupt injections that would land here
            fired = False
            while self.injections:
                _, fn = self.injections.pop(0)
                fn()
                if any(t.state == RUNNABLE for t in self.tasks):
                    fired = True
                    break
            self._recalc()
            if fired:
                continue
            self.on_fatal("deadlock", "no runnable task")

    def block(self, wait_on, timeout=None):
        """park the current task until wake()d; returns False on timeout; may raise an injected exception"""
        cur = self.cur
        self.step += 1
        if self.step >= self.next_event:
            if self.step >= self.cap:
                self.on_fatal("step-cap", f"{self.step} steps")
            self._recalc()
        cur.state = BLOCKED
        cur.wait_on = wait_on
        cur.timed_out = False
        cur.deadline = None if timeout is None else self.now + timeout
        nxt = self._pick_forced(cur)
        if nxt is not cur:
            self._switch(nxt)
        cur.wait_on = None
        cur.deadline = None
        if cur.wake_exc:
            cur.wake_exc = False
            e, cur.pending_exc = cur.pending_exc, None
            raise e
        return not cur.timed_out

    def wake(self, pred):
        for t in self.tasks:
            if t.state == BLOCKED and t.wait_on is pred:
                t.state = RUNNABLE
                if self.strategy.on_wake is not None:
                    self.strategy.on_wake(t)

    def sleep(self, seconds):
        if self.active:
            self.block(("sleep",), max(0.0, seconds))

    def interrupt(self, task, exc):
        """deliver an asynchronous exception (KeyboardInterrupt) to a task, waking it if blocked"""
        if task.state == DONE:
            return False
        task.pending_exc = exc
        if task.state == BLOCKED:
            task.wake_exc = True
            task.state = RUNNABLE
        elif task is self.cur:
            self.next_event = self.step + 1
        return True

    # -- threads
    def start_thread(self, fn, args=(), kwargs=None):
        if not self.active:
            return _real_start(fn, args, kwargs or {})
        t = Task(len(self.tasks), "thread")
        t.parent = self.cur.tid
        self.tasks.append(t)
        self.strategy.on_new(t)
        box = [fn, args, kwargs or {}]
        ident = _real_start(self._entry, (t, box))
        t.thread = ident
        self.quiet()
        return ident

    def _entry(self, t, box):
        t.baton.acquire()
        t.thread = _thread.get_ident()
        fn, args, kwargs = box
        box.clear()
        try:
            fn(*args, **kwargs)
        except SystemExit:
            pass
        except BaseException:
            sys.excepthook(*sys.exc_info())
        fn = args = kwargs = None
        t.state = DONE
        self.step += 1
        self.wake(t)
        nxt = self._pick_forced(t)
        self.switches += 1
        self.sig = hash((self.sig, self.step, nxt.tid))
        self.cur = nxt
        nxt.baton.release()

    def join_task(self, t, timeout=None):
        end = None if timeout is None else self.now + timeout
        while t.state != DONE:
            left = None if end is None else end - self.now
            if left is not None and left <= 0:
                return False
            if not self.block(t, left) and t.state != DONE:
                return False
        return True

    def stacks(self):
        frames = sys._current_frames()
        out = []
        for t in self.tasks:
            if t.state == DONE:
                continue
            f = frames.get(t.thread)
            lines = []
            while f is not None and len(lines) < 14:
                lines.append(f"{f.f_code.co_filename.rsplit('/', 1)[-1]}:{f.f_lineno}:{f.f_code.co_name}")
                f = f.f_back
            out.append({"task": t.tid, "state": ["runnable", "blocked", "done"][t.state],
                        "wait_on": type(t.wait_on).__name__, "stack": lines})
        return out


S = Sched()


def point():
    if S.active:
        S.point()


# ---------------------------------------------------------------- simulated synchronisation objects

class SimLock:
    __slots__ = ("_owner", "__weakref__")

    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        if not S.active:
            if self._owner is not None:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("lock would deadlock outside the simulation")
            self._owner = True
            return True
        S.quiet()
        if self._owner is None:
            self._owner = S.cur
            return True
        if not blocking:
            return False
        end = None if timeout is None or timeout < 0 else S.now + timeout
        while self._owner is not None:
            left = None if end is None else end - S.now
            if left is not None and left <= 0:
                return False
            S.block(self, left)
        self._owner = S.cur
        return True

    __enter__ = acquire
    acquire_lock = acquire

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._owner = None
        if S.active:
            S.wake(self)
            S.quiet()

    release_lock = release

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def _at_fork_reinit(self):
        self._owner = None

    def __repr__(self):
        return f"<SimLock owner={self._owner}>"


class SimRLock:
    __slots__ = ("_owner", "_count", "__weakref__")

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        if not S.active:
            me = True
            self._owner = me
            self._count += 1
            return True
        me = S.cur
        if self._owner is me:
            self._count += 1
            return True
        S.quiet()
        if self._owner is not None:
            if not blocking:
                return False
            end = None if timeout is None or timeout < 0 else S.now + timeout
            while self._owner is not None:
                left = None if end is None else end - S.now
                if left is not None and left <= 0:
                    return False
                S.block(self, left)
        self._owner = me
        self._count = 1
        return True

    __enter__ = acquire

    def release(self):
        if self._owner is None:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if S.active:
                S.wake(self)
                S.quiet()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is not None and (not S.active or self._owner is S.cur)

    def _release_save(self):
        c, self._count, self._owner = self._count, 0, None
        if S.active:
            S.wake(self)
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


class SimSimpleQueue:
    def __init__(self):
        from collections import deque
        self._q = deque()

    def put(self, item, block=True, timeout=None):
        self._q.append(item)
        if S.active:
            S.wake(self)
            S.quiet()

    put_nowait = put

    def get(self, block=True, timeout=None):
        import _queue
        if S.active:
            S.quiet()
            end = None if timeout is None else S.now + timeout
            while not self._q:
                if not block:
                    raise _queue.Empty
                left = None if end is None else end - S.now
                if left is not None and left <= 0:
                    raise _queue.Empty
                S.block(self, left)
            return self._q.popleft()
        if not self._q:
            raise _queue.Empty
        return self._q.popleft()

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        return not self._q

    def qsize(self):
        return len(self._q)

    __class_getitem__ = classmethod(lambda cls, x: cls)
