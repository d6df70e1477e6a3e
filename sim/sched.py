"""The thread seam: real threads, of which exactly one holds the baton; the baton changes hands only at
steps (source lines of cq_cam, storage calls, lock operations), as the schedule says. Locks made by
cq_cam are simulated, so that a blocked thread is known to be blocked."""
import _thread
import sys
import threading

from .boot import is_target
from .steps import FAR, S
from .util import Harness

_alloc = _thread.allocate_lock
_Lock, _RLock = threading.Lock, threading.RLock


class Deadlock(BaseException):
    """Raised in every blocked thread once nobody can go on."""


class Task:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.baton = _alloc()
        self.baton.acquire()
        self.done = False
        self.wait = None  # lock it is blocked on
        self.exc = None
        self.dead = False
        self.pending = None  # exception to deliver at its next step
        self.local = 0  # steps it has run
        self.since = 0  # S.count when it got the baton
        self.points = []  # [own step, {"to","for","exc"}]

    def steps(self):
        return self.local + S.count - self.since


class Sched:
    """plan: {"q": quantum or None, "first": task, "sched": [decisions]}. A decision is placed at a step
    of the whole run ("at") or at a step of one task ("th", "n"; that task's own steps do not depend on the
    schedule). It hands control to task "to" (for "for" steps if given) or raises "exc" in the task running."""

    def __init__(self, fns, plan, steps_total):
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.q = plan.get("q")
        n = max(1, steps_total)
        self.plan = sorted([p["at"] % n + 1, p.get("to", 0) % len(fns), p.get("exc")] for p in plan.get("sched", []) if "n" not in p)
        for p in plan.get("sched", []):
            if "n" in p:
                self.tasks[p.get("th", 0) % len(fns)].points.append([max(1, p["n"]), p])
        for t in self.tasks:
            t.points.sort(key=lambda x: x[0])
        self.back = None  # (step, task): give control back then
        self.cur = None
        self.switches = 0
        self.main = _alloc()
        self.main.acquire()
        self.deadlock = False
        self.log = []
        self.where = None  # collects the source lines of switches
        self.make = None
        self.raised = []
        self.first = plan.get("first", 0)

    # ---------------------------------------------------------------- baton
    def run(self):
        global current
        current = self
        threads = self.threads = []
        try:
            for t in self.tasks:
                threads.append(threading.Thread(target=self._body, args=(t,), daemon=True))
                threads[-1].start()
            S.hook = self.at_step
            self.cur = self.tasks[self.first % len(self.tasks)]
            self.cur.since = S.count
            self.rearm()
            self.cur.baton.release()
            if not self.main.acquire(timeout=60):
                raise Harness(f"a simulated thread does not come back (holder {self.cur.i})")
        finally:
            S.hook = None
            S.hook_at = FAR
            S.arm()
            current = None
        return self

    def _body(self, t):
        t.baton.acquire()
        try:
            t.fn(t)
        except BaseException as e:
            t.exc = e
        t.done = True
        self.leave(t)

    def runnable(self):
        return [t for t in self.tasks if not t.done and (t.wait is None or t.wait.free_for(t))]

    def rearm(self):
        nxt = FAR
        if self.plan:
            nxt = max(S.count + 1, self.plan[0][0])
        if self.q and sum(not t.done for t in self.tasks) > 1:
            # long runs get coarser
            nxt = min(nxt, S.count + (self.q if self.switches < 30000 else max(self.q, 500)))
        if self.back:
            nxt = min(nxt, max(S.count + 1, self.back[0]))
        if self.cur.points:
            nxt = min(nxt, max(S.count + 1, self.cur.since + self.cur.points[0][0] - self.cur.local))
        S.hook_at = nxt
        S.arm()

    def at_step(self):
        """In the thread holding the baton."""
        me = self.cur
        to, exc = None, None
        while self.plan and self.plan[0][0] <= S.count:
            _, k, what = self.plan.pop(0)
            if what:
                exc = what
            else:
                to = self.tasks[k]
        if self.back and S.count >= self.back[0]:
            to, self.back = self.back[1], None
        while me.points and me.points[0][0] <= me.steps():
            _, p = me.points.pop(0)
            if p.get("exc"):
                exc = p["exc"]
            else:
                to = self.tasks[p.get("to", 0) % len(self.tasks)]
                if to is me:
                    to = self.tasks[(me.i + 1) % len(self.tasks)]
                if p.get("for"):
                    self.back = (S.count + p["for"], me)
        if to is None and self.q:
            r = [t for t in self.runnable()]
            later = [t for t in r if t.i > me.i] or r
            to = later[0] if later else None
        if exc:
            e = self.make(exc)
            self.raised.append((me.i, exc))
            self.rearm()
            if to is not None and to is not me:
                me.pending = e
            else:
                raise e
        if to is not None and to is not me and not to.done and (to.wait is None or to.wait.free_for(to)):
            self.switch(me, to)
        else:
            self.rearm()
        if me.pending is not None:
            e, me.pending = me.pending, None
            raise e

    def switch(self, me, to):
        self.switches += 1
        self.log.append((S.count, to.i))
        if self.where is not None and len(self.where) < 200:
            f = sys._getframe(1)
            while f is not None and not is_target(f.f_code.co_filename):
                f = f.f_back
            if f is not None:
                self.where.append((f"{f.f_code.co_filename.rsplit('/cq_cam/', 1)[-1]}:{f.f_lineno}", me.i, to.i))
        me.local = me.steps()
        to.since = S.count
        self.cur = to
        self.rearm()
        to.baton.release()
        me.baton.acquire()
        if self.deadlock:
            raise Deadlock()

    def leave(self, me):
        """The current thread has ended."""
        r = self.runnable()
        if r:
            to = ([t for t in r if t.i > me.i] or r)[0]
            me.local = me.steps()
            to.since = S.count
            self.cur = to
            self.log.append((S.count, to.i))
            self.rearm()
            to.baton.release()
            return
        left = [t for t in self.tasks if not t.done]
        if left:
            self.deadlock = True
            self.cur = left[0]
            left[0].baton.release()
            return
        self.main.release()

    def block(self, me, lock):
        """Until the lock can be had."""
        me.wait = lock
        while not lock.free_for(me):
            r = [t for t in self.runnable() if t is not me]
            if not r:
                self.deadlock = True
                raise Deadlock()
            self.switch(me, ([t for t in r if t.i > me.i] or r)[0])
        me.wait = None


current = None


class SimLock:
    """threading.Lock / RLock for cq_cam."""

    def __init__(self, re=False):
        self.re = re
        self.owner = None
        self.n = 0

    def _me(self):
        if current is not None and current.cur is not None:
            return current.cur
        return _thread.get_ident()

    def free_for(self, t):
        return self.owner is None or (self.re and self.owner is t)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if isinstance(me, Task):
            S.count += 1
            if S.count >= S.next:
                S.slow(None, "acquire")
            if not self.free_for(me):
                if not blocking or timeout >= 0:
                    return False
                current.block(me, self)
        elif not self.free_for(me):
            if not blocking or timeout >= 0:
                return False
            raise Deadlock("a lock is taken twice by the only thread, or was never released")
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if self.owner is None or (self.re and self.owner is not self._me() and self.owner != self._me()):
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n <= 0 or not self.re:
            self.owner, self.n = None, 0

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # what threading.Condition asks of an RLock
    def _is_owned(self):
        m = self._me()
        return self.owner is m or self.owner == m


def _factory(real, re):
    def make():
        f = sys._getframe(1).f_code.co_filename
        if is_target(f):
            return SimLock(re)
        return real()
    make.__name__ = "Lock"
    return make


def install():
    threading.Lock = _factory(_Lock, False)
    threading.RLock = _factory(_RLock, True)
