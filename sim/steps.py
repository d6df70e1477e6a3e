"""The step clock: every executed source line of cq_cam is one step, at which the simulator may
raise an exception, switch threads or stop the run."""
import sys
import threading

from .boot import guarded, is_target

M = sys.monitoring
TOOL = 3
DISABLE = M.DISABLE
FAR = 1 << 60


class OutOfSteps(BaseException):
    """The run used more steps than its budget allows."""


class Steps:
    def __init__(self):
        self.on = False
        self.count = 0
        self.next = FAR
        self.limit = FAR
        self.fault_at = FAR
        self.fault = None
        self.trace = None
        self.guards = None
        self.hook = None  # called at hook_at (scheduler)
        self.hook_at = FAR
        self.fired = None
        self.cache = {}
        self.only = None  # faults are raised in this thread only

    def install(self):
        if self.on:
            return
        self.on = True
        M.use_tool_id(TOOL, "cqcam-sim")
        cache = self.cache

        def cb(code, line):
            f = code.co_filename
            t = cache.get(f)
            if t is None:
                t = cache[f] = is_target(f)
            if not t:
                return DISABLE
            self.count += 1
            if self.count >= self.next:
                self.slow(code, line)

        M.register_callback(TOOL, M.events.LINE, cb)
        M.set_events(TOOL, M.events.LINE)

    def arm(self):
        self.next = 0 if self.trace is not None else min(self.limit, self.fault_at, self.hook_at)

    def reset(self, limit=FAR):
        self.count = 0
        self.limit = limit
        self.fault_at = FAR
        self.fault = None
        self.trace = None
        self.hook_at = FAR
        self.fired = None
        self.arm()

    def off(self):
        n = self.count
        self.reset()
        self.count = n
        return n

    def slow(self, code, line):
        if self.trace is not None:
            self.trace.append((code.co_filename, line) if code else ("syscall", line))
            if self.guards is not None:
                self.guards.append(guarded(sys._getframe(2)))
        if self.count >= self.fault_at:
            if self.only is None or threading.get_ident() == self.only:
                e = self.fault
                self.fault_at = FAR
                self.fired = (code.co_filename.rsplit("/cq_cam/", 1)[-1], code.co_name, line) if code else ("syscall", "", line)
                self.arm()
                raise e
        if self.count >= self.hook_at:
            self.hook_at = FAR
            self.arm()
            self.hook()
        if self.count >= self.limit:
            self.limit = self.count + 100000
            self.arm()
            raise OutOfSteps(f"step budget exceeded at {code.co_filename if code else 'syscall'}:{line}")


S = Steps()


def install():
    S.install()


class window:
    """Counts (and limits, and possibly disturbs) the steps of one call."""

    def __init__(self, limit=2_000_000, fault_at=None, fault=None, trace=False, guards=False):
        self.limit, self.fault_at, self.fault, self.trace = limit, fault_at, fault, trace
        self.want_guards = guards

    def __enter__(self):
        S.reset(self.limit)
        if self.fault_at is not None:
            S.fault_at, S.fault = self.fault_at, self.fault
            S.only = threading.get_ident()
        if self.trace:
            S.trace, S.guards = [], [] if self.want_guards else None
        S.arm()
        return self

    def __exit__(self, *a):
        self.lines, self.guards = S.trace, S.guards
        S.guards = None
        self.fired = S.fired
        self.steps = S.off()
        S.only = None
        return False
