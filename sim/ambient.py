"""The ambient seam: clock, random number generators, process identity and interpreter settings a
program could leak into what it computes. Installed before cq_cam is imported; inert until armed."""
import datetime as _dt
import os
import random
import time

REAL = {n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns",
                                      "process_time", "sleep", "localtime", "gmtime", "ctime", "strftime", "asctime")}
_urandom, _getpid = os.urandom, os.getpid


class A:
    on = False
    base = 0.0
    step = 0.0
    jumps = 0
    reads = 0
    rng = None
    pid = None
    machine = None
    slept = 0.0
    sleeps = 0


def now():
    A.reads += 1
    t = A.base + A.slept + A.step * A.reads
    if A.jumps and A.reads % A.jumps == 0:
        t -= 5000.0 * (A.reads // A.jumps)
    return t


def mono():
    """Some clocks never go back."""
    A.reads += 1
    return A.base + A.slept + A.step * A.reads


def sleep(s):
    if not A.on:
        return REAL["sleep"](s)
    if s < 0:
        raise ValueError("sleep length must be non-negative")
    A.sleeps += 1
    A.slept += s


def install():
    if getattr(time, "_sim", False):
        return
    time._sim = True

    def sub(name, mk):
        real = REAL[name]

        def f(*a):
            return mk(*a) if A.on else real(*a)

        f.__name__ = name
        setattr(time, name, f)

    sub("time", now)
    sub("time_ns", lambda: int(now() * 1e9))
    for n in ("monotonic", "perf_counter", "process_time"):
        sub(n, mono)
    for n in ("monotonic_ns", "perf_counter_ns"):
        sub(n, lambda: int(mono() * 1e9))
    time.sleep = sleep
    for n in ("localtime", "gmtime", "ctime"):
        sub(n, lambda *a, real=REAL[n]: real(*(a or (now(),))))
    sub("asctime", lambda *a: REAL["asctime"](*(a or (REAL["localtime"](now()),))))
    sub("strftime", lambda f, *a: REAL["strftime"](f, *(a or (REAL["localtime"](now()),))))

    class datetime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(now(), tz) if A.on else super().now(tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(now(), _dt.timezone.utc).replace(tzinfo=None) if A.on else super().utcnow()

        @classmethod
        def today(cls):
            return cls.now()

    class date(_dt.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(now()) if A.on else super().today()

    datetime.__qualname__, date.__qualname__ = "datetime", "date"
    _dt.datetime, _dt.date = datetime, date
    os.urandom = lambda n: A.rng.randbytes(n) if A.on and A.rng else _urandom(n)
    os.getpid = lambda: A.pid if A.on and A.pid else _getpid()
    machine()


def machine():
    """Which computer this is."""
    import getpass
    import platform
    import socket

    def sub(mod, name, mk):
        real = getattr(mod, name)

        def f(*a, **kw):
            return mk(real(*a, **kw), A.machine) if A.on and A.machine else real(*a, **kw)

        f.__name__ = name
        setattr(mod, name, f)

    sub(platform, "node", lambda r, m: m["node"])
    sub(socket, "gethostname", lambda r, m: m["node"])
    sub(socket, "getfqdn", lambda r, m: m["node"])
    sub(os, "uname", lambda r, m: os.uname_result((r[0], m["node"], r[2], r[3], r[4])))
    sub(getpass, "getuser", lambda r, m: m["user"])
    sub(os, "cpu_count", lambda r, m: m["cpus"])
    sub(os, "getppid", lambda r, m: m["cpus"] + 7)
    sub(os, "getuid", lambda r, m: m["uid"])
    sub(os, "geteuid", lambda r, m: m["uid"])
    if hasattr(os, "sched_getaffinity"):
        sub(os, "sched_getaffinity", lambda r, m: set(range(m["cpus"] or 1)))
    sub(os, "getloadavg", lambda r, m: (0.1 * (m["cpus"] or 1),) * 3)


def arm(v):
    """v: {"clock":..., "step":..., "jumps":..., "rng":..., "pid":...}"""
    A.base = float(v.get("clock", 0.0))
    A.step = float(v.get("step", 0.001))
    A.jumps = int(v.get("jumps", 0))
    A.reads, A.slept, A.sleeps = 0, 0.0, 0
    A.rng = random.Random(v.get("rng", 0))
    A.pid = v.get("pid")
    A.machine = v.get("machine")
    A.on = True


def disarm():
    A.on = False
