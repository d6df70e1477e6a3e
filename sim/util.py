import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback


def h64(*parts):
    return int.from_bytes(hashlib.blake2b(json.dumps(parts, sort_keys=True, default=str).encode(), digest_size=8).digest(), "big")


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2:]


class Violation(Exception):
    """The property is broken. `cls` names the kind of breakage (used when minimising and for
    matching known findings)."""

    def __init__(self, cls, msg, **info):
        super().__init__(f"{cls}: {msg}")
        self.cls, self.msg, self.info = cls, msg, info


class Harness(Exception):
    """The simulator itself is at fault or could not decide."""


def _read_all(fd, pid, timeout):
    buf, end = [], time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        b = os.read(fd, 1 << 16)
        if not b:
            return b"".join(buf)
        buf.append(b)


def in_fork(fn, *args, timeout=120):
    """Run fn in a forked child; return (status, value): ("ok", v), ("exc", text),
    ("timeout", None) or ("died", signal)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:
                if type(e).__name__ == "SimDead":
                    raise
                out = ("exc", "".join(traceback.format_exception(e))[-6000:])
            data = pickle.dumps(out)
            i = 0
            while i < len(data):
                i += os.write(w, data[i:])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = None
    try:
        data = _read_all(r, pid, timeout)
    finally:
        os.close(r)
        if data is None:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(pid, 0)
    if data is None:
        return ("timeout", None)
    if os.WIFSIGNALED(st) or not data:
        return ("died", os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st))
    return pickle.loads(data)


def must_fork(fn, *args, timeout=120):
    """in_fork for oracles: anything but a value is a failure of the harness."""
    st, v = in_fork(fn, *args, timeout=timeout)
    if st != "ok":
        raise Harness(f"oracle fork: {st}: {v}")
    return v


class Pristine:
    """Runs oracles in forks of the process as it was when this was created."""

    def __init__(self):
        self.r, w = os.pipe()
        r, self.w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r)
                os.close(self.w)
                with open(r, "rb") as src, open(w, "wb") as dst:
                    while True:
                        fn, args, timeout = pickle.load(src)
                        pickle.dump(in_fork(fn, *args, timeout=timeout), dst)
                        dst.flush()
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(r)
        os.close(w)
        self.src, self.dst = open(self.r, "rb"), open(self.w, "wb")

    def __call__(self, fn, *args, timeout=120):
        pickle.dump((fn, args, timeout), self.dst)
        self.dst.flush()
        try:
            st, v = pickle.load(self.src)
        except EOFError:
            st, v = "died", None
        if st != "ok":
            raise Harness(f"oracle fork: {st}: {v}")
        return v

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.dst.close()
        self.src.close()
        os.waitpid(self.pid, 0)


class R(random.Random):
    """The one source of choices."""

    def __init__(self, *parts):
        super().__init__(h64(*parts))

    def p(self, x):
        return self.random() < x

    def pick(self, xs):
        return xs[self.randrange(len(xs))]

    def wpick(self, pairs):
        t = sum(w for _, w in pairs)
        x = self.random() * t
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def opt(self, prob, xs):
        return self.pick(xs) if self.p(prob) else None
