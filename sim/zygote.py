"""Interpreters that differ in what is fixed at start-up (hash seed, locale, time zone, optimisation, memory
allocator, working directory): each boots the library once and forks for every request."""
import importlib
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time

from .util import Harness

# what is set for each; the reference is the process of the check itself
KINDS = [
    {"env": {"PYTHONHASHSEED": "1", "LANG": "C", "LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0", "TZ": "Asia/Tokyo"},
     "cwd": "/"},
    {"env": {"PYTHONHASHSEED": "4242", "TZ": "America/New_York", "PYTHONMALLOC": "malloc"}, "cwd": "/tmp"},
    {"env": {"PYTHONHASHSEED": "77777", "LANG": "POSIX", "LC_ALL": "POSIX", "USER": "someone", "HOME": "/nonexistent"}, "args": ["-O"],
     "cwd": "/usr"},
    {"env": {"PYTHONHASHSEED": "99", "TZ": "UTC", "PYTHONMALLOC": "debug"}, "args": ["-X", "dev"], "cwd": "/var"},
]


def start():
    """Start one interpreter per kind; returns their socket paths."""
    from .boot import SRC, VERIF
    d = tempfile.mkdtemp(prefix="cqsimz", dir="/tmp")
    procs = []
    for k, kind in enumerate(KINDS):
        env = {**os.environ, **kind["env"], "CQCAM_SRC": SRC.rstrip("/"), "PYTHONPATH": VERIF, "CQSIM_CWD": kind.get("cwd", "/")}
        path = f"{d}/{k}"
        r, w = os.pipe()
        p = subprocess.Popen([sys.executable, *kind.get("args", []), "-m", "sim.zygote", path], env=env, cwd=VERIF, stdin=r,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE if False else subprocess.DEVNULL)
        os.close(r)
        procs.append((p, w, path))
    end = time.monotonic() + 120
    for p, _, path in procs:
        while not os.path.exists(path):
            if p.poll() is not None or time.monotonic() > end:
                raise Harness("an interpreter of the check does not start: " + path)
            time.sleep(0.05)
    import atexit
    me = os.getpid()

    def stop():
        if os.getpid() != me:
            return
        for p, w, path in procs:
            p.kill()
            p.wait()
            try:
                os.unlink(path)
            except OSError:
                pass
        try:
            os.rmdir(d)
        except OSError:
            pass

    atexit.register(stop)
    return [path for _, _, path in procs]


def _send(s, x):
    b = pickle.dumps(x)
    s.sendall(struct.pack(">I", len(b)) + b)


def _recv(s):
    def n(k):
        b = b""
        while len(b) < k:
            c = s.recv(k - len(b))
            if not c:
                raise EOFError
            b += c
        return b
    return pickle.loads(n(struct.unpack(">I", n(4))[0]))


def call(path, mod, fn, *args, timeout=60):
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(timeout)
    try:
        for k in range(200):
            try:
                s.connect(path)
                break
            except (BlockingIOError, ConnectionRefusedError):
                time.sleep(0.05)
        _send(s, (mod, fn, args))
        st, v = _recv(s)
    except (OSError, EOFError) as e:
        raise Harness(f"interpreter {path}: {type(e).__name__} {e}")
    finally:
        s.close()
    if st != "ok":
        raise Harness(f"interpreter {path}: {v}")
    return v


def main():
    import traceback
    path = sys.argv[1]
    from . import core
    core.boot_all()
    os.chdir(os.environ.get("CQSIM_CWD", "/"))
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path + ".tmp")
    srv.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    os.rename(path + ".tmp", path)
    import select
    while True:
        rs, _, _ = select.select([srv, 0], [], [])
        if 0 in rs and not os.read(0, 1):
            os._exit(0)  # the check has ended
        if srv not in rs:
            continue
        c, _ = srv.accept()
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                signal.alarm(120)
                srv.close()
                mod, fn, args = _recv(c)
                try:
                    out = ("ok", getattr(importlib.import_module(mod), fn)(*args))
                except BaseException as e:
                    out = ("exc", "".join(traceback.format_exception(e))[-3000:])
                _send(c, out)
            finally:
                os._exit(0)
        c.close()


if __name__ == "__main__":
    main()
