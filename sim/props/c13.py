"""C13: a long session - the same piece of work over and over, on one model or on ever-changing ones,
calls that succeed, fail and are interrupted - must not leave anything behind in the process."""
import gc
import json
import os
import sys
import tempfile
import tracemalloc
from array import array

import cadquery as cq

from .. import faulty, kernel, sched, steps, world
from ..boot import is_target
from ..util import R, Violation, must_fork, short
from . import c04, c16

PID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 300, "thorough": 15000}
RULE = ("A case is a piece of work (1-4 calls: operations, exports, views, saves, failing ones, with injected kernel failures and "
        "interrupts) carried out 9 times or more in one process, or one call disturbed at points spread over all its lines, or 2-4 threads "
        "of calls under a drawn schedule; non-trivial: some repetition exported a program and at least 2 calls were made in each, "
        "two points were disturbed, or control changed hands twice. Counted by distinct run log.")
COVER = "distinct (kinds of calls, disturbances, whether the model changes) histories"
REAL = ["cq_cam (all of it)", "cadquery/OCCT", "pyclipper", "shapely", "numpy", "the host's file system for saves"]
STUBS = ["viewer", "cq_editor colour helper", "opencamlib"]
ASSUME = ["Memory is what the garbage collector accounts for and what lines of cq_cam allocate through the interpreter; the native libraries' own is not seen.",
          "Growth means: more of it after every one of the last 6 repetitions, and still after 200: caches of a few hundred entries, or filled by a first large piece of work, are no growth.",
          "Files and descriptors left by an interrupt between two source lines are not judged, only settings are."]

WARM, MEASURE, MORE = 3, 7, 200


def gen(r: R, i, tier):
    if r.p(0.08):
        return {"threads": c04.gen(r, i, tier)}
    if r.p(0.1):
        # pairs of threads in the same call: the first to reach a place is the first to leave it
        scn = c04.gen(r, i, tier)
        op = {"on": 0, "do": world.gen_op(r, scn, tools=0.3, tabs=0.6) if r.p(0.85) else {"op": r.pick(["gcode", "save", "shapes"])}}
        scn["threads"] = [{"steps": [op]}, {"steps": [op]}]
        if r.p(0.3):
            scn["threads"][1] = {"steps": [{"on": 0, "do": world.vary(r, scn, op["do"]) if op["do"]["op"] in ("profile", "pocket") and r.p(0.5) else op["do"]}]}
        scn["plan"] = {}
        scn["pairs"] = [{"loc": r.randrange(10000), "occ": r.randrange(10000), **({"exc": r.pick(["KeyboardInterrupt", "MemoryError"])} if r.p(0.1) else {})}
                        for _ in range(r.pick([8, 16]))]
        return {"threads": scn}
    scn = world.gen_world(r)
    calls = []
    for _ in range(r.randint(1, 4)):
        c = r.random()
        if c < 0.55:
            e = {"do": world.gen_op(r, scn)}
        elif c < 0.68:
            e = {"do": world.gen_bad(r, scn)}
            if e["do"].get("sd") == 0.005:
                e["do"] = {"op": "drill", "pts": [[0, 0, 0]]}
        elif c < 0.78:
            e = {"do": {"op": r.pick(["save", "save", "save_missing", "save_dir"])}}
        elif c < 0.88:
            e = {"do": {"op": "view", "viewer": r.pick(["cq_editor", "ocp_vscode"]), **({"fails": r.randrange(2)} if r.p(0.3) else {})}}
        else:
            e = {"do": {"op": r.pick(["gcode", "shapes"])}}
        if r.p(0.3):
            e["fault"] = {"loc": r.randrange(10000), "seam": r.pick(["kernel", "line"]), "occ": r.randrange(10000),
                          "e": r.randrange(100), "exc": r.wpick([("KeyboardInterrupt", 3), ("MemoryError", 2)]), "g": int(r.p(0.5))}
        calls.append(e)
    if r.p(0.1):
        calls.append({"do": {"op": "drill", "depth": 1, "pts": [[(7 * k) % 41, (5 * k) % 23, 0] for k in range(40)]}})
    scn["calls"] = calls
    if r.p(0.5):
        # settings after failures everywhere in one call
        scn["calls"] = [{"do": world.gen_op(r, scn, tabs=0.7) if r.p(0.8) else calls[0]["do"]}]
        n = r.pick([8, 16, 24])
        step = 10000 // n
        scn["sweep"] = [{"loc": k * step + r.randrange(step), "of": n * step, "seam": r.wpick([("line", 3), ("kernel", 2)]), "occ": r.randrange(10000),
                         "e": r.randrange(100), "exc": r.wpick([("KeyboardInterrupt", 3), ("MemoryError", 2)])} for k in range(n)]
    scn["vary"] = r.wpick([(0, 5), (1, 3), (2, 2)])  # 0: same objects every time, 1: fresh equal ones, 2: another model every time
    return scn


def varied(scn, k):
    if scn.get("vary") != 2:
        return scn
    s = json.loads(json.dumps({a: scn[a] for a in ("job", "shapes", "tools", "tabs")}))
    d = 0.013 * (k + 1)
    for f in s["shapes"]:
        f["outer"]["x"] = f["outer"].get("x", 0) + d
        for i in f.get("inners", []):
            i["x"] = i.get("x", 0) + d
        for a in ("w", "r"):
            if a in f["outer"]:
                f["outer"][a] += d / 100
    s["job"]["feed"] = s["job"]["feed"] + k
    s["job"]["name"] = f"N{k}"
    return s


def shifted(do, scn, k):
    if scn.get("vary") == 2 and "pts" in do:
        return {**do, "pts": [[p[0] + 0.013 * (k + 1), p[1] + 0.007 * (k + 1), p[2]] for p in do["pts"]]}
    return do


# ---------------------------------------------------------------------- the process
def unusual():
    """Settings no library would come upon by itself: what it sets back to some default shows."""
    import decimal
    import faulthandler
    import logging
    import random
    import resource
    import signal
    import socket
    import threading
    import warnings

    import numpy as np

    warnings.resetwarnings()
    warnings.filterwarnings("ignore", message="(?s)")
    warnings.filterwarnings("ignore", message="simulated")
    decimal.getcontext().prec = 33
    decimal.getcontext().rounding = decimal.ROUND_CEILING
    os.umask(0o027)
    np.seterr(divide="ignore", over="ignore", under="ignore", invalid="ignore")
    np.set_printoptions(precision=5, suppress=True)
    sys.setrecursionlimit(2345)
    sys.setswitchinterval(0.0125)
    sys.set_int_max_str_digits(5432)
    gc.set_threshold(811, 13, 17)
    random.seed(4711)
    np.random.seed(4711)
    logging.getLogger().setLevel(25)
    logging.getLogger("cq_cam").setLevel(35)
    logging.getLogger("cq_cam.operations").addFilter(lambda rec: True)
    for n in (signal.SIGUSR1, signal.SIGHUP, signal.SIGALRM):
        signal.signal(n, lambda *a: None)
    faulthandler.enable(open(os.devnull, "w"))
    socket.setdefaulttimeout(77.5)
    os.setpriority(os.PRIO_PROCESS, 0, os.getpriority(os.PRIO_PROCESS, 0) + 1)
    resource.setrlimit(resource.RLIMIT_CORE, (0, resource.getrlimit(resource.RLIMIT_CORE)[1]))
    threading.stack_size(1 << 24)
    signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR2])
    sys.unraisablehook = lambda *a: None
    os.environ.update(LANG="de_DE.UTF-8", TZ="Pacific/Chatham", CQSIM="1", COLUMNS="61")


def wakeup():
    import signal
    fd = signal.set_wakeup_fd(-1)
    signal.set_wakeup_fd(fd)
    return fd


def stack_size():
    import threading
    n = threading.stack_size()
    threading.stack_size(n)
    return n


def settings():
    """Everything of the process a caller may have set and the library must leave alone."""
    import atexit
    import builtins
    import decimal
    import faulthandler
    import locale
    import logging
    import multiprocessing
    import random
    import resource
    import signal
    import socket
    import threading
    import time
    import warnings

    import cadquery as cq
    import numpy as np
    import pyclipper
    import shapely

    um = os.umask(0)
    os.umask(um)
    log = logging.getLogger()
    d = {
        "working directory": os.getcwd(), "umask": um, "environment": dict(os.environ), "sys.path": list(sys.path), "sys.argv": list(sys.argv),
        "locale": locale.setlocale(locale.LC_ALL), "decimal context": repr(decimal.getcontext()),
        "numpy error handling": np.geterr(), "numpy printing": repr(np.get_printoptions()),
        "random state": hash(random.getstate()), "numpy random state": hash(np.random.get_state()[1].tobytes()),
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "int digits limit": sys.get_int_max_str_digits(),
        "tracing": (sys.gettrace(), sys.getprofile(), threading.gettrace()), "hooks": (sys.excepthook, threading.excepthook, sys.unraisablehook, sys.displayhook),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "collector": (gc.isenabled(), gc.get_threshold(), len(gc.callbacks), gc.get_debug()),
        "signal handlers": [(s, signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGHUP, signal.SIGPIPE)],
        "timers": (signal.getitimer(signal.ITIMER_REAL)[0], signal.getitimer(signal.ITIMER_VIRTUAL)[0]),
        "blocked signals": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
        "warning filters": [tuple(map(str, f)) for f in warnings.filters], "showwarning": warnings.showwarning,
        "root logger": (log.level, [id(h) for h in log.handlers], log.disabled, logging.root.manager.disable, logging.raiseExceptions),
        "cq_cam loggers": [(n, l.level, [id(h) for h in l.handlers], l.disabled, l.propagate, len(l.filters)) for n, l in
                           sorted(logging.root.manager.loggerDict.items()) if n.split(".")[0] == "cq_cam" and isinstance(l, logging.Logger)],
        "threads": threading.active_count(),
        "fault handler": faulthandler.is_enabled(),
        "socket timeout": socket.getdefaulttimeout(),
        "resource limits": [resource.getrlimit(n) for n in (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_FSIZE, resource.RLIMIT_CPU,
                                                            resource.RLIMIT_STACK, resource.RLIMIT_DATA, resource.RLIMIT_AS)],
        "priority": os.getpriority(os.PRIO_PROCESS, 0), "core affinity": sorted(os.sched_getaffinity(0)),
        "import hooks": ([id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks]),
        "size of thread stacks": stack_size(),
        "functions called at exit": atexit._ncallbacks(),
        "time zone": time.tzname, "wakeup descriptor": wakeup(), "bytecode": sys.dont_write_bytecode,
        "directory of temporary files": tempfile.tempdir, "multiprocessing": multiprocessing.get_start_method(allow_none=True),
        "coroutine hooks": (sys.get_coroutine_origin_tracking_depth(), *sys.get_asyncgen_hooks()),
        "builtins": hash(tuple(sorted((k, id(v)) for k, v in vars(builtins).items() if k != "_"))),
    }
    for name, o in (("cadquery", cq), ("cadquery.Wire", cq.Wire), ("cadquery.Edge", cq.Edge), ("cadquery.Face", cq.Face), ("cadquery.Shape", cq.Shape),
                    ("cadquery.Vector", cq.Vector), ("cadquery.Plane", cq.Plane), ("cadquery.Workplane", cq.Workplane),
                    ("pyclipper", pyclipper), ("shapely", shapely), ("shapely.Polygon", shapely.Polygon), ("json", json), ("os", os), ("math", __import__("math"))):
        d[name] = {k: id(v) for k, v in vars(o).items() if not k.startswith("__")}
    for c in (cq.Workplane, cq.Shape):
        d[c.__name__ + " defaults"] = [(k, repr(v.__defaults__)) for k, v in sorted(vars(c).items()) if getattr(v, "__defaults__", None) and "object at" not in repr(v.__defaults__)]
    return d


def compare_settings(a, b, what):
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                ks = [q for q in {**x, **y} if x.get(q) != y.get(q)]
                # importing a submodule adds it to its package
                ks = [q for q in ks if q in x or k in ("environment",) or not q[:1].islower() or q not in sys.modules.get(k, object()).__dict__
                      or type(sys.modules[k].__dict__[q]).__name__ != "module"] if k in sys.modules else ks
                if not ks:
                    continue
                x, y = {q: x.get(q) for q in ks}, {q: y.get(q) for q in ks}
            raise Violation("setting", f"{what} changes the {k} of the process: {short(repr(y), 200)} instead of {short(repr(x), 200)}")


def fds():
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink("/proc/self/fd/" + n))
        except OSError:
            pass
    return sorted(x for x in out if "/proc/" not in x)


def held():
    """Memory blocks that lines of cq_cam have allocated (since tracing began), objects of the collector."""
    gc.collect()
    gc.collect()
    n = len(gc.get_objects())
    b = 0
    if tracemalloc.is_tracing():
        snap = tracemalloc.take_snapshot()
        b = sum(t.count for t in snap.statistics("filename") if is_target(t.traceback[0].filename))
        del snap
    return b, n


# ---------------------------------------------------------------------- one repetition
class Session:
    def __init__(self, scn, st, d):
        self.scn, self.st, self.d = scn, st, d
        self.at = {}
        self.worlds = {}
        self.root = None
        self.motions = False
        self.base = settings()
        self.fds = fds()
        self.files = None
        self.quiet = False

    def world(self, k):
        if self.scn.get("vary") == 0:
            if 0 not in self.worlds:
                self.worlds[0] = world.World(self.scn)
                self.worlds[0].prebuild()
            return self.worlds[0]
        return world.World(varied(self.scn, k))

    def closure(self, w, job, do):
        k = do["op"]
        if k == "gcode":
            return job.to_gcode
        if k == "view":
            v = world.Viewer(do.get("viewer", "cq_editor"))
            if "fails" in do:
                def on_call(i, obj, name):
                    if i >= do["fails"]:
                        raise RuntimeError("viewer")
                v.on_call = on_call
            return lambda: job.show(v.fn)
        if k == "shapes":
            return lambda: job.to_shapes(as_edges=True)
        if k == "save":
            return lambda: job.save_gcode(os.path.join(self.d, "p.nc"))
        if k == "save_missing":
            return lambda: job.save_gcode(os.path.join(self.d, "missing", "p.nc"))
        if k == "save_dir":
            return lambda: job.save_gcode(self.d)
        f = w.bind(do)
        return lambda: f(job)

    def rep(self, k):
        """Steps used by each call."""
        w = self.world(k)
        job = self.root if self.root is not None else world.make_job(varied(self.scn, k)["job"])
        if self.scn.get("vary") == 0:
            self.root = job
        used = []
        for n, e in enumerate(self.scn["calls"]):
            do = shifted(e["do"], self.scn, k)
            call = self.closure(w, job, do)
            f = e.get("fault")
            kw, sw = {}, {}
            if f and k == 0:
                # where the disturbance goes: looked up in an undisturbed call
                try:
                    with kernel.window(trace=True) as kwin, steps.window(trace=True, guards=True) as swin:
                        call()
                except Exception:
                    pass
                p = faulty.resolve(f, {"lines": [f"{a}:{b}" for a, b in swin.lines], "lguard": swin.guards, "calls": kwin.calls, "kguard": kwin.guarded})
                self.at[n] = p and ({a: b for a, b in p[0].items() if a != "exc"}, {a: b for a, b in p[1].items() if a != "fault"}, p[2])
            if f and self.at.get(n):
                kw, sw, name = self.at[n]
                kw = {**kw, "exc": kernel.make(name, "simulated")} if kw else {}
                sw = {**sw, "fault": kernel.make(name, "simulated")} if sw else {}
            res, err = None, None
            try:
                with kernel.window(**kw) as kwin, steps.window(**sw) as swin:
                    res = call()
            except steps.OutOfSteps:
                raise Violation("no-progress", f"{short(str(do))} does not end")
            except (Exception, KeyboardInterrupt) as x:
                err = type(x).__name__
                del x
            used.append(swin.steps + kwin.count)
            if k < 2 or not self.quiet:
                self.st.inc("steps", swin.steps)
                self.st.inc("call:" + do["op"] + (":failed" if err else ""))
                if kwin.fired or swin.fired:
                    self.st.inc("fault:" + ("kernel " if kwin.fired else "interrupt ") + str(self.at[n][2]))
            interrupted = swin.fired is not None
            del kw, sw, call
            what = f"repetition {k}: {short(str(do), 120)}" + (f" (disturbed by {self.at[n][2]})" if f and self.at.get(n) else "") + \
                (f" raising {err}" if err else "")
            compare_settings(self.base, settings(), what)
            if not interrupted:
                self.leftovers(what)
            else:
                self.fds = fds()
                self.files = sorted(os.listdir(self.d))
            if res is not None and do["op"] in ("profile", "wire_profile", "pocket", "drill", "surface3d"):
                job = res
            if res is not None and not self.motions and isinstance(res, str) or do["op"] in ("drill",) and not err:
                self.motions = True
            del res
        t = job.to_gcode()
        if "\nG1" in t or "\nG0" in t:
            self.motions = True
        return used

    def leftovers(self, what):
        f = fds()
        if len(f) > len(self.fds):
            raise Violation("descriptor", f"{what} leaves a descriptor open: {short(str([x for x in f if x not in self.fds] or f), 200)}")
        files = sorted(os.listdir(self.d))
        before = self.files or []
        extra = [x for x in files if x not in before and x != "p.nc"]
        if extra:
            raise Violation("file", f"{what} leaves files behind: {extra}")
        if os.listdir(self.cwd):
            raise Violation("file", f"{what} leaves files in the working directory: {os.listdir(self.cwd)}")
        if os.listdir(self.tmp):
            raise Violation("file", f"{what} leaves temporary files: {os.listdir(self.tmp)}")


def growing(xs, n=6):
    """Whether each of the last n repetitions added to it."""
    return len(xs) > n and all(b > a for a, b in zip(xs[-n - 1:], xs[-n:]))


def threads(scn, st):
    """Calls of several threads at once: settings swapped for the time of a call are swapped back in any order."""
    ths = scn.get("threads", [])
    n = len(ths)
    st.trivial = True
    if n == 0:
        return
    lines = must_fork(c04.serial, scn, list(range(n)))["lines"]
    total = sum(len(x) for x in lines)
    plans = []
    for p in scn.get("pairs", []):
        # (every function alike, every line of it alike)
        places = [c16.place(p, l)[0] for l in lines]
        if None not in places:
            plans.append({"first": 0, "sched": [{"th": 0, "n": places[0], "to": 1}, {"th": 1, "n": places[1], "to": 0}] +
                          ([{"th": p["loc"] % n, "n": places[p["loc"] % n] + 1, "exc": p["exc"]}] if p.get("exc") else [])})
    if "pairs" not in scn:
        plans.append(c04.placed(scn.get("plan", {}), lines))
    w, root = c04.start(scn)
    count = 0
    outs, logs = [], []
    with c04.Dirs(n) as d:
        for plan in plans:
            T = [c04.Thread(w, root, s, d, k) for k, s in enumerate(ths)]
            base = settings()
            with steps.window(limit=20 * total + 200000) as win:
                sc = sched.Sched(T, plan, total)

                def make(e, T=T, sc=sc):
                    T[sc.cur.i].stopped = e
                    return kernel.make(e, "simulated")

                sc.make = make
                sc.where = []
                sc.run()
            for t in sc.threads:
                t.join(10)
            compare_settings(base, settings(), f"{n} threads with {sc.switches} switches between them ({', '.join(s['do']['op'] for x in ths for s in x.get('steps', []))}; "
                             + ", ".join(f"{a} {b}->{c}" for a, b, c in sc.where[:3]) + ")")
            st.inc("steps", win.steps)
            st.inc("fault:thread switch", sc.switches)
            for _, e in sc.raised:
                st.inc("fault:in one thread " + e)
            count += sc.switches
            logs.append(sc.log)
            outs.append([t.out for t in T])
    st.log(logs, outs)
    st.cover("threads", [s["do"]["op"] for x in ths for s in x.get("steps", [])], count > 5)
    st.trivial = count < 2


def run(scn, st):
    unusual()
    if "threads" in scn:
        return threads(scn["threads"], st)
    root = tempfile.mkdtemp(prefix="cqsim")
    try:
        d, cwd, tmp = (os.path.join(root, x) for x in ("out", "cwd", "tmp"))
        for x in (d, cwd, tmp):
            os.mkdir(x)
        os.chdir(cwd)
        os.environ["TMPDIR"] = tmp
        tempfile.tempdir = tmp
        session(scn, st, d, cwd, tmp)
    finally:
        os.chdir("/")
        import shutil
        shutil.rmtree(root, ignore_errors=True)


def session(scn, st, d, cwd, tmp):
    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    s = Session(scn, st, d)
    s.cwd, s.tmp = cwd, tmp
    # (allocated beforehand: taking notes must not add to what is measured)
    nc = len(scn["calls"])
    B, O, C = array("q", bytes(8 * MORE)), array("q", bytes(8 * MORE)), [array("q", bytes(8 * MORE)) for _ in range(nc)]
    k = 0

    def once():
        nonlocal k, blocks, objects, cost
        blocks = objects = cost = None
        for n, x in enumerate(s.rep(k)):
            C[n][k] = x
        x = None
        B[k], O[k] = held()
        k += 1
        blocks, objects, cost = B[:k].tolist(), O[:k].tolist(), [c[:k].tolist() for c in C]

    blocks, objects, cost = [], [], []

    if scn.get("sweep"):
        return sweep(scn, st, s)
    tracemalloc.start(1)
    if scn.get("vary") == 2:
        # fills caches of bounded size
        j = world.make_job(scn["job"])
        j.drill([cq.Vector(k * 0.37, (k * 17 % 29) * 0.7, 0) for k in range(60)], depth=1)
        del j
    for _ in range(WARM + MEASURE):
        once()
        s.quiet = k > 2
    seen = [n for n, xs in (("blocks of memory", blocks), ("objects", objects)) if growing(xs[WARM:])]
    if seen:
        st.inc("sessions looked at longer")
        n0 = k
        while k < MORE:
            once()
            if not growing(blocks) and not growing(objects):
                break
        for n, xs in (("blocks of memory", blocks), ("objects", objects)):
            # (what fills up, or replaces what was allocated before tracing began, grows less and less)
            if k >= MORE and growing(xs, 100) and xs[-1] - xs[-51] >= 0.6 * (xs[-51] - xs[-101]):
                raise Violation("grows", f"the process holds more {n} after every repetition: {xs[n0 - 1]}, "
                                f"{xs[(n0 + k) // 2]}, {xs[-1]} after {n0}, {(n0 + k) // 2 + 1} and {k} repetitions of {short(json.dumps([e['do'] for e in scn['calls']]), 300)}")
    # no slower
    for n in range(len(scn["calls"])):
        c = cost[n]
        first, last = max(c[:WARM]), min(c[WARM:])
        if last > first * 1.1 + 200 and all(b >= a for a, b in zip(c[-5:], c[-4:])):
            raise Violation("slower", f"call {n} ({short(str(scn['calls'][n]['do']), 100)}) takes {c[:WARM]} steps at first and {c[-4:]} later")
    st.inc("repetitions", k)
    st.trivial = not s.motions or len(scn["calls"]) < 2
    st.log([c[:2] for c in cost], [e["do"] for e in scn["calls"]])
    st.cover([(e["do"]["op"], "fault" in e and e["fault"]["seam"]) for e in scn["calls"]], scn.get("vary"))


def sweep(scn, st, s):
    """One call, disturbed at points spread over all its lines and kernel calls."""
    n = 0
    for e in scn["calls"][:1]:
        w = s.world(0)
        job = world.make_job(scn["job"])
        with kernel.window(trace=True) as kwin, steps.window(trace=True, guards=True) as swin:
            try:
                s.closure(w, job, e["do"])()
            except Exception:
                st.inc("call failed: " + e["do"]["op"])
        tr = {"lines": [f"{a}:{b}" for a, b in swin.lines], "lguard": swin.guards, "calls": kwin.calls, "kguard": kwin.guarded}
        compare_settings(s.base, settings(), short(str(e["do"]), 120))
        for f in scn["sweep"]:
            names = sorted(set(tr["lines" if f["seam"] == "line" else "calls"]))
            f = {**f, "loc": f["loc"] * len(names) // f["of"]}
            p = faulty.resolve(f, tr)
            if p is None:
                continue
            err = None
            with kernel.window(**p[0]) as kwin, steps.window(**p[1]) as swin:
                try:
                    s.closure(w, job, e["do"])()
                except steps.OutOfSteps:
                    raise Violation("no-progress", f"{short(str(e['do']))} does not end")
                except (Exception, KeyboardInterrupt) as x:
                    err = type(x).__name__
                    del x
            st.inc("steps", swin.steps)
            if kwin.fired or swin.fired:
                n += 1
                st.inc("fault:" + ("kernel " if kwin.fired else "interrupt ") + p[2])
            what = f"{short(str(e['do']), 120)} (disturbed by {p[2]} at {p[3].rsplit('/cq_cam/', 1)[-1]})" + (f" raising {err}" if err else "")
            compare_settings(s.base, settings(), what)
            if not swin.fired:
                s.leftovers(what)
            else:
                s.fds, s.files = fds(), sorted(os.listdir(s.d))
            st.log(p[3], err)
        st.cover(e["do"]["op"], e["do"].get("tabs") is not None, "sweep")
    st.inc("points disturbed in sweeps", n)
    st.trivial = n < 2
