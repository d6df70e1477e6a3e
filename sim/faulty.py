"""One call of the library, disturbed at a drawn point of its execution."""
import logging
import os
import tempfile
import warnings

from . import kernel, steps, world
from .util import R, must_fork


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="cqsim")
        return self.d

    def __exit__(self, *a):
        for f in os.listdir(self.d):
            os.unlink(os.path.join(self.d, f))
        os.rmdir(self.d)
        return False


class Logs(logging.Handler):
    """Warnings and errors reported while active."""

    def __enter__(self):
        self.records = []
        self.root = logging.getLogger()
        self.root.addHandler(self)
        self.old = warnings.showwarning
        warnings.simplefilter("always")
        warnings.showwarning = lambda m, c, *a, **k: self.records.append("warning: " + str(m))
        return self

    def __exit__(self, *a):
        self.root.removeHandler(self)
        warnings.showwarning = self.old
        warnings.simplefilter("ignore")
        return False

    def emit(self, r):
        if r.levelno >= logging.WARNING:
            self.records.append(f"{r.levelname}: {r.getMessage()}")


class Recorder(world.Viewer):
    pass


def what(o):
    """What a drawing shows."""
    if isinstance(o, list):
        return [[round(x, 4) for x in e.Center().toTuple()] for e in o]
    if kernel.K.lines is None:
        return None
    from OCP.gp import gp_Trsf

    from .props import c11
    return [[tuple(round(x, 4) + 0.0 for x in p) for p in ps[::2]] + [c] for ps, c in c11.leaves(o, gp_Trsf(), [])]


def prepare(w, job, do, d):
    """A closure that carries out the call, and one that turns what it returned into text."""
    k = do["op"]
    if k == "gcode":
        return job.to_gcode, lambda r: r
    if k == "view":
        v = world.Viewer(do.get("viewer", "cq_editor"))
        return lambda: job.show(v.fn), lambda r: [[n, what(o)] for o, n in v.calls]
    if k == "shapes":
        return lambda: job.to_shapes(as_edges=True), lambda r: [[round(x, 4) for x in e.Center().toTuple()] for e in r]
    if k == "save":
        p = os.path.join(d, "p.nc")

        def read(r):
            with open(p) as f:
                return f.read()

        return lambda: job.save_gcode(p), read
    f = w.bind(do)
    return lambda: f(job), lambda r: r.to_gcode()


def dry(scn, setup, do):
    """In a fork: the lines and kernel calls an undisturbed call executes, and its result."""

    def go():
        w = world.World(scn)
        job = setup(w)
        with Scratch() as d, Logs() as logs:
            call, res = prepare(w, job, do, d)
            err = None
            try:
                with kernel.window(trace=True) as kw, steps.window(trace=True, guards=True) as sw:
                    r = call()
            except Exception as e:
                err = type(e).__name__
            out = None if err else res(r)
            return {"kguard": kw.guarded, "lguard": sw.guards, "lines": [f"{f.rsplit('/cq_cam/', 1)[-1]}:{l}" for f, l in sw.lines], "calls": kw.calls, "err": err,
                    "out": out, "steps": sw.steps, "logs": logs.records}

    return must_fork(go)


def gen_fault(r: R, kind=None):
    f = gen_fault0(r, kind)
    if r.p(0.4):
        f["g"] = 1  # where a handler of the library could see it, if there is such a point
    return f


def gen_fault0(r: R, kind=None):
    c = r.random()
    if kind == "line" or (kind is None and c < 0.6):
        return {"seam": "line", "loc": r.randrange(10000), "occ": r.randrange(10000),
                "exc": r.wpick([("KeyboardInterrupt", 6), ("SystemExit", 1.5), ("MemoryError", 2.5)])}
    return {"seam": "kernel", "loc": r.randrange(10000), "occ": r.randrange(10000), "e": r.randrange(100),
            **({"persist": 1} if r.p(0.3) else {})}


def resolve(f, tr):
    """(kernel window args, step window args, exception name, where) for a fault, given the dry
    run's trace; None if there is no such point."""
    if f["seam"] == "line":
        lines = tr["lines"]
        if not lines:
            return None
        locs = sorted({l for l, g in zip(lines, tr["lguard"]) if g}) if f.get("g") else []
        locs = locs or sorted(set(lines))
        loc = locs[f.get("loc", 0) % len(locs)]
        at = [i for i, l in enumerate(lines) if l == loc and (not f.get("g") or tr["lguard"][i])]
        at = at or [i for i, l in enumerate(lines) if l == loc]
        i = at[f.get("occ", 0) % len(at)]
        name = f.get("exc", "KeyboardInterrupt")
        return {}, {"fault_at": i + 1, "fault": kernel.make(name, "simulated")}, name, loc
    calls = tr["calls"]
    if not calls:
        return None
    names = sorted({c for c, g in zip(calls, tr["kguard"]) if g}) if f.get("g") else []
    names = names or sorted(set(calls))
    n = names[f.get("loc", 0) % len(names)]
    at = [i for i, c in enumerate(calls) if c == n and (not f.get("g") or tr["kguard"][i])]
    at = at or [i for i, c in enumerate(calls) if c == n]
    i = at[f.get("occ", 0) % len(at)]
    ks = kernel.kinds(n)
    e = ks[f.get("e", 0) % len(ks)]
    kw = {"at": i, "exc": kernel.make(e, "simulated")}
    if f.get("persist"):
        kw["name"] = n
    return kw, {}, e, n


def gen_then(r: R):
    """A second failure, while the library deals with the first one."""
    return {"occ": r.randrange(10000), "any": int(r.p(0.25)), "exc": r.wpick([("KeyboardInterrupt", 5), ("SystemExit", 1.5), ("MemoryError", 2)])}


def second(scn, setup, do, kw, then, tr, limit):
    """Step window args for a failure after the kernel failure kw, at a line only executed because of it (or any line after it);
    None if there is none."""

    def go():
        w = world.World(scn)
        job = setup(w)
        with Scratch() as d:
            call, res = prepare(w, job, do, d)
            k, s = disturbed(call, kw, {"trace": True}, limit)[3:5]
            return [f"{f.rsplit('/cq_cam/', 1)[-1]}:{l}" for f, l in s.lines] if k.fired else None

    lines = must_fork(go)
    if not lines:
        return None
    first = next((i for i, (a, b) in enumerate(zip(lines, tr["lines"])) if a != b), min(len(lines), len(tr["lines"])))
    usual = set(tr["lines"])
    at = [i for i in range(first, len(lines)) if then.get("any") or lines[i] not in usual]
    if not at:
        return None
    i = at[then["occ"] % len(at)]
    name = then["exc"]
    return {"fault_at": i + 1, "fault": kernel.make(name, "simulated")}, name, lines[i]


def disturbed(call, kw, sw, limit=None):
    """Returns (returned, value, exception, kernel window, step window, log records)."""
    if limit:
        sw = {**sw, "limit": limit}
    val, exc, ok = None, None, False
    with Logs() as logs:
        try:
            with kernel.window(**kw) as k, steps.window(**sw) as s:
                val = call()
            ok = True
        except BaseException as e:
            if type(e).__name__ == "SimDead":
                raise
            exc = e
    return ok, val, exc, k, s, logs.records


CALLS = [("op", 6), ("gcode", 1), ("view", 1.2), ("shapes", 0.5), ("save", 1)]


def gen_call(r: R, scn):
    k = r.wpick(CALLS)
    if k == "op":
        return world.gen_op(r, scn, tools=0.5, tabs=0.5)
    return {"op": k, "viewer": r.pick(["cq_editor", "ocp_vscode", "unknown"])}
