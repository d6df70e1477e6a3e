"""C03: one call, disturbed at many drawn points (each in its own forked copy of the same process state);
judged by what the caller is told and by what the returned program cuts."""
import math

from .. import faulty, machine, prog, steps, world
from ..machine import Rejected, cuts
from ..util import Harness, R, Violation, in_fork, short
from .c02 import setup_for

PID = "C03"
LEVEL = "fault_enumeration"
RUNS = {"quick": 700, "thorough": 40000}
RULE = ("A case is a job of 0-2 operations, one call (operation, export, view, save) and 8 drawn faults, each injected alone into "
        "its own forked copy (any executed source line: interrupt, exit, out of memory; any kernel call: that kernel's exceptions, "
        "once or from then on); non-trivial: at least 4 of them fired. Counted by distinct run log.")
COVER = "distinct fault points (call kind, source line or kernel function, exception) and what came of them"
REAL = ["cq_cam (all of it)", "cadquery/OCCT", "pyclipper", "shapely", "numpy", "the host's file system for saves"]
STUBS = ["viewer", "opencamlib"]
ASSUME = ["Exceptions arrive at the start of a source line of cq_cam or at a call into a kernel.",
          "Within rounding: 0.003 units per coordinate, or 0.02 between the swept paths.",
          "Kernel failures inside a drawing are not judged (a drawing is not a program); interrupts are."]


def gen(r: R, i, tier):
    scn = world.gen_world(r)
    scn["ops"] = [world.gen_op(r, scn) for _ in range(r.wpick([(0, 5), (1, 3), (2, 1)]))]
    scn["call"] = faulty.gen_call(r, scn)
    if scn.get("nest") and r.p(0.6):
        scn["call"] = world.gen_op(r, scn, kinds=[("pocket", 1)])
    if scn["call"]["op"] in ("gcode", "view", "shapes", "save") and not scn["ops"]:
        scn["ops"] = [world.gen_op(r, scn)]
    c = scn["call"]
    if "tabs" in c and scn["tabs"][c["tabs"]]["k"] == "edge":
        # a wire offset by nothing keeps its edges, one offset by a millionth (what a failed offset is retried with) may
        # consist of others: tabs tied to edges may then move, which says nothing about the failure
        c.update({k: -1 for k in ("offset", "outer", "inner") if c.get(k) == 0})
    n = 8 if tier == "quick" else 16
    scn["faults"] = [faulty.gen_fault(r) for _ in range(n)]
    for k, f in enumerate(scn["faults"]):
        if f["seam"] == "kernel" and r.p(0.35):
            f["then"] = faulty.gen_then(r)
        # what was said about an earlier failure is no excuse for saying nothing about this one
        if r.p(0.35):
            f["before"] = r.pick([k, k, r.randrange(n)])
    return scn


def swept(text):
    m = machine.Machine(dict(machine.neutral(), f=1.0))
    m.run(text)
    return cuts(m.moves)


def points(cs, n=0.5):
    """Points along the cuts."""
    out = []
    for x in cs:
        a, b = x.a, x.b
        if x.kind == "arc" and x.center is not None and len(x.center) == 2:
            c = x.center
            r = math.hypot(a[0] - c[0], a[1] - c[1])
            t0 = math.atan2(a[1] - c[1], a[0] - c[0])
            t = math.atan2(b[1] - c[1], b[0] - c[0]) - t0
            t = (-t if x.cw else t) % (2 * math.pi) or 2 * math.pi
            k = max(2, min(60, int(r * t / n) + 1))
            s = -1 if x.cw else 1
            for j in range(k + 1):
                out.append((c[0] + r * math.cos(t0 + s * t * j / k), c[1] + r * math.sin(t0 + s * t * j / k),
                            a[2] + (b[2] - a[2]) * j / k))
        else:
            k = max(1, min(60, int(math.dist(a, b) / n) + 1))
            for j in range(k + 1):
                out.append(tuple(a[q] + (b[q] - a[q]) * j / k for q in range(3)))
    return out


def seg_dist(p, segs):
    import numpy as np

    a, d, l2 = segs
    t = np.clip(((p - a) * d).sum(1) / l2, 0, 1)
    return float(np.sqrt((((a + d * t[:, None]) - p) ** 2).sum(1).min()))


def far(ps, qs_poly, tol):
    """A point of ps further than tol from the polyline pieces."""
    import numpy as np

    a = np.array([s[0] for s in qs_poly])
    b = np.array([s[1] for s in qs_poly])
    d = b - a
    l2 = np.maximum((d * d).sum(1), 1e-18)
    for p in ps:
        if seg_dist(np.array(p), (a, d, l2)) > tol:
            return p
    return None


def pieces(cs, n):
    out = []
    for x in cs:
        ps = points([x], n) if x.kind == "arc" else [x.a, x.b]
        out += list(zip(ps, ps[1:]))
    return out


def compare(text, ref, units):
    """None if the program cuts what the undisturbed one cuts."""
    if text == ref:
        return None
    try:
        a, b = swept(text), swept(ref)
    except Rejected as e:
        return f"the controller rejects it: {e}"
    tol = 0.003 * units
    if len(a) == len(b) and all(x.kind == y.kind and math.dist(x.a, y.a) <= tol and math.dist(x.b, y.b) <= tol for x, y in zip(a, b)):
        return None
    if not a or not b:
        return f"{len(a)} cuts instead of {len(b)}" if len(a) != len(b) else None
    key = lambda x: (x.kind, *(round(v, 4) for v in (*x.a, *x.b)))
    ka, kb = {key(x) for x in a}, {key(x) for x in b}
    pa, pb = pieces(a, 0.25 * units), pieces(b, 0.25 * units)
    p = far(points([x for x in b if key(x) not in ka], 0.5 * units), pa, 0.02 * units)
    if p:
        return f"it does not cut at {tuple(round(v, 3) for v in p)} ({len(a)} cuts instead of {len(b)})"
    p = far(points([x for x in a if key(x) not in kb], 0.5 * units), pb, 0.02 * units)
    if p:
        return f"it cuts at {tuple(round(v, 3) for v in p)}, the undisturbed one does not ({len(a)} cuts instead of {len(b)})"
    return None


def one(scn, setup, do, f, tr, limit):
    p = faulty.resolve(f, tr)
    if p is None:
        return None
    kw, sw, name, where = p
    q = faulty.second(scn, setup, do, kw, f["then"], tr, limit) if f.get("then") and kw else None
    if q:
        sw = q[0]
    w = world.World(scn)
    job = setup(w)
    with faulty.Scratch() as d:
        if "before" in f and scn["faults"]:
            b = faulty.resolve(scn["faults"][f["before"] % len(scn["faults"])], tr)
            if b:
                faulty.disturbed(faulty.prepare(w, job, do, d)[0], b[0], b[1], limit)
        call, res = faulty.prepare(w, job, do, d)
        ok, val, exc, k, s, logs = faulty.disturbed(call, kw, sw, limit)
        out = res(val) if ok else None
    if q and s.fired:
        name, where = q[1], f"{q[2]} after {name} at {where}"
    return {"name": name, "where": str(where), "second": bool(q and s.fired), "ok": ok, "exc": type(exc).__name__ if exc is not None else None,
            "fired": bool(k.fired or s.fired), "hits": k.hits, "out": out, "logs": logs, "steps": s.steps,
            "msg": short(str(exc), 200)}


def run(scn, st):
    setup = setup_for(scn)
    do = scn["call"]
    tr = faulty.dry(scn, setup, do)
    limit = 20 * tr["steps"] + 200000
    drawing = do["op"] in ("view", "shapes")
    units = 25.4 if scn["job"].get("unit") == "IMPERIAL" else 1.0
    fired = 0
    for f in scn.get("faults", []):
        if drawing and f.get("then"):
            if f["then"]["exc"] == "MemoryError":
                f = {**f, "then": {**f["then"], "exc": "KeyboardInterrupt"}}
        elif drawing and f["seam"] != "line":
            f = {**f, "seam": "line", "exc": "KeyboardInterrupt"}
        if drawing and f.get("exc") == "MemoryError":
            f = {**f, "exc": "KeyboardInterrupt"}
        stt, v = in_fork(one, scn, setup, do, f, tr, limit, timeout=60)
        if stt != "ok":
            raise Harness(f"{stt}: {v}")
        if v is None:
            continue
        st.inc("steps", v["steps"])
        if not v["fired"]:
            st.inc("fault points not reached")
            continue
        if drawing and f.get("then") and not v["second"]:
            continue
        fired += 1
        if v["second"]:
            st.inc("second fault while the first is dealt with")
        st.inc(f"fault:{f['seam']} {v['name']}", max(1, v["hits"]))
        how = v["exc"] if not v["ok"] else "returned"
        at = f"{v['name']} at {v['where']}" + (" (and every later call of it)" if f.get("persist") else "") + f" in {do['op']}"
        if v["exc"] == "OutOfSteps":
            raise Violation("never-ends", f"{at}: the call does not end within {limit} steps (undisturbed: {tr['steps']})")
        if v["name"] in ("KeyboardInterrupt", "SystemExit"):
            if v["exc"] != v["name"]:
                raise Violation("swallowed", f"{at} does not reach the caller: the call " +
                                ("returns" if v["ok"] else f"raises {v['exc']} ({v['msg']})"))
        elif v["ok"] and not drawing:
            if tr["err"]:
                how = "returned although undisturbed it fails"
                if not v["logs"]:
                    raise Violation("hidden", f"{at}: the call returns a program without a warning, undisturbed it raises {tr['err']}")
            else:
                d = "reported" if v["logs"] and v["out"] != tr["out"] else compare(v["out"], tr["out"], units)
                how = "masked" if d is None else "reported"
                if d is not None and not v["logs"]:
                    raise Violation("hidden", f"{at}: the call returns a program without exception or warning, but {d}")
        st.inc("outcome: " + (how if v["ok"] else "raised"))
        st.cover(do["op"], v["where"], v["name"], how)
        st.log(f, v["where"], how, bool(v["logs"]))
    st.trivial = fired < 4
