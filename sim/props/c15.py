"""C15: calls with parameters at and beyond their edges, on kernels that fail now and then or for good;
each has to end - return or raise - within the steps of an ordinary call times a constant."""
import gc
import json
import math

import cadquery as cq

from .. import ambient, faulty, kernel, saving, simfs, steps, world
from ..simfs import F
from ..util import Harness, R, Violation, in_fork, must_fork, short

PID = "C15"
LEVEL = "exploration"
RUNS = {"quick": 1800, "thorough": 80000}
RULE = ("A case is a job of 0-1 operations and one call (operation, save, view, export) with 0-3 parameters at or beyond the edge of what "
        "makes sense, on kernels, storage and viewers that work, fail once or fail for good; non-trivial: the call differs from an ordinary one or something failed. Counted by distinct run log.")
COVER = "distinct (call, odd parameters, kernel failure) and how the call ended"
REAL = ["cq_cam (all of it)", "cadquery/OCCT", "pyclipper", "shapely", "numpy"]
STUBS = ["opencamlib"]
ASSUME = ["Values that ask for very much work (steps of a nanometre) are not drawn: taking long is then right.",
          "A call is said not to end when it uses 120 times the steps of the ordinary call and 200000 more, or 60 s of wall time where that took under one."]

NAN, INF = "nan", "inf"


def num(x):
    if isinstance(x, str) and x in ("nan", "inf", "-inf"):
        return float(x)
    if isinstance(x, list):
        return tuple(num(y) for y in x)
    return x


ODD = {
    "sd": [0, -1, -0.05, INF, "-inf", NAN, 1e-7, True, 1000, 0.3],
    "so": [0, -0.5, -0.0001, 1e-13, 1e-10, NAN, INF, [0, 0], [0.5, -0.5], [1, -1], [0.5, -3], [0, 0.4], [-1, 3], 5, 1000],
    "outer": [0, NAN, INF, "-inf", 3, -3, [0, 0], [0, -1], -1000],
    "inner": [0, NAN, INF, 3, -3, [0, 0.5], None],
    "ao": [0, NAN, INF, 3, -3],
    "ai": [0, NAN, INF, 3, -3],
    "offset": [0, NAN, INF, 3, -3, -1000],
    "depth": [0, NAN, INF, "-inf", 1e-9, -4],
    "is": [0, -1, NAN, INF, 50],
    "stepover3": [0, -1, NAN, INF, 3],
}
BY = {"profile": ["sd", "outer", "inner"], "wire_profile": ["sd", "offset"], "pocket": ["sd", "so", "so", "so", "outer", "inner", "ao", "ai"],
      "drill": ["depth"], "surface3d": ["is", "stepover3", "sd"]}
JOB = {"tool_diameter": [0, -2, 1e-9, None, NAN, INF, 40], "precision": [0, -1, -4, 2], "feed": [0, NAN, -5], "rapid_height": [0, -5, NAN],
       "op_safe_height": [0, -5, NAN, 100], "name": ["", "x" * 70, "a very long word " + "y" * 300, "(((", "\n\n", "ä" * 90, "a " * 200, "%"]}
TABS = [{"k": "edge", "sp": 4, "w": 0, "h": 1}, {"k": "edge", "sp": 4, "w": -1, "h": 1}, {"k": "edge", "sp": INF, "w": 1, "h": 1},
        {"k": "edge", "sp": 4, "w": 1, "h": 0}, {"k": "edge", "sp": 4, "w": 1, "h": 50}, {"k": "edge", "sp": 1.01, "w": 1, "h": 1},
        {"k": "edge", "sp": 1e-20, "w": -1, "h": 1}, {"k": "edge", "sp": 0, "w": -1, "h": 1}, {"k": "edge", "sp": -1, "w": -2, "h": 1},
        {"k": "edge", "sp": NAN, "w": 1, "h": 1}, {"k": "edge", "sp": 4, "w": NAN, "h": 1}, {"k": "wire", "n": 3, "w": NAN, "h": NAN},
        {"k": "wire", "n": 0, "w": 1, "h": 1}, {"k": "wire", "n": -1, "w": 1, "h": 1}, {"k": "wire", "n": 3, "w": 100, "h": 1},
        {"k": "wire", "n": 3, "w": 0, "h": 1}, {"k": "wire", "n": 40, "w": 1, "h": 1}]
PTS = [[], [[0, 0, 0]] * 6, [[NAN, 0, 0], [1, 1, 0]], [[INF, 0, 0], [0, 0, 0]], [[NAN, NAN, 0], [NAN, NAN, 0], [1, 1, 0]],
       [[0, 0, 0], [1e-12, 0, 0], [0, 1e-12, 0]], [[0.0, 0, 0], [-0.0, 0, 0]]]


OUT = [("save", 5), ("view", 4), ("shapes", 1), ("gcode", 1)]
IO = [k for k, _ in OUT]
FAIL = ["OSError", "RuntimeError", "ValueError", "MemoryError", "TimeoutError"]


def gen_out(r, scn):
    """A program handed out: saved, shown, exported."""
    scn["ops"] = [world.gen_op(r, scn) for _ in range(r.randint(1, 2))]
    do = scn["call"] = {"op": r.wpick(OUT)}
    odd = scn["odd"] = {}
    if r.p(0.4):
        k = r.pick(["precision", "feed", "rapid_height", "op_safe_height", "name", "name"])
        odd["job." + k] = r.pick(JOB[k])
    kern = {"loc": r.randrange(10000), "occ": r.randrange(10000), "e": r.randrange(100), "seam": "kernel", "persist": int(r.p(0.7)), "g": int(r.p(0.6))}
    if do["op"] == "save":
        saving.gen_disk(r, scn)
        n = r.pick([*sorted(simfs.ERRS), "create", "write", "write", "fsync", "rename", "rename", "close"])
        scn["fault"] = {"seam": "disk", "name": n, "err": r.pick(simfs.ERRS[n]), "skip": r.pick([0, 0, 1]), "lasting": int(r.p(0.8))}
        if r.p(0.5):
            # earlier saves that did not come to their end
            scn["earlier"] = [{"k": r.randrange(9), "how": r.pick(["crash", "crash", "interrupt", "error"])} for _ in range(r.pick([1, 1, 2, 3]))]
            if r.p(0.5):
                del scn["fault"]
    elif do["op"] == "view":
        do["viewer"] = r.pick(["cq_editor", "ocp_vscode", "somewhere.else"])
        scn["fault"] = kern if r.p(0.3) else {"seam": "viewer", "at": r.randrange(3), "exc": r.pick(FAIL), "lasting": int(r.p(0.8))}
    else:
        scn["fault"] = kern
    return scn


def gen(r: R, i, tier):
    scn = world.gen_world(r, nshapes=2)
    if r.p(0.14):
        return gen_out(r, scn)
    scn["job"]["precision"] = 1
    scn["ops"] = [world.gen_op(r, scn)] if r.p(0.3) else []
    do = world.gen_op(r, scn, kinds=[("profile", 3), ("wire_profile", 2), ("pocket", 5), ("drill", 1.5), ("surface3d", 0.5)])
    scn["call"] = do
    if r.p(0.3):
        scn["clock"] = {"clock": r.pick([0, 1.7e9, 4e9]), "step": r.pick([0, 1e-6, 5.0]), "jumps": r.pick([0, 0, 3])}
    odd = {}
    for _ in range(r.wpick([(1, 5), (2, 2), (3, 1)])):
        c = r.random()
        if c < 0.65:
            k = r.pick(BY[do["op"]])
            odd[k] = r.pick(ODD[k])
        elif c < 0.83 and do["op"] in ("profile", "wire_profile"):
            odd["tabs"] = r.pick(TABS)
        elif c < 0.8 and do["op"] == "drill":
            odd["pts"] = r.pick(PTS)
        elif c < 0.9:
            k = r.pick(list(JOB))
            odd["job." + k] = r.pick(JOB[k])
        else:
            odd["z"] = r.pick([0, 0.5, -1e-9, -6])
    # together they would just ask for very much
    if odd.get("job.tool_diameter") in (1e-9,) and do["op"] == "pocket":
        odd.setdefault("so", 0)
        if odd["so"] not in (0, [0, 0]):
            odd["so"] = 0
    if odd.get("job.tool_diameter") == 1e-9:
        scn["ops"] = []
    if odd.get("job.tool_diameter") == 40 or odd.get("job.tool_diameter") == INF:
        odd.pop("so", None)
    if odd.get("sd") == 1e-7 and do["op"] != "profile" and do["op"] != "wire_profile":
        odd["sd"] = 0.3
    if odd.get("z") == -6 and (odd.get("sd") in (0.3, True) or do.get("sd")):
        odd.pop("z")
    scn["odd"] = odd
    if r.p(0.3):
        scn["fault"] = {"loc": r.randrange(10000), "occ": r.randrange(10000), "e": r.randrange(100), "seam": "kernel", "persist": int(r.p(0.7)), "g": int(r.p(0.6))}
    return scn


def build(scn, odd):
    """(job, closure of the call)"""
    s = json.loads(json.dumps({k: scn[k] for k in ("job", "shapes", "tools", "tabs")}))
    if "z" in odd:
        for f in s["shapes"]:
            f["z"] = odd["z"]
    for k, v in odd.items():
        if k.startswith("job."):
            s["job"][k[4:]] = num(v)
    do = dict(scn["call"])
    if "tabs" in odd:
        s["tabs"] = [{k: num(v) for k, v in odd["tabs"].items()}]
        do["tabs"] = 0
    if "pts" in odd:
        do["pts"] = [[num(x) for x in p] for p in odd["pts"]]
    w = world.World(s)
    for k, v in odd.items():
        if k in ODD and k != "stepover3":
            do[k] = num(v)
    if do["op"] == "surface3d" and "stepover3" in odd:
        f = w.shape(do)
        so, sd = num(odd["stepover3"]), do.get("sd")
        return world.make_job(s["job"]), lambda job: job.surface3d(o=f, interpolation_step=do.get("is", 2.0), stepover=so, **({"stepdown": sd} if sd is not None else {}))
    try:
        job = world.make_job(s["job"])
    except Exception:
        return None, None
    if do["op"] in IO:
        return job, lambda job: hand_out(scn, do, job)
    return job, lambda job: w.apply(job, do)


class Told:
    """What the storage or the viewer did."""

    fault, fired = None, 0


def hand_out(scn, do, job):
    f = Told.fault
    if do["op"] == "save":
        with saving.Disk(scn) as d:
            for e in scn.get("earlier", []) if f is not None or "fault" not in scn else []:
                unfinished(e, job, d)
            F.count, F.trace = 0, None
            F.faults = [{"kind": "err", "call": f["name"], "n": f["skip"], "err": f["err"], "lasting": f["lasting"]}] if f else []
            try:
                job.save_gcode(d.name())
            finally:
                Told.fired = len(F.fired)
    elif do["op"] == "view":
        v = world.Viewer(do.get("viewer", "cq_editor"))

        def on_call(i, obj, name):
            if f and (i == f["at"] or f["lasting"] and i > f["at"]):
                Told.fired += 1
                raise TimeoutError("simulated") if f["exc"] == "TimeoutError" else kernel.make(f["exc"], "simulated")

        v.on_call = on_call
        job.show(v.fn)
    elif do["op"] == "shapes":
        job.to_shapes(as_edges=True)
    else:
        job.to_gcode()


def unfinished(e, job, d):
    """A save that stops half-way; another process goes on with what it left behind."""
    F.count, F.trace = 0, None
    fault = {"crash": {"kind": "crash"}, "interrupt": {"kind": "exc", "exc": KeyboardInterrupt()}, "error": {"kind": "err", "err": "EIO"}}[e["how"]]
    F.faults = [{**fault, "k": e["k"]}]
    try:
        job.save_gcode(d.name())
    except (simfs.SimCrash, KeyboardInterrupt, OSError):
        pass
    gc.collect()
    if F.dead:
        for fd in list(F.fds):
            simfs.R("close")(fd)
        F.fds.clear()
    F.faults, F.fired, F.dead, F.full, F.after = [], [], False, False, None


def measure(scn):
    """An ordinary call: (steps, kernel calls, trace of kernel calls)."""
    job, call = build(scn, {})
    if scn["call"]["op"] in IO:
        job = before_call(scn, job)
    try:
        with kernel.window(trace=True) as kw, steps.window() as sw:
            call(job)
    except Exception:
        pass
    return sw.steps, kw.count, kw.calls, kw.guarded


def before_call(scn, job):
    for op in scn.get("ops", []):
        w = world.World(scn)
        try:
            job = w.apply(job, op)
        except Exception:
            pass
    return job


def text(job):
    try:
        return job.to_gcode()
    except Exception as e:
        return type(e).__name__


def attempt(scn, kwargs, limit):
    job, call = build(scn, scn["odd"])
    if job is None:
        return {"how": "no such job", "steps": 0, "fired": False}
    job = before_call(scn, job)
    before = text(job)
    how, fired = "returned", False
    f = scn.get("fault")
    Told.fault = f if f and f["seam"] in ("disk", "viewer") else None
    # waiting costs nothing here: who waits for something that never happens uses steps, not time
    ambient.arm(scn.get("clock", {"clock": 1.7e9, "step": 0.01}))
    try:
        with kernel.window(**kwargs) as kw, steps.window(limit=limit) as sw:
            call(job)
    except steps.OutOfSteps as e:
        return {"how": "loop", "steps": sw.steps, "where": str(e), "fired": bool(kw.fired or Told.fired)}
    except Exception as e:
        how = type(e).__name__
    finally:
        ambient.disarm()
    fired = bool(kw.fired or Told.fired)
    Told.fault = None
    same = text(job) == before
    return {"how": how, "steps": sw.steps, "fired": fired, "hits": kw.hits or Told.fired, "same": same, "slept": ambient.A.slept}


def run(scn, st):
    n, _, calls, guards = must_fork(measure, scn)
    limit = 120 * n + 200000
    kwargs = {}
    f = scn.get("fault")
    if f and calls and f["seam"] == "kernel":
        p = faulty.resolve(f, {"lines": [], "lguard": [], "calls": calls, "kguard": guards})
        if p:
            kwargs = p[0]
    odd = scn.get("odd", {})
    told = f and f["seam"] in ("disk", "viewer")
    fname = ""
    if told:
        fname = (f"{f['name']} {f['err']}" if f["seam"] == "disk" else f"viewer {f['exc']}") + (" lasting" if f["lasting"] else "")
    what = f"{short(str(scn['call']), 150)} with {odd}" + (f", {faulty_name(kwargs)}" if kwargs else "") + (", " + fname if told else "")
    stt, v = in_fork(attempt, scn, kwargs, limit, timeout=60)
    if stt == "timeout":
        raise Violation("never-ends", f"{what} has not ended after 60 s (an ordinary call takes {n} steps)")
    if stt == "died":
        st.inc("the kernel crashed")
        st.trivial = True
        return
    if stt != "ok":
        raise Harness(f"{stt}: {v}")
    if v["how"] == "loop":
        raise Violation("never-ends", f"{what} does not end within {limit} steps (an ordinary call takes {n}): {v['where']}")
    if not v.get("same", True):
        raise Violation("job", f"{what} changes the job it was called on")
    st.inc("steps", v["steps"])
    for k in odd:
        st.inc("odd: " + k)
    st.inc("outcome: " + v["how"])
    if v["fired"]:
        st.inc("fault:" + (fname if told else "kernel " + type(kwargs["exc"]).__name__), max(1, v.get("hits", 1)))
    st.log(odd, v["how"], v["steps"])
    st.cover(scn["call"]["op"], odd, v["how"], v["fired"], fname)
    st.trivial = not odd and not v["fired"] and not scn.get("earlier")
    for e in scn.get("earlier", []):
        st.inc("fault:earlier save ended by " + e["how"])
    if v.get("slept"):
        st.inc("simulated seconds slept", round(v["slept"]))


def faulty_name(kw):
    return f"{type(kw['exc']).__name__} at kernel call {kw['at']}" + (f" and every later {kw['name']}" if kw.get("name") else "")
