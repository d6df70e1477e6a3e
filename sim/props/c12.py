"""C12: one set of shapes, lists, workplanes, tools, tabs and planes is used for every call of a history
on two jobs, some of which fail; the objects stay what they were, and the programs are those of a
history that makes a fresh equal object for every use."""
import io
import re

import cadquery as cq
from OCP.BRep import BRep_Tool
from OCP.TopLoc import TopLoc_Location

from .. import faulty, kernel, steps, world
from ..util import Pristine, R, Violation, must_fork

PID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 40000}
RULE = ("A case is a history of 3-8 calls on two jobs that share every input object, a third of them disturbed (interrupt at a drawn "
        "line, failing kernel call) or failing naturally; non-trivial: at least two calls returned and used a common object. "
        "Counted by distinct run log.")
COVER = "distinct (calls, forms of input, faults fired) histories"
REAL = ["cq_cam (all of it)", "cadquery/OCCT", "pyclipper", "shapely", "numpy"]
STUBS = ["opencamlib"]
ASSUME = ["A shape is what its vertices, edges, faces, their order, orientation, location, tolerances, triangulation and the numbers of "
          "curves, surfaces and meshes in it are.",
          "The points a tab description computes for the wire in hand are not part of the description."]


def gen(r: R, i, tier):
    scn = world.gen_world(r, ntabs=2 if r.p(0.4) else 1)
    scn["job2"] = {**world.gen_job(r, planes=False), "precision": scn["job"]["precision"]}
    if "plane" in scn["job"]:
        scn["job2"]["plane"] = scn["job"]["plane"]
    st = []
    for k in range(r.randint(3, 6 if tier == "quick" else 10)):
        s = {"j": r.randrange(2), "do": world.gen_op(r, scn, tools=0.6, tabs=0.6,
                                                     kinds=[*world.KINDS[:-1], ("surface3d", 0.7)])}
        if r.p(0.15):
            s["do"] = world.gen_bad(r, scn)
        if r.p(0.3) and st:
            s["do"] = {**s["do"], "sh": st[-1]["do"].get("sh", [0])} if "sh" in s["do"] else s["do"]
        if r.p(0.25):
            s["fault"] = faulty.gen_fault(r)
        st.append(s)
    scn["steps"] = st
    return scn


# ---------------------------------------------------------------------- what an input is
COUNTS = re.compile(r"^(Curve2ds|Curves|Polygon3D|PolygonOnTriangulations|Surfaces|Triangulations) (\d+)", re.M)


def rnd(t, n=9):
    return tuple(round(x, n) + 0.0 for x in t)


def loc_of(s):
    t = s.wrapped.Location().Transformation()
    return rnd([t.Value(i, j) for i in (1, 2, 3) for j in (1, 2, 3, 4)])


def shape(s):
    out = [type(s).__name__, str(s.wrapped.Orientation()), loc_of(s)]
    for v in s.Vertices():
        out.append(("v", rnd(v.toTuple()), round(BRep_Tool.Tolerance_s(v.wrapped), 9)))
    for e in s.Edges():
        a, b = e._bounds()
        out.append(("e", e.geomType(), str(e.wrapped.Orientation()), round(a, 9), round(b, 9), rnd(e.startPoint().toTuple()),
                    rnd(e.positionAt(0.5).toTuple()), rnd(e.endPoint().toTuple()), round(BRep_Tool.Tolerance_s(e.wrapped), 9)))
    for f in s.Faces():
        out.append(("f", f.geomType(), str(f.wrapped.Orientation()), rnd(f.Center().toTuple()), rnd(f.normalAt().toTuple()),
                    "meshed" if BRep_Tool.Triangulation_s(f.wrapped, TopLoc_Location()) is not None else "not meshed"))
    b = io.BytesIO()
    s.exportBrep(b)
    out.append(COUNTS.findall(b.getvalue().decode()))
    extra = {k: repr(v) for k, v in sorted(vars(s).items()) if k != "wrapped"}
    return out + [extra]


def plane(p):
    return [rnd(p.origin.toTuple()), rnd(p.xDir.toTuple()), rnd(p.zDir.toTuple()),
            rnd(p.fG.transposed_list()), rnd(p.rG.transposed_list())]


TABS = ("width", "height", "spacing", "only", "count")


def snap(x):
    if isinstance(x, cq.Shape):
        return shape(x)
    if isinstance(x, cq.Workplane):
        return ["wp", [id(o) for o in x.objects], [snap(o) for o in x.objects], plane(x.plane), [id(o) for o in x.ctx.pendingWires],
                [id(o) for o in x.ctx.pendingEdges], sorted(x.ctx.tags), id(x.parent)]
    if x is None or isinstance(x, (int, float, str)):
        return repr(x)
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [id(o) for o in x], [snap(o) for o in x]]
    if isinstance(x, cq.Vector):
        return rnd(x.toTuple())
    if isinstance(x, cq.Plane):
        return plane(x)
    n = type(x).__name__
    if n.endswith("Tabs"):
        return [n, {k: repr(getattr(x, k)) for k in TABS if hasattr(x, k)}]
    if n == "Tool":
        return [n, x.tool_diameter, x.tool_number, x.feed, x.speed]
    return [n, {k: repr(v) for k, v in sorted(vars(x).items()) if not k.startswith("_")}]


def jobs_of(scn, top=None):
    if top is None or scn["job"].get("plane") != scn["job2"].get("plane"):
        return [world.make_job(scn["job"], top), world.make_job(scn["job2"])]
    return [world.make_job(scn["job"], top), world.make_job(scn["job2"], top)]


def fresh(scn, dropped):
    """The history without the disturbed calls, a new equal object for every use."""
    w = world.World(scn, shared=False)
    jobs = jobs_of(scn)
    out = []
    for k, s in enumerate(scn["steps"]):
        if k in dropped:
            out.append(None)
            continue
        i = s.get("j", 0) % 2
        try:
            jobs[i] = w.apply(jobs[i], s["do"])
            out.append(jobs[i].to_gcode())
        except Exception as e:
            out.append(type(e).__name__)
    return out


def run(scn, st):
    with Pristine() as pristine:
        history(scn, st, pristine)


def history(scn, st, pristine):
    w = world.World(scn)
    w.prebuild()
    w.cache[("plane", 0)] = world.plane(scn["job"].get("plane", "xy"))
    snaps = {k: snap(v) for k, v in w.cache.items()}
    jobs = jobs_of(scn, w.cache[("plane", 0)])
    outs, dropped, hist = [], [], []
    used = 0
    for n, s in enumerate(scn.get("steps", [])):
        i = s.get("j", 0) % 2
        do = s["do"]
        call = w.bind(do)
        for k, v in w.cache.items():
            if k not in snaps:
                snaps[k] = snap(v)
        kw, sw, name = {}, {}, None
        if s.get("fault"):
            tr = must_fork(trace, w, jobs[i], do)
            p = faulty.resolve(s["fault"], tr)
            if p:
                kw, sw, name, where = p
        ok, val, exc, kwin, swin, logs = faulty.disturbed(lambda: call(jobs[i]), kw, sw, 30_000_000)
        st.inc("steps", swin.steps)
        fired = bool(kwin.fired or swin.fired)
        if isinstance(exc, steps.OutOfSteps):
            raise Violation("never-ends", f"call {n} ({do}) does not end")
        if fired:
            st.inc("fault:" + name)
            dropped.append(n)
            outs.append(None)
        elif ok:
            jobs[i] = val
            outs.append(val.to_gcode())
            used += 1
        else:
            outs.append(type(exc).__name__)
        st.inc("call:" + do["op"] + ("" if ok else ":failed"))
        hist.append((i, do["op"], do.get("as"), do.get("tabs") is not None, name if fired else None, ok))
        for k, v in w.cache.items():
            now = snap(v)
            if now != snaps[k]:
                raise Violation("input-changed", f"call {n} ({do}" + (f", {name} at {where}" if fired else "") +
                                f") changed the caller's {k[0]} {k[1:]}: " + dif(now, snaps[k]))
        st.inc("inputs compared", len(w.cache))
    st.cover(hist)
    st.trivial = used < 2
    ref = pristine(fresh, scn, dropped)
    st.log(hist, outs)
    for n, (a, b) in enumerate(zip(outs, ref)):
        if a != b:
            raise Violation("reuse", f"call {n} ({scn['steps'][n]['do']}) gives something else with objects that were used before "
                            "than with fresh equal ones: " + dif(a, b))


def trace(w, job, do):
    call = w.bind(do)
    try:
        with kernel.window(trace=True) as kw, steps.window(trace=True, guards=True) as sw:
            call(job)
    except Exception:
        pass
    return {"kguard": kw.guarded, "lguard": sw.guards, "lines": [f"{f.rsplit('/cq_cam/', 1)[-1]}:{l}" for f, l in sw.lines],
            "calls": kw.calls}


def dif(a, b):
    a, b = (a if isinstance(a, str) else repr(a)), (b if isinstance(b, str) else repr(b))
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return f"at {i}: {a[max(0, i - 60):i + 60]!r} instead of {b[max(0, i - 60):i + 60]!r}"
