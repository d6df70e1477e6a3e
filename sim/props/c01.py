"""C01: grow a tree of jobs from one root with operations, exports, views and failing calls in any
order; every node keeps its program, and equals an isolated replay of its own lineage."""
import os
import tempfile

from .. import kernel, steps, world
from ..util import Pristine, R, Violation

PID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 40000}
RULE = ("A case is a tree of up to 12 calls on one root job (operations with and without a tool, natural and injected "
        "failures, exports, views, saves); non-trivial: at least two jobs derived and at least one of them from an "
        "older job than the newest. Counted by distinct run log (all texts exported).")
COVER = "distinct (tree shape, kinds of calls, tool effect) histories"
REAL = ["cq_cam (all of it)", "cadquery/OCCT", "pyclipper", "shapely", "numpy"]
STUBS = ["opencamlib (drop cutter on bounding boxes)", "cq_editor colour helper", "viewer"]
ASSUME = ["Callers use the public interface (Job, Tool, Tabs) and do not assign to a job's attributes."]

CALLS = [("gcode", 2), ("view", 0.7), ("shapes", 0.3), ("save", 0.5)]


def gen(r: R, i, tier):
    scn = world.gen_world(r)
    ops = []
    n = r.randint(2, 7 if tier == "quick" else 12)
    for k in range(n):
        s = {"on": r.randrange(k + 1) if r.p(0.6) else k}
        c = r.random()
        if c < 0.68:
            made = [x["do"] for x in ops if x["do"]["op"] in ("profile", "wire_profile", "pocket", "drill") and x["do"].get("as") != "edge"]
            s["do"] = world.vary(r, scn, r.pick(made)) if made and r.p(0.3) else world.gen_op(r, scn, tools=0.65)
        elif c < 0.8:
            s["do"] = world.gen_bad(r, scn)
            if s["do"].get("sd") == 0.005 and r.p(0.7):
                s["do"] = {"op": "drill", "pts": [[0, 0, 0]], "tool": r.randrange(3)}
        else:
            s["do"] = {"op": r.wpick(CALLS), "viewer": r.pick(["cq_editor", "ocp_vscode"])}
        if r.p(0.12):
            s["fault"] = {"at": r.randrange(25), "exc": r.pick(["ValueError", "RuntimeError", "MemoryError"])}
        elif r.p(0.1):
            s["intr"] = {"at": r.randrange(900), "exc": "KeyboardInterrupt"}
        if r.p(0.2):
            s["edit"] = r.pick([1, 2])  # before or after the new job is exported for the first time
        ops.append(s)
    if r.p(0.03):  # one job used for very much work
        on, do = r.randrange(n), world.gen_op(r, scn, kinds=[("profile", 3), ("wire_profile", 1), ("drill", 1), ("pocket", 1)], tabs=0.2)
        if do["op"] == "profile":
            do["sd"] = r.pick([0.1, 0.05, 0.05])
        for _ in range(r.randint(3, 6) if "sd" in do else r.randint(8, 30)):
            ops.insert(n - 1, {"on": on, "do": dict(do)})
    if r.p(0.03):
        # many branches, and a long one
        cheap = [world.gen_op(r, scn, kinds=[("drill", 3), ("wire_profile", 1)], tools=0.6, tabs=0) for _ in range(3)]
        for k in range(r.pick([8, 20, 40])):
            ops.append({"on": len(ops) if r.p(0.8) else r.randrange(len(ops) + 1), "do": dict(r.pick(cheap))})
    scn["steps"] = ops
    scn["fail"] = r.choice([0, -1, 1])
    scn["look"] = [r.randrange(100) for _ in range(3)]
    return scn


def call(w, job, do):
    k = do["op"]
    if k == "gcode":
        job.to_gcode()
        return None
    if k == "view":
        job.show(world.Viewer(do.get("viewer", "cq_editor")).fn)
        return None
    if k == "shapes":
        job.to_shapes(as_edges=True)
        return None
    if k == "save":
        d = tempfile.mkdtemp(prefix="cqsim")
        try:
            job.save_gcode(os.path.join(d, "p.nc"))
        finally:
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
            os.rmdir(d)
        return None
    return w.apply(job, do)


def lineage(scn, ops, pl):
    """A fresh root, fresh objects, only the calls that built the node."""
    w = world.World(scn, shared=False)
    job = world.make_job(scn["job"])
    for op in ops:
        job = w.apply(job, op)
    return world.observe(job, pl)


def diff(a, b):
    for k in ("text", "ops", "probe"):
        if a[k] != b[k]:
            x, y = str(a[k]), str(b[k])
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            return f"{k} differs at {i}: {x[max(0, i - 60):i + 60]!r} vs expected {y[max(0, i - 60):i + 60]!r}"
    return None


def run(scn, st):
    with Pristine() as pristine:
        tree(scn, st, pristine)


def tree(scn, st, pristine):
    pl = scn["job"].get("plane", "xy")
    w = world.World(scn, shared=False)
    nodes = [(world.make_job(scn["job"]), [])]
    texts = [world.text(nodes[0][0])]
    branched = False
    w.made = []
    shape, failed = [], []
    for s in scn.get("steps", []):
        i = s.get("on", 0) % len(nodes)
        job, line = nodes[i]
        f, t = s.get("fault"), s.get("intr")
        kw = {}
        if f:
            kw = {"at": f.get("at", 0), "exc": kernel.make(f.get("exc", "ValueError"), "simulated")}
        sw = {}
        if t:
            sw = {"fault_at": t.get("at", 0) + 1, "fault": kernel.make(t.get("exc", "KeyboardInterrupt"), "simulated")}
        new, err = None, None
        try:
            with kernel.window(**kw) as kwin, steps.window(**sw) as win:
                new = call(w, job, s["do"])
        except steps.OutOfSteps as e:
            raise Violation("no-progress", f"{s['do']} did not finish: {e}")
        except (Exception, KeyboardInterrupt) as e:
            err = type(e).__name__
        if s.get("edit") == 1:
            st.inc("times the caller changed its objects afterwards")
            w.wreck()
        st.inc("steps", win.steps)
        if kwin.fired:
            st.inc("fault:kernel " + f.get("exc", "ValueError"))
        if win.fired:
            st.inc("fault:interrupt")
        st.inc("call:" + s["do"]["op"] + (":failed" if err else ""))
        shape.append((i, s["do"]["op"], bool(err), s["do"].get("tool") is not None))
        if err and not (kwin.fired or win.fired) and s["do"]["op"] not in ("gcode", "view", "shapes", "save"):
            failed.append((i, s["do"], err))
        if new is not None:
            if new is job:
                raise Violation("same-job", f"{s['do']} returned the job it was called on")
            if not (kwin.fired or win.fired):
                if i != len(nodes) - 1:
                    branched = True
                nodes.append((new, line + [s["do"]]))
                texts.append(world.text(new))
        if s.get("edit") == 2:
            st.inc("times the caller changed its objects afterwards")
            w.wreck()
        w.made.clear()
        for k, (j, _) in enumerate(nodes):
            tx = world.text(j)
            if tx != texts[k]:
                raise Violation("older-job-changed", f"job {k} changed its program when {s['do']} was called on job {i}"
                                f" ({'failed: ' + err if err else 'succeeded'}): " + difftext(tx, texts[k]))
        st.log(i, s["do"], err, texts[-1])
    st.trivial = not (len(nodes) >= 3 and branched)
    st.cover(shape)
    look = sorted({0, *(k % len(nodes) for k in scn.get("look", [0, 1, 2]))})
    got = {k: None for k in look}
    for k in look:
        want = pristine(lineage, scn, nodes[k][1], pl)
        have = world.observe(nodes[k][0], pl)
        st.inc("lineages compared")
        d = diff(have, want)
        st.log(k, have["text"])
        if d:
            raise Violation("lineage", f"job {k}, built by {len(nodes[k][1])} calls, is not what those calls alone build: " + d)


    if failed and "fail" in scn:
        # a call that fails here fails on a job of the same lineage, too
        i, do, err = failed[scn["fail"] % len(failed)]
        st.inc("failures compared")
        got = pristine(outcome, scn, nodes[i][1], do)
        if got != "fails":
            raise Violation("failure", f"{do} on job {i} fails with {err}, on a job built by the same {len(nodes[i][1])} calls alone it {got}")


def outcome(scn, ops, do):
    w = world.World(scn, shared=False)
    job = world.make_job(scn["job"])
    for op in ops:
        job = w.apply(job, op)
    try:
        w.apply(job, do)
    except Exception:
        return "fails"
    return "succeeds"


def difftext(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return f"at {i}: {a[max(0, i - 60):i + 60]!r} was {b[max(0, i - 60):i + 60]!r}"
