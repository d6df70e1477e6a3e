"""C02: a call fails (once or several times in a row, at drawn points), then everything goes on as if
it had never been made."""
from .. import faulty, kernel, steps, world
from ..util import R, Violation, must_fork, short

PID = "C02"
LEVEL = "fault_enumeration"
RUNS = {"quick": 700, "thorough": 40000}
RULE = ("A case is a job of 0-2 operations, one call (operation, export, view, save) disturbed 1-3 times at drawn points "
        "(any executed source line: interrupt, exit, out of memory; any kernel call: that kernel's exceptions, once or "
        "persistently), then the same call undisturbed and a later call; non-trivial: a fault fired and the call raised. "
        "Counted by distinct run log.")
COVER = "distinct fault points (call kind, source line or kernel function, exception)"
REAL = ["cq_cam (all of it)", "cadquery/OCCT", "pyclipper", "shapely", "numpy", "the host's file system for saves"]
STUBS = ["viewer", "opencamlib"]
ASSUME = ["Exceptions arrive at the start of a source line of cq_cam or at a call into a kernel; an interrupt inside a kernel "
          "call is delivered when it returns, as CPython does.",
          "'No longer' is measured in executed source lines and kernel calls."]


def gen(r: R, i, tier):
    scn = world.gen_world(r)
    scn["ops"] = [world.gen_op(r, scn) for _ in range(r.randint(0, 2))]
    scn["call"] = faulty.gen_call(r, scn)
    if scn["call"]["op"] in ("gcode", "view", "shapes", "save") and not scn["ops"]:
        scn["ops"] = [world.gen_op(r, scn)]
    scn["faults"] = [faulty.gen_fault(r) for _ in range(r.randint(1, 3))]
    for f in scn["faults"]:
        if f["seam"] == "kernel" and r.p(0.3):
            f["then"] = faulty.gen_then(r)
    if r.p(0.12):
        # an impatient user: the same again and again
        scn["faults"] = [dict(scn["faults"][0]) for _ in range(r.pick([6, 12, 30]))]
    scn["after"] = world.gen_op(r, scn)
    scn["warm"] = int(r.p(0.4))
    return scn


def setup_for(scn):
    def setup(w):
        w.prebuild()
        job = world.make_job(scn["job"])
        for op in scn.get("ops", []):
            try:
                job = w.apply(job, op)
            except Exception:
                pass
        return job
    return setup


def late(w, job, scn):
    """What later calls give."""
    out = [job.to_gcode()]
    try:
        out.append(w.apply(job, scn["after"]).to_gcode())
    except Exception as e:
        out.append(type(e).__name__)
    out += world.probe(job, scn["job"].get("plane", "xy"))
    return out


def clean(scn, setup):
    w = world.World(scn)
    job = setup(w)
    with faulty.Scratch() as d:
        call, res = faulty.prepare(w, job, scn["call"], d)
        err = None
        try:
            with kernel.window(trace=True) as k, steps.window() as s:
                r = call()
        except Exception as e:
            err = type(e).__name__
        out = None if err else res(r)
    return {"err": err, "out": out, "late": late(w, job, scn), "steps": s.steps, "calls": k.count}


def run(scn, st):
    kernel.K.lines = {}
    setup = setup_for(scn)
    do = scn["call"]
    tr = faulty.dry(scn, setup, do)
    ref = must_fork(clean, scn, setup)
    limit = 20 * ref["steps"] + 200000
    w = world.World(scn)
    job = setup(w)
    # looking at the job may do work that the call would have to do
    before = job.to_gcode() if scn.get("warm", 1) else ref["late"][0]
    st.trivial = True
    with faulty.Scratch() as d:
        for f in scn.get("faults", []):
            p = faulty.resolve(f, tr)
            if p is None:
                continue
            kw, sw, name, where = p
            q = faulty.second(scn, setup, do, kw, f["then"], tr, limit) if f.get("then") and kw else None
            if q:
                sw, name, where = q[0], f"{q[1]} after {name}", f"{q[2]} after {where}"
            call, res = faulty.prepare(w, job, do, d)
            ok, val, exc, k, s, logs = faulty.disturbed(call, kw, sw, limit)
            st.inc("steps", s.steps)
            if isinstance(exc, steps.OutOfSteps):
                raise Violation("no-progress", f"{do} with {name} at {where} did not finish within {limit} steps")
            if k.fired or s.fired:
                st.inc(f"fault:{f['seam']} {name}", max(1, k.hits))
                if q and s.fired:
                    st.inc("second fault while the first is dealt with")
                st.cover(do["op"], where, name)
                if not ok:
                    st.trivial = False
            st.log(f, where, ok, type(exc).__name__)
            if not scn.get("warm", 1) and f is not scn["faults"][-1]:
                continue
            now = job.to_gcode()
            if now != before:
                raise Violation("job-changed", f"{name} at {where} in {do['op']} changed the job it was called on: " + dif(now, before))
        # the cause is gone
        call, res = faulty.prepare(w, job, do, d)
        ok, val, exc, k, s, logs = faulty.disturbed(call, {"trace": True}, {}, limit)
        if isinstance(exc, steps.OutOfSteps):
            raise Violation("no-progress", f"{do} after failures did not finish within {limit} steps")
        st.inc("retries")
        if ok != (ref["err"] is None):
            raise Violation("retry-fails", f"{do} " + (f"raises {type(exc).__name__}: {short(str(exc), 200)}" if not ok else "succeeds") +
                            f" after the failures {where_all(scn, tr)}, undisturbed it " + ("succeeds" if not ref["err"] else "raises " + ref["err"]))
        if ok:
            out = res(val)
            if out != ref["out"]:
                raise Violation("retry-differs", f"{do} after the failures {where_all(scn, tr)} gives something else: " + dif(str(out), str(ref["out"])))
            if s.steps > 1.5 * ref["steps"] + 300 or k.count > 1.5 * ref["calls"] + 20:
                raise Violation("retry-slower", f"{do} takes {s.steps} lines and {k.count} kernel calls after failures, "
                                f"{ref['steps']} and {ref['calls']} undisturbed")
            st.log(out)
    after = late(w, job, scn)
    if after != ref["late"]:
        j = next(j for j in range(len(after)) if after[j] != ref["late"][j])
        raise Violation("later-call", f"after the failures {where_all(scn, tr)} in {do['op']}, later call {j} differs: " +
                        dif(after[j], ref["late"][j]))


def where_all(scn, tr):
    return [faulty.resolve(f, tr)[2:] for f in scn.get("faults", []) if faulty.resolve(f, tr)]


def dif(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return f"at {i}: {a[max(0, i - 60):i + 60]!r} instead of {b[max(0, i - 60):i + 60]!r}"
