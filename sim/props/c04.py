"""C04: two to four threads use the library at once; who runs between two source lines is decided by
the schedule, and every call has to return what it returns when the threads run one after another."""
import os

from .. import faulty, kernel, sched, steps, world
from ..util import Harness, R, Violation, in_fork, must_fork, short

PID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 40000}
RULE = ("A case is 2-4 threads of 1-3 calls each on a shared job, its branches, shared shapes, lists, tools and tabs, and one "
        "schedule (round robin with a quantum of 1-1000 lines, or drawn preemptions at drawn source lines); non-trivial: at least "
        "two switches between unfinished threads. Counted by distinct run log (which includes the schedule).")
COVER = "distinct schedules (sequence of source lines at which control changed hands, kinds of calls running)"
REAL = ["cq_cam (all of it)", "cadquery/OCCT", "pyclipper", "shapely", "numpy", "CPython threads (one released at a time)",
        "the host's file system for saves"]
STUBS = ["viewer", "opencamlib"]
ASSUME = ["Threads change hands at the start of source lines of cq_cam (not inside a line, nor inside a kernel call) and when a lock "
          "made by cq_cam is taken.",
          "'One after another' is judged against the threads run in both orders."]


def gen_call(r: R, scn):
    k = r.wpick([("op", 8), ("bad", 0.7), ("gcode", 1), ("view", 1), ("shapes", 0.4), ("save", 0.6)])
    if k == "op":
        return world.gen_op(r, scn, tools=0.5, tabs=0.6)
    if k == "bad":
        return world.gen_bad(r, scn)
    return {"op": k, "viewer": r.pick(["cq_editor", "ocp_vscode", "unknown"])}


def gen(r: R, i, tier):
    scn = world.gen_world(r, nshapes=2, ntools=2, ntabs=1 if r.p(0.6) else 2)
    scn["ops"] = [world.gen_op(r, scn) for _ in range(r.wpick([(0, 4), (1, 4), (2, 2)]))]
    n = r.wpick([(2, 7), (3, 2), (4, 1)])
    ths = []
    for k in range(n):
        if ths and r.p(0.35):
            b = [{**s} for s in ths[0]["steps"]]  # the same calls in lock step
            for s in b:
                if r.p(0.5) and "sh" in s["do"]:
                    s["do"] = {**s["do"], "sh": [r.randrange(len(scn["shapes"])) for _ in s["do"]["sh"]]}
        else:
            b = [{"on": 0 if r.p(0.5) else r.randrange(3), "do": gen_call(r, scn)} for _ in range(r.wpick([(1, 4), (2, 4), (3, 2)]))]
        t = {"steps": b}
        if r.p(0.35):
            # a job of its own
            t["own"] = {"precision": r.pick([1, 1, 2] if scn["job"]["precision"] == 1 else [1, 2, 3]), "feed": r.pick([200, 77]),
                        "tool_diameter": r.pick([1.0, 2.0, 3.0]), "rapid_height": r.pick([10, 30]), "op_safe_height": r.pick([1, 4])}
        ths.append(t)
    scn["threads"] = ths
    plan = {"first": r.randrange(n)}
    c = r.random()
    if c < 0.3:
        plan["q"] = r.pick([1, 2, 3, 7, 20, 60, 200, 1000])
    elif c < 0.45:
        plan["sched"] = [{"at": r.randrange(100000), "to": r.randrange(n)} for _ in range(r.randint(1, 12))]
    else:
        plan["sched"] = []
        for _ in range(r.wpick([(1, 4), (2, 3), (4, 2), (8, 1)])):
            p = {"th": r.randrange(n), "loc": r.randrange(10000), "occ": r.randrange(10000), "to": r.randrange(n)}
            if r.p(0.4):
                p["for"] = r.pick([1, 2, 5, 20, 100, 1000])
            plan["sched"].append(p)
    if r.p(0.25):
        plan.setdefault("sched", []).append({"th": r.randrange(n), "loc": r.randrange(10000), "occ": r.randrange(10000),
                                             "exc": r.pick(["KeyboardInterrupt", "MemoryError", "RuntimeError"])})
    scn["plan"] = plan
    return scn


def one(w, jobs, s, d):
    """One call; its result as text, and the job it made."""
    job = jobs[s.get("on", 0) % len(jobs)]
    do = s["do"]
    call, res = faulty.prepare(w, job, do, d)
    v = call()
    if do["op"] in ("gcode", "view", "shapes", "save"):
        return repr(res(v)), None
    return v.to_gcode(), v


class Thread:
    def __init__(self, w, root, spec, d, k):
        self.w, self.spec, self.jobs, self.out = w, spec, [root], []
        if spec.get("own"):
            own = dict(spec["own"])
            ops = own.pop("ops", [])
            self.jobs = [world.make_job({**w.scn["job"], **own})]
            for op in ops:
                self.jobs[0] = w.apply(self.jobs[0], op)
        self.d = os.path.join(d, str(k))
        self.now = None
        self.stopped = None

    def __call__(self, task=None):
        for s in self.spec.get("steps", []):
            self.now = s["do"]["op"]
            try:
                r, j = one(self.w, self.jobs, s, self.d)
                if j is not None:
                    self.jobs.append(j)
            except (sched.Deadlock, steps.OutOfSteps):
                raise
            except BaseException as e:
                if type(e).__name__ == "SimDead":
                    raise
                if self.stopped is not None:
                    return
                # the text of an exception may name objects
                r = type(e).__name__
                if os.environ.get("C04DBG"):
                    import traceback; traceback.print_exc()
            if self.stopped is not None:
                return
            self.out.append(r)
        self.now = None


class Dirs(faulty.Scratch):
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        super().__enter__()
        for k in range(self.n):
            os.mkdir(os.path.join(self.d, str(k)))
        return self.d

    def __exit__(self, *a):
        for k in range(self.n):
            p = os.path.join(self.d, str(k))
            for f in os.listdir(p):
                os.unlink(os.path.join(p, f))
            os.rmdir(p)
        return super().__exit__(*a)


def start(scn):
    w = world.World(scn)
    w.prebuild()
    root = world.make_job(scn["job"])
    for op in scn.get("ops", []):
        try:
            root = w.apply(root, op)
        except Exception:
            pass
    return w, root


def late(w, root, scn):
    out = [root.to_gcode()] + world.probe(root, scn["job"].get("plane", "xy"))
    return out


def serial(scn, order):
    w, root = start(scn)
    ths = scn["threads"]
    outs, lines = [None] * len(ths), [None] * len(ths)
    with Dirs(len(ths)) as d:
        for k in order:
            t = Thread(w, root, ths[k], d, k)
            with steps.window(trace=True) as win:
                t()
            outs[k] = t.out
            names = {x: f"{x[0].rsplit('/cq_cam/', 1)[-1]}:{x[1]}" for x in set(win.lines)}
            lines[k] = [names[x] for x in win.lines]
    return {"outs": outs, "lines": lines, "late": late(w, root, scn)}


def placed(drawn, lines):
    """The schedule with drawn places looked up in the lines each thread executes."""
    n = len(lines)
    plan = {k: v for k, v in drawn.items() if k != "sched"}
    plan["sched"] = []
    for p in drawn.get("sched", []):
        if "at" in p:
            plan["sched"].append(p)
            continue
        k = p.get("th", 0) % n
        if not lines[k]:
            continue
        locs = sorted(set(lines[k]))
        loc = locs[p.get("loc", 0) % len(locs)]
        at = [i for i, l in enumerate(lines[k]) if l == loc]
        plan["sched"].append({**p, "th": k, "n": at[p.get("occ", 0) % len(at)] + 1})
    return plan


def run(scn, st):
    kernel.K.lines = {}
    ths = scn.get("threads", [])
    n = len(ths)
    st.trivial = True
    if n == 0:
        return
    ref = must_fork(serial, scn, list(range(n)))
    lines = ref["lines"]
    total = sum(len(x) for x in lines)
    plan = placed(scn.get("plan", {}), lines)
    limit = 20 * total + 200000
    w, root = start(scn)
    where = []
    with Dirs(n) as d:
        T = [Thread(w, root, s, d, k) for k, s in enumerate(ths)]
        with steps.window(limit=limit) as win:
            sc = sched.Sched(T, plan, total)

            def make(e):
                T[sc.cur.i].stopped = e
                return kernel.make(e, "simulated")

            sc.make = make
            sc.where = where
            sc.run()
    st.inc("steps", win.steps)
    st.inc("fault:thread switch", sc.switches)
    for _, e in sc.raised:
        st.inc("fault:in one thread " + e)
    for k, t in enumerate(T):
        st.inc("calls made concurrently", len(t.out))
    st.cover(where[:60], sorted((t.now or "") for t in T), [s["do"]["op"] for x in ths for s in x.get("steps", [])])
    st.log(sc.log, [t.out for t in T], sc.raised)
    st.trivial = sc.switches < 2
    desc = f"{n} threads, {sc.switches} switches" + (f", {sc.raised[0][1]} raised in thread {sc.raised[0][0]}" if sc.raised else "")
    desc += "; control changed hands at " + ", ".join(f"{a} ({b}->{c})" for a, b, c in where[:6]) + ("..." if len(where) > 6 else "")
    if sc.deadlock:
        raise Violation("deadlock", f"{desc}: the threads wait for each other for good")
    for k, t in enumerate(T):
        e = sc.tasks[k].exc
        if isinstance(e, steps.OutOfSteps):
            raise Violation("never-ends", f"{desc}: not finished within {limit} steps (one after another: {total})")
        if e is not None:
            raise Harness(f"thread {k}: {type(e).__name__}: {e}")
    ls = late(w, root, scn)
    bad = judge(T, ls, ref)
    if bad and must_fork(serial, scn, list(range(n))[::-1]) != {**ref}:
        ref2 = must_fork(serial, scn, list(range(n))[::-1])
        if judge(T, ls, ref2) is None:
            bad = None
    if bad:
        raise Violation(bad[0], f"{desc}: {bad[1]}")


def judge(T, ls, ref):
    for k, t in enumerate(T):
        want = ref["outs"][k]
        for i, r in enumerate(t.out):
            if i >= len(want) or r != want[i]:
                return "result", (f"call {i} of thread {k} ({t.spec['steps'][i]['do']['op']}) gives something else than when the threads "
                                  "run one after another: " + dif(r, want[i] if i < len(want) else "nothing"))
        if t.stopped is None and len(t.out) != len(want):
            return "result", f"thread {k} made {len(t.out)} calls instead of {len(want)}"
    if ls != ref["late"]:
        j = next(j for j in range(len(ls)) if ls[j] != ref["late"][j])
        return "afterwards", (("the shared job's program" if j == 0 else "a later call on the shared job") +
                              " differs from what it is after the threads ran one after another: " + dif(ls[j], ref["late"][j]))
    return None


def dif(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return f"at {i}: {a[max(0, i - 60):i + 60]!r} instead of {b[max(0, i - 60):i + 60]!r}"
