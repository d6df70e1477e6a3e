"""C16: calls made in the middle of other calls of the same thread (signal handlers, GUI events, finalisers), and
processes forked in the middle of calls of any number of threads; each call has to return what it returns by itself."""
import ast
import functools
import json
import os

from .. import boot, kernel, sched, steps, world
from ..steps import FAR, S
from ..util import Harness, R, Violation, in_fork, must_fork
from . import c04
from .c04 import Dirs, Thread, dif, gen_call, start

PID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 40000}
RULE = ("A case is 1-3 calls on a shared job, its branches, shared shapes, lists, tools and tabs, with 1-3 further calls made at drawn "
        "source lines inside of them (in half of the cases), or 1-3 threads in the middle of calls and a process forked at a drawn "
        "source line, which makes 1-3 calls; non-trivial: a call was made inside another. Counted by distinct run log.")
COVER = "distinct (call, source line inside of it, call made there or in the process forked there)"
REAL = ["cq_cam (all of it)", "cadquery/OCCT", "pyclipper", "shapely", "numpy", "CPython threads (one released at a time)", "os.fork",
        "the host's file system for saves"]
STUBS = ["viewer", "opencamlib"]
ASSUME = ["Calls are made and processes forked at the start of source lines of cq_cam, not inside a kernel call.",
          "Locks made by cq_cam are simulated: one that can not be had any more is reported instead of waited for.",
          "Two calls do not save to the same file at once (that is C09)."]


def gen(r: R, i, tier):
    scn = world.gen_world(r, nshapes=2, ntools=2, ntabs=1 if r.p(0.6) else 2)
    scn["ops"] = [world.gen_op(r, scn) for _ in range(r.wpick([(0, 4), (1, 4), (2, 2)]))]
    step = lambda: {"on": 0 if r.p(0.6) else r.randrange(3), "do": gen_call(r, scn)}
    point = lambda n: {"th": r.randrange(n), "loc": r.randrange(10000), "occ": r.randrange(10000)}
    if r.p(0.55):
        n = 1
        scn["threads"] = [{"steps": [step() for _ in range(r.wpick([(1, 5), (2, 3), (3, 1)]))]}]
        scn["within"] = []
        s = None
        for _ in range(r.wpick([(1, 1), (8, 4), (24, 4)])):
            if s is None or r.p(0.08):
                s = step()
                if r.p(0.6):
                    # the call it is in the middle of, once more, or one like it
                    s["do"] = again(r, scn, r.pick(scn["threads"][0]["steps"])["do"])
            scn["within"].append({**point(1), **s})
        if r.p(0.3):
            own = scn["within"][0]["own"] = {"precision": r.pick([1, 2]), "tool_diameter": r.pick([1.0, 2.0, 3.0])}
            if r.p(0.5):
                # a job elsewhere
                own["plane"] = r.pick(list(world.PLANES))
                own["ops"] = [{"op": "drill", "sh": [0], "pts": [[1, 2, 0], [3, -4, 0]], "depth": 1}]
                own["unit"] = r.pick(["METRIC", "IMPERIAL"])
                do = scn["within"][0]["do"] = r.pick([{"op": "view", "viewer": r.pick(["cq_editor", "ocp_vscode"])}, {"op": "shapes"},
                                                      {"op": "gcode"}, dict(own["ops"][0])])
                if r.p(0.6) and do["op"] != "drill":
                    # in the middle of the same done elsewhere
                    scn["threads"][0]["steps"][0] = {"on": 0, "do": dict(do)}
                    while len(scn["ops"]) < 2:
                        scn["ops"].append(world.gen_op(r, scn))
                if r.p(0.5):
                    for s in scn["within"]:
                        s["own"], s["do"] = own, do
    else:
        n = r.wpick([(1, 3), (2, 5), (3, 2)])
        scn["threads"] = [{"steps": [step() for _ in range(r.wpick([(1, 5), (2, 3)]))]} for _ in range(n)]
        # every thread is left in the middle of something
        order = list(range(n))
        r.shuffle(order)
        scn["plan"] = {"first": order[0], "sched": [{**point(n), "th": a, "to": b} for a, b in zip(order, order[1:])]}
        scn["fork"] = {"points": [{**point(n), "th": order[-1]} for _ in range(r.wpick([(1, 2), (3, 4), (5, 3)]))],
                       "steps": [step() for _ in range(r.wpick([(1, 4), (2, 3), (3, 1)]))]}
        if r.p(0.6):
            scn["fork"]["steps"][0]["do"] = again(r, scn, r.pick(scn["threads"][r.pick(order)]["steps"])["do"])
    return scn


def again(r, scn, do):
    do = dict(do)
    if r.p(0.2) and do["op"] in ("profile", "wire_profile", "pocket", "drill") and do.get("as") != "edge":
        return world.vary(r, scn, do)
    if r.p(0.5):
        if "sh" in do:
            do["sh"] = [r.randrange(len(scn["shapes"])) for _ in do["sh"]]
        if "pts" in do:
            do["pts"] = [[x + 1, y - 2, z] for x, y, z in do["pts"]]
    return do


@functools.lru_cache(None)
def functions(file):
    """The innermost function each line of a file belongs to."""
    out = {}
    with open(os.path.join(boot.SRC, "cq_cam", file)) as f:
        tree = ast.parse(f.read())
    for x in sorted((x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.Lambda))), key=lambda x: x.lineno):
        for l in range(x.lineno, x.end_lineno + 1):
            out[l] = x.lineno
    return out


def place(p, lines):
    """The step of a drawn point, given the lines its thread executes: every function alike, every line of it alike."""
    if not lines:
        return None, None
    by = {}
    for l in set(lines):
        f, _, n = l.rpartition(":")
        by.setdefault((f, functions(f).get(int(n), 0) if f.endswith(".py") else 0), []).append(l)
    locs = sorted(by[sorted(by)[p.get("loc", 0) % len(by)]])
    loc = locs[p.get("loc", 0) // len(by) % len(locs)]
    at = [i for i, l in enumerate(lines) if l == loc]
    return at[p.get("occ", 0) % len(at)] + 1, loc


def solo(scn):
    """Every thread's calls, one after another, then the calls to be made inside, each by itself."""
    w, root = start(scn)
    ths = scn["threads"]
    outs, lines = [], []
    with Dirs(len(ths) + 1) as d:
        for k, spec in enumerate(ths):
            t = Thread(w, root, spec, d, k)
            with steps.window(trace=True) as win:
                t()
            outs.append(t.out)
            names = {x: f"{x[0].rsplit('/cq_cam/', 1)[-1]}:{x[1]}" for x in set(win.lines)}
            lines.append([names[x] for x in win.lines])
        inner = []
        done = {}
        for g in groups(scn):
            k = json.dumps(g, sort_keys=True)
            if k not in done:
                t = Thread(w, root, g, d, len(ths))
                t()
                done[k] = t.out
            inner.append(done[k])
    return {"outs": outs, "lines": lines, "inner": inner, "late": c04.late(w, root, scn)}


def groups(scn):
    """The calls made inside others, as descriptions of threads."""
    out = [{"steps": [{"on": s.get("on", 0), "do": s["do"]}], **({"own": s["own"]} if s.get("own") else {})} for s in scn.get("within", [])]
    if scn.get("fork"):
        out.append({"steps": scn["fork"].get("steps", [])})
    return out


def compare(T, inner, ls, ref, st, desc):
    for k, t in enumerate(T):
        bad = c04.judge([t], ref["late"], {"outs": [ref["outs"][k]], "late": ref["late"]})
        if bad:
            raise Violation("outer", f"{desc}: the interrupted call: {bad[1]}")
    for g, (out, want) in enumerate(zip(inner, ref["inner"])):
        if out is not None and out != want:
            i = next((i for i in range(min(len(out), len(want))) if out[i] != want[i]), None)
            raise Violation("inner", f"{desc}: the call made there gives something else than by itself: " +
                            (dif(out[i], want[i]) if i is not None else f"{len(out)} results instead of {len(want)}"))
    if ls != ref["late"]:
        j = next(j for j in range(len(ls)) if ls[j] != ref["late"][j])
        raise Violation("afterwards", f"{desc}: afterwards a call on the shared job differs: {dif(ls[j], ref['late'][j])}")


def nested(scn, st, ref):
    lines = ref["lines"][0]
    todo = []
    for g, p in enumerate(scn["within"]):
        at, loc = place(p, lines)
        if at is not None:
            todo.append([at, g, loc])
    todo.sort()
    limit = 20 * len(lines) + 200000
    w, root = start(scn)
    inner = [None] * len(scn["within"])
    gs = groups(scn)
    where = []
    with Dirs(2) as d:
        t = Thread(w, root, scn["threads"][0], d, 0)
        state = {"dead": None}

        def hook():
            while todo and todo[0][0] <= S.count:
                at, g, loc = todo.pop(0)
                x = Thread(w, root, gs[g], d, 1)
                try:
                    x()
                except sched.Deadlock as e:
                    state["dead"] = f"{gs[g]['steps'][0]['do']['op']} at {loc}: {e}"
                    raise
                inner[g] = x.out
                where.append((t.now, loc, gs[g]["steps"][0]["do"]["op"]))
            S.hook_at = todo[0][0] if todo else FAR
            S.arm()

        with steps.window(limit=limit) as win:
            S.hook = hook
            S.hook_at = todo[0][0] if todo else FAR
            S.arm()
            dead = None
            try:
                t()
            except sched.Deadlock as e:
                dead = state["dead"] or str(e)
            except steps.OutOfSteps:
                raise Violation("never-ends", f"calls made inside others {where}: the interrupted call does not end within {limit} steps "
                                f"(by itself {len(lines)})")
            finally:
                S.hook = None
    st.inc("steps", win.steps)
    for a, b, c in where:
        st.inc(f"fault:call inside {a}")
        st.cover(a, b, c)
    desc = "; ".join(f"in {a} at {b}: {c}" for a, b, c in where)
    if dead:
        raise Violation("deadlock", f"{desc}; {dead}")
    ls = c04.late(w, root, scn)
    st.log(where, t.out, inner)
    st.trivial = not where
    compare([t], inner, ls, ref, st, desc)


def forked(scn, st, ref):
    ths = scn["threads"]
    n = len(ths)
    lines = ref["lines"]
    total = sum(map(len, lines))
    f = scn["fork"]
    at = []
    for p in f.get("points", []):
        k = p.get("th", 0) % n
        a, loc = place(p, lines[k])
        if a is not None:
            at.append((a, k, loc))
    plan = {"first": scn.get("plan", {}).get("first", 0), "sched": []}
    for p in scn.get("plan", {}).get("sched", []):
        a, _ = place(p, lines[p.get("th", 0) % n])
        if a is not None:
            plan["sched"].append({**p, "th": p.get("th", 0) % n, "n": a})
    plan["sched"] += [{"th": k, "n": a, "exc": "fork", "loc": loc} for a, k, loc in at]
    limit = 20 * total + 200000
    w, root = start(scn)
    got, busy, where = [], [], []
    with Dirs(n + 1) as d:
        T = [Thread(w, root, s, d, j) for j, s in enumerate(ths)]

        def child():
            sched.current = None
            S.hook = None
            x = Thread(w, root, groups(scn)[-1], d, n)
            try:
                x()
            except sched.Deadlock as e:
                return "deadlock", f"{x.now}: {e}"
            return "ok", x.out

        with steps.window(limit=limit) as win:
            sc = Forker(T, plan, total)
            sc.where = where

            def fork(loc):
                busy.append([(t.now, "running" if sc.tasks[j] is sc.cur else "waiting") for j, t in enumerate(T)
                            if t.now and not sc.tasks[j].done and sc.tasks[j].steps()])
                got.append((loc, len(where), *in_fork(child, timeout=60)))

            sc.fork = fork
            sc.run()
        for t in sc.tasks:
            if isinstance(t.exc, steps.OutOfSteps):
                raise Violation("never-ends", f"not finished within {limit} steps (one after another: {total})")
            if t.exc is not None and not sc.deadlock:
                raise Harness(f"{type(t.exc).__name__}: {t.exc}")
        if sc.deadlock:
            raise Violation("deadlock", "the threads wait for each other for good")
    st.inc("steps", win.steps)
    inners = []
    for b, (loc, sw, x, v) in zip(busy, got):
        st.inc("fault:fork")
        st.inc(f"forks with {len(b)} threads in the middle of a call")
        st.cover(b, loc, [s["do"]["op"] for s in f.get("steps", [])])
        desc = f"forked at {loc} with threads in the middle of {[a for a, _ in b]}" + (f" ({where[:min(sw, 3)]})" if sw else "")
        if x == "timeout":
            raise Violation("deadlock", f"{desc}: the process forked there does not finish within 60 s")
        if x != "ok":
            raise Violation("fork-fails", f"{desc}: the process forked there ends with {x}: {v}")
        if v[0] == "deadlock":
            raise Violation("deadlock", f"{desc}: the process forked there waits for ever in {v[1]}")
        inners.append(v[1])
        compare([], [v[1]], ref["late"], ref, st, desc)
    ls = c04.late(w, root, scn)
    st.log(busy, [t.out for t in T], inners)
    st.trivial = not any(busy)
    compare(T, [None], ls, ref, st, f"forked at {[g[0] for g in got]}")


class Forker(sched.Sched):
    """Forks where another scheduler would raise."""

    fork = None

    def at_step(self):
        me = self.cur
        while me.points and me.points[0][0] <= me.steps() and me.points[0][1].get("exc") == "fork":
            self.fork(me.points.pop(0)[1]["loc"])
        super().at_step()


def run(scn, st):
    kernel.K.lines = {}
    st.trivial = True
    if not scn.get("threads"):
        return
    ref = must_fork(solo, scn)
    if scn.get("fork"):
        forked(scn, st, ref)
    elif scn.get("within"):
        nested(scn, st, ref)
