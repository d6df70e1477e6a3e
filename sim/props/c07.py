"""C07: operations started from drawn positions - after homing, operator jogs at the optional stops,
and power losses at drawn lines followed by a restart at the beginning of an operation."""
from .. import machine, prog, world
from ..machine import Machine, Rejected, cuts, work
from ..util import R, Violation

PID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 60000}
RULE = ("A case is the program of a chain of 1-5 calls, executed with jogs to drawn positions at every optional stop and "
        "operation boundary, and 6 power losses at drawn lines each followed by a restart at the beginning of the running "
        "or a drawn operation; non-trivial: at least two operations that cut. Counted by distinct run log.")
COVER = "distinct (operation kind, heights, tool position class at its start)"
REAL = ["cq_cam (all of it)", "cadquery/OCCT", "pyclipper", "shapely", "numpy"]
STUBS = ["the machine controller is the simulator's RS-274 interpreter", "opencamlib"]
ASSUME = ["On a restart the operator has the controller execute the program's lines before its first operation and then the "
          "program from the first line of the chosen operation.",
          "A retract that ends at or above the safe height counts as a retract also when the tool was higher before.",
          "Parking moves (G30) are not part of an operation."]


def gen(r: R, i, tier):
    scn = world.gen_world(r)
    scn["ops"] = prog.gen_chain(r, scn, r.randint(1, 5), tools=0.5, surface=0.05)
    if r.p(0.04):
        scn["ops"] += prog.gen_long(r, scn)
    scn["events"] = [{"at": r.random(), "op": r.pick([-1, -1, r.randrange(8)]), "pos": gen_pos(r)} for _ in range(6)]
    scn["jogs"] = [gen_pos(r) for _ in range(4)]
    return scn


def gen_pos(r):
    return [r.uniform(-80, 80), r.uniform(-80, 80), r.pick([r.uniform(-20, 0), r.uniform(0, 30), r.uniform(30, 240), 0.0])]


def check_op(moves, spec, name, where, k, first_from):
    """The motions of one operation, executed from first_from."""
    if not moves:
        return
    rh = spec.get("rapid_height")
    sh = spec.get("op_safe_height")
    inch = k != 1.0
    rh = (0.4 if inch else 10) if rh is None else rh
    sh = (0.04 if inch else 1) if sh is None else sh
    safe = min(rh, sh) * k
    f = moves[0]
    eps = 1e-6
    if f.kind != "rapid" or abs(f.a[0] - f.b[0]) > eps or abs(f.a[1] - f.b[1]) > eps:
        raise Violation("first-move", f"{where} starts with a {f.kind} from {work(f, 'a')} to {work(f)}: not a vertical retract")
    if work(f)[2] < safe - eps:
        raise Violation("first-move", f"{where} first retracts only to {work(f)[2]}, safe height {safe}")
    for m in moves:
        if m.kind == "home":
            continue
        a, b = work(m, "a"), work(m)
        if m.kind == "rapid":
            if (abs(a[0] - b[0]) > eps or abs(a[1] - b[1]) > eps) and min(a[2], b[2]) < safe - eps:
                raise Violation("lateral-rapid", f"{where} line {m.line + 1}: rapid sideways at height {min(a[2], b[2]):.4f} "
                                f"below the safe height {safe}")
            if b[2] < -eps:
                raise Violation("rapid-below-surface", f"{where} line {m.line + 1}: rapid to height {b[2]:.4f} below the job surface")


def geo(m, feed=True):
    rd = lambda t: None if t is None else tuple(round(x, 4) + 0.0 for x in t)
    return (m.kind, rd(m.a), rd(m.b), rd(m.center), m.cw, round(m.feed, 6) if feed else None)


def run(scn, st):
    spec = scn["job"]
    job, kept, w = prog.build(scn, st)
    text = world.text(job)
    st.log(text)
    k = 25.4 if spec.get("unit") == "IMPERIAL" else 1.0
    rng = prog.op_ranges(job, text)
    surf = any(o["op"] == "surface3d" for o in kept)
    base = machine.neutral()
    base["f"] = 1.0
    jogs = scn.get("jogs") or [[0, 0, 0]]

    def go(state, start, header_end, jog):
        m = Machine(state)
        nj = [0]

        def stop(mm, c):
            if jog and c == "M1":
                mm.pos = list(jogs[nj[0] % len(jogs)])
                nj[0] += 1
                st.inc("fault:jog at an optional stop")

        m.on_stop = stop
        try:
            m.run(text, 0, header_end)
            if start is not None:
                m.pos = list(state["restart"])
                m.run(text, start)
            else:
                m.run(text, header_end)
        except Rejected as e:
            raise Violation("rejected", f"the controller rejects {e}")
        st.sim_s += m.time
        return m

    head = rng[0][0] if rng else 0

    def per_op(m, where):
        out = []
        for n, (a, b, name) in enumerate(rng):
            mv = [x for x in m.moves if a <= x.line < b and x.kind != "home"]
            out.append(mv)
            check_op(mv, spec, name, f"{where}operation {n} ({name})", k, None)
        return out

    ref = go(base, None, head, False)
    refs = per_op(ref, "")
    motion = [n for n, mv in enumerate(refs) if mv]
    st.trivial = len([n for n in motion if cuts(refs[n])]) < 2
    want = [[geo(x, not surf) for x in cuts(mv)] for mv in refs]
    # operator jogs at every optional stop
    m = go(base, None, head, True)
    for n, mv in enumerate(per_op(m, "after a jog, ")):
        got = [geo(x, not surf) for x in cuts(mv)]
        if got != want[n]:
            raise Violation("jog", f"operation {n} cuts differently after the operator moved the tool at an optional stop: " +
                            first(got, want[n]))
    # each operation from elsewhere; power loss and restart
    nlines = text.count("\n") + 1
    for e in scn.get("events", []):
        cut_at = head + int(e["at"] * (nlines - head))
        p = Machine(dict(base))
        try:
            p.run(text, 0, cut_at)
        except Rejected as x:
            raise Violation("rejected", f"the controller rejects {x}")
        running = next((n for n, (a, b, _) in enumerate(rng) if a <= cut_at < b), None)
        if not rng:
            continue
        n = running if (e["op"] == -1 and running is not None) else e["op"] % len(rng)
        pos = list(p.pos) if e["op"] == -1 else list(e["pos"])
        st.inc("fault:power loss" + ("" if e["op"] == -1 else " and jog"))
        m = go({**base, "restart": pos}, rng[n][0], head, True)
        st.inc("restarts")
        st.cover(kept[-1]["op"] if kept else None, rng[n][2], spec.get("rapid_height"), spec.get("op_safe_height"),
                 -1 if pos[2] < 0 else 0 if pos[2] < 11 else 1)
        res = per_op(m, f"restarted at operation {n} from {[round(v, 2) for v in pos]}, ")
        for q in range(n, len(rng)):
            got = [geo(x, not surf) for x in cuts(res[q])]
            if got != want[q]:
                raise Violation("resume", f"restarted at operation {n} from {pos}, operation {q} cuts differently: " +
                                first(got, want[q]))


def first(a, b):
    j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
    return f"cut {j} is {a[j] if j < len(a) else 'missing'} instead of {b[j] if j < len(b) else 'none'}"
