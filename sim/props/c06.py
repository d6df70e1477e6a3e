"""C06: one program, executed from many leftover controller states."""
import copy

from .. import machine, prog, steps, world
from ..machine import Machine, Rejected, cuts
from ..util import R, Violation

PID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 1000, "thorough": 60000}
RULE = ("A case is a chain of 1-4 calls on a job with drawn unit, work offset, path mode, heights, coolant and plane, whose "
        "program is executed from a neutral controller and from 8 controllers left in drawn states; non-trivial: the "
        "program cuts. Counted by distinct run log.")
COVER = "distinct (leftover modal state, job declarations) pairs executed"
REAL = ["cq_cam (all of it)", "cadquery/OCCT", "pyclipper", "shapely", "numpy"]
STUBS = ["the machine controller is the simulator's RS-274 interpreter", "opencamlib"]
ASSUME = ["A controller accepts the program's opening block in every state (some reject G54/G17 under cutter compensation).",
          "G28/G30 go straight to the stored position; cutter compensation, tool length offset and scaling are checked as "
          "modal state during motion, not as displacement.",
          "G50 is accepted as 'cancel scaling'."]
FIND = {"4": "leftover-arc-centre-mode"}
NAMES = ["Part (2)", "a(b", "x)y", "two\nlines", "Lid; top"]


def gen(r: R, i, tier):
    scn = world.gen_world(r)
    if r.p(0.15):
        scn["job"]["name"] = r.pick(NAMES)
    scn["ops"] = prog.gen_chain(r, scn, r.randint(1, 4), tools=0.4)
    if r.p(0.04):
        scn["ops"] += prog.gen_long(r, scn)
    scn["states"] = [machine.gen_state(r) for _ in range(8 if tier == "quick" else 16)]
    for s in scn["states"][:5]:
        s["modal"]["4"] = "G91.1"
    return scn


UN = {"METRIC": "G21", "IMPERIAL": "G20"}
WC = {"OFFSET_1": "G54", "OFFSET_2": "G55", "OFFSET_3": "G56", "OFFSET_4": "G57", "OFFSET_5": "G58", "OFFSET_6": "G59"}
PM = {"EXACT_PATH": "G61", "EXACT_STOP": "G61.1", "CONTINUOUS": "G64"}


def sig(m):
    rd = lambda t: None if t is None else tuple(round(x, 5) + 0.0 for x in t)
    return (m.kind, rd(m.a), rd(m.b), None if m.feed is None else round(m.feed, 6), rd(m.center), m.cw,
            tuple(sorted((k, v) for k, v in m.raw.items() if k != 14)))


def after_home(moves):
    for i, m in enumerate(moves):
        if m.kind == "home":
            return moves[i + 1:], moves[:i]
    return moves, []


def trace(text, state):
    m = Machine(state)
    try:
        m.run(text)
    except Rejected as e:
        return m, str(e)
    return m, None


def compare(text, base, state):
    """None or (what differs)."""
    m, rej = trace(text, state)
    if rej:
        return m, "rejected", rej
    rest, before = after_home(m.moves)
    if before:
        return m, "early-motion", f"the machine moves before it is parked: line {before[0].line + 1}"
    same_home = {**state, "home": base["home"]}
    m2, rej = trace(text, same_home)
    ref, _ = trace(text, base)
    a, b = [sig(x) for x in after_home(m2.moves)[0]], [sig(x) for x in after_home(ref.moves)[0]]
    if a != b:
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        return m, "motion", f"move {k}: {a[k:k + 1]} instead of {b[k:k + 1]}"
    a, b = [sig(x) for x in cuts(m.moves)], [sig(x) for x in cuts(ref.moves)]
    if a != b:
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        return m, "home", f"cut {k}: {a[k:k + 1]} instead of {b[k:k + 1]}"
    return m, None, None


def run(scn, st):
    spec = scn["job"]
    job, kept, w = prog.build(scn, st)
    text = world.text(job)
    st.log(text)
    base = machine.neutral()
    base["modal"] = {str(k): v for k, v in base["modal"].items()}
    surf = any(o["op"] == "surface3d" for o in kept)
    ref, rej = trace(text, {**base, "f": 1.0 if surf else 0.0})
    if rej:
        raise Violation("rejected", f"a neutral controller rejects {rej}")
    if surf:
        base = {**base, "f": 1.0}
    st.sim_s += ref.time
    st.trivial = not cuts(ref.moves)
    want = (UN[spec.get("unit", "METRIC")], WC[spec.get("coordinate", "OFFSET_1")], PM[spec.get("controller_motion", "CONTINUOUS")])
    for state in scn.get("states", []):
        m, kind, what = compare(text, base, state)
        st.sim_s += m.time
        st.inc("executions")
        for g, v in state["modal"].items():
            if v != base["modal"][g]:
                st.inc("fault:leftover " + v)
        st.cover(state["modal"], want)
        if kind:
            # which single leftover is responsible?
            finding = None
            for g in state["modal"]:
                s2 = copy.deepcopy(state)
                s2["modal"][g] = base["modal"][g]
                if state["modal"][g] != base["modal"][g] and compare(text, base, s2)[1] is None:
                    finding = FIND.get(g) or "leftover-group-" + g
            if finding is None:
                s2 = copy.deepcopy(state)
                s2["modal"]["4"] = "G91.1"
                if s2["modal"] != state["modal"] and surf and compare(text, base, {**s2, "f": base["f"]})[1] is None:
                    finding = FIND["4"]
            if finding is None and surf and compare(text, base, {**state, "f": base["f"]})[1] is None:
                finding = "surface3d-feed"
            st.violation(kind, f"left in {state['modal']}, feed {state['f']}: {what}", finding=finding or "leftover")
        for mv in m.moves:
            got = (mv.units, mv.wcs, mv.path)
            if got != want:
                raise Violation("declaration", f"line {mv.line + 1}: in force {got}, declared for the job {want}")
        if not m.ended and not kind:
            raise Violation("no-end", "the program does not end")
