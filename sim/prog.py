"""Programs made by chains of calls, and the fold model of the settings in force."""
from . import world
from .machine import Machine, Rejected, cuts, work
from .util import R, Violation


def gen_chain(r: R, scn, n, tools=0.6, surface=0.04):
    ops = []
    for _ in range(n):
        kinds = [("profile", 4), ("wire_profile", 3), ("pocket", 4), ("drill", 2), ("surface3d", surface * 13)]
        ops.append(world.vary(r, scn, r.pick(ops)) if ops and r.p(0.2) else world.gen_op(r, scn, kinds=kinds, tools=tools, tabs=0.3))
    return ops


def gen_long(r: R, scn, tools=0.4):
    """More calls than usual, from a few cheap different ones."""
    pool = [world.gen_op(r, scn, kinds=[("drill", 3), ("wire_profile", 1)], tools=tools, tabs=0.1) for _ in range(r.randint(2, 5))]
    return [dict(r.pick(pool)) for _ in range(r.pick([8, 11, 17, 34]))]


def fold(spec, tools, ops, raw=False):
    """Settings in force for each call: the job's (raw: these), overridden by the tools given so far."""
    cur = dict(spec) if raw else {"feed": spec.get("feed", 200), "speed": spec.get("speed"), "tool_diameter": spec.get("tool_diameter"),
           "tool_number": spec.get("tool_number")}
    out = []
    for op in ops:
        prev = dict(cur)
        if op.get("tool") is not None and tools and op["op"] != "surface3d":
            t = tools[op["tool"] % len(tools)]
            for a, b in (("d", "tool_diameter"), ("n", "tool_number"), ("f", "feed"), ("s", "speed")):
                if t.get(a) is not None:
                    cur[b] = t[a]
        out.append({**cur, "exchange": cur["tool_number"] != prev["tool_number"]})
    return out


def build(scn, st=None, shared=False):
    """Carry out the chain; calls that fail on their own are dropped. Returns (job, kept ops,
    world)."""
    w = world.World(scn, shared=shared)
    job = world.make_job(scn["job"])
    kept = []
    for op in scn.get("ops", []):
        try:
            j = w.apply(job, op)
        except Exception as e:
            if st:
                st.inc("call failed: " + op["op"])
            continue
        job = j
        kept.append(op)
        if st:
            st.inc("call:" + op["op"])
    return job, kept, w


def op_ranges(job, text):
    """Line ranges [a, b) of the operations in the program text."""
    out, pos = [], 0
    for o in job.operations:
        t = o.to_gcode()
        i = text.find(t, pos)
        if i < 0:
            raise Violation("operation-missing", f"the text of operation {o.name!r} is not in the program after the "
                            f"operations before it: {t[:200]!r}")
        a = text.count("\n", 0, i)
        out.append((a, a + t.count("\n") + 1, o.name))
        pos = i + len(t)
    return out


def execute(text, state=None, on_stop=None):
    m = Machine(state)
    m.on_stop = on_stop
    try:
        m.run(text)
    except Rejected as e:
        raise Violation("rejected", f"the controller rejects {e}")
    return m


def has_motion(text):
    return any(l[:2] in ("G0", "G1", "G2", "G3") and len(l) > 2 and l[2] in " " for l in text.split("\n"))
