"""C05: the exported program of any history of calls, executed by the controller and compared with
the fold of the settings given to the calls."""
import json
import math

from .. import machine, prog, world
from ..machine import cuts, work
from ..util import Pristine, R, Violation

PID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 50000}
RULE = ("A case is a history of 1-6 calls (each with or without a tool that changes any subset of diameter, number, feed "
        "and speed; some calls fail on their own) on a job with drawn settings, executed by the controller; non-trivial: "
        "at least two operations that cut and one setting changed. Counted by distinct run log.")
COVER = "distinct sequences of (operation kind, settings changed, failed or not)"
REAL = ["cq_cam (all of it)", "cadquery/OCCT", "pyclipper", "shapely", "numpy"]
STUBS = ["the machine controller is the simulator's RS-274 interpreter", "opencamlib"]
ASSUME = ["The tool of the job's initial tool number is in the spindle when the program starts.",
          "An implicit plunge feed may follow either the job's or the tool's feed; a drill may plunge at the feed or the "
          "plunge feed.",
          "The cuts of one operation are taken from a fresh job with the settings in force; their correctness as "
          "geometry is C20-C28 (not applicable), except for the reach of rectangular profiles, which is computed."]


def gen(r: R, i, tier):
    scn = world.gen_world(r, ntools=4)
    scn["tools"] += [world.gen_tool(r)]
    if r.p(0.12):
        # every setting comes from the tools
        scn["job"].pop("tool_diameter", None)
        for t in scn["tools"]:
            t["d"] = r.pick([1.0, 2.0])
    if r.p(0.12):
        # large numbers, the same one of several tools
        n = [300, 1000, 1000, 99999]
        scn["job"]["tool_number"] = r.pick(n)
        for t in scn["tools"]:
            t["n"] = r.pick(n)
    if r.p(0.06):
        # tools that do not turn
        r.pick(scn["tools"])["s"] = 0
    if r.p(0.35):
        # the speed goes back and forth, with few other changes
        sp = scn["job"].get("speed") or r.pick([1000, 18000])
        if r.p(0.8):
            scn["job"]["speed"] = sp
        for t in scn["tools"]:
            t["s"] = r.pick([sp, sp, sp + 0.4, 500, 2400])
            if r.p(0.5):
                t.pop("n", None)
    if r.p(0.15):
        # given, and the same as the feed
        scn["job"]["plunge_feed"] = scn["job"]["feed"]
    ops = prog.gen_chain(r, scn, r.randint(1, 6), tools=0.7)
    for k in range(len(ops)):
        if r.p(0.08):
            ops.insert(k, world.gen_bad(r, scn))
    if "tool_diameter" not in scn["job"]:
        ops[0]["tool"] = 0
    if r.p(0.05):
        # a long job, from few different calls
        pool = prog.gen_chain(r, scn, 2, tools=0.5, surface=0) + [world.gen_op(r, scn, kinds=[("drill", 1)], tools=0.5)
                                                                   for _ in range(3)]
        pool = [o for o in pool if o["op"] == "drill" or r.p(0.4)]
        n = r.pick([12, 20, 33, 70]) if r.p(0.85) else 1100
        if n > 100:
            pool = [o for o in pool if o["op"] == "drill"]
        ops += [dict(r.pick(pool)) for _ in range(n)]
    scn["ops"] = ops
    return scn


def alone(scn, op, eff, variant):
    """The operation by itself, on a fresh job created with the settings in force."""
    spec = dict(scn["job"])
    for k in ("feed", "speed", "tool_diameter", "tool_number"):
        if eff[k] is None:
            spec.pop(k, None)
        else:
            spec[k] = eff[k]
    spec.setdefault("plunge_feed", variant)
    w = world.World(scn, shared=False)
    o = {k: v for k, v in op.items() if k != "tool"}
    try:
        return ("ok", world.text(w.apply(world.make_job(spec), o)))
    except Exception as e:
        return ("fails", type(e).__name__)


def geo(m):
    rd = lambda t: None if t is None else tuple(round(x, 4) + 0.0 for x in t)
    return (m.kind, rd(m.a), rd(m.b), rd(m.center), m.cw)


def run(scn, st):
    with Pristine() as pristine:
        history(scn, st, pristine)


def history(scn, st, pristine):
    spec, tools = scn["job"], scn.get("tools") or []
    ops = scn.get("ops", [])
    # which calls are expected to succeed, given the settings in force when they are made
    w = world.World(scn, shared=False)
    job = world.make_job(spec)
    kept, shape, memo = [], [], {}
    cur = prog.fold(spec, tools, [{}])[0]
    for op in ops:
        eff = prog.fold(cur, tools, [op], raw=True)[-1]
        key = json.dumps([op, eff], sort_keys=True)
        if key not in memo:
            memo[key] = pristine(alone, scn, op, eff, spec.get("feed", 200))
        res = memo[key]
        try:
            new = w.apply(job, op)
            err = None
        except Exception as e:
            new, err = None, type(e).__name__
        shape.append((op["op"], eff["exchange"], err is None, tuple(sorted(tools[op["tool"] % len(tools)]) if tools and
                                                                    op.get("tool") is not None else ())))
        if (res[0] == "ok") != (err is None):
            raise Violation("refused", f"{op} {'fails with ' + err if err else 'succeeds'} on the job, but "
                            f"{'succeeds' if err else 'fails with ' + res[1]} on a fresh job with the settings in force {eff}")
        st.inc("call:" + op["op"] + (":failed" if err else ""))
        if new is not None:
            job = new
            cur = {k: v for k, v in eff.items() if k != "exchange"}
            kept.append({**op, "_text": res[1]})
    st.cover(shape, spec.get("coolant"), spec.get("speed") is None)
    text = world.text(job)
    st.log(text)
    state = machine.neutral()
    surf = [o["op"] == "surface3d" for o in kept]
    if any(surf):
        state["f"] = 1.0
    state["tool"] = spec.get("tool_number")
    m = prog.execute(text, state)
    st.sim_s += m.time
    got = cuts(m.moves)
    effs = prog.fold(spec, tools, kept)
    k = 25.4 if spec.get("unit") == "IMPERIAL" else 1.0
    cool = {"MIST": "M7", "FLOOD": "M8", None: None}[spec.get("coolant")]
    pos, changed = 0, False
    firsts = []
    idx = {id(x): q for q, x in enumerate(m.moves)}
    for n, (op, eff) in enumerate(zip(kept, effs)):
        one = machine.Machine(dict(machine.neutral(), f=1.0))
        one.run(op["_text"])
        exp = cuts(one.moves)
        seg = got[pos:pos + len(exp)]
        if [geo(x) for x in seg] != [geo(x) for x in exp]:
            j = next((j for j in range(min(len(seg), len(exp))) if geo(seg[j]) != geo(exp[j])), min(len(seg), len(exp)))
            raise Violation("cuts", f"operation {n} ({op['op']}): cut {j} is "
                            f"{geo(seg[j]) if j < len(seg) else 'missing'}, expected {geo(exp[j]) if j < len(exp) else 'none'} "
                            f"with the settings in force {eff}")
        pos += len(exp)
        firsts.append((pos - len(exp), pos))
        pf = spec.get("plunge_feed")
        allowed = [pf] if pf is not None else [spec.get("feed", 200), eff["feed"]]
        for x in seg:
            at = f"operation {n} ({op['op']}), line {x.line + 1}"
            prev = m.moves[idx[id(x)] - 1]
            vertical = abs(x.a[0] - x.b[0]) < 1e-9 and abs(x.a[1] - x.b[1]) < 1e-9 and x.kind == "cut"
            if op["op"] == "surface3d":
                if abs(x.feed - eff["feed"] * k) > 1e-6:
                    st.violation("feed", f"{at}: feed {x.feed} mm/min instead of {eff['feed'] * k}", finding="surface3d-feed")
                    break
            else:
                ok = [eff["feed"]]
                # a plunge goes down; up to a tab that is higher than the safe height is none
                if vertical and prev.kind == "rapid" and x.b[2] < x.a[2] - 1e-9:
                    ok = allowed + ([eff["feed"]] if op["op"] == "drill" else [])
                elif vertical:
                    ok = allowed + [eff["feed"]]
                if not any(abs(x.feed - f * k) < 1e-6 for f in ok):
                    raise Violation("feed", f"{at}: feed {x.feed} mm/min, in force {[f * k for f in ok]}")
            if x.spindle != "M3":
                raise Violation("spindle", f"{at}: the spindle is {x.spindle} during a cut")
            if eff["speed"] is not None and x.s != eff["speed"]:
                raise Violation("speed", f"{at}: the spindle runs at {x.s}, in force {eff['speed']}")
            if x.tool != eff["tool_number"]:
                raise Violation("tool", f"{at}: tool {x.tool} in the spindle, in force {eff['tool_number']}")
            if cool is not None and x.coolant != cool:
                raise Violation("coolant", f"{at}: coolant {x.coolant}, in force {cool}")
            if cool is None and x.coolant != "M9":
                raise Violation("coolant", f"{at}: coolant {x.coolant} although none was asked for")
        reach(scn, op, eff, exp, n, k)
    if pos != len(got):
        raise Violation("cuts", f"{len(got) - pos} more cuts after the last operation, from line {got[pos].line + 1}")
    # exchanges
    want = [(firsts[n], e["tool_number"]) for n, e in enumerate(effs) if e["exchange"]]
    have = [e for e in m.events if e[1] == "toolchange"]
    if [e[2] for e in have] != [t for _, t in want]:
        raise Violation("exchange", f"tools exchanged {[e[2] for e in have]}, expected {[t for _, t in want]}")
    for e in have:
        check_exchange(m, e, cool)
    sp = spec.get("speed")
    if not m.ended:
        raise Violation("end", "the program does not end")
    if m.spindle is not None:
        raise Violation("end", "the spindle still runs at the end of the program")
    if m.coolant != "M9":
        raise Violation("end", f"the coolant is {m.coolant} at the end of the program")
    if [e for e in m.events if e[1] == "stop" and e[2] in ("M2", "M30")].__len__() != 1:
        raise Violation("end", "the program does not end exactly once")
    st.inc("exchanges", len(have))
    st.trivial = not (len(kept) >= 2 and any(x[3] for x in shape))


def check_exchange(m, e, cool):
    """State of the machine at an exchange, by replaying the events up to it."""
    at, _, num, line = e
    spindle, coolant, home, length = None, "M9", None, None
    for mv, k, v, l in m.events:
        if (mv, l) > (at, line):
            break
        if k == "spindle" and l < line:
            spindle = None if v == "M5" else v
        if k == "coolant" and l < line:
            coolant = v
        if k == "length" and l <= line:
            length = v
    if spindle is not None:
        raise Violation("exchange-state", f"line {line + 1}: the tool is exchanged with the spindle running")
    if coolant != "M9":
        raise Violation("exchange-state", f"line {line + 1}: the tool is exchanged with the coolant on")
    if at == 0 or m.moves[at - 1].kind != "home":
        raise Violation("exchange-state", f"line {line + 1}: the tool is exchanged away from its parking position")
    # the length of the new tool is in force for the next cut
    later = [v[0] for v in m.events if v[1] == "toolchange" and (v[0], v[3]) > (at, line)]
    nxt = [x for x in m.moves[at:min(later, default=None)] if x.kind in ("cut", "arc")]
    if nxt:
        ln = None
        for mv, k, v, l in m.events:
            if k == "length" and l <= nxt[0].line:
                ln = v
        if nxt[0].raw[8] != "G43" or ln != num:
            raise Violation("exchange-length", f"line {nxt[0].line + 1}: cuts with tool {num} but length offset "
                            f"{ln} ({nxt[0].raw[8]})")


def reach(scn, op, eff, exp, n, k):
    """Independent of the library: how far a rectangular outer profile reaches and how deep; where points are drilled."""
    if op["op"] == "drill" and op.get("pts") and op.get("as") != "mix" and not scn["job"].get("plane") and exp:
        want = sorted((round(x, 3) + 0.0, round(y, 3) + 0.0) for x, y, _ in (op["pts"][:1] if op.get("as") == "one" else op["pts"]))
        down = [x for x in exp if work(x)[2] < work(x, "a")[2] - 1e-9]
        have = sorted((round(work(x)[0] / k, 3) + 0.0, round(work(x)[1] / k, 3) + 0.0) for x in down)
        left = list(have)
        for a in want:
            b = min(left, key=lambda b: math.dist(a, b), default=None)
            if b is not None and math.dist(a, b) < 0.002:
                left.remove(b)
        if left or len(want) != len(have):
            raise Violation("reach", f"operation {n} drill: holes at {have[:12]}, given {want[:12]} ({len(have)} of {len(want)})")
        if any(abs(work(x)[2] / k + abs(op["depth"])) > 0.002 for x in down):
            raise Violation("reach", f"operation {n} drill: not to the depth {op['depth']}: {sorted({work(x)[2] / k for x in down})}")
        return
    if op["op"] == "profile" and op.get("as") == "face" and exp and op.get("tabs") is None and op.get("sd") is None:
        sh = scn["shapes"][op["sh"][0] % len(scn["shapes"])]
        for c in sh.get("inners", []):
            off = op.get("inner", -1)
            if c["t"] != "circle" or sh.get("mv") or off is None or scn["job"].get("plane"):
                continue
            o = {**c, "r": c["r"]}
            d = off * eff["tool_diameter"] / 2
            # OCCT cannot offset a circle of radius 1 or less inwards; the
            # library says so ("Failed to offset wire") and leaves it out
            if c["r"] + d > 0.3 and (d >= 0 or c["r"] > 1.005):
                # what is cut around the hole, nothing else has its centre there
                mine = [x for x in exp if x.kind == "arc" and
                        math.dist((work(x, "center")[0] / k, work(x, "center")[1] / k), (o.get("x", 0), o.get("y", 0))) < 0.006]
                so = sh["outer"]
                if so["t"] in ("rect", "ell") or (so["t"] == "circle" and op.get("outer", 1) is None):
                    around(o, d, mine, n, op, k)
        return
    if op["op"] not in ("wire_profile", "profile") or op.get("as") not in ("wire",) or not exp or op.get("tabs") is not None:
        return
    sh = scn["shapes"][op["sh"][0] % len(scn["shapes"])]
    o = sh["outer"]
    if sh.get("mv"):
        return
    off = op.get("offset", 1) if op["op"] == "wire_profile" else op.get("outer", 1)
    if o["t"] not in ("rect", "circle") or off is None or off < 0:
        return
    d = off * eff["tool_diameter"] / 2
    if o["t"] == "circle":
        if op.get("sd") is None:
            around(o, d, exp, n, op, k)
        return
    xs = [work(x)[0] / k for x in exp] + [work(x, "a")[0] / k for x in exp]
    ys = [work(x)[1] / k for x in exp] + [work(x, "a")[1] / k for x in exp]
    cx, cy = o.get("x", 0), o.get("y", 0)
    want = (cx - o["w"] / 2 - d, cx + o["w"] / 2 + d, cy - o["h"] / 2 - d, cy + o["h"] / 2 + d)
    have = (min(xs), max(xs), min(ys), max(ys))
    if max(abs(a - b) for a, b in zip(want, have)) > 0.002:
        raise Violation("reach", f"operation {n} {op['op']}: x {have[0]:.3f}..{have[1]:.3f} y {have[2]:.3f}..{have[3]:.3f}, "
                        f"with diameter {eff['tool_diameter']} expected {tuple(round(v, 3) for v in want)}")
    z = min(work(x)[2] / k for x in exp)
    if abs(z - sh["z"]) > 0.002:
        raise Violation("reach", f"operation {n}: deepest cut {z}, wire at {sh['z']}")


def around(o, d, exp, n, op, k):
    """A profile of a circle goes around it once."""
    sweep = 0.0
    for x in exp:
        if x.kind != "arc":
            continue
        a, b, c = work(x, "a"), work(x), work(x, "center")
        at = (c[0] / k - o.get("x", 0), c[1] / k - o.get("y", 0))
        r = math.hypot(a[0] - c[0], a[1] - c[1]) / k
        if math.hypot(*at) > 0.005 or abs(r - o["r"] - d) > 0.005:
            raise Violation("reach", f"operation {n} {op['op']}: an arc of radius {r:.3f} around a centre {at} off the circle's, expected "
                            f"radius {o['r'] + d}")
        t = math.atan2(b[1] - c[1], b[0] - c[0]) - math.atan2(a[1] - c[1], a[0] - c[0])
        t = (-t if x.cw else t) % (2 * math.pi)
        sweep += t
    if abs(sweep - 2 * math.pi) > 0.01:
        raise Violation("reach", f"operation {n} {op['op']} of a circle goes around {math.degrees(sweep):.1f} degrees of it")
