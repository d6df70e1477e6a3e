"""C11: a job is shown to viewers that record, fail, interrupt, call back and spoil what they are given;
the drawings are compared with the motions of the simulated controller, in the model's place."""
import logging
import math
import sys

import cadquery as cq
from OCP.gp import gp_Trsf
from OCP.Quantity import Quantity_Color

from .. import faulty, kernel, machine, prog, steps, world
from ..kernel import K
from ..machine import Rejected
from ..util import R, Violation, must_fork, short

PID = "C11"
LEVEL = "fault_enumeration"
RUNS = {"quick": 1000, "thorough": 40000}
RULE = ("A case is a job of 1-4 calls (tool changes included) and 3-7 showings, drawings and further calls, in half of which the viewer "
        "fails, is interrupted, calls back into the library or spoils what it was given; non-trivial: at least two showings, one of "
        "them disturbed. Counted by distinct run log (all drawings delivered).")
COVER = "distinct (operations, showings, viewer kinds, failures and the call at which they happen)"
REAL = ["cq_cam (all of it)", "cadquery/OCCT incl. AIS objects", "pyclipper", "shapely", "numpy"]
STUBS = ["viewer callback", "cq_editor colour helper", "opencamlib"]
ASSUME = ["End points of AIS_Line objects are the ones it was constructed with.",
          "Drawings show unrounded coordinates: they are compared with the program's within its rounding.",
          "Rapids may be left out or drawn from anywhere (an operation does not know where the tool comes from), if they end in the right "
          "place; cuts may not."]

DO = [("cb_gcode", 2), ("cb_show", 2), ("cb_shapes", 1), ("cb_derive", 1.5), ("cb_spoil", 2), ("cb_returns", 0.5)]


def gen(r: R, i, tier):
    scn = world.gen_world(r)
    if r.p(0.1):
        scn["job"]["name"] = r.pick(["Upper bearing plate of the spindle, second side", "x" * 300, "a #1 Profile", "  ", "a/b\\c", "%s {0}", "Job #0 Pocket"])
    scn["ops"] = [world.gen_op(r, scn, tools=0.45, tabs=0.4) for _ in range(r.wpick([(1, 4), (2, 4), (3, 2)]))]
    if r.p(0.04):
        scn["ops"] += prog.gen_long(r, scn)
    ev = []
    for k in range(r.randint(3, 5 if tier == "quick" else 9)):
        e = {"ev": r.wpick([("show", 8), ("shapes", 1), ("op", 1.2)])}
        if e["ev"] == "op":
            e["do"] = world.gen_op(r, scn, tools=0.5)
        elif e["ev"] == "shapes":
            e["edges"] = int(r.p(0.5))
        else:
            e["viewer"] = r.wpick([("cq_editor", 4), ("ocp_vscode", 4), ("somewhere.else", 1)])
            if r.p(0.15):
                e["auto"] = 1
            c = r.random()
            if c < 0.3:
                e["fail"] = {"at": r.randrange(6), "exc": r.pick(["ValueError", "RuntimeError", "MemoryError", "KeyboardInterrupt",
                                                                "SystemExit", "OSError"])}
            elif c < 0.55:
                e["cb"] = {"at": r.randrange(6), "do": r.wpick(DO), "viewer": r.pick(["cq_editor", "ocp_vscode"])}
            elif c < 0.7:
                e["intr"] = {"at": r.randrange(100000), "exc": r.pick(["KeyboardInterrupt", "SystemExit", "MemoryError"])}
            elif c < 0.78:
                e["kern"] = faulty.gen_fault0(r, "kernel")
            elif c < 0.85:
                e["colour"] = {"at": r.randrange(8), "exc": r.pick(["ValueError", "KeyboardInterrupt"])}
        ev.append(e)
    scn["events"] = ev
    return scn


# ---------------------------------------------------------------------- what was drawn
def apply(trsf, x, y, z):
    from OCP.gp import gp_Pnt
    p = gp_Pnt(x, y, z).Transformed(trsf)
    return (p.X(), p.Y(), p.Z())


def edge_points(s, trsf):
    e = cq.Edge(s)
    a, b = e._bounds()
    rev = "REVERSED" in str(e.wrapped.Orientation())
    ts = [a + (b - a) * k / 4 for k in range(5)]
    if rev:
        ts = ts[::-1]
    ps = []
    g = e._geomAdaptor()
    for t in ts:
        p = g.Value(t).Transformed(trsf)
        ps.append((p.X(), p.Y(), p.Z()))
    return ps


def leaves(o, trsf, out):
    """(kind, points, colour) of everything in an AIS tree, in order."""
    name = type(o).__name__
    t = trsf.Multiplied(o.LocalTransformation())
    if name == "AIS_ConnectedInteractive":
        leaves(o.ConnectedTo(), t, out)
    elif name == "AIS_Line":
        got = K.lines.get(id(o)) if K.lines else None
        if got is None:
            raise Violation("drawing", "a line whose end points are not known is in the drawing")
        ps = [apply(t, p.X(), p.Y(), p.Z()) for p in got[1][:2]]
        ps = [tuple(ps[0][i] + (ps[1][i] - ps[0][i]) * k / 4 for i in range(3)) for k in range(5)]
        out.append((ps, colour(o)))
    elif name == "AIS_Shape":
        out.append((edge_points(o.Shape(), t), colour(o)))
    for c in o.Children():
        leaves(c, t, out)
    return out


def colour(o):
    q = Quantity_Color()
    o.Color(q)
    return (round(q.Red(), 3), round(q.Green(), 3), round(q.Blue(), 3))


def drawn(obj, frame):
    """Curves (5 points each) a drawing consists of, in order; the job plane's axes left out."""
    if isinstance(obj, cq.Shape):
        obj = obj.Edges()
    if isinstance(obj, (list, tuple)):
        return [(edge_points(e.wrapped, gp_Trsf()), None) for e in obj]
    ls = leaves(obj, gp_Trsf(), [])
    o, axes = frame[0], frame[1:]
    for ax in axes:
        want = [o, tuple(o[i] + ax[i] for i in range(3))]
        for k in range(len(ls) - 1, -1, -1):
            if math.dist(ls[k][0][0], want[0]) < 1e-6 and math.dist(ls[k][0][-1], want[1]) < 1e-6:
                del ls[k]
                break
    return ls


def frame_of(name):
    o, x, n = world.PLANES[name]
    l = math.sqrt(sum(v * v for v in x))
    x = tuple(v / l for v in x)
    l = math.sqrt(sum(v * v for v in n))
    n = tuple(v / l for v in n)
    y = (n[1] * x[2] - n[2] * x[1], n[2] * x[0] - n[0] * x[2], n[0] * x[1] - n[1] * x[0])
    return [o, x, y, n]


# ---------------------------------------------------------------------- what is to be drawn
class Want:
    def __init__(self, kind, pts, end, tiny, over, up):
        self.up = up  # not None: a cut entered from a rapid to the clearance height, below its own start: the way up is not known
        self.kind, self.pts, self.end, self.tiny = kind, pts, end, tiny
        self.over = over  # a rapid whose operation does not know where in the plane the tool is, is drawn over the origin


def wanted(job, frame, precision):
    """Per operation the motions after its first one, from executing the program."""
    m = machine.Machine(dict(machine.neutral(), f=1.0))
    text = job.to_gcode()
    m.run(text)
    by = {}
    for x in m.moves:
        by.setdefault(x.line, []).append(x)
    o, ax = frame[0], frame[1:]
    place = lambda p: tuple(o[i] + p[0] * ax[0][i] + p[1] * ax[1][i] + p[2] * ax[2][i] for i in range(3))
    tol = 2.5 * 10 ** -min(precision, 3)  # programs are written with three decimals
    out = []
    for a, b, name in prog.op_ranges(job, text):
        first, ws, last = True, [], None
        for line in range(a, b):
            for x in by.get(line, []):
                if x.kind == "home":
                    continue
                if first:
                    first, last = False, x.kind
                    continue
                k = 25.4 if x.units == "G20" else 1.0
                off = machine.OFFSETS.get(x.wcs, (0, 0, 0))
                p, q = [tuple((v[i] - off[i]) / k for i in range(3)) for v in (x.a, x.b)]
                if x.kind == "arc":
                    c = tuple((x.center[i] - off[i]) / k for i in range(2))
                    r = math.hypot(p[0] - c[0], p[1] - c[1])
                    t0 = math.atan2(p[1] - c[1], p[0] - c[0])
                    t = math.atan2(q[1] - c[1], q[0] - c[0]) - t0
                    t = (-t if x.cw else t) % (2 * math.pi)
                    if math.dist(p, q) < 1e-9:
                        t = 2 * math.pi
                    s = -1 if x.cw else 1
                    pts = [(c[0] + r * math.cos(t0 + s * t * j / 4), c[1] + r * math.sin(t0 + s * t * j / 4),
                            p[2] + (q[2] - p[2]) * j / 4) for j in range(5)]
                    pts[-1] = q
                    tiny = r * t < 4 * tol or r < tol
                else:
                    pts = [tuple(p[i] + (q[i] - p[i]) * j / 4 for i in range(3)) for j in range(5)]
                    tiny = math.dist(p, q) < 2 * tol
                up = None
                if last == "rapid" and x.kind != "rapid" and q[2] > p[2] - tol:
                    up = (place(p), ax[2])
                last = x.kind
                ws.append(Want(x.kind, [place(v) for v in pts], place(q), tiny, place((0, 0, q[2])), up))
        out.append((name, ws))
    return out, tol


def match(curves, ws, tol):
    """None, or what is wrong."""
    i = 0
    arcs = lambda w: 6 * tol if w.kind == "arc" else tol
    for ps, _ in curves:
        small = max(math.dist(ps[0], p) for p in ps) < 2 * tol
        while True:
            if i >= len(ws):
                if small:
                    break
                return f"draws {fmt(ps)} after the last motion"
            w = ws[i]
            if w.kind == "rapid":
                if min(math.dist(ps[-1], w.end), math.dist(ps[-1], w.over)) <= tol:
                    i += 1
                    break
                i += 1
                continue
            same = max(math.dist(a, b) for a, b in zip(ps, w.pts))
            if same <= arcs(w):
                i += 1
                break
            if w.tiny:
                i += 1
                continue
            if w.up and math.dist(ps[-1], w.end) <= arcs(w):
                d = [ps[0][k] - w.up[0][k] for k in range(3)]
                h = sum(d[k] * w.up[1][k] for k in range(3))
                if h > 0 and math.dist(d, [h * v for v in w.up[1]]) <= tol:
                    i += 1
                    break
            if small:
                break
            return f"draws {fmt(ps)} where the {w.kind} {fmt(w.pts)} is made (off by {same:.4f})"
    left = [w for w in ws[i:] if w.kind != "rapid" and not w.tiny]
    if left:
        return f"does not draw the {left[0].kind} {fmt(left[0].pts)} ({len(left)} motions missing)"
    return None


def fmt(ps):
    f = lambda p: "(" + ", ".join(f"{v:.3f}" for v in p) + ")"
    return f"{f(ps[0])}-{f(ps[2])}-{f(ps[4])}"


# ---------------------------------------------------------------------- the run
class V(world.Viewer):
    def __init__(self, kind, e, job, w, scn, frame):
        super().__init__(kind)
        self.e, self.job, self.w, self.scn, self.frame = e, job, w, scn, frame
        self.exc = None
        self.got = []
        self.cb_errors = []

    def on_call(self, i, obj, name):
        self.got.append((name, type(obj).__name__, drawn(obj, self.frame)))
        f = self.e.get("fail")
        if f and f["at"] == i:
            self.exc = kernel.make(f["exc"], "simulated viewer failure")
            raise self.exc
        cb = self.e.get("cb")
        if cb and cb["at"] == i:
            d = cb["do"]
            if d == "cb_gcode":
                self.job.to_gcode()
            elif d == "cb_show":
                v = world.Viewer(cb.get("viewer", "cq_editor"))
                self.job.show(v.fn)
            elif d == "cb_shapes":
                self.job.to_shapes(as_edges=True)
            elif d == "cb_derive":
                self.job.drill(cq.Vector(1, 2, 0), depth=1, tool=world.make_tool({"n": 55, "f": 5})).to_gcode()
            elif d == "cb_spoil":
                if isinstance(obj, list):
                    for e in obj:
                        e.wrapped.Reverse()
                    obj.clear()
                elif hasattr(obj, "Children"):
                    for c in list(obj.Children()):
                        obj.RemoveChild(c)
            elif d == "cb_returns":
                return "something"
        return None


class Colour:
    """The colour helper of the editor, failing at its k-th call."""

    def __init__(self, spec):
        self.spec, self.n, self.fired = spec, 0, False

    def __enter__(self):
        self.m = sys.modules["cq_editor.cq_utils"]
        self.real = self.m.to_occ_color
        if self.spec:
            def f(*a):
                k = self.n
                self.n += 1
                if k == self.spec["at"]:
                    self.fired = True
                    raise kernel.make(self.spec["exc"], "simulated colour failure")
                return self.real(*a)
            self.m.to_occ_color = f
        return self

    def __exit__(self, *a):
        self.m.to_occ_color = self.real
        return False


def digest(got):
    return [(n, t, [([tuple(round(v, 5) + 0.0 for v in p) for p in ps], c) for ps, c in cs]) for n, t, cs in got]


def run(scn, st):
    K.lines = {}
    w = world.World(scn)
    w.prebuild()
    job = world.make_job(scn["job"])
    frame = frame_of(scn["job"].get("plane", "xy"))
    prec = scn["job"].get("precision", 3)
    for op in scn.get("ops", []):
        try:
            job = w.apply(job, op)
        except Exception:
            st.inc("call failed: " + op["op"])
    text = job.to_gcode()
    ws, tol = wanted(job, frame, prec)
    first = {}
    shows = disturbed = 0
    hist = []

    def check(got, kind, at, complete):
        if complete and len(got) != len(ws):
            raise Violation("count", f"{at}: {len(got)} drawings for {len(ws)} operations")
        for i, (name, _, cs) in enumerate(got):
            if i >= len(ws):
                raise Violation("count", f"{at}: more than {len(ws)} drawings")
            if ws[i][0] not in str(name):
                raise Violation("name", f"{at}: drawing {i} is called {name!r}, the operation {ws[i][0]!r}")
            bad = match(cs, ws[i][1], tol)
            if bad:
                raise Violation("drawing", f"{at}: the drawing of operation {i} ({ws[i][0]}) {bad}")
        d = digest(got)
        if complete:
            if first.setdefault(kind, d) != d:
                raise Violation("differs", f"{at}: delivers something else than an earlier showing: " + dif(repr(d), repr(first[kind])))
        elif kind in first and d != first[kind][:len(d)]:
            raise Violation("differs", f"{at}: delivers something else than an earlier showing: " + dif(repr(d), repr(first[kind][:len(d)])))

    for n, e in enumerate(scn.get("events", [])):
        at = f"event {n} ({e['ev']}{', ' + e['viewer'] if 'viewer' in e else ''})"
        if e["ev"] == "op":
            try:
                job = w.apply(job, e["do"])
            except Exception:
                st.inc("call failed: " + e["do"]["op"])
                continue
            text = job.to_gcode()
            ws, tol = wanted(job, frame, prec)
            first = {}
            hist.append(("op", e["do"]["op"]))
            continue
        if e["ev"] == "shapes":
            if e.get("edges"):
                got = [(x, "", [y]) for x, y in [("", c) for c in drawn(job.to_shapes(as_edges=True), frame)]]
                cs = [c for _, _, y in got for c in y]
                bad = match(cs, [x for _, q in ws for x in q], tol)
            else:
                sh = job.to_shapes()
                if len(sh) != len(ws):
                    raise Violation("count", f"{at}: {len(sh)} drawings for {len(ws)} operations")
                bad = None
                for i, s in enumerate(sh):
                    bad = bad or match(drawn(s, frame), ws[i][1], tol)
            if bad:
                raise Violation("drawing", f"{at}: to_shapes {bad}")
            hist.append(("shapes", e.get("edges")))
            st.inc("drawings without viewer")
        else:
            kind = e.get("viewer", "cq_editor")
            v = V(kind, e, job, w, scn, frame)
            sw = {}
            if e.get("intr"):
                if "steps" not in e:
                    e["steps"] = count(job, kind)
                sw = {"fault_at": e["intr"]["at"] % max(1, e["steps"]) + 1, "fault": kernel.make(e["intr"]["exc"], "simulated")}
            kwin = {}
            if e.get("kern"):
                p = faulty.resolve(e["kern"], {"calls": must_fork(calls, job, kind), "kguard": []})
                if p:
                    kwin = p[0]
            exc = None
            main = sys.modules["__main__"]
            with faulty.Logs() as logs, Colour(e.get("colour")) as col:
                try:
                    with kernel.window(**kwin) as kw, steps.window(**sw) as win:
                        if e.get("auto"):
                            main.show_object = v.fn
                            job.show()
                        else:
                            job.show(v.fn)
                except BaseException as x:
                    exc = x
                finally:
                    main.__dict__.pop("show_object", None)
            st.inc("steps", win.steps)
            shows += 1
            vfail = v.exc is not None
            hit = vfail or win.fired or kw.fired or col.fired or (e.get("cb") and len(v.got) > e["cb"]["at"])
            disturbed += bool(hit)
            what = "nothing"
            if vfail:
                what = f"viewer {e['fail']['exc']} at {e['fail']['at']}"
                st.inc("fault:viewer raises " + e["fail"]["exc"])
                if exc is not v.exc:
                    raise Violation("failure-lost", f"{at}: the viewer's {e['fail']['exc']} at call {e['fail']['at']} does not reach the caller, "
                                    f"who gets {'nothing' if exc is None else type(exc).__name__ + ': ' + short(str(exc))}")
                if len(v.got) != e["fail"]["at"] + 1:
                    raise Violation("count", f"{at}: {len(v.got) - 1} drawings were delivered before the failure at call {e['fail']['at']}")
            elif win.fired:
                what = f"{e['intr']['exc']} at {win.fired}"
                st.inc("fault:line " + e["intr"]["exc"])
                if e["intr"]["exc"] != "MemoryError" and (exc is None or type(exc).__name__ != e["intr"]["exc"]):
                    raise Violation("failure-lost", f"{at}: {what} does not reach the caller")
            elif kw.fired:
                what = f"{p[2]} in {p[3]}"
                st.inc("fault:kernel " + p[2])
            elif col.fired:
                what = f"colours {e['colour']['exc']}"
                st.inc("fault:colour helper " + e["colour"]["exc"])
                if exc is None:
                    what += " masked"
            else:
                if e.get("cb") and len(v.got) > e["cb"]["at"]:
                    st.inc("fault:viewer " + e["cb"]["do"])
                    what = e["cb"]["do"]
                if exc is not None:
                    raise Violation("show-fails", f"{at}: {type(exc).__name__}: {short(str(exc))}")
            # an interrupt inside a drawing may leave only that drawing out; what was delivered is checked
            masked = exc is None and (win.fired or col.fired or kw.fired)
            if kw.fired and exc is not None:
                if len(v.got) > len(ws):
                    raise Violation("count", f"{at}: {len(v.got)} drawings for {len(ws)} operations")
            elif not masked:
                check(v.got, (kind.split(".")[0],), at + (f" with {what}" if what != "nothing" else ""), exc is None)
            elif len(v.got) != len(ws):
                raise Violation("count", f"{at}: {len(v.got)} drawings for {len(ws)} operations")
            hist.append(("show", kind, what, bool(e.get("auto")), len(v.got)))
            st.log(kind, what, digest(v.got))
            if kind.startswith("somewhere") and not logs.records:
                pass
        now = job.to_gcode()
        if now != text:
            raise Violation("job-changed", f"{at} changed the job: " + dif(now, text))
    # nobody to show it to
    try:
        job.show()
        raise Violation("no-viewer", "show() without a viewer returns")
    except ValueError:
        pass
    st.cover([(o["op"], o.get("tool") is not None) for o in scn.get("ops", [])], hist)
    st.trivial = shows < 2 or not disturbed


def calls(job, kind):
    v = world.Viewer(kind)
    try:
        with kernel.window(trace=True) as win:
            job.show(v.fn)
    except Exception:
        pass
    return win.calls


def count(job, kind):
    v = world.Viewer(kind)
    with steps.window() as win:
        job.show(v.fn)
    return win.steps


def dif(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return f"at {i}: {a[max(0, i - 60):i + 60]!r} instead of {b[max(0, i - 60):i + 60]!r}"
