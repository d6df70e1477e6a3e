"""Workloads: JSON descriptions of jobs, shapes, tools, tabs and operations, how to generate them
and how to carry them out through the library's public interface."""
import cadquery as cq

from .util import R

PLANES = {
    "xy": ((0, 0, 0), (1, 0, 0), (0, 0, 1)),
    "up": ((3, -2, 5), (1, 0, 0), (0, 0, 1)),
    "rot": ((1, 2, 0), (0.8, 0.6, 0), (0, 0, 1)),
    "xz": ((0, 0, 0), (1, 0, 0), (0, -1, 0)),
    "odd": ((1 / 3, -2 / 7, 0.123456789), (0.28, 0.96, 0), (0, 0, 1)),
    "tilt": ((1, 1, 1), (0.8, 0, -0.6), (0.6, 0, 0.8)),
}


def plane(name):
    o, x, n = PLANES[name]
    return cq.Plane(origin=o, xDir=x, normal=n)


def _enum(cls, name):
    return None if name is None else cls[name]


def make_job(spec, top=None):
    from cq_cam import Job
    from cq_cam.groups import CoolantState, PlannerControlMode, Unit, WorkOffset

    kw = {k: spec[k] for k in ("speed", "tool_diameter", "tool_number", "name", "plunge_feed", "rapid_height",
                               "op_safe_height", "precision") if k in spec}
    if "unit" in spec:
        kw["unit"] = _enum(Unit, spec["unit"])
    if "coordinate" in spec:
        kw["coordinate"] = _enum(WorkOffset, spec["coordinate"])
    if "controller_motion" in spec:
        kw["controller_motion"] = _enum(PlannerControlMode, spec["controller_motion"])
    if "coolant" in spec:
        kw["coolant"] = _enum(CoolantState, spec["coolant"])
    return Job(top or plane(spec.get("plane", "xy")), spec.get("feed", 200), **kw)


def make_tool(spec):
    from cq_cam.tool import Tool

    return Tool(tool_diameter=spec.get("d"), tool_number=spec.get("n"), feed=spec.get("f"), speed=spec.get("s"))


def make_tabs(spec):
    from cq_cam.operations.tabs import EdgeTabs, WireTabs

    if spec["k"] == "edge":
        kw = {"only": spec["only"]} if spec.get("only") else {}
        return EdgeTabs(spacing=spec["sp"], width=spec["w"], height=spec["h"], **kw)
    return WireTabs(count=spec["n"], width=spec["w"], height=spec["h"])


def _wire(wp, o):
    t = o["t"]
    w = wp.center(o.get("x", 0), o.get("y", 0))
    if t == "rect":
        w = w.rect(o["w"], o["h"])
    elif t == "circle":
        w = w.circle(o["r"])
    elif t == "slot":
        w = w.slot2D(o["w"], o["h"])
    elif t == "poly":
        w = w.polygon(o["n"], o["w"])
    elif t == "ell":
        a, b = o["w"], o["h"]
        w = w.polyline([(0, 0), (a, 0), (a, b / 2), (a / 2, b / 2), (a / 2, b), (0, b)]).close()
    elif t == "arc":
        a, b = o["w"], o["h"]
        w = w.moveTo(-a / 2, 0).lineTo(a / 2, 0).lineTo(a / 2, b).threePointArc((0, b + a / 4), (-a / 2, b)).close()
    elif t == "blob":
        a, b = o["w"], o["h"]
        w = w.spline([(-a / 2, 0), (-a / 4, b / 2), (a / 4, b / 3), (a / 2, 0), (0, -b / 2)], periodic=True).close()
    elif t == "ellipse":
        w = w.ellipse(o["w"] / 2, o["h"] / 2)
    else:
        raise KeyError(t)
    return w.ctx.pendingWires[-1]


def make_face(spec, pl):
    wp = cq.Workplane(plane(pl)).workplane(offset=spec["z"])
    if spec.get("tiltface"):
        wp = wp.transformed(rotate=(spec["tiltface"], 0, 0))
    outer = _wire(wp, spec["outer"])
    inners = [_wire(wp, i) for i in spec.get("inners", [])]
    if spec.get("of"):
        # the top or the bottom of a solid, as a face selected from a model is
        up = plane(pl).zDir
        body = cq.Solid.extrudeLinear(outer, inners, up * (2 if spec["of"] == "bottom" else -2))
        o = plane(pl).origin
        f = min((f for f in body.Faces() if f.geomType() == "PLANE"), key=lambda f: abs((f.Center() - o).dot(up) - spec["z"]))
    else:
        f = cq.Face.makeFromWires(outer, inners)
    if spec.get("mv"):
        x, y, a = spec["mv"]
        p = cq.Location(plane(pl))
        f = f.moved(p * cq.Location(cq.Vector(x, y, 0), cq.Vector(0, 0, 1), a) * p.inverse)
    return f


class World:
    """The caller's objects. shared=True: one object per description; False: a fresh equal object
    for every use."""

    def __init__(self, scn, shared=True):
        self.scn, self.shared = scn, shared
        self.cache = {}
        self.made = None  # collects the objects made (not shared)

    def wreck(self):
        """The caller goes on using the objects it has given: all of them change."""
        for x in self.made:
            if isinstance(x, list):
                x.clear()
                x.append(cq.Vector(77, -33, 0))
            elif isinstance(x, cq.Workplane):
                x.objects.clear()
                x.ctx.pendingWires.clear()
            elif isinstance(x, cq.Shape):
                x.move(cq.Location(cq.Vector(100, 50, -0.25), cq.Vector(0, 0, 1), 30))
            elif isinstance(x, cq.Vector):
                x.x, x.y = x.x + 40, x.y - 60
            elif type(x).__name__ == "Tool":
                x.tool_diameter, x.tool_number, x.feed, x.speed = 9.5, 55, 1234, 4321
            elif hasattr(x, "height"):
                x.height, x.width = x.height + 0.2, x.width + 0.3
        self.made.clear()

    def _get(self, key, mk):
        if not self.shared:
            x = mk()
            if self.made is not None:
                self.made.append(x)
            return x
        if key not in self.cache:
            self.cache[key] = mk()
        return self.cache[key]

    def prebuild(self):
        """Create every shared object now (not at first use)."""
        for i in range(len(self.scn.get("shapes", []))):
            self.face(i)
        for i in range(len(self.scn.get("tools", []))):
            self.tool(i)
        for i in range(len(self.scn.get("tabs", []))):
            self.tabs(i)

    def face(self, i):
        shapes = self.scn["shapes"]
        i %= len(shapes)
        pl = self.scn["job"].get("plane", "xy")
        return self._get(("face", i), lambda: make_face(shapes[i], pl))

    def shape(self, op):
        """The model argument of an operation, in the form the operation description asks for."""
        ids, form = op["sh"], op.get("as", "face")
        n = len(self.scn["shapes"])
        ids = [i % n for i in ids]
        faces = [self.face(i) for i in ids]
        key = (form, tuple(ids))
        if form == "face":
            return faces[0]
        if form == "list":
            return self._get(key, lambda: list(faces))
        if form == "wp":
            return self._get(key, lambda: self.workplane(faces))
        if form == "wire":
            return self._get(key, lambda: faces[0].outerWire())
        if form == "tuple":
            return self._get(key, lambda: tuple(faces))
        if form == "mix":
            return self._get(key, lambda: [f.outerWire() if i % 2 else f for i, f in enumerate(faces)])
        if form == "wires":
            return self._get(key, lambda: [f.outerWire() for f in faces])
        if form == "inner":
            return self._get(key, lambda: [w for f in faces for w in f.innerWires()])
        if form == "edge":
            return self._get(key, lambda: faces[0].outerWire().Edges()[0])
        raise KeyError(form)

    def workplane(self, faces):
        """As left by a sketch: with wires and edges not used yet."""
        wp = cq.Workplane(plane(self.scn["job"].get("plane", "xy"))).newObject(list(faces))
        wp.ctx.pendingWires.extend(f.outerWire() for f in faces)
        wp.ctx.pendingEdges.extend(faces[0].outerWire().Edges()[:2])
        wp.ctx.tags["start"] = wp
        return wp

    def tool(self, i):
        ts = self.scn.get("tools") or []
        if i is None or not ts:
            return None
        i %= len(ts)
        return self._get(("tool", i), lambda: make_tool(ts[i]))

    def tabs(self, i):
        ts = self.scn.get("tabs") or []
        if i is None or not ts:
            return None
        i %= len(ts)
        return self._get(("tabs", i), lambda: make_tabs(ts[i]))

    def offset(self, o):
        """An offset: a number, a tuple, or (described by {"l": ...}) a list."""
        if isinstance(o, dict):
            return self._get(("offset", repr(o)), lambda: list(o["l"]))
        return tuple(o) if isinstance(o, list) else o

    # ------------------------------------------------------------------ operations
    def bind(self, op):
        """Prepare an operation's arguments; returns job -> job."""
        k = op["op"]
        kw = {}
        t = self.tool(op.get("tool"))
        if t is not None and k != "surface3d":
            kw["tool"] = t
        if op.get("sd") is not None:
            kw["stepdown"] = op["sd"]
        if k in ("profile", "wire_profile"):
            tb = self.tabs(op.get("tabs"))
            if tb is not None:
                kw["tabs"] = tb
        if k == "profile":
            for a, b in (("outer", "outer_offset"), ("inner", "inner_offset")):
                if a in op:
                    kw[b] = op[a]
            s = self.shape(op)
            return lambda job: job.profile(s, **kw)
        if k == "wire_profile":
            if "offset" in op:
                kw["offset"] = op["offset"]
            s = self.shape(op)
            return lambda job: job.wire_profile(s, **kw)
        if k == "pocket":
            for a, b in (("outer", "outer_offset"), ("inner", "inner_offset"), ("ao", "avoid_outer_offset"),
                         ("ai", "avoid_inner_offset"), ("so", "stepover")):
                if op.get(a) is not None:
                    kw[b] = self.offset(op[a])
            s = self.shape(op)
            if op.get("avoid"):
                kw["avoid_areas"] = self.shape({"sh": op["avoid"], "as": op.get("avoid_as", "list")})
            return lambda job: job.pocket(s, **kw)
        if k == "drill":
            if op.get("depth") is not None:
                kw["depth"] = op["depth"]
            if "pts" in op:
                if op.get("as") == "one":
                    s = self._get(("pt", repr(op["pts"][0])), lambda: cq.Vector(*op["pts"][0]))
                elif op.get("as") == "mix":
                    s = self._get(("mix", repr((op["pts"], op["sh"]))), lambda: [cq.Vector(*p) for p in op["pts"]] +
                                  self.shape({**op, "as": "list"}) + self.shape({**op, "as": "wires"}))
                else:
                    key = ("pts", repr(op["pts"]))
                    s = self._get(key, lambda: [cq.Vector(*p) for p in op["pts"]])
                    if self.made is not None:
                        self.made[0:0] = s
            else:
                s = self.shape(op)
            return lambda job: job.drill(s, **kw)
        if k == "surface3d":
            import opencamlib as ocl
            s = self.shape(op)
            c = self._get(("cutter", op.get("d", 1)), lambda: ocl.CylCutter(op.get("d", 1), 15))
            return lambda job: job.surface3d(o=s, tool=c, interpolation_step=op.get("is", 2.0), **kw)
        raise KeyError(k)

    def apply(self, job, op):
        return self.bind(op)(job)


# ---------------------------------------------------------------------- generation
def gen_job(r: R, settings=True, units=True, planes=True, coolant=True, name=True):
    s = {"feed": r.pick([200, 350, 120.5]), "tool_diameter": r.pick([1.0, 2.0, 3.0, 0.5, 3.175])}
    if planes and r.p(0.5):
        s["plane"] = r.pick(["up", "rot", "xz", "tilt", "odd"])
    if r.p(0.7):
        s["speed"] = r.pick([1000, 8000, 12000])
    if r.p(0.5):
        s["tool_number"] = r.pick([1, 2, 7, 0])
    if name and r.p(0.4):
        s["name"] = r.pick(["A", "Lid", "Job 2", "Lid (v2); 50%", "Größe №1", "two\nlines", ""])
    if r.p(0.4):
        s["plunge_feed"] = r.pick([50, 80.5])
    if r.p(0.3):
        s["rapid_height"] = r.pick([6, 25, 12.5])
    if r.p(0.3):
        s["op_safe_height"] = r.pick([0.5, 2, 3])
    if coolant and r.p(0.4):
        s["coolant"] = r.pick(["MIST", "FLOOD"])
    if units and r.p(0.3):
        s["unit"] = "IMPERIAL"
    if settings and r.p(0.3):
        s["coordinate"] = r.pick(["OFFSET_2", "OFFSET_3", "OFFSET_4", "OFFSET_5", "OFFSET_6"])
    if settings and r.p(0.3):
        s["controller_motion"] = r.pick(["EXACT_PATH", "EXACT_STOP"])
    return s


def gen_outline(r: R, size, curves=True):
    t = r.wpick([("rect", 4), ("ell", 2), ("poly", 1), ("slot", 1.5 if curves else 0), ("arc", 1.5 if curves else 0),
                 ("circle", 0.8 if curves else 0),
                 ("blob", 0.5 if curves else 0), ("ellipse", 0.3 if curves else 0)])
    if t == "rect":
        return {"t": t, "w": size, "h": r.pick([size, size * 0.75])}
    if t == "ell":
        return {"t": t, "w": size, "h": size, "x": -size / 2, "y": -size / 2}
    if t == "poly":
        return {"t": t, "n": r.pick([3, 5, 6]), "w": size * 1.2}
    if t == "slot":
        return {"t": t, "w": size, "h": size * 0.5}
    if t == "circle":
        return {"t": t, "r": size / 2}
    if t in ("blob", "ellipse"):
        return {"t": t, "w": size, "h": round(size * 0.6, 2)}
    return {"t": t, "w": size, "h": size * 0.5, "y": -size / 4}


def gen_shape(r: R, curves=True, holes=True):
    size = r.pick([12, 20, 16])
    z = r.pick([-1, -2, -3.5, -1, -2, 0])
    if r.p(0.2):
        size, z = round(r.uniform(9, 21), 3), round(r.uniform(-3.6, -0.2), 3)
    f = {"z": z, "outer": gen_outline(r, size, curves)}
    if r.p(0.2):
        f["of"] = r.pick(["top", "bottom"])
    if r.p(0.15):
        f["mv"] = [r.pick([0, 2, -7.3]), r.pick([0, 5, -1.1]), r.pick([0, 30, 90, -45])]
    if r.p(0.3):
        f["outer"]["x"] = f["outer"].get("x", 0) + r.pick([4, -6, 30])
    if holes and r.p(0.5) and f["outer"]["t"] != "ell":
        x = f["outer"].get("x", 0)
        c = {"t": "circle", "r": r.pick([1.5, 1]), "x": x, "y": 0} if curves and r.p(0.3) else \
            {"t": "rect", "w": 3, "h": r.pick([3, 2]), "x": x, "y": 0}
        f["inners"] = [c]
        if c["t"] == "rect" and f["outer"]["t"] in ("rect", "arc") and size > 15 and r.p(0.3):
            c["x"] -= 3
            f["inners"].append({"t": "rect", "w": 2, "h": 2.5, "x": x + 3, "y": 0.5})
    return f


def gen_world(r: R, nshapes=3, ntools=2, ntabs=2, curves=True, **jobkw):
    scn = {"job": gen_job(r, **jobkw)}
    scn["shapes"] = [gen_shape(r, curves) for _ in range(r.randint(1, nshapes))]
    if r.p(0.25):
        scn["shapes"].append(twin(r, r.pick(scn["shapes"])))
    if r.p(0.14):
        scn["nest"] = gen_nest(r, scn, curves)
    arcs = any(o["t"] in ("circle", "slot", "arc", "blob", "ellipse") for s in scn["shapes"] for o in [s["outer"], *s.get("inners", [])])
    scn["job"]["precision"] = 1 if arcs else r.pick([1, 2, 3, 3, 4])
    scn["tools"] = [gen_tool(r) for _ in range(r.randint(1, ntools))]
    scn["tabs"] = [gen_tabs(r) for _ in range(r.randint(1, ntabs))]
    return scn


def twin(r: R, s):
    """Nearly the same: what is remembered by only a part of a shape confuses the two."""
    s = {**s, "outer": dict(s["outer"]), **({"inners": [dict(c) for c in s["inners"]]} if "inners" in s else {})}
    o = s["outer"]
    k = r.pick(["corner", "corner", "turn", "holes", "z", "swap"])
    if k == "corner" and o["t"] in ("rect", "circle", "ell"):
        # begins at the same point
        d = r.pick([2, 4])
        if o["t"] == "circle":
            o["r"], o["x"] = o["r"] + d / 2, o.get("x", 0) - d / 2
        else:
            o["w"] += d
            if o["t"] == "rect":
                o["x"] = o.get("x", 0) + d / 2
    elif k == "swap" and o["t"] == "rect" and not s.get("inners"):
        o["w"], o["h"] = o["h"], o["w"]
    elif k == "holes" and s.get("inners"):
        c = r.pick(s["inners"])
        if r.p(0.4):
            s["inners"] = []
        elif c["t"] == "circle":
            c["r"] = 2.5 - c["r"]
        else:
            c["w"] = c["w"] - 0.5
    elif k == "turn":
        s["mv"] = [0, 0, 180]
    else:
        s["z"] = s["z"] - r.pick([0.5, 1])
    return s


def vary(r: R, scn, op):
    """The same call again, with one argument changed."""
    op = dict(op)
    new = gen_op(r, scn, kinds=[(op["op"], 1)], tabs=0.7)
    ks = [k for k in new if k not in ("op", "as", "avoid_as", "pts")]
    if "sh" in op and r.p(0.4):
        op["sh"] = [r.randrange(len(scn["shapes"])) for _ in op["sh"]]
    elif op.get("pts") and r.p(0.7):
        op["pts"] = [list(p) for p in op["pts"]]
        p = r.pick(op["pts"][1:-1] or op["pts"])
        p[r.randrange(2)] += r.pick([1, -2])
    else:
        k = r.pick([k for k in ks if k not in ("sh", "avoid")] or ["tool"])
        if k in new:
            op[k] = new[k]
    return op


def gen_nest(r: R, scn, curves=True):
    """Areas inside areas, deeper and deeper (mostly): the indices of the shapes added."""
    n = len(scn["shapes"])
    z, size = r.pick([-0.5, -1]), r.pick([16, 20])
    for _ in range(r.randint(2, 3)):
        t = r.wpick([("rect", 3), ("circle", 1 if curves else 0), ("slot", 0.7 if curves else 0)])
        o = {"rect": {"t": t, "w": size, "h": size * 0.8}, "circle": {"t": t, "r": size * 0.4},
             "slot": {"t": t, "w": size, "h": size * 0.7}}[t]
        scn["shapes"].append({"z": z, "outer": o})
        z -= r.pick([1, 1.5, 0.8, 0])
        size = round(size * r.pick([0.5, 0.6]), 2)
    ids = list(range(n, len(scn["shapes"])))
    r.shuffle(ids)
    return ids


def gen_tool(r: R):
    t = {}
    if r.p(0.6):
        t["d"] = r.pick([1.0, 1.5, 2.5, 3.175])
    if r.p(0.5):
        t["n"] = r.pick([1, 3, 4, 12, 0])
    if r.p(0.5):
        t["f"] = r.pick([90, 500, 61.5])
    if r.p(0.5):
        t["s"] = r.pick([500, 8000, 20000])
    return t


def gen_tabs(r: R):
    if r.p(0.5):
        t = {"k": "edge", "sp": r.pick([4, 6, 9]), "w": r.pick([1, 2, 1.25]), "h": r.pick([0.5, 1, 0.3])}
        if r.p(0.15):
            t["only"] = r.pick(["LINE", "CIRCLE"])
        return t
    return {"k": "wire", "n": r.pick([1, 2, 3, 5]), "w": r.pick([1, 2, 1.25]), "h": r.pick([0.5, 1, 0.3])}


KINDS = [("profile", 4), ("wire_profile", 3), ("pocket", 4), ("drill", 2), ("surface3d", 0.3)]


def gen_op(r: R, scn, kinds=None, tools=0.45, tabs=0.35):
    n = len(scn["shapes"])
    k = r.wpick(kinds or KINDS)
    op = {"op": k, "sh": [r.randrange(n)]}
    if r.p(tools) and k != "surface3d":
        op["tool"] = r.randrange(len(scn["tools"]))
    if k in ("profile", "wire_profile"):
        if r.p(tabs):
            op["tabs"] = r.randrange(len(scn["tabs"]))
        if r.p(0.3):
            op["sd"] = r.pick([1, 0.7, 2.5, 0.45])
    if k == "profile":
        op["as"] = r.wpick([("face", 3), ("list", 2), ("wp", 3), ("wire", 3), ("mix", 1), ("tuple", 1)])
        if op["as"] not in ("face", "wire") and n > 1 and r.p(0.5):
            op["sh"] = [r.randrange(n), r.randrange(n)]
        if r.p(0.4):
            op["outer"] = r.pick([0, -1, 1.5, None, 0.35])
        if r.p(0.4) and op.get("outer", 1) is not None:
            op["inner"] = r.pick([0, 1, None])
    elif k == "wire_profile":
        op["as"] = r.pick(["wire", "wires"])
        if r.p(0.6):
            op["offset"] = r.pick([0, -1, 2])
    elif k == "pocket":
        op["as"] = r.pick(["face", "list", "wp"])
        if op["as"] != "face" and n > 1 and r.p(0.5):
            op["sh"] = sorted({r.randrange(n), r.randrange(n)})
        if scn.get("nest") and r.p(0.7):
            op["as"], op["sh"] = r.pick(["list", "wp"]), list(scn["nest"])
            if r.p(0.4):
                op["sd"] = r.pick([1, 0.4])
        if r.p(0.3):
            op["sd"] = r.pick([1, 0.7, 2.5])
        if r.p(0.3) and n > 1:
            op["avoid"] = [r.randrange(n)]
            op["avoid_as"] = r.pick(["face", "list", "wp"])
        if r.p(0.3):
            op["outer"] = r.pick([0, [-1, -0.5], {"l": [-1, -0.25]}])
        if r.p(0.3):
            op["so"] = r.pick([1, 0.8, [0.5, 0.1], {"l": [0.5, 0.2]}])
        if r.p(0.12):
            op["inner"] = r.pick([1.5, [1, 0.1], {"l": [1, 0.2]}])
        if "avoid" in op and r.p(0.3):
            op["ao"] = r.pick([0, 1.5, [1, 0.2]])
        if "avoid" in op and r.p(0.2):
            op["ai"] = r.pick([-0.5, [-1, 0.1]])
    elif k == "drill":
        op["depth"] = r.pick([1, 2.5, -3])
        c = r.random()
        if c < 0.6:
            op["pts"] = [[r.randint(-9, 9), r.randint(-9, 9), 0] for _ in range(r.randint(1, 5))]
            if r.p(0.3):
                op["pts"] = [[round(r.uniform(-30, 30), 3), round(r.uniform(-9, 9), 3), r.pick([0, -1, 2.5])]
                             for _ in range(r.randint(1, 9))]
            if r.p(0.04):
                op["pts"] = [[r.randint(-40, 40), r.randint(-40, 40), 0] for _ in range(r.pick([30, 70, 130]))]
            c = r.random()
            if c < 0.2:
                op["as"] = "one"
            elif c < 0.35:
                op["as"] = "mix"
        else:
            op["as"] = r.pick(["face", "wires", "wp"])
    elif k == "surface3d":
        op["as"] = r.pick(["face", "list"])
        op.pop("tool", None)
        if r.p(0.4):
            op["sd"] = r.pick([-0.5, -0.3, -1])
        if r.p(0.3):
            op["is"] = r.pick([1.3, 3, 0.7])
        if r.p(0.3):
            op["d"] = r.pick([2, 3.175])
        if n > 1 and r.p(0.25):
            op["as"], op["sh"] = "list", [r.randrange(n), r.randrange(n)]
    return op


BAD = ["nooffset", "nodepth", "edge", "stepdown", "tiltface", "none", "badtabs"]


def gen_bad(r: R, scn):
    """A call that fails on its own."""
    b = r.pick(BAD)
    i = r.randrange(len(scn["shapes"]))
    t = {"tool": r.randrange(len(scn["tools"]))} if r.p(0.7) else {}
    if b == "nooffset":
        return {"op": "profile", "sh": [i], "outer": None, "inner": None, **t}
    if b == "nodepth":
        return {"op": "drill", "pts": [[0, 0, 0]], **t}
    if b == "edge":
        return {"op": r.pick(["profile", "drill"]), "sh": [i], "as": "edge", "depth": 1, **t}
    if b == "stepdown":
        return {"op": "wire_profile", "sh": [i], "as": "wire", "sd": 0.005, **t}
    if b == "badtabs":
        return {"op": "pocket", "sh": [i], "as": "wires", **t}
    if b == "none":
        return {"op": "pocket", "sh": [i], "as": "edge", **t}
    return {"op": "pocket", "sh": [i], "as": "face", "avoid": [i], "avoid_as": "edge", **t}


# ---------------------------------------------------------------------- observation
PROBE_TOOL = {"n": 97, "s": 4321}


def text(job):
    return job.to_gcode()


def ops_text(job):
    return [(o.name, o.to_gcode()) for o in job.operations]


def probe(job, pl):
    """How a job value behaves from here on: what later calls on it export."""
    out = []
    f = make_face({"z": -1, "outer": {"t": "rect", "w": 10, "h": 8}}, pl)

    def one(fn):
        try:
            out.append(fn().to_gcode())
        except Exception as e:
            out.append(type(e).__name__)

    one(lambda: job.wire_profile(f.outerWire()))
    one(lambda: job.wire_profile(f.outerWire(), tool=make_tool({"f": 77}), stepdown=0.4))
    one(lambda: job.profile(f, stepdown=0.7, outer_offset=1.5))
    one(lambda: job.pocket(f, tool=make_tool(PROBE_TOOL)))
    one(lambda: job.drill(cq.Vector(1, 1, 0), depth=1, tool=make_tool({"n": 96})))
    return out


def observe(job, pl):
    return {"text": text(job), "ops": ops_text(job), "probe": probe(job, pl)}


class Viewer:
    """Records what a viewer is given."""

    def __init__(self, kind):
        self.calls = []

        def show_object(obj, name=None, *a, **kw):
            self.calls.append((obj, name))
            return self.on_call(len(self.calls) - 1, obj, name)

        show_object.__module__ = kind + ".sim"
        self.fn = show_object

    def on_call(self, i, obj, name):
        return None
