"""C14: a session in an installation whose optional packages are missing, broken, outdated or come and go,
against the same session in a complete installation."""
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import tempfile

from .. import kernel, steps, world
from ..boot import VERIF
from ..util import Harness, R, Violation, must_fork, short

PID = "C14"
LEVEL = "fault_enumeration"
RUNS = {"quick": 900, "thorough": 40000}
RULE = ("A case is a session of 2-8 calls in a freshly imported library, with the state of each optional package drawn at the start and "
        "changed at drawn points, and imports of the library itself interrupted; non-trivial: some package was not available and at "
        "least one call was compared. Counted by distinct run log.")
COVER = "distinct (states of the packages at a call, kind of call, what came of it)"
REAL = ["cq_cam (all of it, imported anew in every run)", "cadquery/OCCT", "pyclipper", "shapely", "numpy", "the interpreter's import system"]
STUBS = ["cq_editor, ocp_vscode and opencamlib: what an import finds is simulated", "viewer"]
ASSUME = ["cadquery, numpy, pyclipper and shapely are required and always there."]
KEEP = ()

PKGS = ["cq_editor", "ocp_vscode", "opencamlib"]
STATES = ["ok", "ok", "absent", "absent", "broken", "old", "crash", "noisy"]


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self):
        self.state = {p: "ok" for p in PKGS}
        self.tries = {p: 0 for p in PKGS}
        self.irq = None

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.state:
            return None
        self.tries[top] += 1
        if self.irq and self.irq[0] == top:
            self.irq = None
            raise KeyboardInterrupt("simulated")
        s = self.state[top]
        if s == "absent":
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return importlib.machinery.ModuleSpec(name, Loader(name, s), is_package="." not in name)


class Loader(importlib.abc.Loader):
    def __init__(self, name, state):
        self.name, self.state = name, state

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        s = self.state
        if s == "broken":
            raise ImportError(f"{self.name}: libQt5Core.so.5: cannot open shared object file")
        if s == "crash":
            raise RuntimeError(f"{self.name}: could not connect to display")
        if s == "noisy":
            raise AttributeError(f"module has no attribute needed by {self.name}")
        if self.name == "cq_editor.cq_utils" and s == "ok":
            from OCP.Quantity import Quantity_Color, Quantity_TOC_RGB
            import zlib

            def to_occ_color(c):
                i = zlib.crc32(str(c).encode())
                return Quantity_Color((i % 7) / 7.0, (i % 11) / 11.0, (i % 13) / 13.0, Quantity_TOC_RGB)

            m.to_occ_color = to_occ_color
        elif self.name == "opencamlib" and s == "ok":
            p = os.path.join(VERIF, "stubs", "opencamlib", "__init__.py")
            exec(compile(open(p).read(), p, "exec"), m.__dict__)


def gen(r: R, i, tier):
    scn = world.gen_world(r)
    scn["packages"] = {p: r.pick(STATES) for p in PKGS}
    ev = [{"do": world.gen_op(r, scn, kinds=[("profile", 3), ("wire_profile", 2), ("drill", 1)])}] if r.p(0.8) else []
    for _ in range(r.randint(2, 6 if tier == "quick" else 12)):
        c = r.random()
        if c < 0.45:
            ev.append({"do": world.gen_op(r, scn, kinds=[("profile", 3), ("wire_profile", 2), ("pocket", 3), ("drill", 2), ("surface3d", 2.5)])})
            if ev[-1]["do"]["op"] == "surface3d" and r.p(0.4):
                ev[-1]["do"]["cutter"] = 1
        elif c < 0.7:
            ev.append({"do": {"op": "view", "viewer": r.pick(["cq_editor", "ocp_vscode", "other", "main"])}})
        elif c < 0.8:
            ev.append({"do": {"op": r.pick(["shapes", "ais"])}})
        elif c < 0.9:
            ev.append({"do": {"op": r.pick(["gcode", "save"])}})
        else:
            ev.append({"do": {"op": "reimport"}})
        if r.p(0.35):
            ev.append({"set": r.pick(PKGS), "to": r.pick(["ok", "ok", "ok", *STATES])})
        if r.p(0.1):
            ev.append({"irq": r.pick(["cq_editor", "opencamlib"])})
    if r.p(0.2):
        # a package is tried, put right and tried again
        k, do = r.pick([("cq_editor", {"op": "view", "viewer": "cq_editor"}), ("cq_editor", {"op": "ais"}),
                        ("opencamlib", {"op": "surface3d", "sh": [0]})])
        scn["packages"][k] = r.pick(STATES[2:])
        ev += [{"do": dict(do)}, {"set": k, "to": "ok"}, {"do": dict(do)}]
    scn["events"] = ev
    if r.p(0.15):
        scn["interrupt"] = {"at": r.randrange(100000), "exc": r.pick(["KeyboardInterrupt", "MemoryError"])}
    return scn


def purge():
    """As if the library and the optional packages had never been imported."""
    for n in list(sys.modules):
        if n.split(".")[0] in (*PKGS, "cq_cam"):
            del sys.modules[n]
    importlib.invalidate_caches()


def colours(o, out):
    from OCP.Quantity import Quantity_Color
    if getattr(o, "HasColor", None) and o.HasColor():
        c = Quantity_Color()
        o.Color(c)
        out.append((type(o).__name__, round(c.Red(), 3), round(c.Green(), 3), round(c.Blue(), 3)))
    if hasattr(o, "ConnectedTo"):
        colours(o.ConnectedTo(), out)
    for c in o.Children():
        colours(c, out)
    return out


def drawn(x):
    if isinstance(x, (list, tuple)):
        return [drawn(y) for y in x]
    if hasattr(x, "Center"):
        return [round(v, 4) for v in x.Center().toTuple()]
    return colours(x, [])


NEEDS = {"surface3d": "opencamlib", "ais": "cq_editor"}


def needs(do):
    if do["op"] == "view":
        return "cq_editor" if do.get("viewer") == "cq_editor" else None
    return NEEDS.get(do["op"])


def session(scn, states):
    """states: whether the packages are as drawn (or all there)."""
    purge()
    fd = Finder()
    sys.path[:] = [p for p in sys.path if not p.startswith(VERIF + "/stubs")]
    sys.meta_path.insert(0, fd)
    if states:
        fd.state.update(scn.get("packages", {}))
    out, notes = [], []
    t = scn.get("interrupt") if states else None
    if t:
        with steps.window(trace=True) as w:
            importlib.import_module("cq_cam")
        n = w.steps
        purge()
        try:
            with steps.window(fault_at=t["at"] % max(1, n) + 1, fault=kernel.make(t["exc"], "simulated")) as w:
                importlib.import_module("cq_cam")
        except (KeyboardInterrupt, MemoryError):
            notes.append("import interrupted")
    try:
        importlib.import_module("cq_cam")
    except Exception as e:
        return {"import": f"{type(e).__name__}: {e}", "out": [], "notes": notes}
    w = None
    d = tempfile.mkdtemp(prefix="cqsim")
    try:
        def fresh():
            return world.World(scn), world.make_job(scn["job"])
        w, job = fresh()
        for e in scn["events"]:
            if "set" in e:
                if states:
                    if fd.state[e["set"]] != "ok":
                        # what half of it was loaded is not kept when the package is put right
                        for n in list(sys.modules):
                            if n.split(".")[0] == e["set"] and sys.modules[n] is not None:
                                del sys.modules[n]
                    fd.state[e["set"]] = e["to"]
                continue
            if "irq" in e:
                if states:
                    fd.irq = (e["irq"],)
                continue
            do = e["do"]
            k = do["op"]
            state = dict(fd.state)
            held = fd.irq
            loaded = {p: p in sys.modules for p in PKGS}
            try:
                if k == "gcode":
                    res = job.to_gcode()
                elif k == "reimport":
                    importlib.import_module("cq_cam.fluent")
                    importlib.import_module("cq_cam.visualize")
                    importlib.import_module("cq_cam.operations.tabs")
                    res = None
                elif k == "save":
                    job.save_gcode(os.path.join(d, "p.nc"))
                    res = open(os.path.join(d, "p.nc")).read()
                elif k == "view":
                    v = world.Viewer(do["viewer"] if do["viewer"] != "main" else "ocp_vscode")
                    if do["viewer"] == "main":
                        import __main__
                        __main__.__dict__["show_object"] = v.fn
                        try:
                            job.show()
                        finally:
                            del __main__.__dict__["show_object"]
                    else:
                        job.show(v.fn)
                    res = [(n, drawn(o)) for o, n in v.calls]
                elif k == "shapes":
                    res = drawn(job.to_shapes(as_edges=True))
                elif k == "ais":
                    res = drawn(job.to_shapes())
                elif k == "surface3d":
                    kw = {}
                    if do.get("cutter"):
                        kw["tool"] = importlib.import_module("opencamlib").CylCutter(1, 15)
                    new = job.surface3d(o=w.shape(do), interpolation_step=2.0, **kw)
                    res = new.to_gcode()
                else:
                    new = w.apply(job, do)
                    job = new
                    res = new.to_gcode()
                out.append([do, "ok", res, state, loaded])
            except KeyboardInterrupt:
                out.append([do, "interrupted", None, state, loaded])
            except Exception as x:
                out.append([do, "raised", f"{type(x).__name__}: {x}", state, loaded])
            if held and fd.irq is None:
                out[-1].append("irq")
        fin = job.to_gcode()
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return {"out": out, "notes": notes, "final": fin, "tries": fd.tries}


def run(scn, st):
    ref = must_fork(session, scn, False)
    if "import" in ref:
        raise Harness(f"import fails with everything there: {ref['import']}")
    got = must_fork(session, scn, True)
    st.log(got)
    if "import" in got:
        raise Violation("import", f"importing cq_cam fails with {scn.get('packages')}" +
                        (" after an interrupted import" if got["notes"] else "") + f": {got['import']}")
    for n in got["notes"]:
        st.inc("fault:" + n)
    compared = 0
    bad = False
    for a, b in zip(ref["out"], got["out"]):
        do, how, res, state, loaded = b[:5]
        need = needs(do)
        missing = sorted(p for p in PKGS if state[p] != "ok")
        bad = bad or bool(missing)
        for p in missing:
            st.inc(f"fault:{p} {state[p]}")
        where = f"with {', '.join(p + ' ' + state[p] for p in missing) or 'every package there'}"
        st.inc(f"call:{do['op']}:{how}")
        st.cover(sorted(state.items()), do["op"], do.get("viewer"), how)
        compared += 1
        if len(b) > 5:
            st.inc("fault:import interrupted")
            if how == "ok" and need is None and res != a[2]:
                raise Violation("interrupt", f"{short(str(do))}: an interrupt in the import of an optional package changes the result")
            if how == "interrupted" or (how == "ok" and res == a[2]):
                continue
            raise Violation("interrupt", f"{short(str(do))}: the interrupt does not reach the caller: {how} {short(str(res))}")
        if need and state[need] != "ok":
            if how == "raised" or (how == "ok" and a[1] == "ok" and res == a[2]):
                continue
            raise Violation("pretends", f"{short(str(do))} needs {need}, which is {state[need]}, and {how}: {short(str(res))} instead of {short(str(a[2]))}")
        if (how, res if how == "ok" else None) != (a[1], a[2] if a[1] == "ok" else None):
            raise Violation("differs", f"{short(str(do))} does not need what is missing ({where}), but {how}: {dif(res, a[2])}"
                            if missing else f"{short(str(do))} {where}: {how}: {dif(res, a[2])}")
    if got["final"] != ref["final"]:
        raise Violation("final", "the job's program differs: " + dif(got["final"], ref["final"]))
    st.trivial = not bad or not compared


def dif(a, b):
    a, b = str(a), str(b)
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return f"at {i}: {a[max(0, i - 100):i + 100]!r} instead of {b[max(0, i - 100):i + 100]!r}"
