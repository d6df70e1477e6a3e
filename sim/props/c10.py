"""C10: one description of model, parameters and calls is carried out in several interpreters and ambient
conditions - hash seeds, locales, clocks, random generators, addresses, collector, earlier history of the
process, shapes the caller has looked at - and every program has to come out the same byte for byte."""
import gc
import json
import os
import random
import sys
import threading

import cadquery as cq

from .. import ambient, kernel, steps, world, zygote
from ..util import R, Violation, must_fork

PID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 500, "thorough": 20000}
RULE = ("A case is a chain of 1-4 calls carried out once undisturbed and in 2-5 variants of interpreter, ambient state and earlier "
        "history of the process; non-trivial: some call returned a program with motions and at least two variants were run. Counted by "
        "distinct run log.")
COVER = "distinct (calls, variants of interpreter and ambient conditions)"
REAL = ["cq_cam (all of it)", "cadquery/OCCT", "pyclipper", "shapely", "numpy", "five interpreters started with different settings"]
STUBS = ["clocks, os.urandom, os.getpid and what identifies the computer (simulated)", "opencamlib"]
ASSUME = ["Addresses are varied by allocating memory beforehand, by the allocator and by the interpreter, not enumerated.",
          "Only the locales C, C.UTF-8 and POSIX are installed here.",
          "A caller's own settings that are documented to change results everywhere (warnings as errors, trace functions) are not ambient."]
KEEP = ("z",)

PATHS = None
FAILED, ASSERT = "the call fails", "the call fails an assertion"  # how a call fails is not part of a program

LONG = 300_000  # steps after which an earlier call is given up


def setup(a):
    global PATHS
    PATHS = zygote.start()


def nudge(r, scn):
    """A world that resembles scn: caches keyed too coarsely confuse the two."""
    w = json.loads(json.dumps({k: scn[k] for k in ("job", "shapes", "tools", "tabs")}))
    for _ in range(r.randint(1, 3)):
        k = r.wpick([(0, 1), (1, 1), (2, 3), (3, 1), (4, 1), (5, 1), (6, 1)])
        s = r.pick(w["shapes"])
        if k == 0:
            s["z"] = s["z"] - r.pick([1, 0.001, 0.5])
        elif k == 1:
            s["outer"]["x"] = s["outer"].get("x", 0) + r.pick([0.001, 1, 0.25])
        elif k == 2:
            d = r.pick([0.001, 0.02, 0.05, 0.05, -0.03, 0.5, 1])
            for o in [s["outer"], *s.get("inners", [])] if r.p(0.3) else [s["outer"]]:
                for k in ("w", "r"):
                    if k in o:
                        o[k] += d
        elif k == 3:
            w["job"]["feed"] = r.pick([77, 301])
        elif k == 4:
            w["job"]["tool_diameter"] = r.pick([0.8, 1.2, 2.2])
        elif k == 5:
            w["job"]["unit"] = r.pick(["IMPERIAL", "METRIC"])
        else:
            w["job"]["precision"] = r.pick([1, 2, 3][:w["job"]["precision"]])
    return w


def gen_variant(r: R, scn, tier):
    v = {}
    if r.p(0.6):
        v["z"] = r.randrange(len(zygote.KINDS))
    if r.p(0.5):
        v["clock"] = r.pick([0, 1.7e9, 951782400.5, 4102444800.0, 1e6])
        v["step"] = r.pick([0.001, 0.0, 1.0, 3600.0])
        if r.p(0.3):
            v["jumps"] = r.randint(2, 9)
    if r.p(0.4):
        v["rng"] = r.randrange(1 << 30)
    if r.p(0.4):
        v["churn"] = r.randrange(1 << 30)
    if r.p(0.3):
        v["gc"] = r.pick(["off", "each", "full"])
    if r.p(0.25):
        v["look"] = r.pick(["tessellate", "tessellate", "bbox", "hash", "brep", "copy", "all"])
        v["look_at"] = r.pick(["before", "between"])
    if r.p(0.3):
        v["exports"] = r.randint(1, 3)
    if r.p(0.2):
        v["show"] = r.pick(["cq_editor", "ocp_vscode"])
    if r.p(0.15):
        v["thread"] = 1
    if r.p(0.15):
        v["locale"] = r.pick(["C", "C.UTF-8", "POSIX", ""])
    if r.p(0.1):
        v["log"] = 10
    if r.p(0.1):
        v["decimal"] = 1
    if r.p(0.1):
        v["numpy"] = 1
    if r.p(0.2):
        # another computer
        v["machine"] = {"node": r.pick(["workshop", "pc-17", ""]), "user": r.pick(["me", "root", "operator"]), "cpus": r.pick([None, 1, 2, 3, 64]),
                        "uid": r.pick([0, 1000])}
    if r.p(0.25):
        v["env"] = {}
        for _ in range(r.randint(1, 3)):
            k, x = r.pick([("COLUMNS", "10"), ("COLUMNS", "40"), ("COLUMNS", "400"), ("USER", "someone"), ("LOGNAME", "someone"), ("HOSTNAME", "pc-17"),
                           ("HOME", "/nonexistent"), ("DEBUG", "1"), ("CI", "true"), ("DISPLAY", ":1"), ("TERM", "dumb"), ("OMP_NUM_THREADS", "1"),
                           ("TMPDIR", "/var/tmp"), ("SOURCE_DATE_EPOCH", "1"), ("NO_COLOR", "1"), ("LANGUAGE", "de"), ("PYTHONIOENCODING", "latin-1")])
            v["env"][k] = x
    if r.p(0.1):
        v["argv"] = r.pick([["other.py"], ["/usr/bin/script", "--fast", "-v"], [""]])
    if r.p(0.15):
        v["order"] = r.pick(["reverse", "lazy"])
    if r.p(0.15):
        v["again"] = r.randint(1, 2)
    if r.p(0.12) and any(o["op"] == "pocket" and "sh" in o for o in scn["ops"]):
        # objects come and go, and others take their place in memory
        v["turnover"] = [nudge(r, scn) for _ in range(r.randint(8, 25))]
    if r.p(0.5):
        v["history"] = []
        for _ in range(r.randint(1, 3)):
            w = nudge(r, scn) if r.p(0.7) else world.gen_world(r)
            h = {"w": w, "ops": []}
            for _ in range(r.randint(1, 3)):
                c = r.random()
                if c < 0.5 and scn["ops"]:
                    op = dict(r.pick(scn["ops"]))
                elif c < 0.65:
                    op = world.gen_bad(r, w)
                else:
                    op = world.gen_op(r, w)
                e = {"do": op}
                if r.p(0.25):
                    e["intr"] = {"at": r.randrange(1 << 20), "exc": r.pick(["KeyboardInterrupt", "MemoryError"])}
                elif r.p(0.15):
                    e["kfail"] = {"at": r.randrange(1 << 20), "exc": r.pick(["ValueError", "MemoryError"])}
                h["ops"].append(e)
            v["history"].append(h)
    return v


def gen(r: R, i, tier):
    scn = world.gen_world(r, ntabs=2 if r.p(0.3) else 1)
    scn["ops"] = [world.gen_op(r, scn) for _ in range(r.wpick([(1, 4), (2, 4), (3, 2), (4, 1)]))]
    if r.p(0.15):
        # many holes in no order at all
        scn["ops"].append({"op": "drill", "pts": [[r.randint(-20, 20), r.randint(-20, 20), 0] for _ in range(r.randint(5, 14))], "depth": 1})
    if r.p(0.1):
        scn["ops"].append(world.gen_bad(r, scn))
    scn["variants"] = [gen_variant(r, scn, tier) for _ in range(r.randint(2, 3 if tier == "quick" else 6))]
    return scn


# ---------------------------------------------------------------------- carrying it out
def look(f, how):
    if how in ("tessellate", "all"):
        f.tessellate(0.1)
    if how in ("bbox", "all"):
        f.BoundingBox()
    if how in ("hash", "all"):
        hash(f), f.hashCode(), f.isValid()
    if how in ("brep", "all"):
        import io
        f.exportBrep(io.BytesIO())
        f.Center(), f.Area()
    if how in ("copy", "all"):
        f.copy()


def warm(v, st):
    for h in v.get("history", []):
        w = world.World(h["w"])
        try:
            job = world.make_job(h["w"]["job"])
        except Exception:
            continue
        for e in h["ops"]:
            def one():
                return w.apply(job, e["do"])
            try:
                f = e.get("intr") or e.get("kfail")
                if f:
                    with steps.window(LONG) as sw, kernel.window(trace=True) as kw:
                        one()
                    n = sw.steps if "intr" in e else kw.count
                    x = kernel.make(f["exc"], "simulated")
                    at = f["at"] % max(1, n)
                    if "intr" in e:
                        with steps.window(LONG, fault_at=at + 1, fault=x):
                            one()
                    else:
                        with kernel.window(at=at, exc=x):
                            one()
                else:
                    with steps.window(LONG):
                        job = one()
                    job.to_gcode()
            except BaseException as x:
                if isinstance(x, SystemExit):
                    pass
                st[type(x).__name__] = st.get(type(x).__name__, 0) + 1


def carry_out(scn, v):
    """What every call of the chain gives, as text, in this process under these conditions."""
    out, st = [], {}
    if "gc" in v:
        gc.unfreeze() if v["gc"] == "full" else None
        gc.disable() if v["gc"] == "off" else gc.set_threshold(20, 5, 20) if v["gc"] == "each" else None
    keep = []
    if "churn" in v:
        c = random.Random(v["churn"])
        junk = [bytearray(c.choice((16, 40, 100, 500, 3000))) for _ in range(c.randrange(2000, 20000))]
        junk += [object() for _ in range(c.randrange(5000))]
        c.shuffle(junk)
        keep = junk[::2]
        kept = [cq.Vector(c.random(), 0, 0) for _ in range(c.randrange(3000))]
        c.shuffle(kept)
        keep += kept[::2]
        del junk, kept
    os.environ.update(v.get("env", {}))
    if "argv" in v:
        sys.argv[:] = v["argv"]
    if any(k in v for k in ("clock", "rng", "machine")):
        ambient.arm({**v, "pid": v.get("rng", 0) % 30000 + 2})
    if "rng" in v:
        import numpy as np
        random.seed(v["rng"])
        np.random.seed(v["rng"] % (1 << 32))
    if "locale" in v:
        import locale
        try:
            locale.setlocale(locale.LC_ALL, v["locale"])
        except locale.Error:
            pass
    if "log" in v:
        import logging
        logging.getLogger().setLevel(v["log"])
        logging.getLogger("cq_cam").setLevel(v["log"])
    if "decimal" in v:
        import decimal
        decimal.getcontext().prec = 4
        decimal.getcontext().rounding = decimal.ROUND_UP
    if "numpy" in v:
        import numpy as np
        np.set_printoptions(precision=2, suppress=True, legacy="1.13")
    warm(v, st)
    for d in v.get("turnover", []):
        w = world.World(d)
        for op in scn["ops"]:
            if op["op"] == "pocket":
                try:
                    w.apply(world.make_job(d["job"]), op)
                except Exception:
                    pass
                break
        w = None
        gc.collect()

    def chain(collect):
        w = world.World(scn)
        n = len(scn["shapes"])
        if v.get("order") != "lazy":
            ids = list(range(n))
            for i in ids[::-1] if v.get("order") == "reverse" else ids:
                w.face(i)
        if v.get("look") and v.get("look_at") != "between":
            for i in range(n):
                look(w.face(i), v["look"])
        job = world.make_job(scn["job"])
        for op in scn.get("ops", []):
            try:
                job = w.apply(job, op)
                t = job.to_gcode()
            except Exception as e:
                collect(FAILED if not isinstance(e, AssertionError) else ASSERT)
                continue
            collect(t)
            if v.get("gc") == "full":
                gc.collect()
            for _ in range(v.get("exports", 0)):
                collect(job.to_gcode(), again=t)
            if v.get("show"):
                try:
                    job.show(world.Viewer(v["show"]).fn)
                except Exception:
                    pass
            if v.get("look") and v.get("look_at") == "between":
                for i in range(n):
                    look(w.face(i), v["look"])
        collect(job.to_gcode())
        for o in job.operations:
            collect(o.to_gcode())

    def collect(t, again=None):
        if again is not None:
            if t != again:
                raise Violation("export", "exporting again gives something else: " + dif(t, again))
            return
        out.append(t)

    def body():
        for _ in range(v.get("again", 0)):
            chain(lambda *a, **k: None)
        chain(collect)

    err = []
    if v.get("thread"):
        def t():
            try:
                body()
            except BaseException as e:
                err.append(e)
        th = threading.Thread(target=t)
        th.start()
        th.join()
    else:
        try:
            body()
        except Violation as e:
            err.append(e)
    reads = ambient.A.reads
    ambient.disarm()
    del keep
    if err:
        if isinstance(err[0], Violation):
            return {"viol": [err[0].cls, err[0].msg]}
        raise err[0]
    return {"out": out, "warm": st, "reads": reads}


def run(scn, st):
    ref = must_fork(carry_out, scn, {})
    if "viol" in ref:
        raise Violation(*ref["viol"])
    ref = ref["out"]
    st.log(ref)
    motions = any("\nG1" in t or "\nG0" in t for t in ref)
    tried = []
    for k, v in enumerate(scn.get("variants", [])):
        z = v.get("z")
        if z is None:
            got = must_fork(carry_out, scn, v)
            name = "the same interpreter"
        else:
            z %= len(PATHS)
            got = zygote.call(PATHS[z], "sim.props.c10", "carry_out", scn, v)
            name = f"interpreter {z} ({' '.join(f'{a}={b}' for a, b in zygote.KINDS[z]['env'].items())})"
        for c in sorted(v):
            if c == "history":
                st.inc("fault:earlier history", len(v[c]))
            else:
                st.inc(f"fault:{c}" + (f" {z}" if c == "z" else ""))
        if "viol" in got:
            raise Violation(got["viol"][0], f"variant {k} {describe(v)} in {name}: {got['viol'][1]}")
        for e, n in got["warm"].items():
            st.inc("failed earlier calls: " + e, n)
        tried.append((z, sorted(v)))
        o = got["out"]
        if z is None or "-O" not in zygote.KINDS[z].get("args", []):
            o = [FAILED if x == ASSERT else x for x in o]
            ref_ = [FAILED if x == ASSERT else x for x in ref]
        elif ASSERT in ref:
            continue
        else:
            ref_ = ref
        if o != ref_:
            n = next((n for n in range(min(len(o), len(ref_))) if o[n] != ref_[n]), -1)
            raise Violation("differs", f"variant {k} {describe(v)} in {name}: result {n} of the chain differs: " +
                            dif(o[n], ref_[n]))
        st.inc("programs compared", len(ref))
    st.log(tried)
    st.cover([(o["op"], o.get("as"), o.get("tabs") is not None) for o in scn.get("ops", [])], tried)
    st.trivial = not motions or len(tried) < 2


def describe(v):
    return json.dumps({k: (x if k not in ("history", "turnover") else f"{len(x)} earlier jobs") for k, x in v.items()})


def dif(a, b):
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return f"at {i}: {a[max(0, i - 60):i + 60]!r} instead of {b[max(0, i - 60):i + 60]!r}"
