"""Workloads around saving: jobs with programs of very different lengths, files that are already
there, the ways a path can be given, and what the storage does."""
import json
import os
import shutil
import tempfile
from pathlib import Path

from . import kernel, simfs, world
from .simfs import F
from .util import R


class Disk:
    """A scratch directory below the storage seam."""

    def __init__(self, scn):
        self.scn = scn

    def __enter__(self):
        self.d = os.path.realpath(tempfile.mkdtemp(prefix="cqsim"))
        self.cwd = os.getcwd()
        os.chdir(self.d)
        s = self.scn
        self.p = os.path.join(self.d, s.get("file", "p.nc"))
        real = self.p
        k = s.get("there")
        if s.get("link"):
            os.mkdir(os.path.join(self.d, "t"))
            real = os.path.join(self.d, "t", "q.nc")
            os.symlink("t/q.nc", self.p)
        self.real = real
        if k is not None:
            with open(real, "wb") as f:
                f.write(old_content(k))
            os.chmod(real, s.get("mode", 0o644))
        F.start(self.d)
        F.enc = s.get("enc", "utf-8")
        return self

    def __exit__(self, *a):
        F.stop()
        os.chdir(self.cwd)
        shutil.rmtree(self.d)
        return False

    def name(self):
        f = self.scn.get("form", "str")
        if f == "path":
            return Path(self.p)
        if f == "rel":
            return os.path.basename(self.p)
        if f == "bytes":
            return os.fsencode(self.p)
        return self.p

    def content(self):
        """What a program reading the named file gets now."""
        try:
            fd = simfs.R("open")(self.p, os.O_RDONLY)
        except FileNotFoundError:
            return None
        try:
            out = []
            while b := os.read(fd, 1 << 20):
                out.append(b)
            return b"".join(out)
        finally:
            simfs.R("close")(fd)

    def reader(self):
        return simfs.R("open")(self.p, os.O_RDONLY)


def old_content(k):
    if k["t"] == "near":
        # what a nearly identical job wrote: as long, and one digit different
        t = make_job(k["prog"]).to_gcode()
        at = [i for i, c in enumerate(t) if c in "123456789"]
        if k.get("end"):
            return (t[:-1] + ("1" if t[-1:] == "0" else "0")).encode()
        i = at[k["at"] * len(at) // 1000]
        return (t[:i] + str(int(t[i]) % 9 + 1) + t[i + 1:]).encode()
    if k["t"] == "junk":
        return bytes((i * 37 + 11) % 256 for i in range(k["n"]))
    lines = ["(old program)", "G90 G54", "M3 S1000"] + [f"G1 X{i} Y{i % 7}" for i in range(k["n"])] + ["M30"]
    return "\n".join(lines).encode()


def gen_there(r: R):
    return r.wpick([(None, 2), ({"t": "prog", "n": r.pick([1, 20])}, 3), ({"t": "prog", "n": r.pick([700, 3000])}, 3),
                    ({"t": "junk", "n": r.pick([0, 1, 5000])}, 1)])


def gen_disk(r: R, scn):
    t = gen_there(r)
    if t is not None:
        scn["there"] = t
        if r.p(0.15):
            scn["mode"] = r.pick([0o600, 0o444, 0o755])
    if r.p(0.12):
        scn["link"] = 1
    if r.p(0.5):
        scn["form"] = r.pick(["path", "rel", "bytes"])
    if r.p(0.1):
        scn["file"] = r.pick(["a program.nc", "x" * 250 + ".nc", "noext", ".hidden.nc", "ä.nc", "p.tmp", "p.nc.tmp", " p.nc", "p.nc ",
                              "$HOME.nc", "${LANG}", "~", "~p.nc", "%TEMP%.nc", "two\nlines.nc", "-o", "p*?[1].nc", "P.NC", "p.nc~", "p.nc.",
                              "a\u0308.nc", "\udc80.nc", "p.nc.gz", "#1;2.nc", "c:p.nc", "a\\b.nc", "CON"])
    return scn


def gen_job(r: R, name=True):
    """A cheap job description whose program has a drawn length."""
    s = world.gen_job(r, planes=False)
    s["precision"] = 2
    s["name"] = r.pick(["Job", "A", "Lid", "Job 2"]) if not r.p(0.15) else r.pick(["Träger", "盖"])
    n = r.wpick([(0, 0.5), (1, 1), (5, 2), (60, 2), (160, 2), (500, 0.7)])
    return {"job": s, "n": n, "dx": r.randint(0, 50), "pocket": 1 if r.p(0.15) else 0}


def make_job(spec):
    import cadquery as cq

    job = world.make_job(spec["job"])
    if spec.get("pocket"):
        job = job.pocket(world.make_face({"z": -1, "outer": {"t": "rect", "w": 9, "h": 7}}, "xy"))
    n, dx = spec.get("n", 1), spec.get("dx", 0)
    for a in range(0, n, 40):
        job = job.drill([cq.Vector((i * 7 + dx) % 101, i // 13, 0) for i in range(a, min(n, a + 40))], depth=1)
    return job


def gen_near(r: R, scn, saves):
    """Files and later programs that are almost what is saved now."""
    if "there" in scn and r.p(0.3) and saves[0]["prog"]["job"]["name"].isascii():
        scn["there"] = {"t": "near", "prog": saves[0]["prog"], "at": r.randrange(1000)}
        if r.p(0.2):
            scn["there"]["end"] = 1
    for a, b in zip(saves, saves[1:]):
        if r.p(0.3):
            b["prog"] = json.loads(json.dumps(a["prog"]))
            c = r.random()
            if c < 0.4:
                b["prog"]["job"]["feed"] = r.pick([111, 222, 333])
            elif c < 0.8:
                b["prog"]["dx"] = (a["prog"]["dx"] + r.pick([1, 2, 10])) % 60


def gen_faults(r: R, n, crash=False):
    out = []
    for _ in range(n):
        k = r.wpick([("err", 5), ("short", 2.5), ("exc", 2), ("line", 2), ("crash", 2 if crash else 0)])
        f = {"kind": k, "at": r.randrange(1000)}
        if k == "err":
            f["e"] = r.randrange(100)
            if r.p(0.3):
                f["sticky"] = 1
        elif k == "short":
            f["part"] = r.pick([0.01, 0.5, 0.99])
            if r.p(0.4):
                f["full"] = 1
        elif k == "exc":
            f["when"] = r.pick(["before", "after"])
            f["exc"] = r.pick(["KeyboardInterrupt", "SystemExit", "MemoryError"])
        elif k == "line":
            f["exc"] = r.pick(["KeyboardInterrupt", "SystemExit", "MemoryError"])
        out.append(f)
    return out


def resolve(fs, trace):
    """Faults by system call number, given the calls an undisturbed save makes."""
    out = []
    for f in fs:
        if f["kind"] == "line" or not trace:
            continue
        g = dict(f)
        if f["kind"] == "short":
            ks = [i for i, n in enumerate(trace) if n == "write"]
            if not ks:
                continue
            g["k"] = ks[f["at"] % len(ks)]
        elif f["kind"] == "err":
            # every kind of call alike
            names = sorted({n for n in trace if n in simfs.ERRS})
            if not names:
                continue
            n = names[f["at"] % len(names)]
            ks = [i for i, x in enumerate(trace) if x == n]
            g["k"] = ks[f["at"] // len(names) % len(ks)]
            g["err"] = simfs.ERRS[n][f.get("e", 0) % len(simfs.ERRS[n])]
        else:
            g["k"] = f["at"] % len(trace)
            if f["kind"] == "exc":
                g["exc"] = kernel.make(f.get("exc", "KeyboardInterrupt"), "simulated")
        out.append(g)
    return out
