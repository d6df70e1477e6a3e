"""C09: saves to one file - one after the other, crashing, failing, interrupted, or several threads at
once - looked at after every storage call: by a reader opening the file now, by readers that opened it
earlier and are still reading, and by what a power loss now could leave."""
import os

from .. import kernel, saving, sched, simfs, steps
from ..saving import Disk
from ..simfs import F, SimCrash
from ..util import R, Violation, must_fork, short

PID = "C09"
LEVEL = "fault_enumeration"
RUNS = {"quick": 1600, "thorough": 150000}
RULE = ("A case is a file (absent, shorter, longer, junk, linked) and 1-3 savers of programs of 0 to 500 holes, in sequence or "
        "as threads under a drawn schedule, with 0-2 drawn faults; the file is judged after every storage call, live, for "
        "open readers and for every state a power loss could leave; non-trivial: two or more storage calls changed the disk. "
        "Counted by distinct run log.")
COVER = "distinct (sequence of storage calls and thread switches between them, faults)"
REAL = ["cq_cam (all of it)", "Python's io buffering and text layers", "Python threads", "the host's file system below the storage seam"]
STUBS = ["storage calls pass a seam that counts, splits, fails and journals them", "thread switches are the simulator's"]
ASSUME = ["A power loss keeps a prefix of the directory changes; of a file's data changed since its last fsync it may keep "
          "nothing, all, a prefix with the last write torn, or the size without the data.",
          "Directory changes and file data are not ordered with each other except by fsync."]
KEEP = {"prog"}


def gen(r: R, i, tier):
    scn = saving.gen_disk(r, {})
    n = r.wpick([(1, 3), (2, 4), (3, 2)])
    scn["savers"] = [{"prog": saving.gen_job(r), "faults": saving.gen_faults(r, r.wpick([(0, 4), (1, 5), (2, 1)]), True)}
                     for _ in range(n)]
    if n > 1 and r.p(0.7):
        scn["threads_"] = 1
        for s in scn["savers"]:
            s["faults"] = [f for f in s["faults"] if f["kind"] in ("short",)]
        f = saving.gen_faults(r, r.wpick([(0, 3), (1, 2)]), True)
        scn["savers"][0]["faults"] += f
        if r.p(0.4):
            scn["plan"] = {"q": r.pick([1, 1, 2, 3, 5, 8, 13])}
        else:
            scn["plan"] = {"sched": [{"at": r.randrange(10000), "to": r.randrange(n)} for _ in range(r.randint(1, 8))]}
        if r.p(0.3):
            scn["plan"].setdefault("sched", []).append({"at": r.randrange(10000), "to": 0, "exc": "KeyboardInterrupt"})
    scn["last"] = saving.gen_job(r)
    saving.gen_near(r, scn, scn["savers"])
    scn["cut"] = [round(r.random(), 3) for _ in range(2)]
    return scn


def forms(text, enc):
    out = {text.encode("utf-8", "surrogateescape")}
    try:
        out.add(text.encode(enc))
    except UnicodeError:
        pass
    return out


class Watch:
    """Judges the file after every storage call."""

    def __init__(self, d, allowed, st, cuts):
        self.d, self.allowed, self.st, self.cuts = d, allowed, st, cuts
        self.readers = {}
        self.seen = 0
        self.viol = None
        self.look("before anything")

    def name(self, c):
        if c is None:
            return "no file"
        for n, (b, what) in enumerate(self.allowed):
            if b == c:
                return what
        return None

    def complain(self, cls, where, c):
        known = [f"{what}: {len(b) if b is not None else None} bytes" for b, what in self.allowed]
        raise Violation(cls, f"{where}: " + ("the file is missing" if c is None else f"the file holds {len(c)} bytes that are no "
                        f"complete program: {c[:50]!r}...{c[-30:]!r}") + f" (complete: {known})")

    def ok(self, c):
        return any(b == c for b, _ in self.allowed)

    def look(self, what):
        self.seen += 1
        c = self.d.content()
        if not self.ok(c):
            self.complain("live", f"after storage call {F.count} ({what}), for a reader opening it", c)
        for ino, (fd, c0) in list(self.readers.items()):
            os.lseek(fd, 0, 0)
            c1 = self.read(fd)
            if c1 != c0:
                for cut in self.cuts:
                    k = int(len(c0) * cut)
                    if not self.ok(c0[:k] + c1[k:]):
                        self.complain("torn-read", f"after storage call {F.count} ({what}), for a reader that had read {k} bytes "
                                      "before", c0[:k] + c1[k:])
        if c is not None:
            ino = simfs._stat(self.d.p).st_ino
            if ino not in self.readers or self.readers[ino][1] != c:
                if len(self.readers) < 20:
                    self.readers[ino, len(self.readers)] = (self.d.reader(), c)
        for c, how in F.losses(self.d.real if not os.path.lexists(self.d.p) else self.d.p):
            self.st.inc("power losses judged")
            if not self.ok(c):
                self.complain("power-loss", f"power lost after storage call {F.count} ({what}), {how}", c)

    def read(self, fd):
        out = []
        while b := os.read(fd, 1 << 20):
            out.append(b)
        return b"".join(out)

    def close(self):
        for fd, _ in self.readers.values():
            simfs.R("close")(fd)


def trace_of(scn, job):
    def go():
        with Disk(scn) as d:
            F.trace = []
            with steps.window() as s:
                try:
                    job.save_gcode(d.name())
                except Exception:
                    pass
            return F.trace, s.steps
    return must_fork(go)


def reboot():
    """The process died: its descriptors are gone."""
    F.dead = True
    for fd in list(F.fds):
        try:
            os.close(fd)
        except SimCrash:
            pass
    F.dead = False


def run(scn, st):
    savers = scn.get("savers", [])
    jobs = [saving.make_job(s["prog"]) for s in savers]
    last = saving.make_job(scn["last"])
    enc = scn.get("enc", "utf-8")
    traces = [trace_of(scn, j) for j in jobs]
    calls = []
    st.trivial = True
    with Disk(scn) as d:
        allowed = [(d.content(), "the earlier content")]
        w = Watch(d, allowed, st, scn.get("cut", [0.5]))

        def after():
            calls.append(F.lastname)
            if w.viol is None:
                try:
                    w.look(F.lastname)
                except Violation as v:
                    w.viol = v

        F.after = after
        try:
            if scn.get("threads_") and len(savers) > 1:
                crash = threaded(scn, st, d, savers, jobs, traces, allowed, enc)
            else:
                crash = sequential(scn, st, d, savers, jobs, traces, allowed, enc)
            if w.viol:
                raise w.viol
            F.after = None
            w.look("the end")
            F.after = after
            F.faults, F.full = [], False
            # afterwards saving works
            text = last.to_gcode()
            for b in forms(text, enc):
                allowed.append((b, "the last program"))
            try:
                last.save_gcode(d.name())
            except Exception as e:
                raise Violation("save-after", f"an undisturbed save after {'a crash and restart' if crash else 'the saves before'} "
                                f"raises {type(e).__name__}: {short(str(e)).replace(d.d, 'DIR')}")
            if w.viol:
                raise w.viol
            c = d.content()
            if c not in forms(text, enc):
                raise Violation("lost", f"the last, undisturbed save returned, but the file holds {w.name(c)} ({c and len(c)} bytes)")
        finally:
            F.after = None
            w.close()
        st.inc("storage calls", len(calls))
        st.trivial = len(calls) < 2
        st.cover(calls, scn.get("there", {}).get("t"))
        st.log(calls, w.name(c))


def sequential(scn, st, d, savers, jobs, traces, allowed, enc):
    crash = False
    for n, s in enumerate(savers):
        text = jobs[n].to_gcode()
        for b in forms(text, enc):
            allowed.append((b, f"program {n}"))
        F.count, F.full, F.fired = 0, False, []
        F.faults = saving.resolve(s.get("faults", []), traces[n][0])
        sw = {}
        ln = [f for f in s.get("faults", []) if f["kind"] == "line"]
        if ln and traces[n][1]:
            sw = {"fault_at": ln[0]["at"] * traces[n][1] // 1000 + 1, "fault": kernel.make(ln[0]["exc"], "simulated")}
        exc = None
        try:
            with steps.window(**sw) as win:
                jobs[n].save_gcode(d.name())
        except BaseException as e:
            exc = e
        st.inc("steps", win.steps)
        for f in F.fired + (["interrupt at a line"] if win.fired else []):
            st.inc("fault:" + f)
        st.log(n, F.fired, bool(win.fired), type(exc).__name__)
        if F.dead:
            crash = True
            reboot()
        elif exc is None:
            c = d.content()
            if c not in forms(text, enc):
                raise Violation("lost", f"save {n} returned, but the file holds {short(c or b'')}")
    return crash


def threaded(scn, st, d, savers, jobs, traces, allowed, enc):
    out = [None] * len(savers)
    for n, j in enumerate(jobs):
        for b in forms(j.to_gcode(), enc):
            allowed.append((b, f"program {n}"))
    # faults are placed in the first saver's calls, whoever gets there
    F.count, F.full, F.fired = 0, False, []
    F.faults = saving.resolve([f for s in savers for f in s.get("faults", [])], [x for t in traces for x in t[0]])
    def body(n):
        def go(task):
            try:
                jobs[n].save_gcode(d.name())
                out[n] = "ok"
            except BaseException as e:
                out[n] = type(e).__name__
        return go

    total = sum(t[1] for t in traces)
    with steps.window() as win:
        sc = sched.Sched([body(n) for n in range(len(savers))], scn.get("plan", {}), total)
        sc.make = lambda e: kernel.make(e, "simulated")
        sc.run()
    st.inc("steps", win.steps)
    st.inc("fault:thread switch", sc.switches)
    for f in F.fired:
        st.inc("fault:" + f)
    for f in sc.raised:
        st.inc("fault:interrupt in one thread")
    st.cover(sc.log)
    st.log(sc.log, out, F.fired)
    if sc.deadlock:
        raise Violation("deadlock", f"the savers block each other for good: {sc.log}")
    if F.dead:
        reboot()
        return True
    hit = len(F.fired) + len(sc.raised)
    bad = [o for o in out if o != "ok"]
    if len(bad) > hit:
        raise Violation("saver-fails", f"{len(savers)} threads save to one file, {hit} faults: {out}")
    ok = [n for n, o in enumerate(out) if o == "ok"]
    c = d.content()
    if len(ok) == len(out) or len(ok) > 0:
        progs = {b for j in jobs for b in forms(j.to_gcode(), enc)}
        if c not in progs:
            raise Violation("lost", f"saves ended {out}, but the file holds {short(c or b'')}")
    return False
