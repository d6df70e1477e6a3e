"""C08: a history of saves to one file on a storage that splits, refuses and fails; every save that
returns must have written the program, and once the storage is well saving works again."""
from .. import kernel, saving, steps
from ..saving import Disk
from ..simfs import F, SimCrash
from ..util import R, Violation, must_fork, short

PID = "C08"
LEVEL = "fault_enumeration"
RUNS = {"quick": 2500, "thorough": 200000}
RULE = ("A case is a file (absent, shorter, longer, junk, linked) and 1-3 saves of programs of 0 to 500 holes, each with 0-2 "
        "drawn faults (error of any storage call, once or lasting; short writes; interrupts at any line or storage call; "
        "death of the process), then one undisturbed save; non-trivial: a fault fired. Counted by distinct run log.")
COVER = "distinct (fault, storage call, what was there, how the save ended)"
REAL = ["cq_cam (all of it)", "Python's io buffering and text layers", "the host's file system below the storage seam"]
STUBS = ["storage calls pass a seam that counts, splits, fails and journals them"]
ASSUME = ["Programs are UTF-8 (or in the locale's encoding) on disk, lines end as in the exported text.",
          "Storage faults are those of open, create, truncate, write, fsync, close, rename, unlink, chmod."]


def gen(r: R, i, tier):
    scn = saving.gen_disk(r, {})
    if r.p(0.1):
        scn["enc"] = r.pick(["ascii", "latin-1", "cp1252"])
    scn["saves"] = [{"prog": saving.gen_job(r), "faults": saving.gen_faults(r, r.wpick([(0, 1), (1, 5), (2, 2)]), True)}
                    for _ in range(r.randint(1, 3))]
    scn["last"] = saving.gen_job(r)
    if r.p(0.04):
        # what no file can hold
        r.pick([*(s["prog"] for s in scn["saves"]), scn["last"]])["job"]["name"] = r.pick(["a\ud800b", "\udc80", "x\udfff"])
    todo = [*scn["saves"], {"prog": scn["last"]}]
    saving.gen_near(r, scn, todo)
    scn["last"] = todo[-1]["prog"]
    return scn


def raw(text):
    try:
        return text.encode("utf-8", "surrogateescape")
    except UnicodeError:
        return None  # can't be written


def same(c, text, enc):
    if c is None:
        return False
    if c == raw(text):
        return True
    try:
        return enc != "utf-8" and c == text.encode(enc)
    except UnicodeError:
        return False


def trace_of(scn, job):
    """The storage calls and lines of an undisturbed save (in a fork)."""
    def go():
        with Disk(scn) as d:
            F.trace = []
            with steps.window() as s:
                try:
                    job.save_gcode(d.name())
                except Exception:
                    pass
            return F.trace, s.steps
    return must_fork(go)


def describe(c, text):
    if c is None:
        return "the file does not exist"
    b = raw(text)
    if b is None:
        return "no file can hold the program"
    i = next((i for i in range(min(len(b), len(c))) if b[i] != c[i]), min(len(b), len(c)))
    return f"the file has {len(c)} bytes, the program {len(b)}; they part at {i}: {c[i:i + 40]!r} instead of {b[i:i + 40]!r}"


def run(scn, st):
    st.trivial = True
    todo = [*scn.get("saves", []), {"prog": scn["last"], "faults": []}]
    traces = []
    jobs = []
    for s in todo:
        job = saving.make_job(s["prog"])
        jobs.append(job)
        traces.append(trace_of(scn, job) if s.get("faults") else None)
    enc = scn.get("enc", "utf-8")
    with Disk(scn) as d:
        for n, s in enumerate(todo):
            job = jobs[n]
            text = job.to_gcode()
            F.count, F.faults, F.full, F.fired, F.dead = 0, [], False, [], False
            for x in F.nodes.values():
                x.failed = None
            sw = {}
            if traces[n]:
                F.faults = saving.resolve(s["faults"], traces[n][0])
                ln = [f for f in s["faults"] if f["kind"] == "line"]
                if ln and traces[n][1]:
                    sw = {"fault_at": ln[0]["at"] * traces[n][1] // 1000 + 1, "fault": kernel.make(ln[0]["exc"], "simulated")}
            exc = None
            try:
                with steps.window(**sw) as win:
                    job.save_gcode(d.name())
            except BaseException as e:
                exc = e
            st.inc("steps", win.steps)
            st.inc("storage calls", F.count)
            for f in F.fired:
                st.inc("fault:" + f)
            if win.fired:
                st.inc("fault:interrupt at a line")
            fired = F.fired + (["line"] if win.fired else [])
            if fired:
                st.trivial = False
                st.cover(fired, scn.get("there", {}).get("t"), scn.get("link"), type(exc).__name__)
            c = d.content()
            st.log(n, fired, type(exc).__name__, len(c or b""))
            if isinstance(exc, SimCrash) or F.dead:
                # the machine is rebooted, the disk is what the process left
                for fd in list(F.fds):
                    F.dead = True
                    try:
                        import os
                        os.close(fd)
                    except SimCrash:
                        pass
                F.dead = False
                st.inc("restarts after a crash")
                exc = None
                continue
            if exc is None:
                st.inc("saves that returned")
                if not same(c, text, enc):
                    raise Violation("wrong-content", f"save {n} returned ({fired or 'undisturbed'}), but " + describe(c, text))
                try:
                    nd = F.node(d.p)
                except OSError:
                    nd = None
                if nd is not None and nd.failed:
                    raise Violation("failure-hidden", f"save {n} returned although {nd.failed} of the file failed ({fired})")
            else:
                st.inc("saves that raised")
                if not fired:
                    enc_ok = isinstance(exc, UnicodeError) and (enc != "utf-8" or any("\ud800" <= x <= "\udfff" for x in text))
                    if not enc_ok:
                        raise Violation("undisturbed-save-fails", f"save {n}, undisturbed (after {n} earlier saves), raises "
                                        f"{type(exc).__name__}: {short(str(exc)).replace(d.d, "DIR")}")
