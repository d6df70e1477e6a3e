"""Seeds -> scenarios -> runs -> verdicts: the driver shared by all properties."""
import argparse
import collections
import copy
import hashlib
import importlib
import json
import os
import select
import subprocess
import sys
import time
import traceback

from . import boot
from .util import Harness, R, Violation, h64, in_fork, short

VERIF = boot.VERIF
WORKERS = 8
RUN_TIMEOUT = 90


class Stats:
    """What one run did; everything goes to the evidence file or to the run's log digest."""

    def __init__(self):
        self.n = collections.Counter()
        self.cover_keys = set()
        self.viols = []
        self.h = hashlib.blake2b(digest_size=8)
        self.sim_s = 0.0
        self.trivial = False

    def inc(self, k, by=1):
        self.n[k] += by

    def cover(self, *key):
        self.cover_keys.add(h64(*key))

    def log(self, *x):
        self.h.update(json.dumps(x, sort_keys=True, default=str).encode())

    def violation(self, cls, msg, **info):
        self.viols.append({"cls": cls, "msg": short(msg, 3000), "info": info})


def run_scn(mod, scn):
    """One simulated run, in this process."""
    st = Stats()
    try:
        mod.run(scn, st)
    except Violation as v:
        st.violation(v.cls, v.msg, **v.info)
    except BaseException as e:
        # an undisturbed call beyond the step budget: too big a case to judge here (C15 judges it)
        if "OutOfSteps" not in f"{type(e).__name__} {e}":
            raise
        st.inc("cases beyond the step budget")
        st.trivial = True
    st.log([(v["cls"], v["msg"]) for v in st.viols])
    return {"viols": st.viols, "n": dict(st.n), "cover": sorted(st.cover_keys), "digest": st.h.hexdigest(),
            "sim_s": st.sim_s, "trivial": st.trivial}


def isolated(mod, scn, timeout=RUN_TIMEOUT):
    return in_fork(run_scn, mod, scn, timeout=timeout)


def gen_scn(mod, seed, i, tier):
    # (as read from a replay file: equal numbers and texts need not be the same object)
    return json.loads(json.dumps(mod.gen(R(seed, mod.PID, i), i, tier)))


# ---------------------------------------------------------------------- workers
def worker(mod, seed, tier, todo, wfd, deadline):
    """todo: iterable of indices. Writes one JSON line per run."""
    for i in todo:
        if time.monotonic() > deadline:
            line = {"i": None}
        else:
            t0 = time.monotonic()
            scn = gen_scn(mod, seed, i, tier)
            st, v = isolated(mod, scn)
            if st != "ok":
                # once more: a loaded machine is not a verdict
                st, v = isolated(mod, scn, RUN_TIMEOUT * 2)
            line = {"i": i, "st": st, "v": v, "t": time.monotonic() - t0}
        data = (json.dumps(line, default=str) + "\n").encode()
        while data:
            data = data[os.write(wfd, data):]
        if line["i"] is None:
            return


def batch(mod, seed, tier, n, workers, deadline, stop_on=None):
    """Runs indices 0..n-1; returns list of result lines ordered by index."""
    procs = []
    for w in range(workers):
        r, wf = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                worker(mod, seed, tier, range(w, n, workers), wf, deadline)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(4)
        os.close(wf)
        procs.append([pid, r, b"", w])
    live = {p[1]: p for p in procs}
    out, stop, crashed = [], False, False
    while live:
        rs, _, _ = select.select(list(live), [], [], 5)
        for fd in rs:
            p = live[fd]
            b = os.read(fd, 1 << 16)
            if not b:
                os.close(fd)
                del live[fd]
                _, stt = os.waitpid(p[0], 0)
                if stt and not stop:
                    crashed = True
                continue
            p[2] += b
            while b"\n" in p[2]:
                l, p[2] = p[2].split(b"\n", 1)
                d = json.loads(l)
                if d["i"] is None:
                    continue
                out.append(d)
                if stop_on and stop_on(d):
                    stop = True
        if stop:
            import signal
            for p in live.values():
                try:
                    os.killpg(p[0], signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    try:
                        os.kill(p[0], signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            for fd, p in list(live.items()):
                os.close(fd)
                os.waitpid(p[0], 0)
            live = {}
    if crashed:
        raise Harness("a worker process died")
    out.sort(key=lambda d: d["i"])
    return out


# ---------------------------------------------------------------------- minimising
def _paths(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


LISTS = {"ops", "faults", "sched", "inners", "steps", "savers", "history", "events", "threads", "pts", "avoid", "calls", "states", "variants"}
KEEP = {"precision", "op", "sh", "as", "t", "k", "z", "outer_", "job", "shapes", "tools", "tabs", "kind", "feed", "tool_diameter"}


def reductions(scn, keep=()):
    """Simpler scenarios, most drastic first."""
    for path, v in list(_paths(scn)):
        if isinstance(v, list) and path and path[-1] in LISTS and v:
            n = len(v)
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    if size == n and path[-1] in ("steps", "threads", "savers"):
                        continue
                    c = copy.deepcopy(scn)
                    del _get(c, path)[a:a + size]
                    yield c
                size //= 2
    for path, v in list(_paths(scn)):
        if isinstance(v, dict):
            for k in sorted(v):
                if k in KEEP or k in keep or (path and path[-1] == "shapes") or not path:
                    continue
                c = copy.deepcopy(scn)
                del _get(c, path)[k]
                yield c
    for path, v in list(_paths(scn)):
        if isinstance(v, (int, float)) and not isinstance(v, bool) and path:
            for s in (0, 1):
                if v != s and (v > 1 or v < 0):
                    c = copy.deepcopy(scn)
                    _get(c, path[:-1])[path[-1]] = s
                    yield c
            if isinstance(v, int) and v > 3 and path[-1] in ("n", "at", "loc", "occ", "i"):
                c = copy.deepcopy(scn)
                _get(c, path[:-1])[path[-1]] = v // 2
                yield c
        if isinstance(v, str) and path and path[-1] == "plane" and v != "xy":
            c = copy.deepcopy(scn)
            _get(c, path[:-1])[path[-1]] = "xy"
            yield c


def minimise(mod, scn, want, budget_s):
    """Greedy reduction keeping a violation of the same class."""
    end = time.monotonic() + budget_s
    tried, size = 0, lambda s: len(json.dumps(s))
    seen = {h64(scn)}
    cur = scn
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for c in reductions(cur, getattr(mod, "KEEP", ())):
            if time.monotonic() > end:
                break
            k = h64(c)
            if k in seen:
                continue
            seen.add(k)
            tried += 1
            st, v = isolated(mod, c, 10)
            if st == "ok" and any(x["cls"] == want["cls"] and x["info"].get("finding") == want["info"].get("finding")
                                  for x in v["viols"]):
                cur = c
                changed = True
                break
    return cur, tried


# ---------------------------------------------------------------------- known findings
def findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    d = json.load(open(p))
    return [f for f in d.get("known", []) if f["property"] == pid]


# ---------------------------------------------------------------------- main
def load(pid):
    boot_all()
    return importlib.import_module("sim.props." + pid.lower())


def boot_all():
    import logging

    from . import ambient, kernel, sched, simfs, steps
    ambient.install()
    simfs.install()
    sched.install()
    kernel.install()
    boot.boot()
    kernel.install_modules()
    steps.install()
    import warnings
    warnings.simplefilter("ignore")
    # log records must not reach stderr
    logging.getLogger().handlers[:] = [logging.NullHandler()]
    logging.captureWarnings(False)
    sys.setswitchinterval(0.005)
    import gc
    gc.collect()
    gc.freeze()


def main(argv=None):
    if (argv or sys.argv[1:]) == ["--smoke"]:
        boot_all()
        print("the code under test and its kernels import; seams installed")
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--workers", type=int, default=WORKERS)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run one index and print what it did")
    ap.add_argument("--digest", action="store_true", help="print run digests (determinism test)")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--no-min", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.monotonic()
    try:
        mod = load(a.pid)
        if hasattr(mod, "setup"):
            mod.setup(a)
        if a.replay:
            return replay(mod, a)
        if a.one is not None:
            scn = gen_scn(mod, a.seed, a.one, a.tier)
            print(json.dumps(scn))
            st, v = isolated(mod, scn)
            print(st, v if st != "ok" else json.dumps(v, indent=1, default=str)[:6000])
            return 0 if st == "ok" else 2
        return explore(mod, a, t0)
    except Harness as e:
        print("HARNESS-ERROR", a.pid, e)
        return 2
    except Exception:
        traceback.print_exc()
        print("HARNESS-ERROR", a.pid)
        return 2


def replay(mod, a):
    d = json.load(open(a.replay))
    st, v = isolated(mod, d["scenario"], 300)
    if st != "ok":
        print("HARNESS-ERROR replay:", st, v)
        return 2
    want = d["violation"]
    for x in v["viols"]:
        if x["cls"] == want["cls"] and x["info"].get("finding") == want["info"].get("finding"):
            print("reproduced:", x["cls"], x["msg"])
            print(f"VIOLATION property={mod.PID} replay={a.replay}")
            return 1
    print("not reproduced; run digest", v["digest"])
    return 0


def explore(mod, a, t0):
    pid = mod.PID
    n = a.runs if a.runs is not None else mod.RUNS[a.tier]
    wall = a.wall or {"quick": 420.0, "thorough": 2400.0}[a.tier]
    known = findings(pid)
    ksig = {f["finding"] for f in known}

    skip = set()

    def new(d):
        return d["st"] == "ok" and d["i"] not in skip and any(x["info"].get("finding") not in ksig for x in d["v"]["viols"])

    print(f"seed={a.seed} property={pid} tier={a.tier} runs={n} workers={a.workers} src={boot.SRC}", flush=True)
    out = batch(mod, a.seed, a.tier, n, a.workers, t0 + wall, None if a.digest else new)
    if a.digest:
        for d in out:
            print("DIGEST", d["i"], d["st"], d["v"]["digest"] if d["st"] == "ok" else d["v"])
        return 0
    bad = [d for d in out if new(d)]
    code = 0
    for f in known:
        st, v = isolated(mod, f["scenario"], 120)
        if st == "ok" and any(x["info"].get("finding") == f["finding"] for x in v["viols"]):
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        else:
            print(f"note: known finding {f['finding']} did not occur ({st})")
    vio = 0
    while bad and not code:
        d = bad[0]
        scn = gen_scn(mod, a.seed, d["i"], a.tier)
        want = [x for x in d["v"]["viols"] if x["info"].get("finding") not in ksig][0]
        vio = len(bad)
        print(f"violated in run {d['i']} (of {len(out)} done): {want['cls']}: {want['msg']}", flush=True)
        mini, tried = (scn, 0) if a.no_min else minimise(mod, scn, want, 40 if a.tier == "quick" else 120)
        path = write_replay(mod, a, d["i"], mini, want)
        ok = confirm(mod, path)
        if not ok and mini is not scn:
            path = write_replay(mod, a, d["i"], scn, want)
            ok = confirm(mod, path)
        print(f"minimised {len(json.dumps(scn))} -> {len(json.dumps(mini))} bytes in {tried} attempts; "
              f"fresh-process replay {'reproduces it' if ok else 'DOES NOT REPRODUCE IT'}")
        print("scenario:", json.dumps(json.load(open(path))["scenario"]))
        if ok:
            print(f"VIOLATION property={pid} replay={path}")
            code = 1
            break
        # something outside the simulator's control had a part in it: look for a run that repeats
        skip.add(d["i"])
        bad = [x for x in out if new(x)]
        if not bad and len(skip) < 4 and time.monotonic() < t0 + wall:
            out = batch(mod, a.seed, a.tier, n, a.workers, t0 + wall, new)
            bad = [x for x in out if new(x)]
        if not bad or len(skip) >= 6:
            print("HARNESS-ERROR: not reproducible in a fresh process")
            code = 2
            vio = 0
    errs = [d for d in out if d["st"] != "ok"]
    done = [d for d in out if d["st"] == "ok"]
    if not code and errs:
        for d in errs[:5]:
            print("HARNESS-ERROR run", d["i"], d["st"], d["v"])
        code = 2
    if not code and len(done) < min(n, max(20, n // 5)):
        print(f"HARNESS-ERROR: only {len(done)} of {n} runs within the time limit")
        code = 2
    same = None
    if not code and done:
        # the same seeds again, in this process instead of the worker's
        some = done[::max(1, len(done) // 6)][:6]
        rep = [isolated(mod, gen_scn(mod, a.seed, d["i"], a.tier), 120) for d in some]
        same = [sum(1 for d, (st, v) in zip(some, rep) if st == "ok" and v["digest"] == d["v"]["digest"]), len(some)]
        print(f"repeated: {same[0]} of {same[1]} runs gave the same digest")
    evidence(mod, a, out, done, vio, t0, known, same)
    slow = sorted(out, key=lambda d: -d.get("t", 0))[:3]
    print("slowest runs:", ", ".join(f"{d['i']}: {d.get('t', 0):.1f}s" for d in slow))
    print(f"{pid}: {len(done)} runs in {time.monotonic() - t0:.1f}s, exit {code}")
    return code


def write_replay(mod, a, i, scn, want):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{mod.PID}-{h64(scn):016x}.json")
    with open(path, "w") as f:
        json.dump({"property": mod.PID, "seed": a.seed, "index": i, "tier": a.tier, "violation": want, "scenario": scn,
                   "replay_command": f"/verif/check {mod.PID} --replay {path}"}, f, indent=1, default=str)
    return path


def confirm(mod, path):
    p = subprocess.run([sys.executable, "-m", "sim.core", mod.PID, "--replay", path], cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    return p.returncode == 1


def evidence(mod, a, out, done, vio, t0, known, same=None):
    wall = time.monotonic() - t0
    n = collections.Counter()
    cover, digests = set(), set()
    sim_s, nontriv = 0.0, 0
    for d in done:
        v = d["v"]
        n.update(v["n"])
        cover.update(v["cover"])
        sim_s += v["sim_s"]
        if not v["trivial"] and v["digest"] not in digests:
            nontriv += 1
        digests.add(v["digest"])
    samples = []
    for d in done[:3]:
        s = gen_scn(mod, a.seed, d["i"], a.tier)
        if len(json.dumps(s)) < 6000:
            samples.append(s)
    if not samples and done:
        samples = [short(json.dumps(gen_scn(mod, a.seed, done[0]["i"], a.tier)), 5000)]
    ev = {
        "property": mod.PID, "tier": a.tier, "seed": a.seed, "level": mod.LEVEL, "wall_s": round(wall, 2),
        "violations": vio,
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": nontriv,
            "rule": mod.RULE,
            "samples": samples,
            "runs_per_hour": int(len(done) / wall * 3600),
            "seeds": f"{len(done)} run seeds derived from VERIF_SEED={a.seed}",
            "seeds_per_hour": int(len(done) / wall * 3600),
            "simulated_time": {"library_steps": n.get("steps", 0), "machine_seconds": round(sim_s, 1)},
            "faults_fired": {k[6:]: v for k, v in sorted(n.items()) if k.startswith("fault:")},
            "events": {k: v for k, v in sorted(n.items()) if not k.startswith("fault:") and k != "steps"},
            "distinct_states": len(cover),
            "distinct_states_measure": mod.COVER,
            "real_components": mod.REAL,
            "stubs": mod.STUBS,
            "known_findings": [f["finding"] for f in known],
            "runs_not_decided": len(out) - len(done),
            "repeated_with_same_digest": same,
        },
        "assumptions": mod.ASSUME,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(ev, indent=1, default=str)
    if len(s) > 60000:
        ev["coverage"]["samples"] = [short(json.dumps(samples[0]), 4000)]
        s = json.dumps(ev, indent=1, default=str)
    with open(os.path.join(d, mod.PID + ".json"), "w") as f:
        f.write(s)


if __name__ == "__main__":
    sys.exit(main())
