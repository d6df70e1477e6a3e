"""Writes /verif/MANIFEST.json."""
import json
import os

D = "deterministic simulation with fault injection: "
LEVELS = {
    "C01": ("exploration", D + "seeded trees of job-building calls with injected failures, against isolated replays of each lineage",
            "Every job of a tree is re-exported after every call and drawn jobs are compared, with everything that can be added to "
            "them, with a fresh replay of their own lineage. Sampled histories of up to 8 calls; assumes callers do not assign attributes."),
    "C02": ("fault_enumeration", D + "failures and interrupts at drawn source lines and kernel calls, then retry and differential comparison",
            "Failures at drawn points of every kind of call, followed by retry and later calls compared byte for byte with a run "
            "without failures; time is compared in executed lines and kernel calls."),
    "C03": ("fault_enumeration", D + "failures and interrupts at drawn source lines and kernel calls, judged by what the caller is told",
            "A returned program is compared as swept cuts with the undisturbed one (rounding tolerance); otherwise an exception or a "
            "logged warning is required."),
    "C04": ("exploration", D + "seeded thread schedules with preemption at source lines, against running the threads one at a time",
            "2-4 real threads under a simulated scheduler, preempted at drawn lines of cq_cam; not inside one line and not inside a kernel call."),
    "C05": ("exploration", D + "programs of seeded call histories executed on a simulated controller, against a fold of the settings",
            "Every generated program is run on the RS-274 interpreter; cuts are attributed to operations and their settings checked."),
    "C06": ("exploration", D + "programs executed on a simulated controller from drawn leftover states",
            "Each program is executed from several drawn modal states, positions and homes and the motions compared."),
    "C07": ("exploration", D + "programs executed on a simulated controller with jogs, power losses and restarts",
            "Each program is executed with jogs at its optional stops and power losses at drawn lines with restarts."),
    "C08": ("fault_enumeration", D + "saves on a simulated storage with errors, short writes, interrupts and crashes",
            "Histories of saves with drawn faults of every storage call; the file is compared after each save."),
    "C09": ("fault_enumeration", D + "crash, power-loss and reader states enumerated after every storage call, saver threads under a simulated scheduler",
            "After each storage call all states of the stated power-loss model are judged; schedules and faults are drawn."),
    "C10": ("exploration", D + "the same calls in processes with drawn hash seeds, heaps, clocks, locales and histories",
            "Programs are compared byte for byte between perturbed processes."),
    "C11": ("fault_enumeration", D + "viewers that record, fail, interrupt and call back at drawn calls; drawings against simulated controller motion",
            "Drawings are compared with the motions of the simulated controller in world coordinates."),
    "C12": ("exploration", D + "histories of calls sharing the caller's objects, with injected failures, against fresh objects",
            "Snapshots of every input before and after, and programs compared with ones made from fresh equal objects."),
    "C13": ("exploration", D + "seeded sessions repeating work with injected failures and interrupts, watching the process's memory, files and settings",
            "Ten repetitions (200 on suspicion) of a piece of work; what the collector tracks and what lines of cq_cam allocate, settings after every call. "
            "Native memory is not seen."),
    "C14": ("fault_enumeration", D + "sessions under a simulated import system whose optional packages are absent, broken, outdated, interrupted and come back",
            "The library is imported anew in every run; every call is compared with the same session in a complete installation."),
    "C15": ("exploration", D + "calls with edge-of-range parameters on failing kernels under a step budget (bounded liveness)",
            "120 times the ordinary call's executed lines plus 200000 is taken for not ending."),
    "C16": ("exploration", D + "calls made, and processes forked, at drawn source lines inside other calls",
            "Calls are made inside others at drawn lines of cq_cam (one level deep) and compared with the same calls by themselves; forks "
            "happen with up to three threads parked in the middle of calls. Not inside one line and not inside a kernel call."),
}
GEO = ("A pure function of one call's arguments: no schedule, fault, clock, crash or history can influence it, so there is nothing for "
       "a simulator to decide; it needs input-space methods (property-based testing or proof over geometry).")
NA = {f"C{n}": GEO for n in range(20, 30)}
root = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
checks, na = [], []
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
for p in props:
    i = p["id"]
    if os.path.exists(f"{root}/sim/props/{i.lower()}.py"):
        lv, tech, note = LEVELS[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "./check --smoke", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are sys.monitoring line events, wrappers around cadquery/OCP/pyclipper/shapely, os and "
              "io functions, threading locks and the viewer callback, all installed by /verif/sim in the checking process only."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
