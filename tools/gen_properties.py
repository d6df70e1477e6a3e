"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


F = "src/cq_cam/"
# ---------------------------------------------------------------- claimed
prop("C01", "A job's program depends only on the calls that built it",
     "Once a job value has been obtained, the program it exports, and the program of anything later added to it, are determined by the chain of calls that produced it alone. Adding operations or tools to it or to any job derived from it, exporting, viewing and failed calls, in any order and number, never change it: two branches grown from one job never see each other.",
     ["histories", "fault_sequences"],
     "every tree of job-building calls (operations with and without a tool, valid and failing ones, exports, views) grown from one job, and every node of that tree",
     "The tests build one short chain each and look at it once; none grows two branches from one job, re-uses a job after a later call, or looks at an old job again.",
     [F + "fluent.py", F + "tool.py"],
     [("every fluent operation returns a shallow copy with a new operations list", F + "fluent.py:Job._add_operation"),
      ("tool settings are carried on the job value", F + "fluent.py:Job.update_tool")],
     [("Job.operations / tool_diameter / tool_number / feed / speed", "the history and the settings in force", F + "fluent.py:Job")],
     ["Job.to_gcode()", "Job.operations[i].to_gcode()"])

prop("C02", "A failed or interrupted operation leaves no trace and can be retried",
     "If an operation, export or view raises - because the geometry kernel fails, memory runs out or the user interrupts it, at any point of its execution - the job it was called on, the job's earlier operations and every later call behave exactly as if the failed call had never been made. In particular, repeating the same call once the cause is gone succeeds, yields exactly the program an undisturbed call yields, and takes no longer than an undisturbed call.",
     ["crash_points", "fault_sequences", "histories"],
     "every point inside an operation, export or view at which an exception can arrive (each executed source line, each kernel call), every sequence of such failures, followed by any later calls",
     "The tests never make the kernel fail and never interrupt anything; the three tests that expect an exception do not look at the state left behind.",
     [F + "fluent.py", F + "operations/", F + "routers.py", F + "utils/"],
     [("the job is only replaced after the commands were computed", F + "fluent.py:Job._add_operation"),
      ("module level state is limited to caches and debug lists", F + "utils/utils.py:cached_dist2, " + F + "visualize.py:_occ_color_cache, " + F + "operations/profile.py:TAB_ERRORS")],
     [("module level caches and lists", "survive a failed call", F + "utils/utils.py, " + F + "visualize.py, " + F + "operations/profile.py")],
     ["Job.to_gcode() before/after", "the same call retried"])

prop("C03", "No failure is swallowed: an interrupted or crippled call never looks fine",
     "A user interrupt or interpreter exit that arrives while the library is computing, exporting or drawing always reaches the caller. Any other failure below it (geometry kernel, clipper, memory) either reaches the caller as an exception, or is masked completely so that the program is the one of an undisturbed call within rounding, or is at least reported as a warning or error through logging; a program that silently lacks cuts, lacks tabs or goes outside what the undisturbed program touches is never returned.",
     ["fault_sequences", "crash_points"],
     "every single or repeated failure of a kernel call, and every interrupt at an executed source line, in every operation, export and view",
     "The handlers that retry, skip or degrade (offsetting, tab assembly, drawing) are never entered by a test.",
     [F + "utils/geometry_op.py", F + "operations/profile.py", F + "command.py", F + "operations/pocket.py", F + "visualize.py"],
     [("offsetting retries once with a slightly different distance, then gives up", F + "utils/geometry_op.py:offset_wire"),
      ("tab assembly failures are logged", F + "operations/profile.py:apply_tabs"),
      ("drawing failures fall back to a line", F + "command.py:Circular.to_ais_shape")],
     (), ["return value or exception of the call", "records on the logging tree"])

prop("C04", "Concurrent callers get the programs they would get one at a time",
     "When several threads build, extend, export or view jobs at the same time - their own jobs, branches of one shared job, the same shapes, the same tab and tool descriptions - every call returns what it returns when the threads run one after another, for every interleaving. A call that fails or is interrupted in one thread does not affect any other thread, and no interleaving deadlocks.",
     ["schedules", "fault_sequences"],
     "every interleaving of two to four caller threads at source-line granularity, with and without one of them being interrupted",
     "No test starts a thread.",
     [F + "fluent.py", F + "operations/tabs.py", F + "operations/profile.py", F + "utils/utils.py", F + "visualize.py", F + "utils/tree.py", F + "utils/linked_polygon.py"],
     [("operations work on values local to the call", F + "operations/, " + F + "routers.py"),
      ("jobs are copied, never extended in place", F + "fluent.py:Job._add_operation")],
     [("tab descriptions hold the wire being processed", "shared if the caller shares the object", F + "operations/tabs.py"),
      ("module level caches and lists", "shared by all threads", F + "utils/utils.py, " + F + "visualize.py, " + F + "operations/profile.py")],
     ["Job.to_gcode() per thread"])

prop("C05", "Every operation is machined once, in order, with its own settings",
     "When the exported program of any history of calls runs on a controller, each operation added is machined exactly once, in the order of the calls, with the tool diameter, tool, spindle speed, feed rates and coolant in force for that call: the job's settings overridden by the tools given up to and including that call. The tool is exchanged exactly when the tool number changes, with the spindle and any coolant stopped and the tool parked, and both running again before the next cut; the program leaves the spindle and the coolant off and ends once.",
     ["histories", "configurations"],
     "every history of operations and tool descriptions (any subset of number, diameter, speed, feed changing at any call), including branches and failed calls in between",
     "The tests change the tool at most twice and compare single operations as text; no test runs a whole program, so the state a later or earlier call leaks into another operation is not seen.",
     [F + "fluent.py", F + "command.py", F + "tool.py", F + "routers.py", F + "operations/"],
     [("tool and speed changes become their own operation", F + "fluent.py:Job.update_tool"),
      ("start, stop and tool change sequences", F + "command.py:StartSequence, StopSequence, ToolChange"),
      ("program assembly", F + "fluent.py:Job.to_gcode")],
     [("controller modal state", "tool, spindle, coolant, feed while each cut runs", "the simulated controller")],
     ["Job.to_gcode() executed by a simulated controller"])

prop("C06", "Execution does not depend on the state the controller was left in",
     "The motion a program produces, in physical units, is the same whatever modal state, position, spindle, feed or canned cycle the previous program or operator left in the controller, and wherever its home position is. The units, the work offset and the path mode in effect are the ones declared for the job, from before the first motion to the end, and the controller never meets a line it must reject.",
     ["configurations", "histories"],
     "every combination of leftover modal state (units, distance, plane, feed mode, compensation, canned cycle, work offset, path mode, arc centre mode, spindle mode), position, home position, and every declared unit, work offset and path mode",
     "The tests compare the preamble as text for one metric job in the first work offset; no test declares another unit, offset or path mode and looks at the program.",
     [F + "command.py", F + "fluent.py", F + "groups.py", F + "address.py"],
     [("safety block before and after the operations", F + "command.py:SafetyBlock"),
      ("every motion line repeats its motion code and all known coordinates", F + "command.py, " + F + "address.py")],
     [("controller modal groups", "left over from earlier programs", "the simulated controller")],
     ["Job.to_gcode() executed by a simulated controller from many initial states"])

prop("C07", "Operations start safely from anywhere and can be resumed after a stop",
     "Wherever the tool is when an operation starts - after homing, a tool change, a manual jog during an optional stop, or a power loss at any line of the program - the operation first retracts straight up, moves sideways in rapid only at or above the job's safe height, and never rapids below the job surface. Restarting an interrupted program at the beginning of any operation, from any position, makes exactly the cuts the uninterrupted program makes from there on.",
     ["crash_points", "configurations", "histories"],
     "every line at which the machine can stop, every operation at which it can be restarted, every position and home position it can be in, for every program",
     "The tests compare programs as text; nothing executes one, stops it or resumes it, and only one start height is used.",
     [F + "routers.py", F + "operations/drill.py", F + "operations/pocket.py", F + "operations/op3d.py", F + "command.py", F + "fluent.py"],
     [("each operation starts with an unknown position and a pure Z retract", F + "routers.py:rapid_to, " + F + "operations/drill.py"),
      ("unknown coordinates are not emitted", F + "address.py:AddressVector, " + F + "command.py:MotionCommand")],
     [("controller position", "unknown at the start of an operation", "the simulated controller")],
     ["Job.to_gcode() executed by a simulated controller with stops, jogs and restarts"])

prop("C08", "A save that returns wrote exactly the exported program; otherwise it raises",
     "When saving returns normally the named file contains exactly the program the job exports, whatever was there before and however the storage splits the writes. When the storage refuses or fails at any step, saving raises to the caller and never reports success. Once the storage works again saving succeeds again, also after a crash in the middle of a save.",
     ["fault_sequences", "histories"],
     "every step of a save (opening, each write, flushing, closing, renaming) failing or completing partially, for every job, earlier file content and file name",
     "No test saves a program.",
     [F + "fluent.py"],
     [("the exported text is written through one file object", F + "fluent.py:Job.save_gcode")],
     [("destination file", "earlier content, partial writes", "the simulated disk")],
     ["bytes of the destination file", "exception of Job.save_gcode"])

prop("C09", "A program file on disk is always complete: the old one or the new one",
     "At every instant of a save, and after a failure, interrupt, crash or power loss at any point of it, the named file holds either its complete earlier content or one complete exported program - never a truncated, mixed or empty one that a machine could start. The same holds for a reader that opens the file at any time and for several threads saving to one file at once, where the last one to finish without error wins or loses completely.",
     ["crash_points", "schedules", "fault_sequences"],
     "every crash and failure point of a save, every legal state of the disk after a power loss there, every moment a reader looks, every interleaving of concurrent saves",
     "No test saves a program, and a unit test cannot cut the power.",
     [F + "fluent.py"],
     [("the file is replaced as a whole", F + "fluent.py:Job.save_gcode")],
     [("destination file", "shared with the machine that reads it", "the simulated disk")],
     ["bytes of the destination file after every step"])

prop("C10", "The same model and parameters always give byte-identical programs",
     "The exported program is a function of the model and the parameters only. It does not depend on the process, the interpreter's hash randomisation, object identities, the clock, the locale, the working directory, garbage collection, random number generators, what was computed, cached or failed earlier in the process, or how often it is exported.",
     ["configurations", "histories"],
     "every setting of those ambient inputs, and every earlier history of the process",
     "The tests run under one hash seed and compare few programs with text recorded on one machine; each output is computed once.",
     [F + "fluent.py", F + "operations/", F + "utils/utils.py", F + "utils/tree.py", F + "utils/linked_polygon.py", F + "routers.py"],
     [("ordered containers throughout, ties broken by position", F + "utils/tree.py:Tree.sequences, " + F + "operations/strategy.py"),
      ("caches are keyed by value", F + "utils/utils.py:cached_dist2")],
     [("module level caches", "survive between jobs", F + "utils/utils.py, " + F + "visualize.py")],
     ["Job.to_gcode()"])

prop("C11", "A viewer gets each operation once, in order, complete, without side effects",
     "Showing a job hands the viewer one drawing per operation, in order and under the operation's name, and the drawing follows every cutting motion of the operation in order, arcs included, in the place where the model is, and shows nothing else but positioning moves. If the viewer fails or is interrupted at any call the failure reaches the caller after exactly the drawings before it; viewers may call back into the library; and neither changes the job or what a later showing delivers.",
     ["fault_sequences", "histories"],
     "every viewer kind, every call at which a viewer fails or re-enters the library, every history of operations",
     "The viewer in the tests ignores what it is given and never fails.",
     [F + "fluent.py", F + "visualize.py", F + "command.py"],
     [("one call per operation", F + "fluent.py:Job.show"),
      ("each command draws itself", F + "command.py:to_ais_shape, " + F + "visualize.py")],
     [("colour cache", "shared by all drawings", F + "visualize.py:_occ_color_cache")],
     ["arguments of the viewer callback", "Job.to_shapes()"])

prop("C12", "What the caller passes in can be reused: inputs are never modified",
     "Faces, wires, workplanes, lists, tool and tab descriptions passed to the library are not modified by it, also when the call fails or is interrupted. Using one description or shape object for any number of operations, jobs and failed attempts in any order gives the same programs as using a fresh equal object for each call.",
     ["histories", "fault_sequences"],
     "every sequence of operations, failing ones included, that share shape, list, tool and tab objects",
     "Each test builds its inputs anew and uses them once; the tab tests use each description for one wire.",
     [F + "operations/tabs.py", F + "operations/profile.py", F + "operations/pocket.py", F + "operations/drill.py", F + "utils/utils.py", F + "utils/geometry_op.py", F + "utils/circle_bug_workaround.py"],
     [("shapes are transformed into copies first", F + "operations/profile.py, " + F + "operations/pocket.py"),
      ("tab descriptions are reloaded for each wire", F + "operations/tabs.py")],
     [("tab descriptions", "hold the wire loaded last", F + "operations/tabs.py")],
     ["the input objects before and after", "Job.to_gcode()"])

prop("C13", "A session can go on for ever: calls leave nothing behind in the process",
     "However often work is repeated in one process - on the same model or on ever-changing ones, whether calls succeed, fail or are interrupted - a repetition takes no longer and the process holds no more memory, descriptors, threads or temporary files than after the first ones, apart from caches of bounded size. After every call, also a failed or interrupted one, process-wide settings (working directory, environment, locale, signal handlers, collector, logging, warnings, numeric settings, random generators, the modules of the kernels) are what they were before.",
     ["histories", "fault_sequences"],
     "every piece of work repeated any number of times in one process, with every failure or interrupt in it",
     "Each test runs its call once and the process ends; nothing compares the process before and after.",
     [F + "fluent.py", F + "operations/", F + "utils/", F + "visualize.py", F + "command.py"],
     [("distances between points are cached", F + "utils/utils.py:cached_dist2"),
      ("failed tabs are kept for inspection", F + "operations/profile.py:TAB_ERRORS"),
      ("colours are cached", F + "visualize.py:_occ_color_cache"),
      ("temporary files of saves", F + "utils/files.py")],
     [("module-level containers and caches", "outlive every call", F + "operations/profile.py, " + F + "utils/utils.py, " + F + "visualize.py")],
     ["gc.get_objects(), tracemalloc", "/proc/self/fd, directories", "os, sys, signal, logging, warnings, locale, numpy, random"])

prop("C14", "Optional packages: only what needs one fails, and it recovers",
     "The library imports, and every call that does not need them works unchanged, when cq_editor, ocp_vscode or opencamlib are missing, outdated, or fail in any way when imported. A call that does need one - a 3D surface needs opencamlib, a drawing for cq_editor needs its colours - raises then and leaves no trace, and works like in a complete installation once the package can be imported, without a restart; the same after an interrupted import.",
     ["fault_sequences", "histories"],
     "every state each optional package can be in when it is looked for, every change of it between calls, every interrupt of an import",
     "The tests run in one installation; no test takes a package away or makes its import fail.",
     [F + "visualize.py", F + "fluent.py", F + "operations/op3d.py", F + "operations/base_operation.py", F + "command.py"],
     [("cq_editor is imported when a colour is needed", F + "visualize.py:to_occ_color"),
      ("opencamlib is imported with the 3D operation", F + "fluent.py:Job.surface3d, " + F + "operations/op3d.py")],
     [("sys.modules, _occ_color_cache", "what has been found so far", F + "visualize.py")],
     ["import cq_cam", "every Job method"])

prop("C15", "Every call ends",
     "Every call returns or raises within a number of steps proportional to the work it describes, also when parameters are zero, negative, not finite, below the kernels' resolution or contradict each other, and when a kernel, the storage a program is saved to or the viewer it is shown in fails once or from then on for good; it never loops for ever. A call that raises leaves the job as it was.",
     ["inputs", "fault_sequences"],
     "every operation, export, drawing and save with parameters at and beyond the edges of their ranges, with every kernel, storage and viewer call failing once or for good",
     "The tests use ordinary parameters and working kernels only, so each of their loops ends.",
     [F + "operations/pocket.py", F + "operations/profile.py", F + "operations/drill.py", F + "operations/op3d.py", F + "operations/strategy.py", F + "utils/tree.py", F + "utils/interpolation.py", F + "routers.py", F + "fluent.py", F + "utils/files.py"],
     [("contours shrink until nothing is left", F + "operations/pocket.py:fill_pocket_contour_shrink, " + F + "utils/tree.py"),
      ("steps go up until the surface is reached, at most max_stepdown_count", F + "operations/profile.py"),
      ("the nearest remaining point is picked until none remains", F + "operations/drill.py")],
     [("Tree nodes", "locked once nothing is left to shrink", F + "utils/tree.py")],
     ["every Job method"])

prop("C16", "Calls may be made in the middle of other calls, and processes forked there",
     "A call made in the middle of another one in the same thread - by a signal handler, a GUI event, a finaliser or a callback - returns what it returns by itself, and the call it is in the middle of goes on as if nothing had happened, also when they use the same job, shapes, tools and tabs; neither waits for the other. A process forked at any moment, also while several threads are in the middle of calls, can go on using the library: its calls return what they return otherwise and never wait for a thread that does not exist there, and the parent's calls are not affected.",
     ["schedules", "histories"],
     "every call, every line of the library it may be interrupted at, every call made there; every moment a process may be forked at and every call in the child",
     "The tests make one call after another in one thread of one process.",
     [F + "fluent.py", F + "operations/", F + "utils/", F + "routers.py", F + "command.py", F + "visualize.py"],
     [("jobs are copied, never changed", F + "fluent.py:Job.update_tool, Job._add_operation"),
      ("tabs keep no state between calls", F + "operations/tabs.py"),
      ("no locks and no shared scratch data", F + "utils/utils.py, " + F + "utils/geometry_op.py")],
     [("module-level caches", "shared by a call and the calls made inside of it, and copied by a fork", F + "utils/utils.py:cached_dist2, " + F + "visualize.py:_occ_color_cache, " + F + "operations/profile.py:TAB_ERRORS")],
     ["every Job method", "os.fork"])

# ---------------------------------------------------------------- not applicable to the technique
prop("C20", "A profile stays at the requested offset from the wire",
     "Every point of a profile toolpath lies at the requested multiple of the tool radius from the profiled wire, on the requested side, at the requested depth, and the toolpath closes.",
     ["inputs"], "every planar wire, offset and tool diameter", "Three squares are compared.",
     [F + "operations/profile.py", F + "utils/geometry_op.py", F + "routers.py"],
     [("wire offsetting", F + "utils/geometry_op.py:offset_wire")])
prop("C21", "A pocket never cuts outside its area or into an avoided area or island",
     "No cutting motion of a pocket, including the links between contours, takes the tool outside the pocket area (grown by the requested offset), into an island, or into an avoided area, at any depth.",
     ["inputs"], "every set of faces, avoided faces, offsets, stepovers and stepdowns", "One square pocket is compared.",
     [F + "operations/pocket.py", F + "routers.py", F + "utils/geometry_op.py"],
     [("polygon differences and contour links", F + "operations/pocket.py, " + F + "routers.py:route_polyface_outers")])
prop("C22", "A pocket clears its whole area",
     "Every point of the pocket area the tool can reach is cut at the pocket's depth.",
     ["inputs"], "every set of faces, offsets and stepovers up to the tool diameter", "Only one contour pocket is compared as text.",
     [F + "operations/pocket.py", F + "utils/tree.py"], [("contours shrink until nothing is left", F + "operations/pocket.py:fill_pocket_contour_shrink")])
prop("C23", "No pass is deeper than the stepdown and the last pass reaches full depth",
     "With a stepdown given, passes go from the surface down, each at most one stepdown below material already removed there, and the last one is exactly at the model's depth.",
     ["inputs"], "every depth and stepdown", "Two depths are compared.",
     [F + "operations/profile.py", F + "operations/pocket.py"], [("layers", F + "operations/profile.py:profile, " + F + "operations/pocket.py:apply_stepdown")])
prop("C24", "Tabs leave the requested bridges",
     "With tabs requested, at every tab location material of at least the requested height and width (less the tool) remains, and elsewhere the profile is cut to full depth.",
     ["inputs"], "every wire, tab kind, count, spacing, width and height", "Two squares are compared.",
     [F + "operations/tabs.py", F + "operations/profile.py"], [("tab transitions", F + "operations/tabs.py")])
prop("C25", "Every hole is drilled exactly once, at its centre, to depth",
     "A drill operation visits each given point, wire and hole of a face exactly once and plunges to the given depth at its centre.",
     ["inputs"], "every selection of points, wires and faces", "One hole is drilled.",
     [F + "operations/drill.py", F + "operations/strategy.py"], [("nearest neighbour ordering", F + "operations/drill.py")])
prop("C26", "Toolpath lines and arcs follow the curve within the precision",
     "The motions emitted for an edge (lines, arcs with direction and centre, interpolated splines) stay within the job's precision of the edge and run in its direction.",
     ["inputs"], "every edge kind and orientation, every precision", "A few arcs and one interpolation are tested.",
     [F + "routers.py", F + "utils/interpolation.py", F + "utils/utils.py"], [("edge routing", F + "routers.py:route_edge")])
prop("C27", "Numbers and comments are written so that a controller reads the same value",
     "Every coordinate, feed, speed and comment is emitted in a form RS-274 controllers parse, and parses back to the value within the rounding of the unit.",
     ["inputs"], "every finite number and every job name", "A few numbers are formatted.",
     [F + "address.py", F + "command.py", F + "fluent.py"], [("word formatting", F + "address.py:GCodeWordPrecision")])
prop("C28", "A 3D surface operation never cuts below the surface",
     "No motion of a 3D surface operation takes the cutter below the surface of the model, and every depth layer is cut.",
     ["inputs"], "every model, cutter and step", "The only test needs a package that is not installable here.",
     [F + "operations/op3d.py", F + "operations/strategy.py"], [("drop cutter", F + "operations/op3d.py:Surface3D")])
prop("C29", "Programs are expressed in the job's coordinate frame",
     "Moving or rotating model and job plane together leaves the program unchanged.",
     ["inputs"], "every job plane", "One plane is used.",
     [F + "fluent.py", F + "operations/"], [("transformation into the job plane", F + "operations/profile.py, " + F + "operations/pocket.py, " + F + "operations/drill.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
