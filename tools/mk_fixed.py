"""Writes tools/fixed.json from the fix: commits of /repo."""
import json, subprocess, os
MAP = [
 ("an operation's tool settings no longer leak", ["C01", "C02"], "an operation called with a tool= changed tool number, feed, speed and diameter of the job it was called on, also when the call failed"),
 ("parentheses and line breaks in a job's name", ["C06"], "a job name with ')' or a line break put unparsable words into the program"),
 ("the safety block declares the job's unit", ["C06"], "unit, work offset and path mode of the job were not declared (always G21 G54 ...): imperial jobs ran in millimetres"),
 ("profile accepts a tool that supplies", ["C05"], "profile(tool=...) on a job without tool diameter raised"),
 ("the program starts at the job's initial spindle speed", ["C05"], "the start sequence used the speed of the last tool for the first operations"),
 ("save_gcode writes the program", ["C08", "C02"], "save_gcode wrote repr(job) (or failed) instead of the program"),
 ("saving never leaves a truncated", ["C09", "C08"], "a failed, interrupted or crashed save left a truncated program where the complete old one had been"),
 ("tabs of edges that carry a location", ["C05", "C06"], "tabs on arcs whose edge carries a location were placed away from the toolpath (controller rejects the arcs)"),
 ("profiles of circles are cut around", ["C05"], "a profile of a circle away from the origin was cut around twice its position"),
 ("full circles are cut instead of dropped", ["C05"], "an operation on a full circle contained no cut"),
 ("interrupts are not swallowed", ["C03"], "bare except clauses in profiles, tabs and drawings swallowed KeyboardInterrupt and SystemExit"),
 ("a wire that can not be offset is reported", ["C03"], "a wire whose offset failed in the kernel was left out of the program without exception or log record"),
 ("an edge as long as the tab spacing", ["C03"], "a masked offset failure (retry with a distance 1e-6 larger) lost the tabs of edges exactly as long as the tab spacing"),
 ("tabs can be shared between", ["C04"], "two threads using one Tabs object cut each other's tabs (or raised IndexError)"),
 ("pockets of faces that have been tessellated", ["C10"], "a face that had been tessellated (shown in a viewer, or used by surface3d before) was pocketed at a depth 1e-7 off: ValueError at the job's surface, faces of equal depth no longer merged"),
 ("3D surface operations leave the caller's", ["C12", "C04"], "surface3d meshed the caller's faces and added curves to their edges; pockets and profiles of them afterwards failed or differed"),
 ("profiles leave the caller's wires", ["C12"], "a profile with offset 0 and a stepdown added parameter curves to the caller's edges (boolean operation on shared geometry)"),
 ("bound the cache of distances", ["C13"], "the distance of every pair of points of every drilling and 3D operation was kept for the life of the process"),
 ("keep only the latest tab failure", ["C13"], "the edges of every failed tab were kept for the life of the process"),
 ("pockets reject a stepover", ["C15"], "a pocket with a stepover of zero, below zero or below the clipper's resolution never ended"),
 ("the side a circle is profiled on", ["C05"], "a circle whose edge is reversed (the hole of a face made from wires; with the first circle fix also the bottom of a cylinder) was profiled on the other side than requested"),
 ("tabs around the end of a wire", ["C11"], "wire tabs whose last edge holds the end of the last tab and the start of the tab around the wire's start were cut in the wrong order: the toolpath jumped and was drawn elsewhere; on a circle (one edge) the call failed in the kernel"),
 ("profiles reject a stepdown", ["C15"], "a profile of an ellipse with a stepdown of minus infinity or NaN never ended (in the kernel)"),
 ("arcs are drawn", ["C11"], "arcs were drawn as straight lines"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.split("\n")
out = []
for l in reversed(log):
    h, _, s = l.partition(" ")
    if not s.startswith("fix:"):
        continue
    m = [x for x in MAP if x[0] in s]
    assert len(m) == 1, l
    out += [f"fixed: property={p} {h} {m[0][2]}" for p in m[0][1]]
json.dump(out, open(os.path.join(os.path.dirname(os.path.realpath(__file__)), "fixed.json"), "w"), indent=1)
print(len(out))
