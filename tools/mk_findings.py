"""Writes /verif/known_findings.json (kept as a script so that the wording is easy to edit)."""
import json, os

job = {"feed": 200, "tool_diameter": 1.0, "precision": 1}
rect = {"z": -1, "outer": {"t": "rect", "w": 12, "h": 12}}
tabs = [{"k": "edge", "sp": 4, "w": 1, "h": 0.5}]
state = {"modal": {"1": "G0", "2": "G17", "3": "G90", "4": "G91.1", "5": "G94", "6": "G21", "7": "G40", "8": "G49",
                   "10": "G98", "11": "G50", "12": "G54", "13": "G64", "14": "G97"},
         "pos": [0, 0, 100], "home": [0, 0, 200], "spindle": None, "s": 0.0, "f": 0.0, "coolant": "M9", "tool": None}
arc = {**state, "modal": {**state["modal"], "4": "G90.1"}}
surf = [{"op": "surface3d", "sh": [0], "as": "face"}]

known = [
    {"property": "C06", "finding": "leftover-arc-centre-mode",
     "what": "a controller left in G90.1 (absolute arc centres) misreads or rejects every arc: the opening block sets "
             "G17/G90/G94 but neither G91.1 nor anything else resets the arc centre mode (the upstream tests pin the "
             "block's exact text)",
     "scenario": {"job": job, "shapes": [rect], "tools": [{}], "tabs": tabs,
                  "ops": [{"op": "profile", "sh": [0], "as": "face"}], "states": [arc]}},
    {"property": "C06", "finding": "surface3d-feed",
     "what": "3D surface cuts carry no F word: the feed is whatever the previous program left (the upstream "
             "test_op3d pins the text without F)",
     "scenario": {"job": job, "shapes": [rect], "tools": [{}], "tabs": tabs, "ops": surf, "states": [{**state, "f": 55.0}]}},
    {"property": "C05", "finding": "surface3d-feed",
     "what": "3D surface cuts carry no F word and run at the feed of the operation before (the upstream test_op3d pins "
             "the text without F)",
     "scenario": {"job": job, "shapes": [rect], "tools": [{}], "tabs": tabs, "ops": surf}},
]
fixed = json.load(open("/verif/tools/fixed.json")) if os.path.exists("/verif/tools/fixed.json") else []
json.dump({"known": known, "fixed": fixed}, open("/verif/known_findings.json", "w"), indent=1)
