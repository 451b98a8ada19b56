"""Writes MANIFEST.json from the registered properties."""
import json, re, sys, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(here + "/mc/src/props/mod.rs").read()
ids = re.findall(r'"(C\d\d)" =>', src)
tech = {
    "default": "explicit-state model checking: exhaustive bounded enumeration of inputs, every one run on the real library and compared with a reference model",
}
T = {}
T["C23"] = "explicit-state exploration of all call histories and thread assignments up to a depth, run on the real library in fresh processes"
T["C21"] = "exhaustive enumeration of reader schedules (chunkings, interruptions, failure points) on the real library"
for i in ["C14", "C15"]:
    T[i] = "exhaustive enumeration of strings, variable definitions and limits, run on the real library against a reference evaluator"
for i in ["C16", "C17"]:
    T[i] = "exhaustive enumeration of instruction sequences up to a depth, run on the real library against a reference model of stages"
T["C18"] = "explicit-state exploration of all sequences of splices up to a depth, run on the real library against a reference"
T["C19"] = "exhaustive enumeration of edit sequences over reported spans, run on the real library against a reference"
notes = json.load(open(here + "/tools/notes.json"))
checks = [
    {
        "property": i,
        "quick_cmd": f"./check {i} quick",
        "thorough_cmd": f"./check {i} thorough",
        "technique": T.get(i, tech["default"]),
        "level": "model_checking",
        "level_note": notes.get(i, notes["default"]),
    }
    for i in sorted(set(ids))
]
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
na = [{"property": p, "reason": "the check is not built yet"} for p in props if p not in ids]
m = {"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": na}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
