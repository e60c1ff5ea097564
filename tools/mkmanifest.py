#!/usr/bin/env python3
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
if os.path.exists(os.path.join(V, "tools", "na.json")):
    NA = json.load(open(os.path.join(V, "tools", "na.json")))
import subprocess
HOOKS = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)) and i not in NA:
        doc = {}
        src = open(os.path.join(V, f)).read()
        note = [l for l in src.split("\n") if l.startswith("NOTE = ")]
        tech = [l for l in src.split("\n") if l.startswith("TECH = ")]
        checks.append(dict(property=i, quick_cmd="python3-vt %s --tier quick" % f, thorough_cmd="python3-vt %s --tier thorough" % f,
                           technique=eval(tech[0][7:]) if tech else "property-based testing (Hypothesis) against a reference model",
                           level="exploration", level_note=eval(note[0][7:]) if note else "generated-input search; see DESIGN.md"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3-vt lib/build.py gdrv kern mpole riem gandalf", checks=checks, not_applicable=na,
         hooks=dict(guard="GANDALF_VERIF", enable="compiled with -DGANDALF_VERIF by lib/build.py; then GANDALF_VERIF_NO_LOS in the environment skips the line-of-sight table that only rendering uses", source_commits=HOOKS))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
