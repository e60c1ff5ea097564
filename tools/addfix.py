#!/usr/bin/env python3
"""addfix.py PROP COMMIT [what]: record a repaired defect in known_findings.jsonl (what defaults to the commit subject)"""
import sys, json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
f = os.path.join(V, "known_findings.jsonl")
L = [json.loads(l) for l in open(f) if l.strip()]
p, h = sys.argv[1:3]
h = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "-1", "--format=%h", h], capture_output=True, text=True).stdout.strip()
s = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "-1", "--format=%s", h], capture_output=True, text=True).stdout.strip()
w = sys.argv[3] if len(sys.argv) > 3 else s.replace("fix: ", "", 1)
n = 1 + max([int(x["id"][1:]) for x in L if x["id"][0] == "F"] or [0])
assert s.startswith("fix:"), s
with open(f, "a") as o:
    o.write(json.dumps({"status": "fixed", "property": p, "id": "F%d" % n, "entry": "fixed: property=%s %s %s" % (p, h, w)}) + "\n")
