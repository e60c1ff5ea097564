#!/usr/bin/env python3
"""Compose DESIGN.md from tools/design_body.md, the seeded bugs and the list of findings."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
b = open(R + "/tools/design_body.md").read()
m = json.load(open(R + "/MANIFEST.json"))
k = [json.loads(l) for l in open(R + "/known_findings.jsonl")]
fx = [x for x in k if x["status"] == "fixed"]
by = {}
for x in fx:
    by.setdefault(x["property"], []).append(x["id"])
seed = ["| change | property | breaks | caught by |", "|---|---|---|---|"]
c = json.load(open(R + "/tools/caught.json")) if os.path.exists(R + "/tools/caught.json") else {}
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    j = json.load(open(d)); i = d.split("/")[-2]
    seed.append("| %s | %s | %s (needs: %s) | %s |" % (i, j["property"], j["what_it_breaks"], j["needs"], c.get(i, "")))
na = "\n".join("* **%s**: %s" % (x["property_id"] if "property_id" in x else x.get("property", x.get("id")), x["reason"]) for x in m.get("not_applicable", [])) or "None."
extra = open(R + "/tools/design_extra.md").read() if os.path.exists(R + "/tools/design_extra.md") else ""
b = b.replace("@@SEEDED@@", "\n".join(seed)).replace("@@NA@@", na).replace("@@EXTRA@@", extra).replace("@@NFIX@@", "%d (%s)" % (len(fx), ", ".join("%s: %d" % (p, len(v)) for p, v in sorted(by.items()))))
open(R + "/DESIGN.md", "w").write(b)
