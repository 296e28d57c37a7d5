#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/catalog.py and tool/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
from catalog import CATALOG, NOT_APPLICABLE
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in CATALOG:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = []
for p in CATALOG:
    P = PROPS.get(p["id"])
    if not P:
        continue
    assert p["id"] not in NOT_APPLICABLE, p["id"]
    checks.append({"property": p["id"], "quick_cmd": f"python3 tool/check.py {p['id']} --tier quick",
                   "thorough_cmd": f"python3 tool/check.py {p['id']} --tier thorough",
                   "technique": P["technique"], "level": P["level"], "level_note": P["note"]})
na = []
for p in CATALOG:
    if p["id"] not in PROPS:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tool/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the contracts are woven into functions sliced from /repo on every run, nothing in /repo is instrumented. "
                    "/repo carries only fix: commits."}, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")

# DESIGN.md from its template
import glob
kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
fixes = "\n".join("* " + k["what"] for k in kf if "fixed" in k)
open_ = "\n".join("* " + k["property"] + ": " + k["what"] for k in kf if "fixed" not in k) or "None."
caught = json.load(open(os.path.join(HERE, "caught.json")))
seeds = "| bug | what it breaks | caught by |\n|---|---|---|\n" + "\n".join(
    "| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), json.load(open(m))["what_it_breaks"].replace("|", "/").replace("\n", " "), caught.get(os.path.basename(os.path.dirname(m)), "not yet run"))
    for m in sorted(glob.glob(os.path.join(VERIF, "seeded/*/meta.json"))))
nas = "\n".join("* %s (%s): %s" % (n["property"], next(p["title"] for p in CATALOG if p["id"] == n["property"]), n["reason"]) for n in na) or "None."
t = open(os.path.join(HERE, "design.tmpl.md")).read()
for k, v in (("@FIXES@", fixes), ("@OPEN@", open_), ("@SEEDS@", seeds), ("@NA@", nas)):
    t = t.replace(k, v)
open(os.path.join(VERIF, "DESIGN.md"), "w").write(t)
