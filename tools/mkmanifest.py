#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import importlib.util, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib")); sys.path.insert(0, os.path.join(ROOT, "checks"))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
naf = os.path.join(ROOT, "tools", "not_applicable.json")
if os.path.exists(naf):
    NA = json.load(open(naf))
checks, na = [], []
for p in props:
    f = os.path.join(ROOT, "checks", p["id"].lower() + ".py")
    if os.path.exists(f) and p["id"] not in NA:
        spec = importlib.util.spec_from_file_location(p["id"], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        checks.append({"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"],
                       "thorough_cmd": "./check %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": m.META["technique"], "level": getattr(m, "LEVEL", "model_checking"),
                       "level_note": m.META["note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "not built yet")})
commit = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verification hook"],
                        capture_output=True, text=True).stdout.split()
man = {"version": 1, "setup_cmd": "./setup.sh",
       "hooks": {"guard": "RJS_VERIF",
                 "enable": "lib/vlib.py builds /repo's working tree out of tree with CFLAGS=-DRJS_VERIF make O=<dir> <dir>/libratjs.a",
                 "source_commits": commit},
       "checks": checks}
if na:
    man["not_applicable"] = na
D = os.path.join(ROOT, "DESIGN.md")
t = open(D).read()
def put(t, a, b, rows):
    return t[:t.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + t[t.index(b):]
title = {p["id"]: p["title"] for p in props}
esc = lambda s: s.replace("|", "\\|")
t = put(t, "<!--TABLE-->", "<!--END-->", ["| property | how it is decided | what is explored |", "|---|---|---|"] +
        ["| %s %s | %s | %s |" % (c["property"], title[c["property"]], esc(c["technique"]), esc(c["level_note"])) for c in checks] +
        ["| %s %s | not claimed | %s |" % (n["property"], title[n["property"]], n["reason"]) for n in na])
bugs = sorted(d for d in os.listdir(os.path.join(ROOT, "seeded")) if os.path.exists(os.path.join(ROOT, "seeded", d, "meta.json")))
rows = ["| bug | property = check that catches it | what it breaks |", "|---|---|---|"]
for d in bugs:
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], esc(m["what_it_breaks"])))
t = put(t, "<!--BUGS-->", "<!--ENDBUGS-->", rows)
open(D, "w").write(t)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
