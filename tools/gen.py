#!/opt/veriftools/pyvenv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py (one dict per property)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
for f in sorted(os.listdir(V + "/tools/props")):
    if f.endswith(".py"):
        ns = {}; exec(open(f"{V}/tools/props/{f}").read(), ns); P += ns["PROPS"]
P.sort(key=lambda p: p["id"])
assert len({p["id"] for p in P}) == len(P)
H = "heclib/heclib_c/src/"
with open(V + "/properties.jsonl", "w") as o:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        for f in p["files"]: assert os.path.exists("/repo/" + f), (p["id"], f)
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
          "quantifier": {"over": p["over"], "text": " ".join(p["quant"].split())}, "why_tests_cant": " ".join(p["why"].split()),
          "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p.get("observe", ["public C API"]), "hook_needed": p.get("hook", "none")}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
  "technique": " ".join(p["technique"].split()), "level": p.get("level", "model_checking"), "level_note": " ".join(p["note"].split())} for p in P if "na" not in p]
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks were added to /repo: the harness replaces the system calls underneath the library at link time (-Wl,--wrap)", "source_commits": []},
 "checks": checks, "not_applicable": [{"property": p["id"], "reason": " ".join(p["na"].split())} for p in P if "na" in p],
 "notes": "Checks build /repo's working tree into /verif/build (ignored by git) and run it over an in-memory file system."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
import jsonschema
s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(m, s)
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), s)
print(len(P), "properties,", len(checks), "checks")

# DESIGN.md from tools/DESIGN.in.md and the descriptions of the planted bugs
rows = ["| bug | check | what it needs |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open(f"{V}/seeded/{d}/meta.json")); rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} — needs: {m['needs']} |")
t = open(V + "/tools/DESIGN.in.md").read().replace("@@SEEDS@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(re.sub("@@[A-Z]+@@\n?", "", t))
