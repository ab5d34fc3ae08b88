#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note="", observe=None):
    P.append(dict(id=id, technique=technique, note=note, line={
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None}}))
exec(open(os.path.join(V, "tools", "properties.py")).read())
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p["line"]) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["line"]["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                 "technique": T + ": " + p["technique"], "level": "exploration", "level_note": p["note"]} for p in P if p["technique"]],
     "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in P if not p["technique"]],
     "notes": "No hooks in /repo: every seam is outside it (rayon-core is replaced by a deterministic scheduler through [patch.crates-io] in /verif/sim; OS randomness, clock, allocation and file system are interposed in the simulator's own binary). See DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)

# DESIGN.md
exec(open(os.path.join(V, "tools", "design.py")).read())
head = open(f"{V}/tools/design_head.md").read()
out = "## Properties\n\n"
for p in P:
    l = p["line"]
    if p["technique"]:
        out += f"### {p['id']} {l['title']}\n\nDecided by {p['technique']}.\n\n{D[p['id']]}\n\n"
out += "### Not applicable\n\n" + "".join(f"* {p['id']} {p['line']['title']}: {p['note']}\n" for p in P if not p["technique"])
kf = json.load(open(f"{V}/known_findings.json"))
fi = "Repaired (each a `fix:` commit in /repo; the checks report them again if they return):\n\n" + "".join(f"* {k['property']} `{k['commit']}`: {k['what'].split(k['commit'],1)[1].strip()}\n" for k in kf if k["status"] == "fixed")
rest = [k for k in kf if k["status"] == "known"]
fi += "\nRecorded, not repaired: " + ("none.\n" if not rest else "\n\n" + "".join(f"* {k['property']}: {k['what']}\n" for k in rest))
fi += "\n## False alarms\n\n" + FALSE_ALARMS + "\n"
bugs = "Each breaks the property named, passes the repository's tests, and has a demonstration that fails only with it.\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    bugs += f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |\n"
open(f"{V}/DESIGN.md", "w").write(head.replace("@PROPS@", out).replace("@FINDINGS@", fi).replace("@BUGS@", bugs))
