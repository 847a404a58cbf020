#!/usr/bin/env python3
"""MANIFEST.json from checks/table.py, properties.jsonl and tools/na.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks"); sys.setrecursionlimit(20000)
import table
NA = json.load(open(V + "/tools/na.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    if p in table.P:
        meta, obs = table.P[p]
        ne = sum(1 for o in obs if isinstance(o, table.E)); nr = len(obs) - ne
        tech = ("global value numbering: functions summarised to gated value graphs and proved equal to reference definitions" if ne else "") + ("; " if ne and nr else "") + ("dataflow/effect rules over the resolved program and call graph" if nr else "")
        note = ("Static, all inputs: %d function obligations and %d rules. %s" % (ne, nr, meta["explain"])).strip() + " Trusted: the stub declarations of packages not installed, the library models in engine/lib.py, arithmetic over the reals" + ("".join("; " + a for a in meta["assume"])) + "."
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --thorough" % p, "technique": tech, "level": "other", "level_note": note})
    else: na.append({"property": p, "reason": NA.get(p, "no check yet (under construction)")})
json.dump({"version": 1, "setup_cmd": "python3 engine/db.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Every check parses /repo's current sources; results are cached by content hash under build/ (git-ignored)."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
