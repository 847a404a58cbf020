"""rewrites the generated parts of DESIGN.md (sections 5-7) from checks/table.py, seeded/ and tools/na.json"""
import os, sys, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine"); sys.path.insert(0, V + "/checks")
import table
from run import E
props = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); props[p["id"]] = p
short = lambda n: n.replace("avoidance::", "").replace("global_planner::", "")
def tab():
    o = []
    for pid in sorted(props):
        if pid not in table.P: continue
        meta, obs = table.P[pid]
        es = [x for x in obs if isinstance(x, E)]; rs = [x for x in obs if not isinstance(x, E)]
        o.append("**%s %s.** Quantifier: %s." % (pid, props[pid]["title"], props[pid]["quantifier"]["text"]))
        if es:
            seen = []
            for e in es:
                if short(e.name) not in seen: seen.append(short(e.name))
            o.append("Compared (%d, references in %s): %s – %s" % (len(es), ", ".join(sorted({"spec/%s.cpp" % e.area for e in es})), ", ".join("`%s`" % s for s in seen), meta["explain"].split("; ", 1)[-1]))
        if rs: o.append("Rules: %s. %s" % (", ".join("`%s`" % r.rule_name for r in rs), "" if es else meta["explain"]))
        for a in meta["assume"]: o.append("Assumes: " + a + ".")
        o.append("")
    return "\n".join(o)
def seeds():
    o = []
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(V + "/seeded/%s/meta.json" % d))
        o.append("* `%s` (%s): %s. Needs: %s." % (d, m["property"], m["what_it_breaks"], m["needs"]))
    return "\n".join(o)
def na():
    return "\n".join("* %s %s: %s" % (k, props[k]["title"], v) for k, v in sorted(json.load(open(V + "/tools/na.json")).items()))
s = open(V + "/DESIGN.md").read()
for name, f in (("SEEDS", seeds), ("TABLE", tab), ("NA", na)):
    b, e = "<!-- %s -->" % name, "<!-- /%s -->" % name
    if b not in s: s = re.sub(r"^%s$" % name, b + "\n" + e, s, flags=re.M)
    i, j = s.index(b) + len(b), s.index(e)
    s = s[:i] + "\n" + f() + "\n" + s[j:]
open(V + "/DESIGN.md", "w").write(s)
