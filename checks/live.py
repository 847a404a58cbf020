"""C25: a parameter offered for reconfiguration ends in state that something else reads"""
from conc import walk, strip
from db import AnalysisBroken
def cfgs(db): return sorted(k for k in db.recs if k.endswith("Config") and any(p["ty"].replace("const ", "").rstrip("& *") == k for f in db.fns.values() if f.get("body") for p in f["params"]))
def assigns(x):
    """(target, value, node) of every assignment below x"""
    for n in walk(x):
        if n.get("k") in ("asg", "casg") or n.get("k") == "bin" and n.get("op") == "=": yield strip(n["a"]), n["b"], n
        elif n.get("k") == "opcall" and n.get("op") == "=" and len(n.get("a", [])) == 2: yield strip(n["a"][0]), n["a"][1], n
def live(ctx):
    db = ctx.db
    conf = cfgs(db)
    if len(conf) < 4: raise AnalysisBroken("only %d configurations are taken by a function: %s" % (len(conf), conf))
    fns = [f for f in db.fns.values() if f.get("body")]
    takes = {f["id"]: {p["ty"].replace("const ", "").rstrip("& *") for p in f["params"]} & set(conf) for f in fns}
    read = {}
    for f in fns:
        if takes[f["id"]]: continue
        tgt = {id(t) for t, _, _ in assigns([f["body"], f.get("inits")])}
        for n in walk([f["body"], f.get("inits")]):
            if n.get("k") == "mem" and id(n) not in tgt: read.setdefault((n.get("cls"), n["f"]), set()).add(f["n"])
            # a variable with internal linkage exists once per source file
            if n.get("k") == "gvar" and id(n) not in tgt: read.setdefault(("", n["n"]), set()).add((f["n"], f.get("file")))
    def reads(d):
        r = read.get(d[:2], ())
        if d[0] != "": return set(r)
        own = db.vars.get(d[1], {}).get("own")
        return {n for n, file in r if not own or file == d[4]}
    for c in conf:
        dest = {x["n"]: [] for x in db.recs[c]["fields"]}          # parameter -> places its value goes to
        for f in fns:
            if c not in takes[f["id"]]: continue
            taint = {}                                                  # local variable -> parameters it is computed from
            def params(e):
                return {n["f"] for n in walk(e) if n.get("k") == "mem" and n.get("cls") == c} | set().union(*[taint.get(n["id"], set()) for n in walk(e) if n.get("k") == "var"] or [set()])
            for _ in range(4):
                for n in walk(f["body"]):
                    if n.get("k") == "decl":
                        for v in n["vars"]: taint[v["id"]] = taint.get(v["id"], set()) | params([v.get(x) for x in ("init", "e", "i")])
                for t, v, _ in assigns(f["body"]):
                    if t.get("k") == "var": taint[t["id"]] = taint.get(t["id"], set()) | params(v)
            seen = set()
            for t, v, n in assigns(f["body"]):
                ps = params(v)
                if t.get("k") == "gvar":
                    for p in ps: dest[p].append(("", t["n"], f["n"], n.get("l"), f.get("file")))
                if t.get("k") == "mem" and t.get("cls") != c:
                    for p in ps: dest[p].append((t["cls"], t["f"], f["n"], n.get("l")))
                seen |= {id(x) for x in walk(n)}
            for n in walk(f["body"]):
                if n.get("k") in ("decl", "comp"): seen |= {id(x) for v in n.get("vars", []) for x in walk([v.get(y) for y in ("init", "e", "i")])}
            # every other use of a parameter (argument of a call, condition): somebody reads it there
            for n in walk(f["body"]):
                if id(n) in seen: continue
                if n.get("k") == "mem" and n.get("cls") == c: dest[n["f"]].append((None, None, f["n"], n.get("l")))
                if n.get("k") == "var":
                    for p in taint.get(n["id"], ()): dest[p].append((None, None, f["n"], n.get("l")))
        for p in sorted(dest):
            short = "%s.%s" % (c.split("::")[-1], p)
            good = [d for d in dest[p] if d[0] is None or reads(d)]
            ctx.site({"parameter": short, "goes to": sorted({("%s::%s" % d[:2]).lstrip(":") if d[0] is not None else "used in " + d[2] for d in dest[p]}), "read in": sorted({r for d in dest[p] if d[0] is not None for r in reads(d)})[:4]})
            if not dest[p]: ctx.bad(short, "the parameter is offered but no reconfigure function uses it", short + ":unused")
            elif not good:
                d = dest[p][0]
                where = ", ".join(sorted({("%s::%s" % x[:2]).lstrip(":") for x in dest[p]}))
                lost = sorted({n for x in dest[p] if x[0] == "" for n, _ in read.get(x[:2], ())})
                what = "%s is stored in %s, which nothing reads" % (short, where) if not lost else "%s is stored in %s, of which every source file has its own copy: %s read another one" % (short, where, ", ".join(lost[:4]))
                ctx.bad("%s (line %s)" % (d[2], d[3]), what, short + ":unread")
