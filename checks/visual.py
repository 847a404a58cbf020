"""C41: the visualization components only read what they are given and publish on topics nobody plans from"""
import re
import conc
from conc import Walk, walk, strip, pstr, refty
from db import AnalysisBroken
SINK = re.compile(r"(^ros::param::set|::setParam$|ServiceClient::call$|::sendTransform$|::deleteParam$)")
def visclasses(db): return sorted({f["cls"] for f in db.fns.values() if f.get("cls") and re.search(r"Visuali[sz](er|ation)$", f["cls"])})
def ptypes(fid):
    """parameter types of a function that is only declared, from its identity"""
    i = fid.rfind("(")
    if i < 0: return []
    s, out, d, cur = fid[i + 1:fid.rfind(")")], [], 0, ""
    for ch in s:
        if ch in "<(": d += 1
        if ch in ">)": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def mutref(t): return (t.endswith("&") or t.endswith("*")) and not t.endswith("&&") and not t.startswith("const ")
def effects(ctx):
    db = ctx.db
    cls = visclasses(db)
    if len(cls) < 3: raise AnalysisBroken("only %d visualization classes found: %s" % (len(cls), cls))
    todo = [(f, True) for f in db.fns.values() if f.get("cls") in cls and f.get("body") and f.get("acc") == "public"]
    todo += [(f, False) for f in db.fns.values() if f.get("cls") and f["cls"] not in cls and f.get("body") and re.search(r"Visuali[sz]ation$|^visuali[sz]e", f["n"].split("::")[-1]) and not any(mutref(p["ty"]) for p in f["params"])]
    for f, own in todo:
        w = Walk(db)
        binds = {p["id"]: (("given", p["n"] if "n" in p else p["id"]),) for p in f["params"] if refty(p.get("ty", "")) or "_ptr<" in p.get("ty", "")}
        w.function(f, (("this", f["cls"]),), [], binds, {}, f["n"])
        short = f["n"].split("::", 1)[-1]
        ctx.site({"function": f["n"], "line": f.get("l"), "reads": len(w.acc), "calls": len(w.calls)})
        seen = set()
        for p, wr, _, fn, l, _ in w.acc:
            if not wr: continue
            if p[0][0] == "given":
                if "ros::NodeHandle" in next((q["ty"] for q in f["params"] if q["id"] in binds and binds[q["id"]] == p[:1]), ""): continue
                what = "writes %s, which its caller owns" % pstr(p[:1] + p[1:]).lstrip("?.")
            elif p[0][0] == "this" and not own:
                if re.search(r"Publisher", conc.fieldtype(db, *p[-1]) or "" if p[-1][0] != "[]" else ""): continue
                what = "writes %s, state of the node it reports on" % pstr(p)
            else: continue
            if (fn, what) in seen: continue
            seen.add((fn, what))
            ctx.bad("%s (line %s)" % (fn, l), "%s (entered from %s)" % (what, short), "%s:%s" % (short, what))
        # globals, sinks, and arguments handed to functions that are only declared
        for g in [db.fns[i] for i in w.visited if i in db.fns]:
            params = {q["id"] for q in g["params"]}
            for n in walk(g["body"]):
                k = n.get("k")
                tgt = strip(n["a"]) if k in ("asg", "casg") or k == "un" and n.get("op") in ("++", "--") else strip(n["a"][0]) if k == "opcall" and n.get("op") in ("=", "+=", "-=", "*=", "/=") and n.get("a") else None
                while isinstance(tgt, dict) and tgt.get("k") in ("mem", "idx"): tgt = strip(tgt["o"])
                if isinstance(tgt, dict) and tgt.get("k") == "gvar": ctx.bad("%s (line %s)" % (g["n"], n.get("l")), "writes the global %s" % tgt.get("n"), "%s:global:%s" % (short, tgt.get("n")))
                if k in ("call", "mcall") and SINK.search(n.get("n") or ""): ctx.bad("%s (line %s)" % (g["n"], n.get("l")), "calls %s" % n["n"], "%s:sink:%s" % (short, n["n"]))
                if k == "call" and n.get("f") and not (db.fns.get(n["f"]) or {}).get("body") and g["id"] == f["id"]:
                    for t, a in zip(ptypes(n["f"]), n.get("a", [])):
                        if not mutref(t): continue
                        r = strip(a)
                        while isinstance(r, dict) and r.get("k") in ("mem", "idx", "un"): r = strip(r.get("o") or r.get("a"))
                        if isinstance(r, dict) and r.get("k") == "var" and r["id"] in binds and "NodeHandle" not in next(q["ty"] for q in f["params"] if q["id"] == r["id"]):
                            ctx.bad("%s (line %s)" % (g["n"], n.get("l")), "hands %s to %s, which may change it" % (r["id"].split("#")[0], n.get("n")), "%s:arg:%s" % (short, n.get("n")))
def strings(e): return [x.get("v") for x in walk(e) if x.get("k") == "str"]
def topics(ctx):
    """what the visualization advertises, no node subscribes"""
    db = ctx.db
    cls = visclasses(db)
    subs, pubs = {}, []
    for f in db.fns.values():
        if not f.get("body"): continue
        for n in walk([f["body"], f.get("inits")]):
            if n.get("k") != "mcall" or not n.get("a"): continue
            if n.get("m") == "subscribe":
                for s in strings(n["a"][0]): subs.setdefault(s.lstrip("/~").split("/")[-1], []).append((s, f["n"], n.get("l")))
            if n.get("m") == "advertise" and f.get("cls") in cls:
                for s in strings(n["a"][0]): pubs.append((s, f["n"], n.get("l")))
    for s, fn, l in pubs:
        ctx.site({"topic": s, "in": fn, "line": l})
        if re.search(r"(^|/)mavros/", s): ctx.bad("%s (line %s)" % (fn, l), "publishes on %s, a topic of the flight controller" % s, "topic:%s" % s)
        for t, sf, sl in subs.get(s.lstrip("/~").split("/")[-1], []):
            if s.lstrip("/~") != t.lstrip("/~"): continue
            ctx.bad("%s (line %s)" % (fn, l), "publishes on %s, which %s (line %s) subscribes" % (s, sf, sl), "topic:%s" % s)
def readers(ctx):
    """nobody outside a visualization class reads its members or uses what its functions return"""
    db = ctx.db
    cls = visclasses(db)
    for f in db.fns.values():
        if not f.get("body") or f.get("cls") in cls: continue
        used = [id(strip(s["e"])) for s in walk(f["body"]) if s.get("k") == "expr" and s.get("e")]
        for n in walk([f["body"], f.get("inits")]):
            if n.get("k") == "mem" and n.get("cls") in cls: ctx.bad("%s (line %s)" % (f["n"], n.get("l")), "uses %s::%s" % (n["cls"], n["f"]), "%s:mem:%s" % (f["n"], n["f"]))
            if n.get("k") == "mcall" and n.get("cls") in cls:
                ctx.site({"call": n.get("n"), "in": f["n"], "line": n.get("l")})
                if n.get("t") != "v" and id(n) not in used: ctx.bad("%s (line %s)" % (f["n"], n.get("l")), "uses the result of %s" % n.get("n"), "%s:res:%s" % (f["n"], n.get("n")))
