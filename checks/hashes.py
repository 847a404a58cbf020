"""C37: a hash reads nothing but the components its equality compares, so equal objects have equal hashes"""
from summ import summarize
from term import *
from db import AnalysisBroken
G = "global_planner::"
OK = {"xor", "uns", "poly", "num", "shl", "shr", "bitand", "bitor", "ite", "cmp", "mod", "idiv", "not", "and", "or", "floor", "trunc", "int", "wrap", "bxor", "band", "bor", "abs", "pow2", "eq"}
def reads(t):
    """access paths (fields behind the first object) a term is computed from, and operations that are no function of them"""
    paths, odd, seen = set(), set(), set()
    def go(t):
        if isinstance(t, tuple):
            for x in t: go(x)
            return
        if not hasattr(t, "op") or t in seen: return
        seen.add(t)
        if t.op in ("fld", "deref", "sym"):
            p, b = [], t
            while b.op == "fld": p.append(str(b.args[1])); b = b.args[0]
            while b.op == "deref": b = b.args[0]
            if b.op == "sym" and p: paths.add((b.args[0], ".".join(p[::-1]))); return
            if b.op == "sym": odd.add("the object %s itself" % show(t, 3)); return
        if t.op in ("call", "mc", "mr", "mut", "out") or t.op not in OK: odd.add("%s(...)" % (t.args[0] if t.args and isinstance(t.args[0], str) else t.op))
        for a in t.args: go(a)
    go(t)
    return paths, odd
def agree(ctx):
    db = ctx.db
    for hn, en, param in ((G + "Node::hash", G + "Node::isEqual", False), (G + "NodeWithoutSmooth::hash", G + "NodeWithoutSmooth::isEqual", False),
                          ("std::hash<" + G + "Cell>::operator()", G + "operator==", True), ("std::hash<" + G + "Node>::operator()", G + "Node::isEqual", True), ("std::hash<" + G + "NodeWithoutSmooth>::operator()", G + "NodeWithoutSmooth::isEqual", True),
                          (G + "HashNodePtr::operator()", G + "Node::isEqual", True)):
        h = [f for f in db.byname.get(hn, []) if f.get("body")]
        e = [f for f in db.byname.get(en, []) if f.get("body") and (en != G + "operator==" or "Cell" in f["params"][0]["ty"])]
        if len(h) != 1 or len(e) != 1: raise AnalysisBroken("%s / %s: %d / %d definitions" % (hn, en, len(h), len(e)))
        sh, se = summarize(db, h[0]), summarize(db, e[0])
        ph, odd = reads(sh.out["ret"])
        pe, _ = reads(se.out["ret"])
        cut = lambda ps: {p for _, p in ps}
        ctx.site({"hash": hn, "line": h[0].get("l"), "reads": sorted(cut(ph)), "equality": en, "compares": sorted(cut(pe))})
        for p in sorted(cut(ph) - cut(pe)): ctx.bad("%s (line %s)" % (hn, h[0].get("l")), "hashes %s, which %s does not compare" % (p, en), "%s:%s" % (hn, p))
        for o in sorted(odd) + sorted(set(sh.unsup)): ctx.bad("%s (line %s)" % (hn, h[0].get("l")), "the hash is not a function of the compared components: %s" % o, "%s:%s" % (hn, o))
        for k in sh.out:
            if k != "ret": ctx.bad("%s (line %s)" % (hn, h[0].get("l")), "hashing changes %s" % k, "%s:%s" % (hn, k))
