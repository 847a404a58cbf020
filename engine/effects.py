"""Syntactic effect summary of a member function, used when a call is taken by contract:
   which fields of its object it (transitively) mentions, which pointer fields it only looks through,
   and whether it does something beyond its result (publishes, notifies, waits)."""
import re
PTR = ("std::unique_ptr", "std::shared_ptr", "boost::shared_ptr")
EVENTS = re.compile(r"(::publish|::notify_\w+|::sendTransform|::sleep|::wait(_for)?|::call|::exists|::callAvailable|::shutdown|::start)$")
ARITH = {"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "!", "&", "|", "^"}
PASS = {"x", "y", "z", "w", "coeff", "coeffRef", "head", "tail", "topRows", "bottomRows", "leftCols", "segment", "block", "row", "col", "array", "matrix", "at", "front", "back", "transpose"}
def ptypes(fid):
    """parameter types of a function, from its identity"""
    i = (fid or "").rfind("(")
    if i < 0: return []
    s, out, d, cur = fid[i + 1:fid.rfind(")")], [], 0, ""
    for ch in s:
        if ch in "<(": d += 1
        if ch in ">)": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def byvalue(t): return not t.endswith("&") and not t.endswith("*") or t.startswith("const ") and t.endswith("&")
def written(e, rd, w, f):
    """fields of *this that evaluating e may change; rd: the value of e is only read"""
    if isinstance(e, list):
        for x in e: written(x, rd, w, f)
        return
    if not isinstance(e, dict): return
    k = e.get("k")
    go = lambda x, r: written(x, r, w, f)
    def args(fid, xs):
        ts = ptypes(fid)
        for i, x in enumerate(xs): go(x, byvalue(ts[i]) if i < len(ts) else False)
    if k == "mem":
        if e["o"].get("k") == "this":
            if not rd: w.add(e["f"])
        else: go(e["o"], True if e.get("arrow") else rd)
    elif k == "bin":
        op = e.get("op")
        if op == "=": go(e["a"], False); go(e["b"], True)
        elif op == ",": go(e["a"], True); go(e["b"], rd)
        else: go(e["a"], op in ARITH); go(e["b"], True)
    elif k in ("asg", "casg"): go(e["a"], False); go(e["b"], True)
    elif k == "un": go(e.get("a"), e.get("op") in ("*", "-", "+", "!", "~"))
    elif k == "cast": go(e.get("a"), rd)
    elif k == "cond": go(e.get("c"), True); go(e.get("a"), rd); go(e.get("b"), rd)
    elif k == "opcall":
        op, a = e.get("op"), e.get("a", [])
        if op in ARITH: go(a, True)
        elif op == "[]": go(a[:1], rd or bool(e.get("cst"))); go(a[1:], True)
        elif op == "()":
            go(a[:1], bool(e.get("cst")) or rd and not e.get("lam")); args(e.get("f"), a[1:])
        elif op in ("->", "*") and len(a) == 1: go(a, True)
        elif op in ("=", "+=", "-=", "*=", "/="): go(a[:1], False); go(a[1:], True)
        else: go(a, False)
    elif k == "mcall":
        o = e["o"]
        if o.get("k") != "this": go(o, True if e.get("arrow") or e.get("cst") or e.get("m") == "get" else rd and e.get("m") in PASS)
        args(e.get("f"), e.get("a", []))
    elif k in ("call", "ctor"):
        if e.get("callee"): go(e["callee"], False)
        if e.get("copy") and not e.get("move"): go(e.get("a", []), True)
        else: args(e.get("f"), e.get("a", []))
    elif k == "ret": go(e.get("e"), byvalue(f.get("ret", "&")))
    elif k == "decl":
        for v in e["vars"]:
            for x, y in v.items():
                if isinstance(y, (dict, list)): go(y, byvalue(v.get("ty", "&")))
    elif k == "expr": go(e.get("e"), True)
    elif k in ("if", "while", "do", "for", "switch", "rfor", "comp", "case", "default", "try"):
        for x, y in e.items():
            if x == "c": go(y, True)
            elif x == "r": go(y, byvalue(e.get("var", {}).get("ty", "&")))
            elif isinstance(y, (dict, list)): go(y, x == "inc")
    else:
        for y in e.values():
            if isinstance(y, (dict, list)): go(y, False)
class Eff:
    def __init__(self): self.fields = {}; self.all = False; self.events = False; self.w = set()
    def merge(self, o):
        self.w |= o.w
        for f, x in o.fields.items(): self.fields[f] = self.fields.get(f, False) or x
        self.all |= o.all; self.events |= o.events
def ptrty(ty): return ty.startswith(PTR) or ty.rstrip().endswith("*")
def effects(db, f, stack=()):
    c = db.__dict__.setdefault("_eff", {})
    if f["id"] in c: return c[f["id"]]
    r = Eff()
    if f["id"] in stack: return r
    if f.get("body") is None: r.all = True; return r
    stack = stack + (f["id"],)
    def callee(fid): return db.fns.get(fid)
    def walk(e, ctx):
        """ctx: 'deref' when the value is only looked through"""
        if isinstance(e, list):
            for x in e: walk(x, None)
            return
        if not isinstance(e, dict): return
        k = e.get("k")
        if k == "this": r.all = True; return
        if k == "lam":
            r.all = True
        if k == "mem":
            if e["o"].get("k") == "this":
                # other: the pointer itself may be replaced
                r.fields[e["f"]] = r.fields.get(e["f"], False) or not (ctx == "deref" and ptrty(e.get("ty", "")))
                return
            walk(e["o"], "deref" if e.get("arrow") else None); return
        if k == "mcall":
            o = e["o"]
            g = callee(e.get("f"))
            if EVENTS.search(e.get("n", "").split("<")[0]) or EVENTS.search("::" + e.get("m", "")): r.events = True
            if o.get("k") == "this":
                if g is None or e.get("virt"): r.all = True; r.events = True
                else: r.merge(effects(db, g, stack))
            else:
                walk(o, "deref" if e.get("arrow") or e.get("m") == "get" else None)
                if g is not None and g.get("body") is not None: r.events |= effects(db, g, stack).events
            walk(e["a"], None); return
        if k == "opcall" and e.get("op") in ("->", "*") and len(e.get("a", [])) == 1:
            walk(e["a"][0], "deref"); return
        if k == "un" and e.get("op") == "*":
            for x in e.values(): walk(x, "deref") if isinstance(x, dict) else walk(x, None)
            return
        if k == "call":
            g = callee(e.get("f"))
            if g is not None and g.get("body") is not None: r.events |= effects(db, g, stack).events
            if EVENTS.search(e.get("n", "").split("<")[0]): r.events = True
        for x in e.values():
            if isinstance(x, (dict, list)): walk(x, None)
    walk(f["body"], None)
    written(f["body"], True, r.w, f)
    if f.get("inits"): r.all = True
    if len(stack) == 1: c[f["id"]] = r
    return r
