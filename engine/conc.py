"""Lock analysis over the syntax tree: walks every function that can run concurrently (thread bodies, callbacks, timers and
everything they call, context-sensitively) with the set of mutexes that are certainly held, and records field accesses,
acquisitions, waits and blocking calls.

Objects are access paths: a tuple of steps, a step being (class, field), ("[]", index) or a root ("this", class) / ("var", id).
"""
import re
from db import AnalysisBroken

LOCKT = re.compile(r"\b(lock_guard|unique_lock|scoped_lock|shared_lock)<")
CVT = re.compile(r"\bcondition_variable(_any)?\b")
MUT = re.compile(r"\b(recursive_|timed_|shared_|recursive_timed_)?mutex\b")
COMPONENT = {"x", "y", "z", "w", "head", "tail", "segment", "block", "row", "col", "array", "matrix", "transpose", "topRows", "bottomRows", "leftCols", "rightCols", "topLeftCorner"}     # views of a part: written only if the view is
SMART = {"operator*", "operator->", "get"}
DEREF = {"*", "->"}

def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren"): e = e.get("a")
    return e
def kids(e):
    """sub-expressions and statements of a node, in evaluation order"""
    if isinstance(e, dict):
        for key in ("init", "cv", "o", "c", "a", "b", "i", "inc", "e", "r", "then", "else", "t", "f2", "h", "vars", "args", "var"):
            if key in e and key not in ("t",):
                v = e[key]
                if isinstance(v, (dict, list)): yield v
        for key, v in e.items():
            if key not in ("init", "cv", "o", "c", "a", "b", "i", "inc", "e", "r", "then", "else", "f2", "h", "vars", "args", "var") and isinstance(v, (dict, list)): yield v
    elif isinstance(e, list): yield from e
def etext(e):
    """text of an index expression, independent of its position in the source"""
    e = strip(e)
    if not isinstance(e, dict): return str(e)
    return "%s(%s)" % (e.get("op") or e.get("m") or e.get("n") or e.get("f") or e.get("id") or e.get("v") or e["k"], ",".join(etext(x) for x in kids(e)))
def walk(e):
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list): st.extend(x)

class Lock:
    __slots__ = ("path", "raw", "var")
    def __init__(self, path, raw=False, var=None): self.path, self.raw, self.var = path, raw, var

def pstr(p):
    s = ""
    for x in p:
        if x[0] == "this": s += x[1].split("::")[-1]
        elif x[0] == "var": s += "?" + x[1].split("#")[0]
        elif x[0] == "[]": s += "[%s]" % x[1].split("#")[0]
        else: s += "." + x[1]
    return s
def gen(p):
    """path without indices"""
    return tuple(x for x in p if x[0] != "[]")
def same(p, q):
    return p == q

class Walk:
    def __init__(self, db):
        self.db = db
        self.acc = []       # (path, write, held paths, fn, line, root)
        self.acq = []       # (path, held paths, fn, line, root)
        self.waits = []     # (cv path, mutex path, held, predicate?, fn, line, root, context)
        self.exits = []     # raw locks possibly held at a function's end
        self.calls = []     # (callee name, held, fn, line, root)
        self.esc = []       # (path, fn, line) reference to a field handed out
        self.log = []       # everything in textual order: ("write", path, held, value) / ("notify", path) / ("join", path, held) / ("stop", path)
        self.seen = set()
        self.visited = set()
        self.unresolved = set()
    # ---------------------------------------------------------------- paths
    def path(self, e, fr):
        e = strip(e)
        if not isinstance(e, dict): return None
        k = e.get("k")
        if k == "this": return fr["this"]
        if k == "mem":
            b = self.path(e["o"], fr)
            if b is None:
                o = strip(e["o"])
                if o.get("k") == "var": b = (("var", o["id"]),)
                else: return None
            return b + ((e.get("cls", "?"), e["f"]),)
        if k == "var":
            if e["id"] in fr["alias"]: return fr["alias"][e["id"]]
            return (("var", e["id"]),)
        if k == "un" and e.get("op") in ("*", "&"): return self.path(e["a"], fr)
        if k == "opcall":
            if e["op"] in DEREF: return self.path(e["a"][0], fr)
            if e["op"] == "[]":
                b = self.path(e["a"][0], fr)
                return None if b is None else b + (("[]", self.itext(e["a"][1], fr)),)
        if k == "idx":
            b = self.path(e["o"], fr)
            return None if b is None else b + (("[]", self.itext(e["i"], fr)),)
        if k == "mcall":
            if e.get("m") == "get" and re.search(r"_ptr\b", e.get("cls", "")): return self.path(e["o"], fr)
            if e.get("m") == "at":
                b = self.path(e["o"], fr)
                return None if b is None else b + (("[]", self.itext(e["a"][0], fr)),)
            if e.get("m") in ("back", "front"):
                b = self.path(e["o"], fr)
                return None if b is None else b + (("[]", "?"),)
            f = self.db.fns.get(e.get("f"))
            if f and f.get("body"):      # accessor returning a field
                b = f["body"].get("b", [])
                if isinstance(b, list) and len(b) == 1 and b[0].get("k") == "ret" and b[0].get("e") and refty(f.get("ret", "")):
                    o = self.path(e["o"], fr)
                    if o is not None: return self.path(b[0]["e"], {"this": o, "alias": {}, "idx": {}})
            return None
        if k == "call" and e.get("n") in ("std::move", "std::forward", "std::ref") and e.get("a"): return self.path(e["a"][0], fr)
        if k == "ctor" and len(e.get("a", [])) == 1 and re.search(r"_ptr\b|reference_wrapper", e.get("cls", "")): return self.path(e["a"][0], fr)
        if k == "gvar": return (("var", e["n"]),)
        return None
    def itext(self, e, fr):
        e = strip(e)
        if e.get("k") == "var":
            return fr["idx"].get(e["id"], e["id"])
        if e.get("k") == "num": return str(e.get("v"))
        return etext(e)
    # ---------------------------------------------------------------- functions
    def function(self, f, this, held, binds, idx, root, depth=0, chain=()):
        key = (f["id"], this, frozenset(l.path for l in held), tuple(sorted(binds.items(), key=str)), tuple(sorted(idx.items())), root)
        if key in self.seen or depth > 40: return
        self.seen.add(key)
        self.visited.add(f["id"])
        fr = {"this": this, "alias": dict(binds), "idx": dict(idx), "fn": f, "root": root, "depth": depth, "locks": {}, "lam": {}, "loops": [], "chain": chain + (f["n"],), "refs": {}}
        for i in f.get("inits", []) or []: self.expr(i.get("e") if isinstance(i, dict) and "e" in i else i, fr, list(held))
        r = self.stmt(f["body"], fr, list(held))
        self.leave(fr, r, held, f.get("l"))
    def leave(self, fr, held, base, line):
        if held is None: return
        bp = {l.path for l in base}
        for l in held:
            if l.raw and l.path not in bp: self.exits.append((l.path, fr["fn"]["n"], line, fr["root"]))
    def meet(self, a, b, raws=True):
        if a is None: return b
        if b is None: return a
        pa, pb = {l.path for l in a}, {l.path for l in b}
        return [l for l in a if l.path in pb]
    # ---------------------------------------------------------------- statements: -> held set after, None if control does not continue
    def stmt(self, s, fr, held):
        if s is None: return held
        if isinstance(s, list):
            for x in s:
                if held is None: break
                held = self.stmt(x, fr, held)
            return held
        k = s["k"]
        if k == "comp":
            n = {id(l) for l in held}
            fr["locks"].setdefault("scopes", []).append([])
            h = self.stmt(s["b"], fr, held)
            sc = fr["locks"]["scopes"].pop()
            if h is not None:
                gone = set(sc)
                h = [l for l in h if l.var not in gone]
            return h
        if k == "expr": return self.expr(s["e"], fr, held)
        if k == "decl":
            for v in s["vars"]: held = self.decl(v, fr, held)
            return held
        if k == "if":
            if s.get("init"): held = self.stmt(s["init"], fr, held)
            if s.get("cv"): held = self.decl(s["cv"], fr, held)
            held = self.expr(s["c"], fr, held)
            cond = s["c"] if s.get("c") else {}
            ha, hb = self.owned(cond, True, fr, held), self.owned(cond, False, fr, held)
            a = self.stmt(s.get("a") or s.get("then"), fr, ha)
            e = s.get("b") if "a" in s else s.get("else")
            b = self.stmt(e, fr, hb) if e else hb
            return self.meet(a, b)
        if k in ("for", "while", "do", "rfor"):
            if s.get("init"): held = self.stmt(s["init"], fr, held)
            if k == "rfor":
                held = self.expr(s["r"], fr, held)
                v = s["var"]
                p = self.path(s["r"], fr)
                if p is not None and refty(v.get("ty", "")): fr["alias"][v["id"]] = p + (("[]", v["id"]),)
            fr["loops"].append([held, [], s])
            cur = held
            for _ in range(3):
                h = cur
                fr["loops"][-1][1] = []
                if k in ("for", "while") and s.get("c"): h = self.expr(s["c"], fr, list(h))
                hc = h
                b = self.stmt(s["b"], fr, list(h))
                outs = fr["loops"][-1][1]
                conts = [x for t, x in outs if t == "cont"]
                for x in conts: b = self.meet(b, x) if b is not None else x
                if b is not None:
                    if s.get("inc"): b = self.expr(s["inc"], fr, b)
                    if k == "do" and s.get("c"): b = self.expr(s["c"], fr, b)
                nxt = self.meet(cur, b)
                if {l.path for l in nxt} == {l.path for l in cur}: break
                cur = nxt
            brks = [x for t, x in fr["loops"].pop()[1] if t == "brk"]
            ex = None if self.always(s) else (b if k == "do" else self.meet(hc, b))
            for x in brks: ex = x if ex is None else self.meet(ex, x)
            return ex
        if k in ("brk", "cont"):
            if fr["loops"]: fr["loops"][-1][1].append((k, held))
            return None
        if k == "ret":
            if s.get("e"):
                held = self.expr(s["e"], fr, held)
                if refty(fr["fn"].get("ret", "")):
                    p = self.path(s["e"], fr)
                    if p is not None: self.esc.append((p, fr["fn"]["n"], s.get("l"), fr["root"]))
            self.leave(fr, held, [], s.get("l"))
            return None
        if k == "switch":
            if s.get("init"): held = self.stmt(s["init"], fr, held)
            held = self.expr(s["c"], fr, held)
            fr["loops"].append([held, [], s])
            cases = s["b"].get("b", []) if isinstance(s["b"], dict) else s["b"]
            cur, res = None, None
            for c in cases:
                if c["k"] in ("case", "default"): cur = self.meet(cur, list(held)) if cur is not None else list(held)
                if cur is None: continue
                while c["k"] in ("case", "default"): c = c["b"]
                cur = self.stmt(c, fr, cur)
            outs = fr["loops"].pop()[1]
            ex = self.meet(cur, held)
            for t, x in outs: ex = self.meet(ex, x)
            return ex
        if k in ("case", "default"): return self.stmt(s["b"], fr, held)
        if k == "try":
            a = self.stmt(s["b"], fr, list(held))
            for h in s.get("h", []):
                x = self.stmt(h.get("b", h), fr, list(held))
                a = x if a is None else self.meet(a, x)
            return a
        if k == "null": return held
        for x in s.values():
            if isinstance(x, (dict, list)): held = self.expr(x, fr, held)
        return held
    def owned(self, c, val, fr, held):
        """locks held when the condition c has evaluated to val: those before, and those it tells to be owned"""
        c = strip(c)
        held = list(held)
        if not isinstance(c, dict): return held
        if c.get("k") == "un" and c.get("op") == "!": return self.owned(c["a"], not val, fr, held)
        if c.get("k") == "bin" and c.get("op") == ("&&" if val else "||"): return self.owned(c["b"], val, fr, self.owned(c["a"], val, fr, held))
        if not val or c.get("k") != "mcall": return held
        o, m, cls = strip(c.get("o") or {}), c.get("m", ""), c.get("cls", "")
        if LOCKT.search(cls + "<") and cls.startswith("std::") and (m in ("owns_lock", "try_lock", "try_lock_for", "try_lock_until") or m.startswith("operator")):
            mp = fr["locks"].get("of", {}).get(o.get("id"))
            if mp is not None and all(l.path != mp for l in held): held.append(Lock(mp, False, o.get("id")))
        elif MUT.search(cls.split("::")[-1]) and m.startswith("try_lock"):
            mp = self.path(o, fr)
            if mp is not None: held.append(Lock(mp, True, ("raw", mp)))
        return held
    def always(self, s):
        c = strip(s.get("c")) if s.get("c") else None
        if s["k"] == "for" and not s.get("c"): return True
        return bool(c) and c.get("k") in ("num", "bool") and str(c.get("v")) not in ("0", "false", "False")
    def decl(self, v, fr, held):
        i = v.get("init")
        ty = v.get("ty", "")
        if i is None: return held
        if LOCKT.search(ty) and not ty.startswith("std::unique_ptr"):
            c = strip(i)
            args = c.get("a", []) if isinstance(c, dict) else []
            mods = [a for a in args[1:] if any(w in str(a) for w in ("defer_lock", "try_to_lock", "adopt_lock"))]
            deferred = any("defer_lock" in str(a) or "try_to_lock" in str(a) for a in mods)
            for a in args:
                if a in mods: continue
                held = self.expr(a, fr, held, quiet=True)
                p = self.path(a, fr)
                if p is None or not mutexlike(strip(a)): continue
                fr["locks"].setdefault("of", {})[v["id"]] = p
                if not deferred: held = self.acquire(p, fr, held, v.get("l"), v["id"], adopt=bool(mods))
            if fr["locks"].get("scopes"): fr["locks"]["scopes"][-1].append(v["id"])
            return held
        m = [x for x in walk(i) if x.get("k") == "new" and LOCKT.search(x.get("ty", ""))] or [x for x in walk(i) if x.get("k") == "call" and "make_unique" in x.get("n", "") and LOCKT.search(x.get("n", "") + x.get("ty", ""))]
        if m and "_ptr" in ty:
            a = strip(m[0].get("init") or m[0])
            args = a.get("a", [])
            if args:
                p = self.path(args[0], fr)
                if p is not None:
                    fr["locks"].setdefault("of", {})[v["id"]] = p
                    held = self.acquire(p, fr, held, v.get("l"), v["id"])
                    if fr["locks"].get("scopes"): fr["locks"]["scopes"][-1].append(v["id"])
                    return held
        c = strip(i)
        if isinstance(c, dict) and c.get("k") == "lambda":
            fr["lam"][v["id"]] = c
            return held
        if refty(ty):
            p = self.path(i, fr)
            if p is not None:
                fr["alias"][v["id"]] = p
                held = self.expr(i, fr, held, quiet=True)      # binding a reference is not an access of the object
                return held
        if re.match(r"(const )?(int|unsigned|unsigned long|size_t|long|unsigned int)\b", ty) and isinstance(c, dict) and c.get("k") == "var": fr["idx"][v["id"]] = fr["idx"].get(c["id"], c["id"])
        return self.expr(i, fr, held)
    def acquire(self, p, fr, held, line, var, raw=False, adopt=False):
        if not adopt: self.acq.append((p, tuple(l.path for l in held), fr["fn"]["n"], line, fr["root"], fr["chain"]))
        return held + [Lock(p, raw, var)]
    # ---------------------------------------------------------------- expressions
    def access(self, p, w, fr, held, line):
        self.acc.append((p, w, tuple(l.path for l in held), fr["fn"]["n"], line, fr["root"]))
        if w: self.log.append(("write", p, tuple(l.path for l in held), line))
    def expr(self, e, fr, held, quiet=False, write=False):
        """quiet: the outermost field is only named (its address is taken), not read or written"""
        if e is None or held is None: return held
        if isinstance(e, list):
            for x in e: held = self.expr(x, fr, held)
            return held
        if not isinstance(e, dict): return held
        k = e.get("k")
        if k in ("cast", "paren"): return self.expr(e.get("a"), fr, held, quiet, write)
        if k == "mem":
            p = self.path(e, fr)
            if p is not None and not quiet: self.access(p, write, fr, held, e.get("l"))
            return self.expr(e["o"], fr, held, quiet=True if strip(e["o"]).get("k") in ("mem", "this", "idx", "opcall", "var") and not smart(e["o"]) else False)
        if k in ("this", "num", "str", "null", "gvar", "fn", "zero"): return held
        if k == "var":
            p = fr["alias"].get(e["id"])
            if p is not None and not quiet: self.access(p, write, fr, held, e.get("l"))
            return held
        if k in ("asg", "casg") or k == "bin" and e.get("op") == "=":
            held = self.expr(e["b"], fr, held)
            return self.expr(e["a"], fr, held, write=True)
        if k == "un" and e.get("op") in ("++", "--"): return self.expr(e["a"], fr, held, write=True)
        if k == "un" and e.get("op") == "&": return self.expr(e["a"], fr, held, quiet=True)
        if k == "bin" and e.get("op") in ("&&", "||"):
            held = self.expr(e["a"], fr, held)
            self.expr(e["b"], fr, list(held))
            return held
        if k == "cond":
            held = self.expr(e["c"], fr, held)
            self.expr(e["a"], fr, list(held)); self.expr(e["b"], fr, list(held))
            return held
        if k == "lambda":
            return self.lam(e, fr, held)
        if defers(e):
            for x in walk(e.get("a", [])):
                if x.get("k") == "lambda": self.deferred(x, fr)
            for a in e.get("a", []):
                if not any(x.get("k") == "lambda" for x in walk(a)): held = self.expr(a, fr, held)
            return held
        if k == "opcall":
            if e.get("lam"):
                o = strip(e["a"][0]) if e.get("a") else {}
                for a in e["a"][1:]: held = self.expr(a, fr, held)
                if o.get("k") == "var" and o["id"] in fr["lam"]: return self.lam(fr["lam"][o["id"]], fr, held)
                return self.expr(o, fr, held) if o else held
            a = e.get("a", [])
            if e["op"] in DEREF and len(a) == 1: return self.expr(a[0], fr, held, quiet=quiet and False, write=False)
            if e["op"] == "[]" and len(a) == 2:
                held = self.expr(a[1], fr, held)
                return self.expr(a[0], fr, held, quiet=quiet, write=write or False)
            w = e["op"] in ("=", "+=", "-=", "*=", "/=", "<<", "++", "--") and not e.get("cst")
            for x in a[1:]: held = self.expr(x, fr, held)
            if a: held = self.expr(a[0], fr, held, write=w)
            return self.enter(e, a[0] if e.get("meth") and a else None, a[1:] if e.get("meth") else a, fr, held)
        if k == "idx":
            held = self.expr(e["i"], fr, held)
            return self.expr(e["o"], fr, held, quiet=quiet, write=write)
        if k == "mcall":
            return self.mcall(e, fr, held, write)
        if k == "call" or k == "ctor":
            f = self.db.fns.get(e.get("f"))
            ps = f["params"] if f else []
            taken = k == "ctor" and "std::thread" in e.get("cls", "")
            for j, a in enumerate(e.get("a", [])):
                byref = j < len(ps) and refty(ps[j].get("ty", ""))
                mut = byref and not constref(ps[j].get("ty", ""))
                if e.get("n", "").startswith("std::swap"): mut = True
                held = self.expr(a, fr, held, quiet=bool(f and f.get("body") and byref), write=mut)
            return self.enter(e, None, e.get("a", []), fr, held)
        if k == "new":
            return self.expr(e.get("init"), fr, held)
        for x in e.values():
            if isinstance(x, (dict, list)): held = self.expr(x, fr, held)
        return held
    def lam(self, e, fr, held):
        b = e.get("body") or e.get("b")
        if b is None: return held
        sub = dict(fr); sub["loops"] = []; sub["locks"] = {}
        self.stmt(b, sub, list(held))
        return held
    def deferred(self, e, fr):
        """a lambda that runs later on another thread: no lock of this function protects it"""
        sub = dict(fr); sub.update(loops=[], locks={}, root="lambda in " + fr["fn"]["n"], lam={}, chain=("lambda",))
        if e.get("body"): self.stmt(e["body"], sub, [])
    def mcall(self, e, fr, held, write=False):
        o = strip(e.get("o"))
        m = e.get("m", "")
        cls = e.get("cls", "")
        p = self.path(o, fr) if o else None
        line = e.get("l")
        if LOCKT.search(cls + "<") and cls.startswith("std::"):
            v = o.get("id")
            mp = fr["locks"].get("of", {}).get(v)
            if m == "unlock": return [l for l in held if l.var != v]
            if m == "lock" and mp is not None: return self.acquire(mp, fr, held, line, v)
            return held
        if re.search(r"_ptr$", cls) and o.get("k") == "var" and o["id"] in fr["locks"].get("of", {}):
            if m in ("reset", "release"): return [l for l in held if l.var != o["id"]]
            return held
        if MUT.search(cls.split("::")[-1]):
            if m == "lock" and p is not None: return self.acquire(p, fr, held, line, ("raw", p), raw=True)
            if m == "unlock" and p is not None: return [l for l in held if l.path != p]
            return held
        if CVT.search(cls):
            if m.startswith("wait"):
                v = strip(e["a"][0]).get("id") if e.get("a") else None
                mp = fr["locks"].get("of", {}).get(v)
                pred = len(e.get("a", [])) > {"wait": 1, "wait_for": 2, "wait_until": 2}.get(m, 9)
                self.waits.append({"cv": p, "mutex": mp, "held": tuple(l.path for l in held), "pred": pred, "fn": fr["fn"]["n"], "l": line, "root": fr["root"], "node": e, "f": fr["fn"], "isheld": any(l.var == v for l in held)})
                for a in e.get("a", [])[1:]: held = self.expr(a, fr, held)
            else:
                self.calls.append(("notify", tuple(l.path for l in held), fr["fn"]["n"], line, fr["root"], p))
                self.log.append(("notify", p, tuple(l.path for l in held), line))
            return held
        if cls == "std::thread" and m == "join": self.log.append(("join", p, tuple(l.path for l in held), line))
        if cls.endswith("AsyncSpinner") and m == "stop": self.log.append(("stop", p, tuple(l.path for l in held), line))
        if re.search(r"_ptr$", cls) and m == "reset" and "AsyncSpinner" in o.get("ty", ""): self.log.append(("stop", p, tuple(l.path for l in held), line))
        f = self.db.fns.get(e.get("f"))
        ps = f["params"] if f else []
        for j, a in enumerate(e.get("a", [])):
            byref = j < len(ps) and refty(ps[j].get("ty", ""))
            mut = byref and not constref(ps[j].get("ty", ""))
            held = self.expr(a, fr, held, quiet=bool(f and f.get("body") and byref), write=mut)
        body = f and f.get("body")
        if o: held = self.expr(o, fr, held, quiet=bool(body), write=write if m in COMPONENT else not e.get("cst") and not body)
        return self.enter(e, o, e.get("a", []), fr, held)
    def enter(self, e, o, args, fr, held):
        f = self.db.fns.get(e.get("f"))
        name = e.get("n", "")
        self.calls.append((name, tuple(l.path for l in held), fr["fn"]["n"], e.get("l"), fr["root"], None))
        if name.endswith("::callAvailable") and getattr(self, "globalcb", None):
            for g, this in self.globalcb(fr): self.function(g, this, held, {}, {}, fr["root"], fr["depth"] + 1, fr["chain"] + ("(callAvailable)",))
        if not f or not f.get("body"):
            for a in args:
                for x in walk(a):
                    pass
            return held
        this = None
        if o is not None:
            this = self.path(o, fr)
            if this is None: this = (("obj", f.get("cls", "?")),)
        elif e.get("k") == "mcall": this = fr["this"]
        if e.get("virt") and o is not None and strip(o).get("k") != "this": pass
        binds, idx = {}, {}
        for q, a in zip(f["params"], args):
            if refty(q.get("ty", "")):
                p = self.path(a, fr)
                if p is not None: binds[q["id"]] = p
            else:
                c = strip(a)
                if isinstance(c, dict) and c.get("k") == "var": idx[q["id"]] = fr["idx"].get(c["id"], c["id"])
                elif isinstance(c, dict) and c.get("k") == "num": idx[q["id"]] = str(c.get("v"))
                p = self.path(a, fr) if "*" in q.get("ty", "") or "_ptr" in q.get("ty", "") else None
                if p is not None: binds[q["id"]] = p
        self.function(f, this if this is not None else (("obj", f.get("cls", "-")),), held, binds, idx, fr["root"], fr["depth"] + 1, fr["chain"])
        return held
def refty(t): return t.endswith("&") or t.endswith("*")
def constref(t): return t.startswith("const ") and t.endswith("&")
def smart(e):
    e = strip(e)
    return e.get("k") == "opcall" and e.get("op") in DEREF
def mutexlike(a):
    t = a.get("ty", "")
    return bool(MUT.search(t))
# ------------------------------------------------------------------------------------------------ concurrent entry points
DEFER = {"mcall": re.compile(r"(^|::)(subscribe|createTimer|createWallTimer|createSteadyTimer|setCallback|advertiseService|registerCallback)\b"), "ctor": re.compile(r"^(std::(j)?thread|ros::(Wall|Steady)?TimerOptions)\b"), "call": re.compile(r"(^|::)(bind|async)\b")}
def defers(n): return n.get("k") in DEFER and bool(DEFER[n["k"]].search(n.get("n") or n.get("cls") or ""))
def roots(db, cls):
    """member functions of cls whose address is taken anywhere (thread bodies, callbacks, timers) or that are called by a lambda handed to a thread,
    timer or subscription: {function id: {(registered with, by function, line)}}"""
    out = {}
    for f in db.fns.values():
        if not f.get("body"): continue
        for n in walk(f["body"]):
            if n.get("k") in ("call", "ctor", "mcall"):
                for a in n.get("a", []):
                    for x in walk(a):
                        if x.get("k") == "fn" and x.get("n", "").rsplit("::", 1)[0] == cls:
                            out.setdefault(x["f"], set()).add((n.get("n") or n.get("cls", "?"), f["n"], n.get("l")))
                        if x.get("k") == "lambda" and defers(n) and f.get("cls") == cls:
                            for y in walk(x.get("body") or {}):
                                if y.get("k") == "mcall" and y.get("cls") == cls and strip(y.get("o") or {}).get("k") == "this": out.setdefault(y["f"], set()).add((n.get("n") or n.get("cls", "?"), f["n"], n.get("l")))
    return out
def lamroots(db, cls):
    out = []
    for f in db.fns.values():
        if not f.get("body") or f.get("cls") != cls: continue
        for n in walk(f["body"]):
            if defers(n):
                for x in walk(n.get("a", [])):
                    if x.get("k") == "lambda": out.append((f, x))
    return out
def fieldtype(db, cls, field):
    for x in (db.recs.get(cls) or {}).get("fields", []):
        if x["n"] == field: return x["ty"]
    return None
