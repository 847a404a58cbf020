"""C22 (guarded-by), C23 (lock order, release, waits), C24 (thread lifetimes): rules over the lock walk in engine/conc.py"""
import re
import conc
from conc import Walk, walk, strip, pstr, gen, kids, refty, LOCKT
from db import AnalysisBroken
A, G = "avoidance::", "global_planner::"
LN, LP, WG, AN, TB = A + "LocalPlannerNodelet", A + "LocalPlanner", A + "WaypointGenerator", A + "AvoidanceNode", A + "tf_buffer::TransformBuffer"
SN, SP, SW = A + "SafeLandingPlannerNode", A + "SafeLandingPlanner", A + "WaypointGeneratorNode"
GN = G + "GlobalPlannerNode"
CAM = A + "cameraData"
CONCURRENT = [LN, AN, SN, SW, GN]
# (what, path of the guarded field behind its owner, mutex behind the same owner); "*": every field of the object
DOMAINS = [(("%s of a camera" % f), [(CAM, f)], [(CAM, "camera_mutex_")]) for f in
           ("untransformed_cloud_", "transformed_cloud_", "received_", "transformed_", "fov_fcu_frame_", "transform_registered_")] + [
    ("the list of transforms to buffer", [(LN, "buffered_transforms_")], [(LN, "buffered_transforms_mutex_")]),
    ("the local planner", [(LN, "local_planner_"), "*"], [(LN, "running_mutex_")]),
    ("the local waypoint generator", [(LN, "wp_generator_"), "*"], [(LN, "wp_generator_"), (WG, "running_mutex_")]),
    ("the time of the last plan", [(LN, "last_wp_time_")], [(LN, "waypoints_mutex_")]),
    ("the flight controller parameters", [(AN, "px4_")], [(AN, "param_cb_mutex_")]),
    ("the transform store", [(TB, "buffer_")], [(TB, "mutex_")]),
    ("the newest point cloud message", [(SN, "newest_cloud_msg_")], [(SN, "cloud_msg_mutex_")]),
    ("the transformed cloud flag", [(SN, "cloud_transformed_")], [(SN, "transformed_cloud_mutex_")]),
    ("the landing planner's cloud", [(SN, "safe_landing_planner_"), (SP, "cloud_")], [(SN, "transformed_cloud_mutex_")]),
    ("the landing planner's replayed grid", [(SN, "safe_landing_planner_"), (SP, "raw_grid_")], [(SN, "transformed_cloud_mutex_")]),
    ("the global planner", [(GN, "global_planner_"), "*"], [(GN, "mutex_")]),
    ("the goals still to visit", [(GN, "waypoints_")], [(GN, "mutex_")]),
    ("the path still to follow", [(GN, "path_")], [(GN, "mutex_")]),
    ("the travelled path", [(GN, "actual_path_")], [(GN, "mutex_")]),
    ("the current point of the path", [(GN, "current_goal_")], [(GN, "mutex_")]),
    ("the last position", [(GN, "last_pos_")], [(GN, "mutex_")]),
]
ATOMIC = re.compile(r"\bstd::atomic(_[a-z]+)?\b")
_cache = {}
def this(c): return (("this", c),)
def rename(db, cls, field):
    """today's name of a member of the class: the same name, or the only new member of the same type if that name is gone"""
    import json, os
    rec = db.recs.get(cls)
    if rec is None: return None
    names = {x["n"]: x["ty"] for x in rec["fields"]}
    if field in names: return field
    base = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fields.json"))).get(cls, {})
    if field not in base: return None
    c = [n for n, t in names.items() if n not in base and t == base[field]]
    return c[0] if len(c) == 1 else None
def step(db, s):
    if s == "*": return s
    n = rename(db, *s)
    return None if n is None else (s[0], n)
def domains(db):
    out = []
    for what, pat, mux in DOMAINS:
        p, m = [step(db, s) for s in pat], [step(db, s) for s in mux]
        if None in m and None not in p: raise AnalysisBroken("the mutex %s guarding %s is gone" % (mux, what))
        if None in p or None in m: continue
        out.append((what, p, m))
    return out
def walks(db):
    if "w" in _cache: return _cache["w"]
    w = Walk(db)
    subs = {}
    for c in CONCURRENT:
        rs = conc.roots(db, c)
        subs[c] = {fid for fid, how in rs.items() if any("subscribe" in h[0] for h in how)}
    w.globalcb = lambda fr: [(db.fns[f], fr["this"]) for f in sorted(subs.get(fr["fn"].get("cls"), ())) if f in db.fns and db.fns[f].get("body") and f != fr["fn"]["id"] and "cmdLoop" not in f]
    n = 0
    for c in CONCURRENT:
        for f in conc.roots(db, c):
            F = db.fns.get(f)
            if F and F.get("body"): w.function(F, this(c), [], {}, {}, F["n"]); n += 1
        for f, lam in conc.lamroots(db, c):
            fr = {"this": this(c), "alias": {}, "idx": {}, "fn": f, "root": f["n"], "depth": 0, "locks": {}, "lam": {}, "loops": [], "chain": (f["n"],), "refs": {}}
            w.deferred(lam, fr)
    for c in (TB, WG):
        for F in db.fns.values():
            if F.get("cls") == c and F.get("body") and F.get("acc") == "public" and not F.get("kind"): w.function(F, this(c), [], {}, {}, F["n"])
    if n < 25: raise AnalysisBroken("only %d concurrent entry points found" % n)
    _cache["w"] = w
    return w
def match(p, pat):
    """position behind the pattern's match in path p (indices between the steps are skipped), and where it starts"""
    for i in range(len(p)):
        if p[i] != pat[0]: continue
        j = i
        ok = True
        for s in pat[1:]:
            j += 1
            while j < len(p) and p[j][0] == "[]": j += 1
            if j >= len(p) or s != "*" and p[j] != s: ok = False; break
        if ok: return i, j
    return None
def timer(n): return n.get("k") in ("call", "ctor", "mcall") and "Timer" in str(n.get("n") or "") + str(n.get("cls") or "")
def short(n): return n.rsplit("::", 1)[-1]

# ------------------------------------------------------------------------------------------------ C22
def guarded(ctx):
    db = ctx.db
    w = walks(db)
    for what, pat, mux in domains(db):
        acc = {}
        for p, wr, held, fn, l, root in w.acc:
            m = match(p, pat)
            if not m: continue
            f = p[m[1]]
            if f[0] in db.recs or True:
                t = conc.fieldtype(db, f[0], f[1]) or ""
                if ATOMIC.search(t) or conc.MUT.search(t) or conc.CVT.search(t): continue
            acc.setdefault(f, []).append((p, wr, held, fn, l, root, p[:m[0]] + tuple(mux)))
        for f, xs in sorted(acc.items()):
            if not any(x[1] for x in xs) and "*" in pat: continue          # never written once the threads run
            wroots = {x[5] for x in xs if x[1]}
            seen = set()
            for p, wr, held, fn, l, root, need in xs:
                ctx.site({"field": "%s.%s" % (short(f[0]), f[1]), "in": fn, "line": l, "entry": short(root), "write": wr, "holds": [pstr(h) for h in held]})
                if need in held: continue
                if not wr and wroots == {root}: continue                    # read by the only thread that writes it
                key = "%s:%s.%s%s" % (short(root), short(f[0]), f[1], ":write" if wr else "")
                if (key, fn, wr) in seen: continue
                seen.add((key, fn, wr))
                ctx.bad("%s (line %s)" % (fn, l), "%s %s::%s (%s) without holding %s, reached from %s" % ("writes" if wr else "reads", short(f[0]), f[1], what, pstr(need), short(root)), key)
        # references to guarded data that leave the function holding its lock
        for p, fn, l, root in w.esc:
            m = match(p, pat)
            if not m: continue
            F = next((x for x in db.byname.get(fn, []) if x.get("body")), None)
            b = F["body"].get("b", []) if F else []
            if len(b) > 1: ctx.bad("%s (line %s)" % (fn, l), "hands out a reference to %s, which outlives the lock it takes" % pstr(p), "escape:%s" % fn)

# ------------------------------------------------------------------------------------------------ C23
def ident(p): return p[-1] if p[-1][0] != "[]" else p[-2]
def order(ctx):
    w = walks(ctx.db)
    edges = {}
    seen = set()
    for p, held, fn, l, root, chain in w.acq:
        t = conc.fieldtype(ctx.db, *ident(p)) or ""
        ctx.site({"acquires": pstr(p), "in": fn, "line": l, "entry": short(root), "holds": [pstr(h) for h in held]})
        rec = "recursive" in t
        for h in held:
            if h == p:
                if not rec and (fn, pstr(p)) not in seen:
                    seen.add((fn, pstr(p)))
                    ctx.bad("%s (line %s)" % (fn, l), "acquires %s while already holding it (%s)" % (pstr(p), " -> ".join(short(c) for c in chain)), "again:%s:%s" % (fn, ident(p)[1]))
            else: edges.setdefault(ident(h), {}).setdefault(ident(p), (fn, l, pstr(h), pstr(p), short(root)))
    for a in edges:
        if a in edges[a]:
            fn, l, h, p, r = edges[a][a]
            ctx.bad("%s (line %s)" % (fn, l), "acquires %s while holding %s: two threads can take them in opposite order" % (p, h), "self:%s" % a[1])
    state, done = [], set()
    reported = set()
    def dfs(n):
        if n in state:
            cyc = state[state.index(n):]
            if len(cyc) > 1 and frozenset(cyc) not in reported:
                reported.add(frozenset(cyc))
                d = [edges[cyc[i]][cyc[(i + 1) % len(cyc)]] for i in range(len(cyc))]
                ctx.bad("%s (line %s)" % (d[0][0], d[0][1]), "lock order cycle: " + "; ".join("%s takes %s while holding %s" % (short(x[0]), x[3], x[2]) for x in d), "cycle:" + ",".join(sorted(c[1] for c in cyc)))
            return
        if n in done: return
        state.append(n)
        for m in edges.get(n, {}): dfs(m)
        state.pop(); done.add(n)
    for n in list(edges): dfs(n)
    for p, fn, l, root in sorted(set(w.exits), key=str): ctx.bad("%s (line %s)" % (fn, l), "returns with %s still locked" % pstr(p), "leak:%s:%s" % (fn, ident(p)[1]))
    # joining a thread while holding a lock it needs
    for c in CONCURRENT:
        for t in threads(ctx.db, c):
            need = {q[0] for q in w.acq if q[4] == t["root"]["n"]}
            for ev in dtor_log(ctx.db, c)[1] + [x for x in w.log if x[0] == "join" and x[1] and x[1][0] == ("this", c)]:
                if ev[0] == "join" and ev[1] is not None and gen(ev[1]) == gen(t["path"]):
                    for h in ev[2]:
                        if ident(h) in {ident(n) for n in need}: ctx.bad("%s (line %s)" % (c, ev[3]), "waits for %s to end while holding %s, which that thread acquires" % (pstr(t["path"]), pstr(h)), "join:%s" % t["path"][-1][1])
def notified_fields(w, cv, mutex):
    """fields (class, name) written by the functions that notify the condition: the innermost member of the object that owns the lock"""
    fns = {c[2] for c in w.calls if c[0] == "notify" and c[5] is not None and ident(c[5]) == ident(cv)}
    ns = [{ident(h) for h in c[1]} for c in w.calls if c[0] == "notify" and c[5] is not None and ident(c[5]) == ident(cv)]
    ms = {ident(mutex)}
    own = [p for p, wr, held, fn, l, root in w.acc if wr and fn in fns and any(ident(h) in ms for h in held)]
    if not own:                                  # the data announced is guarded by another lock held at the notification
        for n in ns: ms |= n
    out = set()
    for p, wr, held, fn, l, root in w.acc:
        if not wr or fn not in fns or not held: continue
        for h in held:
            if ident(h) not in ms: continue
            if p[:len(h) - 1] == h[:-1] and len(p) >= len(h) and p[len(h) - 1][0] != "[]": out.add(p[len(h) - 1])
    return out
class First:
    """what happens first to the given fields on the paths from a point: tested by a branch, or used"""
    def __init__(self, db, fields): self.db, self.fields, self.stack = db, fields, []
    def expr(self, e, cond):
        """-> (set of kinds, may pass without an event)"""
        e = strip(e)
        if e is None or not isinstance(e, (dict, list)): return set(), True
        if isinstance(e, list):
            return self.seq([lambda x=x: self.expr(x, cond) for x in e])
        k = e.get("k")
        if k == "lambda":                          # the predicate of a search: what it returns decides
            a, _ = self.stmt(e["body"], True) if e.get("body") and e.get("ret") == "b" else (set(), True)
            return a, "test" not in a
        if k == "mem" and (e.get("cls"), e["f"]) in self.fields: return {"test" if cond else "use"}, False
        if k == "bin" and e.get("op") in ("&&", "||"):
            a, pa = self.expr(e["a"], cond)
            if not pa: return a, False
            b, pb = self.expr(e["b"], cond)
            return a | b, "test" not in b
        if k == "cond":
            a, pa = self.expr(e["c"], True)
            if not pa: return a, False
            b, pb = self.expr(e["a"], cond); c, pc = self.expr(e["b"], cond)
            return a | b | c, pb or pc
        if k in ("call", "mcall", "ctor", "opcall"):
            a, pa = self.seq([lambda x=x: self.expr(x, cond) for x in [e.get("o")] + list(e.get("a", [])) if x is not None])
            if not pa: return a, False
            f = self.db.fns.get(e.get("f"))
            if f and f.get("body") and f["id"] not in self.stack:
                self.stack.append(f["id"])
                b, pb = self.stmt(f["body"], cond)
                self.stack.pop()
                return a | b, pb if b else True
            return a, True
        return self.seq([lambda x=x: self.expr(x, cond) for x in kids(e)])
    def seq(self, fs):
        r = set()
        for f in fs:
            a, p = f()
            r |= a
            if not p: return r, False
        return r, True
    def stmt(self, s, retcond=False):
        if s is None: return set(), True
        if isinstance(s, list): return self.seq([lambda x=x: self.stmt(x, retcond) for x in s])
        k = s.get("k")
        if k == "comp": return self.stmt(s["b"], retcond)
        if k == "if":
            r, p = self.seq([lambda: self.stmt(s.get("init"), retcond), lambda: self.expr(s.get("cv"), True), lambda: self.expr(s["c"], True)])
            if not p: return r, False
            a, pa = self.stmt(s.get("a") or s.get("then"), retcond); b, pb = self.stmt(s.get("b") if "a" in s else s.get("else"), retcond)
            return r | a | b, pa or pb
        if k in ("for", "while", "do", "rfor"):
            r, p = self.stmt(s.get("init"), retcond)
            if k == "rfor": return self.seq([lambda: self.expr(s["r"], False), lambda: self.loose(s["b"], retcond)])
            if k != "do":
                a, p = self.expr(s.get("c"), True)
                r |= a
                if not p: return r, False
            a, p = self.loose(s["b"], retcond)
            return r | a, p
        if k == "ret":
            r, p = self.expr(s.get("e"), retcond)
            return r, p
        if k == "decl":
            return self.seq([lambda v=v: self.expr(v.get("init"), False) for v in s["vars"] if not refty(v.get("ty", ""))])
        if k == "expr": return self.expr(s["e"], False)
        return self.seq([lambda x=x: (self.stmt(x, retcond) if isinstance(x, dict) and x.get("k") in STM or isinstance(x, list) else self.expr(x, False)) for x in s.values() if isinstance(x, (dict, list))])
    def loose(self, b, retcond):
        r, p = self.stmt(b, retcond)
        return r, "test" not in r       # a search that tests the data decides, even over an empty range
STM = {"comp", "if", "for", "while", "do", "rfor", "ret", "decl", "expr", "switch", "case", "default", "try", "brk", "cont", "null"}
def after(body, node, first):
    """kinds of first events on the paths that continue after expression `node` inside a function body"""
    def find(s):
        """-> None if node is not in s; otherwise (kinds, passes to the statement behind s)"""
        if isinstance(s, list):
            for i, x in enumerate(s):
                r = find(x)
                if r is None: continue
                kinds, p = r
                for y in s[i + 1:]:
                    if not p: break
                    a, p = first.stmt(y); kinds |= a
                    if ends(y): return kinds, False
                return kinds, p
            return None
        if not isinstance(s, dict): return None
        k = s.get("k")
        if k not in STM: return (set(), True) if any(x is node for x in walk(s)) else None
        if k in ("for", "while", "do", "rfor"):
            r = find(s["b"])
            if r is None: return None
            kinds, p = r
            if p:
                if s.get("c"):
                    a, p = first.expr(s["c"], True); kinds |= a
                if p:
                    a, p2 = first.stmt(s["b"]); kinds |= a
                    p = p2 or bool(s.get("c")) and "test" not in a
            return kinds, p
        if k == "if":
            for b in ("a", "then", "b", "else"):
                if isinstance(s.get(b), (dict, list)):
                    r = find(s[b])
                    if r is not None: return r
            return (set(), True) if any(x is node for x in walk(s)) else None
        if k in ("comp", "try", "case", "default", "switch"): return find(s["b"])
        return (set(), True) if any(x is node for x in walk(s)) else None
    def ends(y): return isinstance(y, dict) and y.get("k") in ("ret", "brk", "cont")
    return find(body)
def waits(ctx):
    w = walks(ctx.db)
    done = set()
    for x in w.waits:
        where = "%s (line %s)" % (x["fn"], x["l"])
        if (where, pstr(x["cv"]) if x["cv"] else "") in done: continue
        done.add((where, pstr(x["cv"]) if x["cv"] else ""))
        ctx.site({"waits_for": pstr(x["cv"]) if x["cv"] else "?", "in": x["fn"], "line": x["l"], "holds": [pstr(h) for h in x["held"]], "predicate": x["pred"]})
        if x["mutex"] is None or not x["isheld"]: ctx.bad(where, "waits for a condition without holding its mutex", "nolock:%s" % x["fn"]); continue
        more = [h for h in x["held"] if h != x["mutex"]]
        if more: ctx.bad(where, "waits for a condition while holding %s, which keeps every other thread from acquiring it" % ", ".join(pstr(h) for h in more), "holding:%s" % x["fn"])
        if x["pred"]: continue
        if x["cv"] is None: continue
        fields = notified_fields(w, x["cv"], x["mutex"])
        r = after(x["f"]["body"], x["node"], First(ctx.db, fields))
        if r is None: continue
        if "use" in r[0]: ctx.bad(where, "after waking, uses %s without testing it again" % ", ".join(sorted(f[1] for f in fields)), "untested:%s" % x["fn"])
        if "test" not in r[0] and "use" not in r[0] and not inloop(x["f"]["body"], x["node"]): ctx.bad(where, "does not test what it waited for", "untested:%s" % x["fn"])
    # every mutex of a condition is the one its notifiers' data is guarded by: a condition is always used with one mutex
    byc = {}
    for x in w.waits:
        if x["cv"] is not None and x["mutex"] is not None: byc.setdefault(ident(x["cv"]), set()).add(ident(x["mutex"]))
    for c, ms in byc.items():
        if len(ms) > 1: ctx.bad(c[0], "condition %s is waited for with different mutexes: %s" % (c[1], sorted(m[1] for m in ms)), "mixed:%s" % c[1])
def inloop(body, node):
    return any(s.get("k") in ("for", "while", "do", "rfor") and any(x is node for x in walk(s)) for s in walk(body))

# ------------------------------------------------------------------------------------------------ C24
def threads(db, c):
    """threads owned by the class: where they are started, by what expression, with which body, and the member that holds them"""
    if ("t", c) in _cache: return _cache["t", c]
    out = []
    for f in db.fns.values():
        if f.get("cls") != c or not f.get("body"): continue
        W = Walk(db)
        fr = {"this": this(c), "alias": {}, "idx": {}, "fn": f, "root": f["n"], "depth": 0, "locks": {}, "lam": {}, "loops": [], "chain": (), "refs": {}}
        # aliases (auto& camera = cameras_[i])
        for d in walk(f["body"]):
            if d.get("k") == "decl":
                for v in d["vars"]:
                    if refty(v.get("ty", "")) and v.get("init"):
                        p = W.path(v["init"], fr)
                        if p: fr["alias"][v["id"]] = p
            if d.get("k") == "rfor" and refty(d["var"].get("ty", "")):
                p = W.path(d["r"], fr)
                if p: fr["alias"][d["var"]["id"]] = p + (("[]", d["var"]["id"]),)
        locs = {}
        for n in walk(f["body"]):
            tgt = src = None
            if n.get("k") == "opcall" and n.get("op") == "=" and len(n["a"]) == 2: tgt, src = n["a"]
            if n.get("k") == "mcall" and n.get("m") in ("reset", "emplace_back", "push_back") and n.get("a"): tgt, src = n["o"], n["a"]
            if n.get("k") == "mcall" and n.get("m") == "swap" and "thread" in n.get("cls", ""): tgt, src = n["o"], n["a"]
            if tgt is None: continue
            ct = [x for x in walk(src) if x.get("k") in ("ctor", "new", "call") and "thread" in (x.get("cls") or "") + (x.get("n") or "")]
            body = []
            for x in walk(src):
                if x.get("k") == "fn" and x["n"].rsplit("::", 1)[0] == c: body.append(db.fns.get(x["f"]))
                if x.get("k") == "lambda":
                    for y in walk(x.get("body") or {}):
                        if y.get("k") == "mcall" and y.get("cls") == c: body.append(db.fns.get(y["f"]))
            p = W.path(tgt, fr)
            if ct and body and p is not None and p[0] == ("this", c):
                for b in body:
                    if b and b.get("body"): out.append({"path": p, "root": b, "start": n, "f": f}); break
    _cache["t", c] = out
    return out
def dtor_log(db, c):
    if ("d", c) in _cache: return _cache["d", c]
    d = next((f for f in db.fns.values() if f.get("cls") == c and f["n"].rsplit("::", 1)[-1].startswith("~") and f.get("body")), None)
    W = Walk(db)
    if d is not None: W.function(d, this(c), [], {}, {}, d["n"])
    _cache["d", c] = (d, W.log)
    return d, W.log
def boolish(t): return t == "bool" or t.startswith("std::atomic<bool>") or t == "std::atomic_bool" or t == "volatile bool"
def testsflag(e, flags):
    return any(x.get("k") == "mem" and (x.get("cls"), x["f"]) in flags for x in walk(e))
def stops(ctx):
    db = ctx.db
    w = walks(db)
    total = 0
    for c in CONCURRENT:
        ts = threads(db, c)
        rec = db.recs.get(c)
        if rec is None: raise AnalysisBroken("class %s is gone" % c)
        held = {gen(t["path"])[1:] for t in ts}
        started = sum(1 for f in db.fns.values() if f.get("cls") == c and f.get("body") for n in walk(f["body"]) if n.get("k") in ("ctor", "new") and (n.get("cls") == "std::thread" or n.get("ty") == "std::thread") and any(x.get("k") in ("fn", "lambda") for x in walk(n)))
        det = [f["n"] for f in db.fns.values() if f.get("cls") == c and f.get("body") for n in walk(f["body"]) if n.get("k") == "mcall" and n.get("m") == "detach" and "thread" in n.get("cls", "")]
        for n in det: ctx.bad(n, "detaches a thread that uses the object", "detach:%s" % n)
        if not ts: continue
        d, log = dtor_log(db, c)
        for t in ts:
            name = pstr(t["path"])
            total += 1
            ctx.site({"thread": name, "body": t["root"]["n"], "started_in": t["f"]["n"], "destructor": d["n"] if d else None})
            if d is None: ctx.bad(t["f"]["n"], "starts %s, but the class has no destructor that stops and joins it" % name, "nodtor:%s" % t["path"][-1][1]); continue
            js = [i for i, ev in enumerate(log) if ev[0] == "join" and ev[1] is not None and gen(ev[1]) == gen(t["path"])]
            if not js: ctx.bad(d["n"], "does not join %s" % name, "nojoin:%s" % t["path"][-1][1]); continue
            j = js[0]
            # stop flags: fields the destructor writes before the join and the thread tests
            flags = {ev[1][-1] for ev in log[:j] if ev[0] == "write" and len(ev[1]) > 1 and boolish(conc.fieldtype(db, *ev[1][-1]) or "")}
            if not flags: ctx.bad(d["n"], "does not ask %s to stop before joining it" % name, "noflag:%s" % t["path"][-1][1]); continue
            for lp in loops(t["root"]["body"]):
                if lp["k"] == "rfor" or lp["k"] == "for" and lp.get("inc") and lp.get("c"): continue
                if lp.get("c") and testsflag(lp["c"], flags): continue
                if any(s.get("k") == "if" and testsflag(s["c"], flags) and leaves(s) for s in walk(lp["b"])): continue
                ctx.bad(t["root"]["n"], "has a loop that does not end when %s is set" % "/".join(sorted(f[1] for f in flags)), "loop:%s" % t["root"]["n"])
            for x in w.waits:
                if x["root"] != t["root"]["n"] or x["cv"] is None or x["cv"][0] != ("this", c): continue
                untimed = strip(x["node"]).get("m") == "wait"
                ns = [i for i, ev in enumerate(log) if ev[0] == "notify" and ev[1] is not None and gen(ev[1]) == gen(x["cv"])]
                fl = [i for i, ev in enumerate(log) if ev[0] == "write" and len(ev[1]) > 1 and ev[1][-1] in flags]
                if not any(i < j and any(q < i for q in fl) for i in ns):
                    ctx.bad(d["n"], "joins %s without waking it from its wait for %s after asking it to stop" % (name, pstr(x["cv"])), "nowake:%s:%s" % (t["path"][-1][1], ident(x["cv"])[1]))
                if untimed or x["pred"]:
                    if untimed and not x["pred"] and not anytest(x, flags): ctx.bad("%s (line %s)" % (x["fn"], x["l"]), "waits for %s without a time limit and without testing %s under the lock" % (pstr(x["cv"]), "/".join(sorted(f[1] for f in flags))), "lost:%s" % x["fn"])
                    if untimed and x["mutex"] is not None and not any(log[i][2] and x["mutex"] in log[i][2] for i in fl if i < j) and not relock(log[:j], x["mutex"]):
                        ctx.bad(d["n"], "sets the stop flag without the mutex of %s: the wake-up can be lost" % pstr(x["cv"]), "lostwake:%s" % ident(x["cv"])[1])
        if started > len(ts): ctx.bad(c, "starts %d threads but keeps only %d in members" % (started, len(ts)), "lostthread:%s" % c)
    if total < 3: raise AnalysisBroken("only %d worker threads found" % total)
def relock(log, m): return any(ev[0] == "notify" and m in ev[2] for ev in log)
def anytest(x, flags):
    """an `if (!flag)` around the wait, or a while condition"""
    for s in walk(x["f"]["body"]):
        if s.get("k") in ("if", "while") and testsflag(s["c"], flags) and any(y is x["node"] for y in walk({k: v for k, v in s.items() if k != "c"})):
            # the test must be under the lock: between it and the wait no lock is taken
            if not any(y.get("k") == "decl" and any(LOCKT.search(v.get("ty", "")) for v in y["vars"]) and not any(z is x["node"] for z in walk(y)) for y in walk(s.get("a") or s.get("b") or {})): return True
    return False
def loops(b): return [s for s in walk(b) if s.get("k") in ("for", "while", "do", "rfor")]
def leaves(s): return any(x.get("k") in ("brk", "ret") for x in walk(s.get("a") or s.get("then") or {}))
PTR = re.compile(r"(_ptr<|\*$)")
GROW = {"resize", "push_back", "emplace_back", "clear", "assign", "insert", "erase", "reserve", "pop_back"}
def created(ctx):
    """nothing a thread dereferences is created or replaced after the thread has been started"""
    db = ctx.db
    w = walks(db)
    total = 0
    for c in CONCURRENT:
        starts = [(t["f"], t["start"], t["root"]["n"]) for t in threads(db, c)]
        # timers served by a spinner: everything their callbacks use must exist when the spinner starts
        for f in db.fns.values():
            if f.get("cls") != c or not f.get("body"): continue
            cbs = {x["n"] for n in walk(f["body"]) if timer(n) for x in walk(n.get("a", [])) if x.get("k") == "fn" and x["n"].rsplit("::", 1)[0] == c}
            for n in walk(f["body"]):
                if n.get("k") == "mcall" and n.get("m") == "start" and "AsyncSpinner" in n.get("cls", ""):
                    for cb in cbs: starts.append((f, n, cb))
        for f, n, root in starts:
            used = {}
            for p, wr, held, fn, l, rt in w.acc:
                if rt == root and p[0] == ("this", c) and len(p) > 1:
                    t = conc.fieldtype(db, *p[1]) if p[1][0] != "[]" else ""
                    if t and PTR.search(t): used[p[1]] = (fn, l)
                    if len(p) > 2 and p[2][0] == "[]": used[p[1]] = (fn, l)
                    for i in range(2, len(p)):
                        if p[i][0] != "[]" and PTR.search(conc.fieldtype(db, *p[i]) or ""): used[p[i]] = (fn, l)
            total += 1
            ctx.site({"thread_body": root, "started_in": f["n"], "line": n.get("l"), "uses": sorted(x[1] for x in used)})
            for g, what, line, fld in following(db, c, f, n):
                if fld in used: ctx.bad("%s (line %s)" % (g, line), "%s %s after starting the thread running %s, which uses it" % (what, fld[1], short(root)), "late:%s:%s" % (short(root), fld[1]))
    if total < 5: raise AnalysisBroken("only %d thread starts found" % total)
def writes(db, c, tree, seen, out):
    """creations/replacements of members in a piece of code and the member functions it calls"""
    for x in walk(tree):
        if x.get("k") == "mcall" and x.get("m") in GROW | {"reset", "swap"}:
            o = strip(x["o"])
            if o.get("k") == "mem" and (x["m"] != "reset" or "_ptr" in x.get("cls", "")) and "::" in o.get("cls", ""): out.append(("(%s) changes" % x["m"], x.get("l"), (o["cls"], o["f"])))
        if x.get("k") in ("asg",) or x.get("k") == "bin" and x.get("op") == "=" or x.get("k") == "opcall" and x.get("op") == "=":
            o = strip(x["a"] if x["k"] != "opcall" else x["a"][0])
            if o.get("k") == "mem" and (PTR.search(o.get("ty", "") or (conc.fieldtype(db, o["cls"], o["f"]) or ""))): out.append(("assigns", x.get("l"), (o["cls"], o["f"])))
        if x.get("k") == "mcall" and x.get("cls") == c and x.get("f") in db.fns and x["f"] not in seen and strip(x["o"]).get("k") == "this":
            seen.add(x["f"])
            f = db.fns[x["f"]]
            if f.get("body"): writes(db, c, f["body"], seen, out)
def following(db, c, f, node):
    """creations that can execute after `node` (in its function, its callers, and the same loop)"""
    res, todo, done = [], [(f, node)], set()
    while todo:
        f, node = todo.pop()
        out = []
        seen = set()
        def scan(s):
            """-> True if node is inside s; appends what follows it"""
            if isinstance(s, list):
                for i, x in enumerate(s):
                    if scan(x):
                        for y in s[i + 1:]: writes(db, c, y, seen, out)
                        return True
                return False
            if not isinstance(s, dict): return False
            if s.get("k") not in STM: return any(x is node for x in walk(s))
            if s["k"] in ("for", "while", "do", "rfor"):
                if any(x is node for x in walk(s)):
                    # a later iteration may replace what this iteration's thread uses, unless it is the element of that iteration
                    sub = []
                    writes(db, c, s["b"], set(seen), sub)
                    out.extend(("in a later iteration, " + a, l, fl) for a, l, fl in sub if not element(s, fl))
                    scan(s["b"])
                    return True
                return False
            if s["k"] == "if":
                for b in ("a", "then", "b", "else"):
                    if isinstance(s.get(b), (dict, list)) and scan(s[b]): return True
                return any(x is node for x in walk(s.get("c") or {}))
            if s["k"] in ("comp", "try", "case", "default", "switch"): return scan(s["b"])
            return any(x is node for x in walk(s))
        scan(f["body"])
        for a, l, fl in out: res.append((f["n"], a, l, fl))
        if f["id"] in done: continue
        done.add(f["id"])
        for g in db.fns.values():
            if g.get("cls") != c or not g.get("body") or g["n"].rsplit("::", 1)[-1].startswith("~"): continue
            for x in walk(g["body"]):
                if x.get("k") == "mcall" and x.get("f") == f["id"]: todo.append((g, x))
    return res
def element(loop, fld):
    """the written field is reached through an index or the loop's element, i.e. belongs to this iteration's object"""
    for x in walk(loop["b"]):
        if x.get("k") == "mem" and (x.get("cls"), x["f"]) == fld:
            o = strip(x["o"])
            if o.get("k") == "this": return False
    return True
def trivial(db, t):
    """destroying an object of this type does nothing"""
    return bool(re.match(r"^(const )?(bool|char|short|int|long|unsigned( \w+)?|float|double|size_t|u?int\d+_t)$", t)) or t in db.enums or t.endswith("*") or t.startswith("std::atomic")
def spinners(ctx):
    """a spinner that runs callbacks of an object is stopped before anything those callbacks use is destroyed"""
    db = ctx.db
    w = walks(db)
    total = 0
    for c in CONCURRENT:
        fs = db.recs[c]["fields"]
        names = [x["n"] for x in fs]
        sp = [x["n"] for x in fs if "AsyncSpinner" in x["ty"]]
        if not sp: continue
        cbs = {}
        for f in db.fns.values():
            if f.get("cls") != c or not f.get("body"): continue
            for n in walk(f["body"]):
                if n.get("k") in ("call", "ctor", "mcall") and timer(n):
                    q = {(x["cls"], x["f"]) for x in walk(n.get("a", [])) if x.get("k") == "mem" and "CallbackQueue" in (conc.fieldtype(db, x["cls"], x["f"]) or "")}
                    for x in walk(n.get("a", [])):
                        if x.get("k") == "fn" and x["n"].rsplit("::", 1)[0] == c:
                            for y in q: cbs.setdefault(y, set()).add(x["n"])
            for n in walk(f["body"]):
                pass
        queue = {}
        for f in db.fns.values():
            if f.get("cls") != c or not f.get("body"): continue
            for n in walk(f["body"]):
                if n.get("k") == "mcall" and n.get("m") == "reset" or n.get("k") == "opcall" and n.get("op") == "=":
                    o = strip(n["o"] if n["k"] == "mcall" else n["a"][0])
                    if o.get("k") == "mem" and o["f"] in sp:
                        for x in walk(n.get("a", [])):
                            if x.get("k") == "mem" and "CallbackQueue" in (conc.fieldtype(db, x["cls"], x["f"]) or ""): queue[o["f"]] = (x["cls"], x["f"])
        d, log = dtor_log(db, c)
        for s in sp:
            total += 1
            roots = cbs.get(queue.get(s), set())
            used = {p[1][1] for p, wr, held, fn, l, rt in w.acc if rt in roots and p[0] == ("this", c) and len(p) > 1 and p[1][0] == c}
            later = sorted(u for u in used if u in names and names.index(u) > names.index(s) and not trivial(db, conc.fieldtype(db, c, u)))
            ctx.site({"spinner": "%s.%s" % (short(c), s), "runs": sorted(roots), "members_destroyed_before_it": later, "stopped_in_destructor": any(ev[0] == "stop" and ev[1] and ev[1][-1] == (c, s) for ev in log)})
            if not roots: raise AnalysisBroken("no callbacks found for spinner %s::%s" % (c, s))
            first = next((i for i, ev in enumerate(log) if ev[0] == "stop" and ev[1] and ev[1][-1] == (c, s)), None)
            if first is None and later: ctx.bad(c, "is destroyed while %s still runs %s, which uses %s" % (s, "/".join(sorted(short(r) for r in roots)), ", ".join(later[:6])), "spinner:%s.%s" % (short(c), s))
    if total < 4: raise AnalysisBroken("only %d spinners found" % total)
