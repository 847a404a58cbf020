"""Obligation runner shared by every check."""
import os, re, sys, json, time, signal, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import db as D
from db import AnalysisBroken
from term import *
from seq import *
import summ, compare
from summ import summarize
from loops import DC
from interp import THIS
VERIF = D.VERIF

class E:
    """obligation: the program function `impl` equals its reference definition (spec/<area>.cpp: spec::<ref>)"""
    def __init__(self, impl, ref, area, np=None, pt=None, const=None, opaque=None, ctor=False, keys=None, skip=None, dyncls=None, limit=None, why=None, budget=4000, reftype=None, opts=None):
        self.impl, self.ref, self.area, self.np, self.pt, self.const = impl, ref, area, np, pt, const
        self.opaque, self.ctor, self.keys, self.skip, self.dyncls, self.limit = opaque or {}, ctor, keys, skip, dyncls, limit
        self.why = why; self.budget = budget; self.opts = opts or {}
    @property
    def name(self): return self.impl + ("/%d" % self.np if self.np is not None else "") + ("[%s]" % ",".join(self.pt) if self.pt else "") + ("{%s}" % self.dyncls if self.dyncls else "")
class TO(Exception): pass
def _alarm(*a): raise TO()

def loc(f): return "%s:%s" % (os.path.relpath(f.get("file", "?"), D.REPO) if f.get("file", "").startswith(D.REPO) else f.get("file", "?"), f.get("l", "?"))
def outputs(S, self_ptr=True):
    o = dict(S.out)
    thr = o.get("throws", FALSE)
    r = {}
    for k, v in o.items():
        if k == "throws" or thr is FALSE: r[k] = v
        elif k.startswith("throw:"): r[k] = v
        else: r[k] = ite(thr, DC, v)
    return r, thr
def default_of(k):
    if k.startswith("this."): 
        v = T_("deref", THIS)
        for p in k[5:].split("."): v = fld(v, p)
        return v
    if k.startswith("throw:this."): return fld(T_("deref", THIS), k[11:])
    if k.startswith("out:"): return sym(k[4:])
    if k.startswith("ev:"): return NIL
    if k.startswith("g:"): return sym("::" + k[2:])
    if k == "throws": return FALSE
    return None
def run_E(ob, opaque_all, limit):
    """-> result dict (runs in a worker process)"""
    t0 = time.time()
    r = {"kind": "equiv", "impl": ob.name, "ref": ob.ref, "area": ob.area, "ok": None, "detail": "", "loc": "", "callees": [], "sites": 0}
    try:
        db = D.load((ob.area + ".cpp",))
        f = find(db, ob)
        g = db.fn("spec::" + ob.ref)
        r["loc"] = loc(f)
    except AnalysisBroken as ex:
        r["ok"] = "broken"; r["detail"] = str(ex); r["t"] = time.time() - t0; return r
    modes = []
    op = dict(opaque_all); op.update(ob.opaque)
    op = {k: v for k, v in op.items() if v and k != ob.impl}
    modes.append(("callees by their own obligations", op))
    if any(v != "virtual" for v in op.values()): modes.append(("callees inlined", {k: v for k, v in op.items() if k in ob.opaque and ob.opaque[k] in ("event", "virtual", "keep")}))
    signal.signal(signal.SIGALRM, _alarm)
    res = None
    for what, opq in modes:
        try:
            signal.alarm(int(max(60, min(limit, 1.5 * limit - (time.time() - t0)))))
            res = attempt(db, f, g, ob, opq, r)
            signal.alarm(0)
        except TO: res = (False, "not decided within %d s" % limit, {})
        except TooBig: res = (False, "value graph too large", {})
        except AnalysisBroken: raise
        except Exception as ex:
            signal.alarm(0)
            tb = traceback.extract_tb(sys.exc_info()[2])
            res = (False, "analysis error %s: %s @ %s" % (type(ex).__name__, str(ex)[:200], " < ".join("%s:%d" % (os.path.basename(x.filename), x.lineno) for x in tb[-3:][::-1])), {})
        signal.alarm(0)
        r.setdefault("modes", []).append((what, res[0], res[1][:300]))
        if res[0] or "first" not in r: r["detail"] = res[1]
        r["first"] = 1
        if res[0]:
            r["mode"] = what; break
    r["ok"] = bool(res[0]); r["how"] = res[2]
    r["t"] = time.time() - t0
    return r
def find(db, ob):
    c = [x for x in db.byname.get(ob.impl, []) if (ob.np is None or len(x["params"]) == ob.np)
         and (ob.pt is None or (len(x["params"]) >= len(ob.pt) and all(t in p["ty"] for t, p in zip(ob.pt, x["params"]))))
         and (ob.const is None or bool(x.get("const", False)) == ob.const) and x.get("body")]
    if not c: raise AnalysisBroken("anchor function %s not found in the program" % ob.name)
    if len(c) > 1: raise AnalysisBroken("anchor function %s is ambiguous: %s" % (ob.name, [x["id"] for x in c]))
    return c[0]
def attempt(db, f, g, ob, opaque, r):
    opts = dict(ob.opts); opts["opaque"] = opaque
    if ob.dyncls: opts["dyncls"] = ob.dyncls
    a = summarize(db, f, opts)
    def pre(I):
        if ob.ctor: I.env[T_("H", THIS)] = UNDEF
    b = summarize(db, g, opts, selfparam=bool(f.get("cls")) and not f.get("static"), pre=pre)
    r["callees"] = sorted((set(opaque) & (a.I.opq | b.I.opq)))
    r["inlined"] = sorted(a.I.inlined)
    r["stats"] = dict(a.I.stats)
    r["unsup"] = sorted(set(a.unsup))
    if b.unsup: r["refunsup"] = sorted(set(b.unsup))
    oa, ta = outputs(a); ob_, tb = outputs(b)
    keys = sorted(set(oa) | set(ob_))
    how = {}
    bad = []
    A = getattr(b.I, "assumed", TRUE)
    seen = []
    def sel(k):
        if ob.keys and not any(k == x or k.startswith(x + ".") for x in ob.keys): return False
        if ob.skip and any(k == x or k.startswith(x + ".") or (x.endswith("*") and k.startswith(x[:-1])) for x in ob.skip): return False
        return True
    for k in keys:
        if not sel(k): continue
        x, y = oa.get(k), ob_.get(k)
        if x is None: x = UNDEF if ob.ctor and k.startswith("this.") else default_of(k)
        if y is None: y = DC if ob.ctor and k.startswith("this.") else default_of(k)
        if x is None: x = VOID
        if y is None: y = VOID
        if A is not TRUE: x, y = ite(A, x, DC), ite(A, y, DC)
        ok, e = compare.check_equal(x, y, ob.budget)
        for h, n in e.how.items(): how[h] = how.get(h, 0) + n
        seen.append(k)
        if not ok:
            bad.append("%s: %s" % (k, str(e.diff) if e.diff else "equality not established within the budget"))
    r["keys"] = seen
    if not seen: return False, "no output to compare", how
    if a.I.ub - b.I.ub: bad.insert(0, "dereferences " + ", ".join(sorted(a.I.ub - b.I.ub)) + " on some path")
    if bad: return False, " || ".join(bad), how
    return True, "", how

# ---------------------------------------------------------------------------------------------- rules written in python
class R:
    """obligation: rule(ctx) -> list of findings; ctx.site(...) counts what was analysed"""
    def __init__(self, name, fn, min=1, areas=()): self.rule_name, self.fn, self.min = name, fn, min
    @property
    def name(self): return "rule " + self.rule_name
class Ctx:
    def __init__(self, db): self.db = db; self.sites = []; self.findings = []; self.notes = []
    def site(self, what): self.sites.append(what)
    def bad(self, where, what, key=None): self.findings.append({"where": where, "what": what, "key": key or what})
def run_R(ob, limit):
    t0 = time.time()
    r = {"kind": "rule", "impl": ob.name, "ref": ob.rule_name, "ok": None, "detail": "", "loc": "", "callees": []}
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(int(limit))
    try:
        c = Ctx(D.load())
        ob.fn(c)
        r["sites"] = len(c.sites); r["site_list"] = c.sites[:400]; r["findings"] = c.findings
        if len(c.sites) < ob.min: r["ok"] = "broken"; r["detail"] = "only %d instances of the rule found, at least %d expected" % (len(c.sites), ob.min)
        else: r["ok"] = not c.findings
        if c.findings: r["ok"] = False; r["detail"] = " || ".join("%s: %s" % (x["where"], x["what"]) for x in c.findings)
    except AnalysisBroken as ex: r["ok"] = "broken"; r["detail"] = str(ex)
    except TO: r["ok"] = "broken"; r["detail"] = "rule did not finish in %d s" % limit
    except Exception as ex:
        r["ok"] = "broken"; r["detail"] = traceback.format_exc()[-1500:]
    signal.alarm(0)
    r["t"] = time.time() - t0
    return r

def _work(a):
    ob, opq, limit = a
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    try:
        return run_E(ob, opq, limit) if isinstance(ob, E) else run_R(ob, limit)
    except MemoryError:
        return {"kind": "equiv", "impl": ob.name, "ref": "", "ok": False, "detail": "value graph exceeds the memory limit", "loc": "", "callees": [], "t": 0}

_spec = {}
def constref(e):
    """the reference takes its object as const: callers may rely on the call leaving the object alone"""
    if e.area not in _spec: _spec[e.area] = D._read(os.path.join(D.VERIF, "spec", e.area + ".cpp")).decode()
    return re.search(r"\b%s\(\s*const \w+\s*\* *self\b" % re.escape(e.ref), _spec[e.area]) is not None

def run_property(pid, meta, obs, index, tier="quick", only=None):
    """obs: obligations of the property; index: impl name -> [E] (reference definitions of callees)"""
    t0 = time.time()
    limit = 240 if tier == "quick" else 420
    D.load()           # extraction happens once, before the workers fork
    for ar in sorted({o.area for o in obs if isinstance(o, E)}):
        try: D.load((ar + ".cpp",))
        except AnalysisBroken: pass
    opaque_all = {n: "constthis" if all(constref(e) for e in es) else "callee" for n, es in index.items()}
    done = {}
    res = []
    ctx = mp.get_context("fork")
    todo = list(obs)
    for o in todo: done[o.name] = o
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        pend = [(o, pool.apply_async(_work, ((o, opaque_all, o.limit or limit if isinstance(o, E) else limit),))) for o in todo]
        while pend:
            for it in list(pend):
                o, h = it
                if not h.ready(): continue
                pend.remove(it)
                r = h.get(); res.append(r)
                # callees taken by contract bring their own obligations
                if r.get("mode") != "callees inlined":
                    for c in r.get("callees", []):
                        for e in index.get(c, []):
                            if e.name not in done:
                                done[e.name] = e
                                pend.append((e, pool.apply_async(_work, ((e, opaque_all, e.limit or limit),))))
            if pend: pend[0][1].wait(0.2)
    return res, time.time() - t0

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get("status") == "known"]

def main(pid, meta, obs, index, argv):
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evp = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    try: os.unlink(evp)
    except OSError: pass
    try:
        res, wall = run_property(pid, meta, obs, index, tier)
    except AnalysisBroken as ex:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, ex)); sys.exit(2)
    kf = known_findings()
    viol, broken, known = [], [], []
    for r in res:
        if r["ok"] is True: continue
        if r["ok"] == "broken": broken.append(r); continue
        if r["kind"] == "rule":
            rest = []
            for f in r["findings"]:
                k = next((k for k in kf if k["property"] == pid and k["key"] == f["key"]), None)
                (known if k else rest).append((k, f))
            if rest: viol.append((r, "; ".join("%s: %s" % (f["where"], f["what"]) for _, f in rest)))
            else: r["known"] = True
        else: viol.append((r, r["detail"]))
    for r in sorted(res, key=lambda r: r["impl"]):
        print("%-8s %6.1fs %-70s %s" % ({True: "ok", False: "FAIL", "broken": "BROKEN"}[r["ok"]] if not r.get("known") else "known", r.get("t", 0), r["impl"], r["loc"] if r["kind"] == "equiv" else "%d sites" % r.get("sites", 0)))
    ne = [r for r in res if r["kind"] == "equiv"]; nr = [r for r in res if r["kind"] == "rule"]
    nob = sum(len(r.get("keys", [])) for r in ne) + sum(r.get("sites", 0) for r in nr)
    inl = sorted({x for r in ne for x in r.get("inlined", [])})
    how = {}
    for r in ne:
        for k, v in r.get("how", {}).items(): how[k] = how.get(k, 0) + v
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "wall_s": round(wall, 2), "violations": len(viol),
      "coverage": {
        "explanation": meta["explain"],
        "rule": "a function discharges its obligation when every output (return value, fields written, out-parameters, published messages, exceptions) has the same value graph as its reference definition for every input; rule obligations are discharged per site",
        "obligations": nob, "discharged": nob - sum(len(r.get("keys", [])) for r in ne if r["ok"] is not True) - sum(len(r.get("findings", [])) for r in nr),
        "functions_compared": [{"function": r["impl"], "at": r["loc"], "reference": r["ref"], "outputs": r.get("keys", []), "result": str(r["ok"]), "mode": r.get("mode"), "loops": r.get("stats", {}).get("loops"), "statements": r.get("stats", {}).get("stmts")} for r in ne],
        "functions_inlined": inl, "equalities_by": how,
        "rules": [{"rule": r["ref"], "sites": r.get("sites", 0), "result": str(r["ok"]), "instances": r.get("site_list", [])[:60]} for r in nr],
        "samples": ([{"function": r["impl"], "output": k} for r in ne for k in r.get("keys", [])[:2]][:6] + [s for r in nr for s in r.get("site_list", [])[:3]][:6]),
        "units_analysed": len(D.load().files), "functions_in_program": len(D.load().fns)},
      "assumptions": meta.get("assume", []) + ["ROS, PCL, Eigen and the C++ standard library behave as their headers document (the packages not installed are represented by stub declarations)", "arithmetic is compared over the reals (rounding is not modelled)"]}
    json.dump(ev, open(evp, "w"), indent=1)
    print("%s: %d obligations over %d functions and %d rules, %.1f s" % (pid, nob, len(ne), len(nr), wall))
    for k, f in known: print("KNOWN-FINDING: property=%s %s: %s" % (pid, f["where"], f["what"]))
    if viol:
        rp = os.path.join(VERIF, "build", "replay"); os.makedirs(rp, exist_ok=True)
        p = os.path.join(rp, pid + ".txt")
        with open(p, "w") as f:
            for r, d in viol: f.write("%s (%s)\n  rule: %s\n  %s\n\n" % (r["impl"], r["loc"], "equal to reference spec::%s on every input" % r["ref"] if r["kind"] == "equiv" else r["ref"], d.replace(" || ", "\n  ")))
        for r, d in viol: print("  %s %s: %s" % (r["loc"], r["impl"], d[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, p)); sys.exit(1)
    if broken:
        for r in broken: print("ANALYSIS-BROKEN property=%s %s: %s" % (pid, r["impl"], r["detail"][:800]))
        sys.exit(2)
    sys.exit(0)
