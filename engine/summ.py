"""Function summaries: return value, field updates, outputs, events."""
from term import *
from seq import *
from fractions import Fraction as Fr
from interp import mkraw, Interp, LV, THIS, typed, typed1, Exit, stripref, Unsupported
import interp

class Summary:
    def __init__(self): self.out = {}; self.I = None; self.fn = None
def summarize(db, f, opts=None, names=None, selfparam=False, pre=None):
    """value summary of function f.  names: symbols for the positional parameters"""
    I = Interp(db, opts)
    I.throws = []
    I.env = {}
    I.push_frame(f)
    I.callstack.append(f["id"])
    I.inlined.add(f["id"])
    fr = I.frames[-1]
    fr["this"] = THIS
    params = f["params"]
    I.heapinit.update((opts or {}).get("heapinit", {}))
    outs = []
    if selfparam:
        p = params[0]
        if p.get("ref"): fr[p["id"]] = LV(T_("H", THIS))
        else: I.local(p["id"], THIS)
        params = params[1:]
    for i, p in enumerate(params):
        nm = names[i] if names else "a%d" % i
        if p.get("ref") and not p.get("rref"):
            r = T_("R", nm)
            I.env[r] = typed(sym(nm), p["ty"], p["t"])
            fr[p["id"]] = LV(r)
            if not p.get("cref"): outs.append((nm, r, p))
        else: I.local(p["id"], typed(sym(nm), p["ty"], p["t"]))
    if f.get("kind") == "ctor":
        I.env[T_("H", THIS)] = UNDEF
        I.run_inits(f, THIS)
    if pre: pre(I)
    pret = I.throws; I.throws = []
    n, ex = I.exec(f["body"])
    S = Summary(); S.I = I; S.fn = f
    r = ex.get("r"); t = ex.get("t")
    # normal outcome
    env = I.env; val = VOID
    if r is not None:
        val = r.val
        if n is FALSE: env = r.env
        else: env = interp.merge_env(r.g, r.env, I.env)
    if val.op == "lvref" or any(l.op == "lvref" for l in leaves(val)):
        I.env = env
        val = I.get(I.deref(lift(lambda x: x.args[0] if x.op == "lvref" else x, val)))
    I.env = env
    S.ret = typed(val, f["ret"], f["rt"]) if f.get("rt") not in (None, "v") else VOID
    S.throws = OR(*[g for g, _, _ in pret], t.g if t else FALSE)
    S.out["ret"] = S.ret
    if S.throws is not FALSE:
        S.out["throws"] = S.throws
        DC = T_("dontcare")
        tv, ts = DC, {}
        for g, e, v in reversed(list(pret) + ([(t.g, t.env, t.val)] if t else [])):
            tv = ite(g, v if v is not None else VOID, tv)
            d = {}
            h = e.get(T_("H", THIS))
            if h is not None: flatrec(d, "throw:this", h)
            for k in set(d) | set(ts):
                dflt = fld(T_("deref", THIS), k.split(".", 1)[1]) if "." in k else T_("deref", THIS)
                ts[k] = ite(g, d.get(k, dflt), ts.get(k, DC))
        S.out["throw:value"] = ite(S.throws, tv, DC)
        for k, v in ts.items(): S.out[k] = ite(S.throws, v, DC)
    h = env.get(T_("H", THIS))
    if h is not None:
        base = T_("deref", THIS)
        flatrec(S.out, "this", h)
    for root, v in env.items():
        if root.op == "EV": S.out["ev:" + root.args[0]] = v
        elif root.op == "G":
            gv = db.vars.get(root.args[0])
            if not (gv and gv.get("const")): S.out["g:" + root.args[0]] = v
        elif root.op == "H" and root.args[0] is not THIS and root.args[0].op != "new":
            S.out["heap:" + show(root.args[0])] = v
    for nm, r, p in outs: S.out["out:" + nm] = env[r]
    # a pointer to a fresh object stands for the object it points to
    new = {r.args[0]: v for r, v in env.items() if r.op == "H" and r.args[0].op == "new" and len(r.args[0].args) == 2}
    if new:
        for _ in range(3):
            m = {p: mkraw("obj", T_("num", Fr(p.args[0])), T_("str", p.args[1]), v) for p, v in new.items()}
            for k in list(S.out): S.out[k] = subst(S.out[k], m)
    S.unsup = I.unsup
    return S
def flatrec(out, pre, v):
    if v.op == "rec":
        for k, x in v.args[1]: out[pre + "." + k] = x
    elif v.op == "ite":
        ks = set()
        for l in leaves(v):
            if l.op == "rec": ks.update(k for k, _ in l.args[1])
        for k in ks: out[pre + "." + k] = fld(v, k)
        if not ks: out[pre] = v
