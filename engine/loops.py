"""Loops: induction variables, trip counts, reductions, array builds, searches; otherwise a canonical fold."""
from term import *
from seq import *
import math
import seq
from interp import Exit, add_exit, merge_env, typed1, Unsupported

UNROLL = 16
NOARR = [False]      # leave array updates as recurrences
def loop(I, cond, body, inc): return run(I, None, cond, lambda k: body(), inc)
def counted_stmt(I, n, bodyfn): return run(I, n, None, bodyfn, None)
def counted(I, n, bodyfn):
    def b(k):
        bodyfn(k); return TRUE, {}
    return run(I, n, None, b, None)

def step(I, k, cond, body, inc):
    """one iteration from the current environment -> (C, env after cond, N, env at the end, exits)"""
    c = cond() if cond else TRUE
    envh = dict(I.env)
    if c is FALSE: return c, envh, FALSE, I.env, {}
    I.loopdepth += 1
    try: n, ex = body(k)
    finally: I.loopdepth -= 1
    ct = ex.pop("c", None)
    if ct is not None:
        if n is FALSE: n, I.env = ct.g, ct.env
        else: I.env = merge_env(ct.g, ct.env, I.env); n = OR(n, ct.g)
    if inc is not None and n is not FALSE: inc()
    return c, envh, n, I.env, ex

def run(I, ntrip, cond, body, inc):
    I.stats["loops"] += 1
    NOARR[0] = bool(I.opts.get("noarr"))
    env0 = I.env = dict(I.env)
    lim = UNROLL if not I.unrolling else 4        # loops inside an unrolled loop stay loops unless they are tiny
    if ntrip is None or (ntrip.op == "num" and ntrip.args[0] <= lim):
        I.unrolling += 1
        try: r = unroll(I, ntrip, cond, body, inc, lim)
        finally: I.unrolling -= 1
        if r is not None: return r
        I.env = env0
    return general(I, ntrip, cond, body, inc)

def unroll(I, ntrip, cond, body, inc, lim):
    if ntrip is None and inc is not None:      # a loop variable that only the increment changes: more than lim rounds?
        e0, nu = I.env, len(I.unsup)
        I.env = dict(e0)
        long = False
        for j in range(lim + 1):
            c = cond()
            if c is not TRUE: break
            if j == lim: long = True
            else: inc()
        I.env = e0; del I.unsup[nu:]
        if c is not TRUE and c is not FALSE: long = True
        if long: return None
    I.env = dict(I.env)
    N = TRUE; exits = {}
    brk = None
    j = 0
    while True:
        if ntrip is not None:
            if j >= ntrip.args[0]: break
            c, envh, n, env, ex = step(I, num(j), None, body, inc)
        else:
            saveenv = dict(I.env)
            c = cond()
            if c is FALSE: break
            if c is not TRUE or j >= lim: return None
            c, envh, n, env, ex = step(I, None, None, body, inc)
        for kd, x in ex.items():
            add_exit(exits, kd, AND(N, x.g), x.env, x.val)
        N = AND(N, n)
        if N is FALSE: break
        j += 1
    b = exits.pop("b", None)
    if b is not None:
        if N is FALSE: I.env = b.env
        else: I.env = merge_env(b.g, b.env, I.env)
        N = OR(N, b.g)
    return N, exits

class Acc:
    __slots__ = ("root", "path", "s", "init", "end", "isb", "hd")
def isbool(t): return any(l in (TRUE, FALSE) for l in leaves(t))
def place(head, init, end, path, mk):
    """head value for the next round: put a symbol at each leaf where end differs from head"""
    if head is end: return head
    if head.op == "ite" and head.args[1] is TRUE and head.args[2] is FALSE and head.args[0].op == "sym" and head.args[0] in mk.byS: return head
    if head.op == "sym" and head in mk.byS: return head
    if head.op in ("iter", "riter") and end.op == head.op and head.args[0] is end.args[0]:
        return T_(head.op, head.args[0], place(head.args[1], init.args[1], end.args[1], path + (("it",),), mk))
    if head.op == "addr" and end.op == "addr" and init.op == "addr" and head.args[0] is end.args[0]:      # pointers to elements of one container
        p, q, p0 = head.args[1], end.args[1], init.args[1]
        if len(p) == len(q) == len(p0) and all(x == y or (x[0] == y[0] == "e" and len(x[1]) == len(y[1]) == 1) for x, y in zip(p, q)):
            r = []
            for i, (x, y, z) in enumerate(zip(p, q, p0)):
                r.append(x if x == y else ("e", (place(x[1][0], z[1][0], y[1][0], path + (("ad", i),), mk),)))
            return T_("addr", head.args[0], tuple(r))
    if head.op == "vec" or (end.op == "vec" and (head.op in ("vec",) or head is UNDEF)):
        n = len(head.args) if head.op == "vec" else len(end.args)
        if end.op != "vec" or len(end.args) == n:
            return T_("vec", *[place(vget(head, i), vget(init, i), vget(end, i), path + (("v", i),), mk) for i in range(n)])
    if head.op == "rec" or end.op == "rec":
        if end.op in ("rec",) or head.op == "rec":
            hb = head.args[0] if head.op == "rec" else head
            eb = end.args[0] if end.op == "rec" else end
            if hb is eb or hb is UNDEF or eb is UNDEF:
                ks = set()
                for t in (head, end):
                    if t.op == "rec": ks.update(k for k, _ in t.args[1])
                return rec(hb, {k: place(fld(head, k), fld(init, k), fld(end, k), path + (("f", k),), mk) for k in ks})
    return mk(path, init, end)
def getleaf(v, path):
    for a in path:
        if a[0] == "f": v = fld(v, a[1])
        elif a[0] == "v": v = vget(v, a[1])
        elif a[0] == "it":
            v = lift(lambda x: x.args[1] if x.op in ("iter", "riter") else UNDEF, v)
        elif a[0] == "ad":
            v = lift(lambda x: x.args[1][a[1]][1][0] if x.op == "addr" else UNDEF, v)
    return v

def general(I, ntrip, cond, body, inc):
    env0 = dict(I.env)
    k = fresh("k"); INTS.add(k); NONNEG.add(k)
    accs = {}       # (root, path) -> Acc
    byS = {}
    head = {}
    nonint = set()
    def init_of(root):
        v = env0.get(root)
        return v if v is not None else I.rootinit(root)
    for rnd in range(14):
        I.env = dict(env0)
        I.env.update(head)
        C, envh, N, env1, ex = step(I, k, cond, body, inc)
        changed = False
        if N is not FALSE:
            for root, v1 in list(env1.items()):
                if root not in env0 and root.op in ("loc", "tmp"): continue
                if root.op == "H" and root not in env0 and newroot(root, env0):
                    if len(root.args[0].args) < 3 or root.args[0].args[2] is not v1: I.unk("object made in a loop is changed after its construction")
                    continue
                if dep(root, [k]) or dep(root, list(byS)): 
                    I.unk("heap write through a loop-dependent pointer"); continue
                init = init_of(root)
                hv = head.get(root, init)
                if hv is v1: continue
                def mk(path, ini, end, root=root):
                    a = Acc()
                    a.root, a.path = root, path
                    key = (root, path)
                    ct = I.ctypes.get((root, ())) if not path else None
                    a.s = fresh("a")
                    a.isb = isbool(ini) or isbool(end) or (ct is not None and ct[0] == "b")
                    a.init = typed1(ini, "b") if a.isb else ini
                    if not a.isb and key not in nonint and (is_int(ini) or ini is UNDEF) and (is_int(end) or any(end.op == "ite" for _ in (0,)) or end.op in ATOMIC_NUM): INTS.add(a.s)
                    if all(is_mat(l) for l in leaves(ini)): MATS.add(a.s)
                    accs[key] = a; byS[a.s] = a
                    return atom(a.s) if a.isb else a.s
                mk.byS = byS
                nh = place(hv, init, v1, (), mk)
                if nh is not hv: head[root] = nh; changed = True
            if not changed:
                # check the integrality assumptions
                for key, a in list(accs.items()):
                    a.end = getleaf(env1.get(a.root, init_of(a.root)), a.path)
                    if a.s in INTS and not (is_int(a.end) or a.end is UNDEF):
                        nonint.add(key); changed = True
                if changed:
                    for a in accs.values(): byS.pop(a.s)
                    accs.clear(); head.clear()
        if not changed: break
    else:
        I.unk("loop fixpoint")
    if N is FALSE:      # the body never completes normally: a conditional
        return once(I, ntrip, C, envh, env0, ex, k)
    for a in accs.values():
        a.end = getleaf(env1.get(a.root, init_of(a.root)), a.path)
        if a.isb: a.end = typed1(a.end, "b")
    # ---- flags: the loop condition forces a boolean accumulator to one value
    flags = {}
    A = list(accs.values())
    C0 = C
    for a in A:
        if not dep(C0, (a.s,)): continue
        if a.isb:
            if assume(C0, facts_of((a.s, True))) is FALSE: flags[a.s] = FALSE
            elif assume(C0, facts_of((a.s, False))) is FALSE: flags[a.s] = TRUE
        else:
            for g in gates(C0):
                if g.op == "cmp" and g.args[1] is a.s and g.args[0] == "<=":
                    K = g.args[2]
                    lo = T_("cmp", "<=", a.s, K - 1) if a.s in INTS else T_("cmp", "<", a.s, K)
                    if assume(C0, facts_of((g, False))) is FALSE and assume(C0, facts_of((lo, True))) is FALSE:
                        flags[a.s] = T_("num", K); break
                elif g.op == "eq" and a.s in g.args and assume(C0, facts_of((g, False))) is FALSE:
                    o = g.args[0] if g.args[1] is a.s else g.args[1]
                    if not dep(o, list(byS) + [k]): flags[a.s] = o; break
    pre = TRUE
    endstop = FALSE
    if flags:
        # an accumulator that never changes is no flag
        for a in A:
            if a.s in flags and (a.end is a.s or a.end is (atom(a.s) if a.isb else a.s)): del flags[a.s]
    if flags:
        C0 = subst(C0, flags)
        for a in A:
            if a.s in flags:
                K = flags[a.s]
                if a.isb:
                    pre = AND(pre, a.init if K is TRUE else NOT(a.init))
                    endstop = OR(endstop, XOR(subst(a.end, flags), K))
                else:
                    pre = AND(pre, eq(a.init, K))
                    endstop = OR(endstop, NOT(eq(subst(a.end, flags), K)))
    res = dict(flags)      # sym -> value at the head of iteration k
    vf = {}                # sym -> function of the number of completed iterations
    todo = [a for a in A if a.s not in flags]
    ends = {a.s: subst(a.end, flags) if flags else a.end for a in todo}
    # updates that keep the shape of an array: its dimensions are those it had before the loop
    shape = {}
    for a in todo:
        if a.isb or ends[a.s] is a.s or not all(is_mat(l) or l is a.s for l in leaves(ends[a.s])): continue
        for op, f in (("rows", rows), ("cols", cols), ("size", size)):
            try:
                t = f(a.s)
                if t.op == op and f(ends[a.s]) is t: shape[t] = f(a.init)
            except TooBig: pass
    if shape:
        ends = {s_: subst(e, shape) if dep(e, list(byS)) else e for s_, e in ends.items()}
        C0 = subst(C0, shape)
    ends0 = dict(ends)
    def post(a):
        """a.end in terms of the other accumulators' values after the iteration"""
        E = ends0.get(a.s)
        if E is None or E.op == "ite": return None
        m, back = {}, {}
        for b in A:
            e = ends0.get(b.s)
            if b is a or b.s not in vf or e is None or b.isb or e.op != "poly" or not dep(E, (b.s,)): continue
            d = dict(e.args[0])
            if d.pop(((b.s, 1),), None) != 1: continue
            d = mkpoly(d)
            if dep(d, (b.s,)): continue
            s2 = fresh("p"); m[b.s] = sub(s2, d); back[s2] = b
        if not m: return None
        E2 = subst(E, m)
        syms = [x.s for x in A]
        if sum(dep(E2, (x,)) for x in syms) + sum(dep(E2, (x,)) for x in back) >= sum(dep(E, (x,)) for x in syms): return None
        E2 = subst(E2, {s_: v for s_, v in res.items() if dep(E2, (s_,))}) if any(dep(E2, (s_,)) for s_ in res) else E2
        if dep(E2, syms): return None
        def f(n):
            E3 = subst(E2, {k: sub(n, ONE)}) if dep(E2, (k,)) else E2
            return subst(E3, {s2: vf[b.s](n) for s2, b in back.items()})
        return f
    cps = None
    while todo:
        prog = False
        for a in list(todo):
            others = [b.s for b in todo]
            E = ends[a.s]
            f = None
            if E is a.s or (a.isb and E is atom(a.s)): f = (lambda init: lambda n: init)(a.init)
            elif not dep(E, others): f = carried(k, a, E, post(a))
            elif not dep(E, [s for s in others if s is not a.s]): f = closed(k, a.s, a.init, E, a.isb)
            if f is None: continue
            vf[a.s] = f
            h = f(k)
            res[a.s] = h
            todo.remove(a); prog = True
            for b in todo: 
                if dep(ends[b.s], (a.s,)): ends[b.s] = subst(ends[b.s], {a.s: h})
            # facts: inside the loop k < N is not known yet; fine
        if not prog and cps is None:
            cps = compact(k, todo, ends, subst(C0, res))
            if cps is not None:
                A_, F, sub_ = cps
                todo = [a for a in todo if a is not A_] + [F]
                ends[F.s] = F.end
                ends = {s_: sub_(e) for s_, e in ends.items() if s_ is not A_.s}
                continue
        if not prog:
            # smallest dependency closure becomes a fold
            def clos(a):
                g = [a]
                for x in g:
                    for b in todo:
                        if b not in g and dep(ends[x.s], (b.s,)): g.append(b)
                return g
            grp = min((clos(a) for a in todo), key=len)
            ss = [b.s for b in grp]; bodies = [ends[b.s] for b in grp]; inits = [b.init for b in grp]
            for i, b in enumerate(grp):
                def f(n, i=i, b=b, ss=ss, bodies=bodies, inits=inits):
                    r = mkfold(i, n, k, ss, bodies, inits)
                    return typed1(r, "b") if b.isb else r
                vf[b.s] = f
            for b in grp: res[b.s] = vf[b.s](k)
            todo = [b for b in todo if b not in grp]
            m = {b.s: res[b.s] for b in grp}
            for b in todo: ends[b.s] = subst(ends[b.s], m)
    if cps:
        A_, F, sub_ = cps
        vf[A_.s] = lambda n: overw(A_.init, vf[F.s](n))
        res[A_.s] = vf[A_.s](k)
        res0 = {s_: v for s_, v in res.items() if s_ is not A_.s}
        presub = lambda t: sub_(subst(t, res0)) if dep(t, (A_.s,)) else t
    else: presub = lambda t: t
    def close_head(t):
        if shape and t.syms: t = subst(t, shape)
        if t.syms: t = presub(t)
        return subst(t, res) if t.syms else t
    Ck = close_head(C0)
    stops = []
    if ntrip is not None: Nn, rest = ntrip, TRUE
    else: Nn, rest = trip(Ck, k)
    if rest is not TRUE: stops.append(("top", NOT(rest), envh, None))
    for kd, x in ex.items(): stops.append((kd, AND(rest, close_head(x.g)), x.env, x.val))
    if endstop is not FALSE: stops.append(("eb", AND(rest, close_head(N), close_head(endstop)), env1, None))
    infr = in_range(k, Nn)
    stops = [(kd, assume(g, infr), e, v) for kd, g, e, v in stops]
    stops = [s for s in stops if s[1] is not FALSE]
    Nv = vmax(ZERO, Nn) if Nn is not INF else INF
    def under(v, S):
        """v simplified where S holds (k still open)"""
        if S is None or not dep(v, (k,)) : return v
        if v.op == "rec": return rec(v.args[0], {f: under(x, S) for f, x in v.args[1]})
        if v.op == "vec": return T_("vec", *[under(x, S) for x in v.args])
        if v.op != "ite": return v
        h, (b, c) = close([v, S], [k])
        ls = leaves(b)
        if any(l.op in AGG for l in ls): return v
        b = dcsimp(ite(c, b, DC))
        return subst(b, {T_("bv", h): k})
    def final_env(srcenv, n, S=None):
        m = dict(res)
        r = dict(env0)
        memo = {}
        tot = {s: (f(n)) for s, f in vf.items()}
        for s, v in flags.items(): tot[s] = v
        def fin(v):
            if not v.syms: return v
            if shape: v = subst(v, shape)
            if cps: v = presub(v)
            if S is not None:
                v = under(subst(v, res) if dep(v, list(res)) else v, S)
                return subst(v, {k: n}) if dep(v, (k,)) else v
            return subst(subst(v, tot, memo) if dep(v, list(tot)) else v, {k: n}) if dep(v, list(tot) + [k]) else v
        # tot values contain no k; v may
        for root, v in srcenv.items():
            if root not in env0 and root.op in ("loc", "tmp"): 
                continue
            if dep(root, [k]) : continue
            old = env0.get(root)
            nv = fin(v)
            if nv is not old: r[root] = nv
        return r, fin
    if not stops:
        if Nn is INF: I.unk("loop without exit")
        I.env, _ = final_env(envh, Nv)
        res_n, exits = TRUE, {}
    else:
        S = OR(*[g for _, g, _, _ in stops])
        anyS = bind_any(Nn, k, S)
        fS = bind_first(Nn, k, S)
        exits = {}
        if Nn is not INF and anyS is not TRUE:
            envN, _ = final_env(envh, Nv)
        else: envN = None
        resn = NOT(anyS); envacc = envN
        nleft = len(stops)
        stops.sort(key=lambda s: {"r": 0, "t": 1, "b": 2, "top": 3, "eb": 4}.get(s[0], 5))
        rem = anyS
        for i, (kd, g, e, v) in enumerate(stops):
            gf = rem if i == nleft - 1 else AND(rem, subst(g, {k: fS}))
            rem = AND(rem, NOT(gf)) if i < nleft - 1 else FALSE
            if gf is FALSE: continue
            pe, fin = final_env(e, fS, g)
            if kd in ("b", "top", "eb"):
                if kd == "eb":
                    pass
                envacc = pe if envacc is None or resn is FALSE else merge_env(gf, pe, envacc)
                resn = OR(resn, gf)
            else:
                add_exit(exits, kd, gf, pe, fin(v) if v is not None else None)
        if envacc is not None: I.env = envacc
        res_n = resn
    if pre is not TRUE:
        I.env = merge_env(pre, I.env, env0)
        for x in exits.values(): x.g = AND(pre, x.g)
        exits = {kd: x for kd, x in exits.items() if x.g is not FALSE}
        res_n = IMPL(pre, res_n)
    return res_n, exits

def newroot(root, env0):
    a = root.args[0]
    return a.op == "new"
def once(I, ntrip, C, envh, env0, ex, k):
    if ntrip is not None: C = lt(ZERO, ntrip)
    z = {k: ZERO}
    exits = {}
    keep = lambda env: {r: (subst(v, z) if dep(v, (k,)) else v) for r, v in env.items() if r in env0 or r.op not in ("loc", "tmp")}
    resn = NOT(C); I.env = keep(envh)
    for kd, x in ex.items():
        g = AND(C, subst(x.g, z) if dep(x.g, (k,)) else x.g)
        if g is FALSE: continue
        e = keep(x.env)
        v = x.val
        if v is not None and dep(v, (k,)): v = subst(v, z)
        if kd == "b":
            I.env = merge_env(g, e, I.env) if resn is not FALSE else e
            resn = OR(resn, g)
        else: add_exit(exits, kd, g, e, v)
    return resn, exits

def compact(k, todo, ends, C0):
    """in-place stable compaction: if (c) A[j++] = A[k] with j starting at 0 never overtakes k, so A[k] still holds its
    original element; A ends as the kept elements followed by the original tail"""
    for A in todo:
        E = ends[A.s]
        if A.isb: continue
        ls = [l for l in leaves(E) if l is not A.s]
        if len(ls) != 1 or ls[0].op != "st": continue
        b, i, x = ls[0].args
        if b is not A.s or len(i) != 1: continue
        j = i[0].args[0] if i[0].op == "uns" else i[0]
        if x.op != "elt" or x.args[0] is not A.s or x.args[1] != (k,): continue
        J = next((a for a in todo if a.s is j), None)
        if J is None or J.init is not ZERO: continue
        c = lift(lambda l: FALSE if l is A.s else TRUE, E)
        if ends[J.s] is not ite(c, add(j, ONE), j): continue
        rd = T_("elt", A.s, (k,))
        def sub_(t, A=A, rd=rd):
            if not dep(t, (A.s,)): return t
            t = subst(t, {rd: elt(A.init, (k,)), T_("size", A.s): size(A.init)})
            return t
        F = Acc()
        F.root, F.path, F.isb = A.root, A.path, False
        F.s = fresh("a"); F.init = NIL
        F.end = ite(sub_(c), app(F.s, elt(A.init, (k,))), F.s)
        if any(dep(sub_(e), (A.s,)) for s_, e in ends.items() if s_ is not A.s) or dep(sub_(C0), (A.s,)) or dep(F.end, (A.s,)): continue
        return A, F, sub_
    return None
# ------------------------------------------------------------------------------------------------ closed forms
def carried(k, a, E, post=None):
    """the accumulator holds a value of the previous iteration"""
    if post is None: post = lambda n: subst(E, {k: sub(n, ONE)}) if dep(E, (k,)) else E
    uncond = a.init is UNDEF or post(ZERO) is a.init
    def f(n):
        if n is ZERO: return a.init
        v = post(n)
        if uncond: return v
        return ite(le(n, ZERO), a.init, v)
    return f
def gate_dep(E, s): return any(dep(g, (s,)) for g in gates(E))
def closed(k, s, init, E, isb):
    if isb: return closed_bool(k, s, init, E)
    ls = leaves(E)
    gd = gate_dep(E, s)
    if not gd:
        # sums
        def delta(l):
            if l is s: return ZERO
            if l.op == "poly":
                d = dict(l.args[0])
                if d.get(((s, 1),)) == 1:
                    del d[((s, 1),)]
                    r = mkpoly(d)
                    if not dep(r, (s,)): return r
            return None
        ds = [delta(l) for l in ls]
        if all(d is not None for d in ds):
            e = lift(delta, E)
            return lambda n: add(init, bind_sum(n, k, e))
        # append
        its = [items(l, s) for l in ls]
        if all(x is not None for x in its):
            body = lift(lambda l: T_("items", *items(l, s)), E)
            return lambda n: appseq(init, bind_coll(n, k, body))
        # max / min
        for mm, f in (("max", vmax), ("min", vmin)):
            def part(l):
                if l is s: return NONE
                if l.op == mm and s in l.args:
                    r = None
                    for x in l.args:
                        if x is not s:
                            if dep(x, (s,)): return None
                            r = x if r is None else f(r, x)
                    return r
                return None
            ps = [part(l) for l in ls]
            if all(p is not None for p in ps):
                e = lift(part, E)
                def g(n, f=f, mm=mm):
                    r = bind_red(mm, n, k, e)
                    return lift(lambda x, y: x if y is NONE else f(x, y), init, r)
                return g
        # last write
        if all(l is s or not dep(l, (s,)) for l in ls):
            return lastw(k, s, init, E)
    a = arr_closed(k, s, init, E) if not NOARR[0] else None
    if a is not None: return a
    return None
DC = T_("dontcare")
def dcsimp(t):
    memo = {}
    def go(t):
        if t.op != "ite": return t
        r = memo.get(t)
        if r is not None: return r
        hi, lo = go(t.args[1]), go(t.args[2])
        r = lo if hi is DC else hi if lo is DC else ite(atom(t.args[0]), hi, lo)
        memo[t] = r
        return r
    return go(t)
def lastw(k, s, init, E):
    w = lift(lambda l: FALSE if l is s else TRUE, E)
    v = lift(lambda l: DC if l is s else l, E)
    def f(n):
        g = bind_any(n, k, w)
        if g is FALSE: return init
        j = bind_first(n, k, w, "lastk")
        if j.op == "ite": j = assume(j, conj_facts(g))
        h, (b,) = close([v], [k])
        b = dcsimp(b)
        return ite(g, subst(b, {T_("bv", h): j}), init)
    return f
def closed_bool(k, s, init, E):
    T1, F1 = assume(E, facts_of((s, True))), assume(E, facts_of((s, False)))
    if dep(T1, (s,)) or dep(F1, (s,)): return None
    if T1 is TRUE: return lambda n: OR(init, bind_any(n, k, F1))
    if F1 is FALSE: return lambda n: AND(init, NOT(bind_any(n, k, NOT(T1))))
    # set/reset: last write
    keep = AND(T1, NOT(F1))
    if AND(NOT(T1), F1) is FALSE:
        w = NOT(keep)
        def f(n):
            g = bind_any(n, k, w)
            j = bind_first(n, k, w, "lastk")
            if j.op == "ite": j = assume(j, conj_facts(g))
            return ite(g, subst(F1, {k: j}), init)
        return f
    return None
def items(l, s):
    out = []
    while l is not s:
        if l.op == "app": out.insert(0, T_("one", l.args[1])); l = l.args[0]
        elif l.op == "appall": out.insert(0, T_("many", l.args[1])); l = l.args[0]
        else: return None
    if any(dep(x, (s,)) for x in out): return None
    return out
def arr_dims(E, s):
    for l in leaves(E):
        while l is not s:
            if l.op == "st": return len(l.args[1])
            if l.op == "lamarr": return l.args[0]
            if l.op == "stblk": return 2
            return None
    return None
def based(l, s):
    """leaf is an update chain over s"""
    while l is not s:
        if l.op in ("st", "stblk"): l = l.args[0]
        elif l.op == "lamarr": l = l.args[1]
        else: return False
    return True
def elts_of(t, s, out, seen):
    if t in seen or not dep(t, (s,)): return True
    seen.add(t)
    if t is s: return False
    if t.op == "elt" and t.args[0] is s:
        out.add(t.args[1])
        return all(elts_of(x, s, out, seen) for x in t.args[1])
    if t.op in ("size", "rows", "cols") and t.args[0] is s: return True
    def sub_(x):
        if isinstance(x, T): return elts_of(x, s, out, seen)
        if isinstance(x, tuple): return all(sub_(y) for y in x)
        return True
    return all(sub_(x) for x in t.args)
def arr_closed(k, s, init, E):
    nd = arr_dims(E, s)
    if nd is None or not all(based(l, s) for l in leaves(E)): return None
    E = subst(E, {}) if False else E
    xs = []
    for _ in range(nd):
        x = fresh("x"); INTS.add(x); NONNEG.add(x); xs.append(x)
    xt = tuple(xs)
    F = elt(E, xt)
    c = fresh("c")
    widx = {i for l in leaves(E) for i in write_idx(l, s)}
    # shape queries
    shp = {}
    for op, f in (("size", size), ("rows", rows), ("cols", cols)):
        t = T_(op, s); shp[t] = f(init)
    F = subst(F, shp) if any(True for _ in shp) and dep(F, (s,)) else F
    reads = set()
    if not elts_of(F, s, reads, set()): return None
    isb = isbool(F) or isbool(elt(init, xt))
    intcell = False
    repl = {T_("elt", s, xt): c}
    other = [r for r in reads if r != xt]
    if other:
        if len(other) != 1 or other[0] not in widx or dep_tuple(other[0], s): return None
        repl[T_("elt", s, other[0])] = c
    if isb: F = typed1(F, "b")
    cinit = elt(init, xt)
    if isb: cinit = typed1(cinit, "b")
    if not isb and is_int(cinit): INTS.add(c)
    F = subst(F, repl)
    if dep(F, (s,)): return None
    cv = atom(c) if isb else c
    if other:
        # F must leave every other cell alone
        e = AND(*[eq(x, i, True) for x, i in zip(xt, other[0])])
        out = ite(e, cv, F)
        if out is not cv and not keeps(F, e, cv): return None
    sol = solve_touch(F, k, cv)
    if sol is not None:
        ks = sol
        def f(n):
            body = subst(F, {k: ks, c: cinit})
            g = AND(le(ZERO, ks), lt(ks, lim(n)) if n is not INF else TRUE)
            b = lift(lambda cc, b1, c1: b1 if cc is TRUE else c1, g, body, cinit) if False else ite(g, body, cinit)
            return lam_over(init, xs, b)
        return f
    if not dep(F, (c,)):
        def f(n):
            v = subst(F, {k: sub(n, ONE)})
            return lam_over(init, xs, ite(le(n, ZERO), cinit, v))
        return f
    cf = closed(k, c, cinit, F, isb)
    if cf is None:
        def cf(n):
            r = mkfold(0, n, k, [c], [F], [cinit])
            return typed1(r, "b") if isb else r
    return lambda n: lam_over(init, xs, cf(n))
def keeps(F, e, cv):
    f = {}
    # F restricted to not e must be cv
    r = ite(e, cv, F)
    return r is cv
def dep_tuple(t, s): return any(dep(x, (s,)) for x in t)
def write_idx(l, s):
    while l is not s:
        if l.op == "st": yield l.args[1]; l = l.args[0]
        elif l.op in ("stblk",): l = l.args[0]
        elif l.op == "lamarr": l = l.args[1]
        else: return
def lam_over(init, xs, b):
    return lift(lambda i: lamarr(i, xs, b), init) if init.op != "ite" else lamarr(init, xs, b)
def linear_in(q, k):
    """q = a*k + r with r free of k -> (a, r)"""
    d = dict(monos(q))
    a = d.pop(((k, 1),), None)
    if a is None: return None
    r = mkpoly(d)
    if dep(r, (k,)): return None
    return a, r
def solve_touch(F, k, cv):
    """k* such that F(k) is the identity for every k != k*"""
    by = {}
    for a in gates(F):
        if a.op == "cmp" and dep(a, (k,)): by.setdefault(a.args[1], []).append(a)
    for q, gs in sorted(by.items(), key=lambda x: x[0].sk):
        lk = linear_in(q, k)
        if lk is None: continue
        a, r = lk
        if not is_int(q) and not is_int(mul(num(den(q)), q)): continue
        s = Fr(1, den(q))        # the values of q are multiples of s; |a|/s successive ones belong to one k
        for lo, hi in cands(gs, q, abs(a)):
                if not (assume(F, facts_of((lo, True))) is cv and assume(F, facts_of((hi, False))) is cv): continue
                t, u = lo.args[2], hi.args[2]
                L = Fr(math.ceil(t / s)) * s if lo.args[0] == "<" else Fr(math.floor(t / s) + 1) * s
                U = Fr(math.ceil(u / s) - 1) * s if hi.args[0] == "<" else Fr(math.floor(u / s)) * s
                if U - L != abs(a) - s: continue
                return ceilv(mul(num(1 / a), sub(T_("num", L), r))) if a > 0 else ceilv(mul(num(1 / abs(a)), sub(r, T_("num", U))))
    return None
def cands(gs, q, a):
    if is_int(q):
        for g in sorted(gs, key=lambda g: (g.args[2], g.args[0])):
            t = Fr(math.floor(g.args[2]))
            yield T_("cmp", "<=", q, t - a), T_("cmp", "<=", q, t)
            yield T_("cmp", "<=", q, t), T_("cmp", "<=", q, t + a)
    for lo in gs:
        for hi in gs: yield lo, hi
def ceilv(v):
    """ceil((e - (q - 1)) / q) is the integer quotient"""
    q = den(v)
    if q == 1 and is_int(v): return v
    e = add(mul(num(q), v), num(q - 1))
    if q > 1 and e.op != "ite" and is_int(e) and nonneg(e): return idiv(e, num(q))
    return mk("ceil", v)
def floorv(v):
    e = mul(num(den(v)), v)
    if e.op != "ite" and is_int(e) and nonneg(e) and den(v) > 1: return idiv(e, num(den(v)))
    return mk("floor", v)
def den(v):
    r = 1
    for c in monos(v).values(): r = r * c.denominator // math.gcd(r, c.denominator)
    return r

# ------------------------------------------------------------------------------------------------ trip counts
def trip(C, k, depth=0):
    """-> (N, rest): the loop runs while k < N and rest"""
    if depth < 6:
        for A in sorted(gates(C), key=lambda a: a.key):      # conditions that do not change from round to round
            if dep(A, (k,)): continue
            n1, r1 = trip(assume(C, facts_of((A, True))), k, depth + 1)
            n2, r2 = trip(assume(C, facts_of((A, False))), k, depth + 1)
            if assume(C, facts_of((A, True))) is FALSE: n1, r1 = ZERO, TRUE
            if assume(C, facts_of((A, False))) is FALSE: n2, r2 = ZERO, TRUE
            if n1 is INF or n2 is INF: break
            return ite(atom(A), n1, n2), ite(atom(A), r1, r2)
    N = None
    for _ in range(12):
        done = True
        for A in sorted(gates(C), key=lambda a: a.key):
            if A.op != "cmp" or not dep(A, (k,)): continue
            rel, q, K = A.args
            lk = linear_in(q, k)
            if lk is None: continue
            a, r = lk
            Ct, Cf = assume(C, facts_of((A, True))), assume(C, facts_of((A, False)))
            n = None
            Kt = T_("num", K)
            if Cf is FALSE and a > 0:
                v = mul(sub(Kt, r), T_("num", 1 / a))
                n = add(mk("floor", v), ONE) if rel == "<=" else mk("ceil", v)
                rest = Ct
            elif Ct is FALSE and a < 0:
                v = mul(sub(r, Kt), T_("num", 1 / abs(a)))
                n = mk("ceil", v) if rel == "<=" else add(mk("floor", v), ONE)
                rest = Cf
            elif rel == "<=" and abs(a) == 1 and is_int(q):
                B = T_("cmp", "<=", q, K - 1)
                mid = assume(C, facts_of((A, True), (B, False)))
                if mid is FALSE:
                    lo, hi = assume(C, facts_of((B, True))), Cf
                    st0 = r   # value of q at k = 0
                    n = mul(num(a), sub(Kt, r))
                    rest = lo if a > 0 else hi
            if n is None: continue
            N = n if N is None else vmin(N, n)
            C = rest; done = False
            break
        if done: break
    return (N if N is not None else INF), C
