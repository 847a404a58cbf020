"""Containers, matrices and loop binders on top of term.py"""
from term import *
import term

MATOPS = {"st", "lamarr", "matc", "resized", "block", "stblk", "appall", "app", "emul"}
def is_mat(t): return t.op in MATOPS or t in MATS

BETA = 60000      # reads of bigger array definitions stay symbolic
def memo1(f):
    tab = {}
    def g(v):
        r = tab.get(v)
        if r is None: r = tab[v] = f(v)
        return r
    return g
def _idx_eq(a, b):
    return AND(*[eq(x, y, True) for x, y in zip(a, b)])
def elt(v, idx):
    """element of container/matrix v at index tuple idx"""
    if any(x.op == "uns" for x in idx): idx = tuple(x.args[0] if x.op == "uns" else x for x in idx)   # a negative subscript is out of bounds either way
    for x in idx:
        if x.op == "ite":
            a = x.args[0]
            return ite(atom(a), elt(cof(v, a, True) if v.op == "ite" else v, tuple(cof(y, a, True) if y.op == "ite" and y.args[0] is a else y for y in idx)),
                       elt(cof(v, a, False) if v.op == "ite" else v, tuple(cof(y, a, False) if y.op == "ite" and y.args[0] is a else y for y in idx)))
    op = v.op
    if op == "ite": return ite(atom(v.args[0]), elt(v.args[1], idx), elt(v.args[2], idx))
    if v is UNDEF: return UNDEF
    if op in ("popf", "fold", "get") and len(idx) == 1 and idx[0].op == "poly":
        b = tail_of(v)
        if b is not None and idx[0] is sub(size(v), ONE): return elt(b, (sub(size(b), ONE),))
    if op == "st":
        b, i, x = v.args
        if len(i) != len(idx): return T_("elt", v, idx)
        e = _idx_eq(i, idx)
        if e is TRUE: return x
        if e is FALSE: return elt(b, idx)
        return ite(e, x, elt(b, idx))
    if op == "app":
        b, x = v.args
        if len(idx) == 1:
            e = eq(idx[0], size(b), True)
            if e is TRUE: return x
            if e is FALSE: return elt(b, idx)
            return ite(e, x, elt(b, idx))
    if op == "lit" and len(idx) == 1 and idx[0].op == "num":
        k = int(idx[0].args[0])
        if 0 <= k < len(v.args): return v.args[k]
        return UNDEF
    if op == "lit" and len(idx) == 1 and len(v.args) <= 8:
        r = v.args[-1] if v.args else UNDEF
        for k in range(len(v.args) - 2, -1, -1): r = ite(le(idx[0], num(k)), v.args[k], r)
        return r
    if op == "nil": return UNDEF
    if op == "matc": return v.args[1]
    if op == "lamarr" and v.args[0] == len(idx) and v.args[3].big > BETA: return T_("elt", v, idx)
    if op == "lamarr" and v.args[0] == len(idx):
        bvs = [T_("bv", v.args[2] + d) for d in range(len(idx))]
        return subst(v.args[3], dict(zip(bvs, idx)))
    if op == "resized":
        return T_("elt", v, idx)
    if op == "block" and len(idx) == 1 and (v.args[3] is ONE or v.args[4] is ONE): return elt1(v, idx[0])
    if op == "block" and len(idx) == 2:
        b, i0, j0 = v.args[0], v.args[1], v.args[2]
        return elt(b, (add(idx[0], i0), add(idx[1], j0)))
    if op == "stblk" and len(idx) == 2:
        b, i0, j0, r, c, x = v.args
        inr = AND(le(i0, idx[0]), lt(idx[0], add(i0, r)), le(j0, idx[1]), lt(idx[1], add(j0, c)))
        xx = elt(x, (sub(idx[0], i0), sub(idx[1], j0)))
        return ite(inr, xx, elt(b, idx))
    if op == "gen":
        bv = T_("bv", v.args[1])
        return subst(v.args[2], {bv: idx[0]})
    if op == "appall" and v.args[1].op == "gen" and len(idx) == 1:
        n = size(v.args[0])
        return ite(lt(idx[0], n), elt(v.args[0], idx), elt(v.args[1], (sub(idx[0], n),)))
    if op == "app" and len(idx) == 1: pass
    if op == "vec" and len(idx) == 1:
        if idx[0].op == "num": return v.args[int(idx[0].args[0])]
        r = v.args[-1]
        for k in range(len(v.args) - 2, -1, -1): r = ite(le(idx[0], num(k)), v.args[k], r)
        return r
    if op == "resizev" and len(idx) == 1: return ite(lt(idx[0], size(v.args[0])), elt(v.args[0], idx), v.args[2])
    if op == "overw" and len(idx) == 1: return ite(lt(idx[0], size(v.args[1])), elt(v.args[1], idx), elt(v.args[0], idx))
    if op == "emul": return mul(elt(v.args[0], idx), elt(v.args[1], idx))
    if op == "slice" and len(idx) == 1: return elt(v.args[0], (add(v.args[1], idx[0]),))
    if op == "poly":
        r = ZERO
        for m, c in v.args[0]:
            p = T_("num", c)
            for a, e in m:
                y = elt(a, idx) if is_mat(a) else a
                p = mul(p, y if e == 1 else lift(lambda z: power(z, e), y))
            r = add(r, p)
        return r
    if op == "num": return v
    return T_("elt", v, idx)
def tail_of(v):
    """the sequence that v is an end piece of: removing elements at the front keeps the last one for as long as there is one"""
    if v.op == "popf": return v.args[0]
    f = v.args[0] if v.op == "get" else v
    if f.op != "fold": return None
    n, h, kinds, bodies, inits, i = f.args
    a = T_(kinds[i], h + 1 + i)
    b = bodies[i]
    if v.op == "fold": return inits[i] if b.op == "popf" and b.args[0] is a else None
    if b.op == "put" and b.args[0] is a and b.args[1] is v.args[1] and b.args[2].op == "popf" and b.args[2].args[0] is mget(a, v.args[1]): return mget(inits[i], v.args[1])
    return None
def elt1(v, k):
    """k-th element of a row or column vector"""
    if v.op == "ite": return ite(atom(v.args[0]), elt1(v.args[1], k), elt1(v.args[2], k))
    if v.op == "block":
        if v.args[4] is ONE: return eltv(v.args[0], add(k, v.args[1]), v.args[2])
        if v.args[3] is ONE: return eltv(v.args[0], v.args[1], add(k, v.args[2]))
    if v.op == "emul": return mul(elt1(v.args[0], k), elt1(v.args[1], k))
    if v.op == "poly":
        r = ZERO
        for m, c in v.args[0]:
            p = T_("num", c)
            for a, e in m: p = mul(p, power(elt1(a, k), e) if is_mat(a) else a if e == 1 else power(a, e))
            r = add(r, p)
        return r
    return elt(v, (k,))
def eltv(v, i, j):
    """entry (i, j) of a matrix, which may itself be a vector accessed by one index"""
    if v.op == "ite": return ite(atom(v.args[0]), eltv(v.args[1], i, j), eltv(v.args[2], i, j))
    if v.op in ("block", "emul", "poly"):
        if cols(v) is ONE: return elt1(v, i)
        if rows(v) is ONE: return elt1(v, j)
    return elt(v, (i, j))
def st(v, idx, x):
    for y in idx:
        if y.op == "ite":
            a = y.args[0]
            c = lambda t, b: cof(t, a, b) if t.op == "ite" and t.args[0] is a else t
            return ite(atom(a), st(v, tuple(c(z, True) for z in idx), x), st(v, tuple(c(z, False) for z in idx), x))
    if v.op == "ite": return ite(atom(v.args[0]), st(v.args[1], idx, x), st(v.args[2], idx, x))
    if x.op == "elt" and x.args[0] is v and x.args[1] == idx: return v
    if x.op == "ite" and nleaves(x) <= 16 and any(l.op == "elt" and l.args[0] is v and l.args[1] == idx for l in leaves(x)):
        return ite(atom(x.args[0]), st(v, idx, x.args[1]), st(v, idx, x.args[2]))      # left alone in some cases
    if v.op == "lit" and len(idx) == 1 and idx[0].op == "num" and 0 <= int(idx[0].args[0]) < len(v.args):
        l = list(v.args); l[int(idx[0].args[0])] = x
        return T_("lit", *l)
    if v.op == "app" and len(idx) == 1:
        e = eq(idx[0], size(v.args[0]), True)
        if e is TRUE: return T_("app", v.args[0], x)
        if e is FALSE: return app(st(v.args[0], idx, x), v.args[1])
    if v.op == "st":
        b, i, y = v.args
        e = _idx_eq(i, idx)
        if e is TRUE: return st(b, idx, x)
        if e is FALSE and tuple(z.sk for z in idx) < tuple(z.sk for z in i): return T_("st", st(b, idx, x), i, y)
    return T_("st", v, idx, x)
@memo1
def size(v):
    op = v.op
    if op == "ite": return ite(atom(v.args[0]), size(v.args[1]), size(v.args[2]))
    if op in ("nil",): return ZERO
    if op == "lit": return num(len(v.args))
    if op == "vec": return num(len(v.args))
    if op == "app": return add(size(v.args[0]), ONE)
    if op in ("st", "overw"): return size(v.args[0])
    if op == "lamarr": return size(v.args[1])
    if op == "resized": return v.args[1]
    if op == "fillv": return v.args[0]
    if op == "appall":
        c = v.args[1]
        return add(size(v.args[0]), size(c))
    if op == "resizev": return v.args[1]
    if op == "gen": return vmax(v.args[0], ZERO)
    if op in ("sorted", "rev"): return size(v.args[0])
    if op == "coll":
        (k,), (b,) = open_([v.args[2]], [T_("bv", v.args[1])])
        return bind_sum(v.args[0], k, lift(items_n, b))
    if op in ("str",): return num(len(v.args[0]))
    if op == "popb" : return sub(size(v.args[0]), ONE)
    if op == "slice": return sub(v.args[2], v.args[1])
    return T_("size", v)
def overw(b, f):
    """f followed by the rest of b from position size(f) on"""
    if b.op == "ite" or f.op == "ite": return lift(overw, b, f)
    if f is NIL: return b
    return ite(le(size(b), size(f)), f, T_("overw", b, f))
def resizev(v, n, x):
    if v.op == "ite" or n.op == "ite": return lift(lambda a, b: resizev(a, b, x), v, n)
    if v.op == "overw" and eq(n, size(v.args[1]), True) is TRUE: return v.args[1]
    if eq(n, size(v), True) is TRUE: return v
    return T_("resizev", v, n, x)
def items_n(l):
    r = ZERO
    for x in l.args: r = add(r, ONE if x.op == "one" else size(x.args[0]))
    return r
def app(v, x):
    if v.op == "lit": return T_("lit", *(v.args + (x,)))
    if v.op == "nil": return T_("lit", x)
    return T_("app", v, x)
def appseq(cur, s):
    if s.op == "ite" or cur.op == "ite": return lift(appseq, cur, s)
    if s is NIL: return cur
    if s.op == "lit":
        for x in s.args: cur = lift(lambda c: app(c, x), cur)
        return cur
    if cur is NIL: return s
    return T_("appall", cur, s)
@memo1
def rows(v):
    if v.op == "ite": return ite(atom(v.args[0]), rows(v.args[1]), rows(v.args[2]))
    if v.op in ("st", "stblk"): return rows(v.args[0])
    if v.op == "lamarr": return rows(v.args[1])
    if v.op == "matc": return rows(v.args[0])
    if v.op == "resized": return v.args[1]
    if v.op == "block": return v.args[3]
    if v.op == "emul": return rows(v.args[0])
    if v.op == "poly":
        for a in poly_atoms(v):
            if is_mat(a): return rows(a)
    return T_("rows", v)
@memo1
def cols(v):
    if v.op == "ite": return ite(atom(v.args[0]), cols(v.args[1]), cols(v.args[2]))
    if v.op in ("st", "stblk"): return cols(v.args[0])
    if v.op == "lamarr": return cols(v.args[1])
    if v.op == "matc": return cols(v.args[0])
    if v.op == "resized": return v.args[2] if len(v.args) > 2 else ONE
    if v.op == "block": return v.args[4]
    if v.op == "emul": return cols(v.args[0])
    if v.op == "poly":
        for a in poly_atoms(v):
            if is_mat(a): return cols(a)
    return T_("cols", v)
def matc(m, val):
    """matrix of the shape of m, all elements val"""
    return lift(lambda s: T_("matc", shape(s), val), m)
def shape(m):
    if m.op in ("st", "stblk"): return shape(m.args[0])
    if m.op == "lamarr": return shape(m.args[1])
    if m.op == "matc": return shape(m.args[0])
    if m.op == "resized": return T_("resized", *m.args[1:]) if m.args[0].op != "num" else m
    if m.op == "emul": return shape(m.args[0])
    return m
def resized(m, *dims):
    return lift(lambda s, *d: T_("resized", s, *d), shape0(m), *dims)
def shape0(m): return ZERO
# maps
def mhas(m, k):
    if m.op == "ite": return ite(atom(m.args[0]), mhas(m.args[1], k), mhas(m.args[2], k))
    if m.op == "put":
        e = eq(m.args[1], k)
        return ite(e, TRUE, mhas(m.args[0], k)) if e is not TRUE else TRUE
    if m.op == "del":
        e = eq(m.args[1], k)
        return ite(e, FALSE, mhas(m.args[0], k))
    if m.op == "nil": return FALSE
    return lift(lambda kk: atom(T_("has", m, kk)), k)
def mget(m, k):
    if m.op == "ite": return ite(atom(m.args[0]), mget(m.args[1], k), mget(m.args[2], k))
    if m.op == "put":
        e = eq(m.args[1], k)
        if e is TRUE: return m.args[2]
        return ite(e, m.args[2], mget(m.args[0], k))
    if m.op == "del": return mget(m.args[0], k)
    if m.op == "nil": return UNDEF
    return lift(lambda kk: T_("get", m, kk), k)
def mput(m, k, v):
    if m.op == "ite": return ite(atom(m.args[0]), mput(m.args[1], k, v), mput(m.args[2], k, v))
    if m.op == "put" and m.args[1] is k: return mput(m.args[0], k, v)
    if k.op == "ite": return ite(atom(k.args[0]), mput(m, k.args[1], v), mput(m, k.args[2], v))
    return T_("put", m, k, v)

# ---------------------------------------------------------------- binders
def close(body_terms, syms, extra=0):
    """bind fresh symbols: returns (height, [closed terms])"""
    h = max([t.hgt for t in body_terms] + [extra])
    m = {}
    for i, s in enumerate(syms):
        op = "bv" if s in NONNEG and s in INTS else "bi" if s in INTS else "ba"
        m[s] = T_(op, h + i)
        if s in MATS: MATS.add(m[s])
    return h, rename(body_terms, m)
def open_(bodies, bvs):
    """replace bound variables by fresh symbols"""
    m = {}; syms = []
    for b in bvs:
        s = fresh("o")
        if b.op == "bv": INTS.add(s); NONNEG.add(s)
        elif b.op == "bi": INTS.add(s)
        if b in MATS: MATS.add(s)
        m[b] = s; syms.append(s)
    return syms, rename(bodies, m)
def gates(t, out=None, seen=None):
    """gate atoms of an MTBDD"""
    if out is None: out, seen = {}, set()
    st = [t]
    while st:
        t = st.pop()
        if t.op != "ite" or t in seen: continue
        seen.add(t); out[t.args[0]] = 1
        st.append(t.args[1]); st.append(t.args[2])
    return out
def decide(b, facts):
    v = facts.get(b)
    if v is not None: return v
    if b.op == "cmp":
        lst = facts.get(("core", b.args[1]))
        if lst:
            for a, val in lst:
                if val and a.key <= b.key: return True
                if not val and b.key <= a.key: return False
    return None
def facts_of(*pairs):
    d = {}
    for a, v in pairs: addfact(d, a, v)
    return d
def addfact(d, a, v):
    d[a] = v
    if a.op == "cmp": d.setdefault(("core", a.args[1]), []).append((a, v))
def conj_facts(c, d=None):
    """facts implied by a boolean value: top-level chain of conjuncts"""
    d = {} if d is None else d
    while c.op == "ite":
        if c.args[2] is FALSE: addfact(d, c.args[0], True); c = c.args[1]
        elif c.args[1] is FALSE: addfact(d, c.args[0], False); c = c.args[2]
        else: break
    return d
def assume(t, facts, memo=None):
    """simplify the gates of t under facts"""
    if not facts or t.op not in ("ite", "rec", "vec"): return t
    if memo is None: memo = {}
    def go(t):
        if t.op == "rec": return rec(t.args[0] if t.args[0].op != "ite" else go(t.args[0]), {k: go(v) for k, v in t.args[1]})
        if t.op == "vec": return T_("vec", *[go(x) for x in t.args])
        if t.op != "ite": return t
        r = memo.get(t)
        if r is not None: return r
        v = decide(t.args[0], facts)
        if v is True: r = go(t.args[1])
        elif v is False: r = go(t.args[2])
        else: r = ite(atom(t.args[0]), go(t.args[1]), go(t.args[2]))
        memo[t] = r
        return r
    return go(t)
def lim(n):
    """binder ranges are empty for n <= 0"""
    if n.op == "max" and ZERO in n.args:
        r = [x for x in n.args if x is not ZERO]
        return r[0] if len(r) == 1 else T_("max", *r)
    return n
def in_range(k, n):
    f = {}
    l = n.args if n.op == "min" else (n,)
    for m in l:
        if m is INF: continue
        c = lt(k, lim(m))
        conj_facts(c, f)
    return f
def dep(t, syms): return bool(t.syms) and any(s in t.syms for s in syms)
def expand_inv(body, syms, make, depth=0):
    """hoist gates that do not depend on the bound symbols out of the binder"""
    if depth < 8 and body.op == "ite":
        for a in gates(body):
            if not dep(a, syms):
                return ite(atom(a), expand_inv(assume(body, facts_of((a, True))), syms, make, depth + 1),
                           expand_inv(assume(body, facts_of((a, False))), syms, make, depth + 1))
    return make(body)
def apart(n, k, b):
    """a bound symbol that does not occur in the range"""
    if not dep(n, (k,)): return k, b
    k2 = fresh("o"); INTS.add(k2)
    if k in NONNEG: NONNEG.add(k2)
    return k2, subst(b, {k: k2})
def exchange(n, k, t, bind):
    """nested quantifiers over independent ranges: the one order both nestings are written in"""
    m, h, b = t.args[-3:]
    if m is INF or n is INF or dep(m, (k,)) or m.sk >= n.sk: return None
    (s,), (b,) = open_([b], [T_("bv", h)])
    return bind(m, s, bind(n, k, b))
def first_hit(k, p):
    """p(k) and no earlier hit, as a 'found' flag writes it: the bare p (the first hit is the only one)"""
    if p.op != "ite" or not dep(p, (k,)): return p
    for a in gates(p):
        if a.op != "any" or a.args[0] is not k: continue
        if cof(p, a, True) is not FALSE: continue
        f = cof(p, a, False)
        (s,), (b,) = open_([a.args[2]], [T_("bv", a.args[1])])
        if subst(b, {s: k}) is f or subst(b, {s: MONE}) is f: return f
    return p
def bind_any(n, k, p):
    """exists k in [0,n): p(k)"""
    if p is FALSE or n is ZERO: return FALSE
    if n.op == "ite": return lift(lambda m: bind_any(m, k, p), n)
    n = lim(n)
    k, p = apart(n, k, p)
    p = first_hit(k, assume(p, in_range(k, n)))
    def make(p):
        if p is FALSE: return FALSE
        if p is TRUE: return gt(n, ZERO) if n is not INF else TRUE
        if n is INF: return TRUE
        if n.op == "num" and n.args[0] <= 0: return FALSE
        if p.op == "ite" and p.args[0].op == "any" and p.args[1] is TRUE and p.args[2] is FALSE:
            r = exchange(n, k, p.args[0], bind_any)
            if r is not None: return r
        h, (b,) = close([p], [k])
        if n.op != "num" and b.big < 3000:
            h2, (b2,) = close([subst(p, {k: sub(sub(n, ONE), k)})], [k])
            b2 = assume(b2, in_range(T_("bv", h2), n))
            if b2.sk < b.sk: h, b = h2, b2
        return atom(T_("any", n, h, b))
    return expand_inv(p, (k,), make)
def bind_first(n, k, p, op="first"):
    """least (greatest for lastk) k in [0,n) with p(k); n (resp. -1) when there is none"""
    if n.op == "ite": return lift(lambda m: bind_first(m, k, p, op), n)
    n = lim(n)
    k, p = apart(n, k, p)
    p = assume(p, in_range(k, n))
    q = first_hit(k, p)
    if q is not p: return ite(bind_any(n, k, q), bind_first(n, k, q), vmax(n, ZERO) if op == "first" else MONE)
    def make(p):
        if p is FALSE: return vmax(n, ZERO) if op == "first" else MONE
        if p is TRUE: return ZERO if op == "first" else sub(n, ONE)
        h, (b,) = close([p], [k])
        r = T_(op, n, h, b); INTS.add(r)
        NONNEG.add(r)
        return r
    return expand_inv(p, (k,), make)
def search_cmp(q, kk):
    """integer comparison q <= kk of the position of a first hit with the range, or of a count with zero or the range, as the existence of a hit"""
    for t in ([q] if q.op != "poly" else [m[0][0] for m, c in q.args[0] if len(m) == 1 and m[0][1] == 1 and abs(c) == 1]):
        if t.op not in ("first", "sum"): continue
        n, h, b = t.args
        if n.op == "inf": continue
        def hit(f):
            (k,), (o,) = open_([b], [T_("bv", h)])
            return bind_any(n, k, f(o))
        if t.op == "sum":
            if not all(l.op == "num" and l.args[0] >= 0 and l.args[0].denominator == 1 for l in leaves(b)): continue
            if q is t and kk == 0: return NOT(hit(lambda o: lift(lambda l: FALSE if l is ZERO else TRUE, o)))
            if not unitbody(b) or not nonneg(n): continue
            d = sub(t, n)
            r = sub(q, d)
            if r.op == "num" and kk - r.args[0] == -1: return hit(lambda o: lift(lambda l: TRUE if l is ZERO else FALSE, o))
            r = sub(q, neg(d))
            if r.op == "num" and kk - r.args[0] == 0: return NOT(hit(lambda o: lift(lambda l: TRUE if l is ZERO else FALSE, o)))
            continue
        d = sub(t, n)
        r = sub(q, d)
        if r.op == "num":                      # first - n <= j
            j = kk - r.args[0]
            if j == -1: return hit(lambda o: o)
            if j >= 0 and nonneg(n): return TRUE
        r = sub(q, neg(d))
        if r.op == "num":                      # n - first <= j
            j = kk - r.args[0]
            if j == 0: return NOT(hit(lambda o: o))
            if j < 0 and nonneg(n): return FALSE
    return None
CMP_HOOK.append(search_cmp)
def bind_sum(n, k, e):
    if e is ZERO or n is ZERO: return ZERO
    if n.op == "ite": return lift(lambda m: bind_sum(m, k, e), n)
    n = lim(n)
    k, e = apart(n, k, e)
    e = assume(e, in_range(k, n))
    def make(e):
        if e is ZERO: return ZERO
        if not dep(e, (k,)): return mul(vmax(n, ZERO), e)
        if e.op == "vec": return T_("vec", *[bind_sum(n, k, x) for x in e.args])
        if e.op == "poly":
            groups = {}
            for m, c in e.args[0]:
                inv = tuple((a, x) for a, x in m if not dep(a, (k,)) and not is_mat(a))
                d = tuple((a, x) for a, x in m if dep(a, (k,)) or is_mat(a))
                groups.setdefault(inv, {})
                groups[inv][d] = groups[inv].get(d, 0) + c
            if len(groups) > 1 or () not in groups:
                r = ZERO
                for inv, g in groups.items(): r = add(r, mul(mkpoly({inv: Fr(1)}) if inv else ONE, bind_sum(n, k, mkpoly(g))))
                return r
            lc, q = lead(e)
            _, c0 = split_const(e)
            if lc != 1 and not c0: return mul(T_("num", lc), make(q))
        if e.op == "ite":
            # common numeric factor
            ls = [l for l in leaves(e) if l is not ZERO]
            if len(ls) == 1 and ls[0].op in ("poly", "num"):
                f = ls[0]
                if f.op == "num" and f.args[0] != 1: return mul(f, make(lift(lambda l: ZERO if l is ZERO else ONE, e)))
        if e.op == "sum":
            r = exchange(n, k, e, bind_sum)
            if r is not None: return r
        h, (b,) = close([e], [k])
        if b.big < 3000:
            h2, (b2,) = close([subst(e, {k: sub(sub(n, ONE), k)})], [k])
            b2 = assume(b2, in_range(T_("bv", h2), n))
            if b2.sk < b.sk: h, b = h2, b2
        r = T_("sum", n, h, b)
        if is_int(b): INTS.add(r)
        if nonneg(b): NONNEG.add(r)
        return r
    return expand_inv(e, (k,), make)
NONE = T_("none")
def bind_red(mm, n, k, e):
    """max/min over k of e(k); leaf NONE: no contribution"""
    if n.op == "ite": return lift(lambda m: bind_red(mm, m, k, e), n)
    n = lim(n)
    k, e = apart(n, k, e)
    e = assume(e, in_range(k, n))
    def make(e):
        if e is NONE: return NONE
        if e.op == "red" and e.args[0] == mm:
            r = exchange(n, k, e, lambda n, k, b: bind_red(mm, n, k, b))
            if r is not None: return r
        h, (b,) = close([e], [k])
        if b.big < 3000:
            h2, (b2,) = close([subst(e, {k: sub(sub(n, ONE), k)})], [k])
            b2 = assume(b2, in_range(T_("bv", h2), n))
            if b2.sk < b.sk: h, b = h2, b2
        r = T_("red", mm, n, h, b)
        if all(l is NONE or is_int(l) for l in leaves(b)): INTS.add(r)
        if mm == "max" and any(True for l in leaves(b)) and all(l is not NONE and nonneg(l) for l in leaves(b)): NONNEG.add(r)
        return r
    return expand_inv(e, (k,), make)
def bind_gen(n, k, v):
    if n.op == "ite": return lift(lambda m: bind_gen(m, k, v), n)
    n = lim(n)
    k, v = apart(n, k, v)
    v = assume(v, in_range(k, n))
    def make(v):
        if v.op in ("elt",) and v.args[1] == (k,) and not dep(v.args[0], (k,)) and size(v.args[0]) is n: return v.args[0]
        h, (b,) = close([v], [k])
        return T_("gen", n, h, b)
    return expand_inv(v, (k,), make)
def bind_coll(n, k, v):
    """concatenation over k of the item lists at the leaves"""
    if n.op == "ite": return lift(lambda m: bind_coll(m, k, v), n)
    n = lim(n)
    k, v = apart(n, k, v)
    v = assume(v, in_range(k, n))
    def make(v):
        ls = leaves(v)
        if all(len(l.args) == 1 and l.args[0].op == "one" for l in ls):
            return bind_gen(n, k, lift(lambda l: l.args[0].args[0], v))
        if all(not l.args for l in ls): return NIL
        h, (b,) = close([v], [k])
        return T_("coll", n, h, b)
    return expand_inv(v, (k,), make)
def lamarr(base, syms, body):
    syms = list(syms)
    def make(b):
        if b.op == "elt" and b.args[0] is base and b.args[1] == tuple(syms): return base
        h, (b,) = close([b], syms)
        return T_("lamarr", len(syms), base, h, b)
    if base.op == "ite" and False: pass
    return expand_inv(body, syms, make)
# re-binding under substitution
def _nb(h, n=1): return [T_("bv", h + i) for i in range(n)]
def _reb1(f):
    def g(t, go):
        n, h, b = t.args
        (k,), (b,) = open_([b], _nb(h))
        return f(go(n), k, go(b))
    return g
def _reb_red(t, go):
    mm, n, h, b = t.args
    (k,), (b,) = open_([b], _nb(h))
    return bind_red(mm, go(n), k, go(b))
def _reb_lam(t, go):
    nd, base, h, b = t.args
    ks, (b,) = open_([b], _nb(h, nd))
    return lamarr(go(base), ks, go(b))
def _reb_cmpfn(t, go):
    h, b = t.args
    ks, (b,) = open_([b], [T_("ba", h), T_("ba", h + 1)])
    h, (b,) = close([go(b)], ks)
    return T_("cmpfn", h, b)
def _reb_fold(t, go):
    n, h, kinds, bodies, inits, i = t.args
    bvs = [T_("bv", h)] + [T_(kd, h + 1 + j) for j, kd in enumerate(kinds)]
    ss, bs = open_(list(bodies), bvs)
    return mkfold(i, go(n), ss[0], ss[1:], [go(b) for b in bs], [go(x) for x in inits])
def relevel(t, go):
    """structural copy of a binder under go, its variables held apart"""
    op, a = t.op, t.args
    if op == "fold":
        n, h, kinds, bodies, inits, i = a
        ss, bs = open_(list(bodies), [T_("bv", h)] + [T_(kd, h + 1 + j) for j, kd in enumerate(kinds)])
        h, bs = close([go(b) for b in bs], ss)
        return T_("fold", go(n), h, kinds, tuple(bs), tuple(go(x) for x in inits), i)
    if op == "cmpfn":
        ss, (b,) = open_([a[1]], [T_("ba", a[0]), T_("ba", a[0] + 1)])
        h, (b,) = close([go(b)], ss)
        return T_("cmpfn", h, b)
    if op == "lamarr":
        ss, (b,) = open_([a[3]], _nb(a[2], a[0]))
        h, (b,) = close([go(b)], ss)
        return T_("lamarr", a[0], go(a[1]), h, b)
    pre = a[:-3]
    ss, (b,) = open_([a[-1]], _nb(a[-2]))
    h, (b,) = close([go(b)], ss)
    return T_(op, *pre, go(a[-3]), h, b)
term.RELEVEL = relevel
_foldcache = {}
def mkfold(i, n, k, accs, bodies, inits):
    """value of accumulator i after n simultaneous updates accs := bodies(k, accs), from inits"""
    accs = list(accs)
    key = (i, k, tuple(accs), tuple(bodies), tuple(inits))
    r = _foldcache.get(key)
    if r is None:
        r = _foldcache[key] = _mkfold(*key)
    h, kinds, cb, inits, i, a = r
    def one(nn):
        if nn is ZERO: return inits[i]
        r = T_("fold", lim(nn), h, kinds, cb, inits, i)
        if kinds[i] != "ba": INTS.add(r)
        if kinds[i] == "bv": NONNEG.add(r)
        if a in MATS: MATS.add(r)
        return r
    return lift(one, n)
def _mkfold(i, k, accs, bodies, inits):
    from phash import phash, mix
    # slice: dependency closure of i
    need = [i]
    for a in need:
        for j, s in enumerate(accs):
            if j not in need and dep(bodies[a], (s,)): need.append(j)
    # colour refinement gives an order independent of names
    ini = {j: phash(inits[j], None, True) for j in need}
    col = {j: mix("col0", ini[j]) for j in need}
    for _ in range(4):
        m = {accs[j]: col[j] for j in need}; m[k] = 12345
        col = {j: mix("col", phash(bodies[j], m, True), ini[j]) for j in need}
    order = sorted(need, key=lambda j: col[j])
    acc2, bod2, ini2 = [accs[j] for j in order], [bodies[j] for j in order], tuple(inits[j] for j in order)
    ck = (k, tuple(acc2), tuple(bod2))
    r = _foldcache.get(ck)
    if r is None:
        h, cb = close(bod2, [k] + acc2)
        kinds = tuple("bv" if a in INTS and a in NONNEG else "bi" if a in INTS else "ba" for a in acc2)
        r = _foldcache[ck] = (h, kinds, tuple(cb))
    return r + (ini2, order.index(i), accs[i])
BINDER.update({"any": _reb1(bind_any), "first": _reb1(bind_first), "lastk": _reb1(lambda n, k, b: bind_first(n, k, b, "lastk")), "sum": _reb1(bind_sum),
  "gen": _reb1(bind_gen), "coll": _reb1(bind_coll), "red": _reb_red, "lamarr": _reb_lam, "cmpfn": _reb_cmpfn, "fold": _reb_fold})
CTOR.update({
 "elt": lambda v, i: elt(v, i), "st": lambda v, i, x: st(v, i, x), "size": size, "app": lambda v, x: lift(lambda a: app(a, x), v), "rows": rows, "cols": cols,
 "has": lambda m, k: mhas(m, k), "get": lambda m, k: mget(m, k), "put": mput,
 "appall": lambda v, c: appseq(v, c),
 "matc": lambda s, v: lift(lambda a: T_("matc", a, v), s),
})
CTOR["items"] = lambda *a: T_("items", *a)
