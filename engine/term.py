"""Hash-consed value terms: a Herbrand value graph with gated (MTBDD) merges.

A value is a DAG whose inner 'ite' nodes test canonical atoms in one global order (a multi-terminal BDD) and whose leaves
are normalised terms (polynomials, uninterpreted applications, records...).  Two values are identical objects iff they
have the same normal form, so equality of two program summaries is a pointer comparison.
"""
import hashlib, math
from fractions import Fraction as Fr

class T:
    __slots__ = ("op", "args", "h", "sh", "sk", "key", "hgt", "syms", "big")
    def __repr__(self): return show(self)
_tab = {}
def _bytes(a, out):
    if isinstance(a, T): out.append(b"T"); out.append(a.h)
    elif isinstance(a, tuple):
        out.append(b"(")
        for x in a: _bytes(x, out)
        out.append(b")")
    else: out.append(repr(a).encode() + b";")
def _sbytes(a, out):
    if isinstance(a, T): out.append(b"T"); out.append(a.sh)
    elif isinstance(a, tuple):
        out.append(b"(")
        for x in a: _sbytes(x, out)
        out.append(b")")
    else: out.append(repr(a).encode() + b";")
def _meta(a, st):
    if isinstance(a, T):
        if a.hgt > st[0]: st[0] = a.hgt
        if a.syms: st[1] = (st[1] | a.syms) if st[1] else a.syms
        st[2] += a.big
    elif isinstance(a, tuple):
        for x in a: _meta(x, st)
NOSYM = frozenset()
BV = {"bv", "bi", "ba"}     # bound index / bound integer / bound value
_l1 = lambda a: a[1] + 1
LEVEL = {"any": _l1, "first": _l1, "lastk": _l1, "sum": _l1, "gen": _l1, "coll": _l1, "red": lambda a: a[2] + 1, "lamarr": lambda a: a[2] + a[0],
  "cmpfn": lambda a: a[0] + 2, "fold": lambda a: a[1] + 1 + len(a[2])}
VARSH = b"\x80" * 8
MATS = set()      # atoms known to be (dynamic) matrices / arrays
INTS = set()          # atoms known to be integers
NONNEG = set()        # atoms known to be >= 0
def T_(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is not None: return t
    t = T()
    t.op = op; t.args = args
    out = [op.encode(), b"|"]
    st = [0, NOSYM, 1]
    for a in args: _bytes(a, out); _meta(a, st)
    t.h = hashlib.blake2b(b"".join(out), digest_size=8).digest()
    if op == "sym" and args[0].startswith("%"): st[1] = frozenset((t,))
    t.hgt, t.syms, t.big = st[0], st[1], min(st[2], 1 << 40)
    if op in BV: t.hgt = args[0] + 1
    elif op in LEVEL:                     # the levels a binder occupies count even if its body does not mention them
        l = LEVEL[op](args)
        if l > t.hgt: t.hgt = l
    if op == "bv": INTS.add(t); NONNEG.add(t)
    elif op == "bi": INTS.add(t)
    # sh: hash of the shape, blind to the names of fresh and bound variables; terms are ordered by (sh, h)
    if op in BV or st[1] and op == "sym": t.sh = VARSH
    elif st[1] or t.hgt:
        out = [op.encode(), b"|"]
        for a in args: _sbytes(a, out)
        t.sh = hashlib.blake2b(b"".join(out), digest_size=8).digest()
    else: t.sh = t.h
    t.sk = (t.sh, t.h)
    if op == "cmp": t.key = (args[1].sh, args[1].h, args[2], 0 if args[0] == "<" else 1)
    else: t.key = (t.sh, t.h, 0, 0)
    _tab[k] = t
    return t

def mark_int(t):
    if isinstance(t, T) and t.op in ATOMIC_NUM: INTS.add(t)
    return t
ATOMIC_NUM = {"sym", "fld", "elt", "call", "ret", "mcall", "size", "get", "deref", "fold", "first", "ext", "init", "bv", "bi", "ba", "first", "lastw", "argext", "lastk"}

TRUE = T_("true"); FALSE = T_("false"); UNDEF = T_("undef"); VOID = T_("void"); NULL = T_("null"); NAN = T_("nan"); INF = T_("inf"); NIL = T_("nil")
_fresh = [0]
def fresh(p="x"):
    _fresh[0] += 1
    return T_("sym", "%%%s%d" % (p, _fresh[0]))
def sym(n): return T_("sym", n)

# ------------------------------------------------------------------------------------------------ gates
def is_ite(t): return t.op == "ite"
def cof(t, a, val):
    """cofactor of t w.r.t. atom a (a is <= every top atom of t)"""
    if t.op != "ite": return t
    b = t.args[0]
    if b is a: return t.args[1] if val else t.args[2]
    if val and b.op == "cmp" and a.op == "cmp" and b.args[1] is a.args[1]: return cof(t.args[1], a, val)
    return t
def node(a, hi, lo):
    if hi is lo: return hi
    if a.op == "cmp":
        while hi.op == "ite" and hi.args[0].op == "cmp" and hi.args[0].args[1] is a.args[1]: hi = hi.args[1]
        if hi is lo: return hi
        # lo branch: next atom on same core with identical hi -> redundant lower threshold
        if lo.op == "ite" and lo.args[0].op == "cmp" and lo.args[0].args[1] is a.args[1] and lo.args[1] is hi: return lo
    return T_("ite", a, hi, lo)
_itecache = {}
def ite(c, x, y):
    """c boolean value; x,y values"""
    if c is TRUE: return x
    if c is FALSE: return y
    if x is y: return x
    k = (c, x, y)
    r = _itecache.get(k)
    if r is not None: return r
    r = _ite(c, x, y)
    _itecache[k] = r
    return r
def choose(c, x, y):
    """the value of c ? x : y as the program writes it"""
    if c not in (TRUE, FALSE) and x is not y:
        m = minmax_gated(c, x, y)
        if m is not None: return m
    return ite(c, x, y)
def _ite(c, x, y):
    # aggregates: push the gate inside
    if x.op in AGG or y.op in AGG:
        m = merge_agg(c, x, y)
        if m is not None: return m
    if c.op != "ite": c = T_("ite", c, TRUE, FALSE) if c.op not in ("true", "false") else c
    if x is TRUE and y is FALSE: return c
    mm = minmax(c, x, y)
    if mm is not None: return mm
    a = c.args[0]
    for t in (x, y):
        if t.op == "ite" and t.args[0].key < a.key: a = t.args[0]
    hi = ite(cof(c, a, True), cof(x, a, True), cof(y, a, True))
    lo = ite(cof(c, a, False), cof(x, a, False), cof(y, a, False))
    return node(a, hi, lo)
def atom(t):
    return T_("ite", t, TRUE, FALSE)
def NOT(a): return ite(a, FALSE, TRUE)
def AND(*xs):
    r = TRUE
    for x in xs: r = ite(r, x, FALSE)
    return r
def OR(*xs):
    r = FALSE
    for x in xs: r = ite(r, TRUE, x)
    return r
def IMPL(a, b): return ite(a, b, TRUE)
def XOR(a, b): return ite(a, NOT(b), b)

LIFT_LIMIT = 6000
PROD_LIMIT = 6
SINGLE_LIMIT = 12
class TooBig(Exception): pass
_nl = {}
def nleaves(t):
    if t.op != "ite": return 1
    r = _nl.get(t)
    if r is None:
        r = len(leaves(t)); _nl[t] = r
    return r
def gv(t):
    """a gated number kept as one atom (its gates are opened again when values are compared)"""
    if t.op != "ite": return t
    r = T_("gv", t)
    if r not in INTS and is_int(t): INTS.add(r)
    if r not in NONNEG and nonneg(t): NONNEG.add(r)
    return r
def wrappable(t):
    return all(l.op in NUMLIKE or l.op in ATOMIC_NUM or l.op in NUMFN for l in leaves(t))
NUMFN = {"call", "mc", "mr", "out", "unk", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "cbrt", "pow", "fmod", "copysign", "uns", "gv", "divzero"}
def lift(f, *args):
    """apply f to the leaves of args; gates float to the top"""
    for a in args:
        if a.op == "ite": break
    else: return f(*args)
    if len(args) > 1:
        ns = [nleaves(a) for a in args]
        p = 1
        for n in ns: p *= n
        if p > PROD_LIMIT and sum(1 for n in ns if n > 1) > 1:
            args = list(args)
            # shared gates do not multiply: only wrap when the real product is large
            if real_prod(args) > PROD_LIMIT:
                for i in sorted(range(len(args)), key=lambda i: (-ns[i], args[i].sk)):
                    if ns[i] > 1 and wrappable(args[i]):
                        args[i] = gv(args[i]); ns[i] = 1
                        p = 1
                        for n in ns: p *= n
                        if p <= PROD_LIMIT: break
            args = tuple(args)
    elif nleaves(args[0]) > SINGLE_LIMIT and wrappable(args[0]): return f(gv(args[0]))
    memo = {}
    cnt = [0]
    def go(xs):
        top = None
        for a in xs:
            if a.op == "ite" and (top is None or a.args[0].key < top.key): top = a.args[0]
        if top is None:
            cnt[0] += 1
            if cnt[0] > LIFT_LIMIT: raise TooBig()
            return f(*xs)
        r = memo.get(xs)
        if r is not None: return r
        hi = go(tuple(cof(a, top, True) for a in xs))
        lo = go(tuple(cof(a, top, False) for a in xs))
        r = ite(atom(top), hi, lo)
        memo[xs] = r
        return r
    return go(args)
def real_prod(args):
    seen = set(); cnt = [0]; memo = set()
    def go(xs):
        if cnt[0] > PROD_LIMIT: return
        top = None
        for a in xs:
            if a.op == "ite" and (top is None or a.args[0].key < top.key): top = a.args[0]
        if top is None:
            if xs not in seen: seen.add(xs); cnt[0] += 1
            return
        if xs in memo: return
        memo.add(xs)
        go(tuple(cof(a, top, True) for a in xs)); go(tuple(cof(a, top, False) for a in xs))
    go(tuple(args))
    return cnt[0]
def leaves(t, out=None, seen=None):
    if out is None: out, seen = [], set()
    if t in seen: return out
    seen.add(t)
    if t.op == "ite": leaves(t.args[1], out, seen); leaves(t.args[2], out, seen)
    else: out.append(t)
    return out

# ------------------------------------------------------------------------------------------------ aggregates
AGG = {"rec", "vec"}
def rec(base, fields):
    """fields: dict name->value.  base: term providing the other fields (UNDEF when all are given)"""
    if base.op == "rec":
        d = dict(base.args[1]); d.update(fields); fields = d; base = base.args[0]
    f = {k: v for k, v in fields.items() if not (v.op == "fld" and v.args[0] is base and v.args[1] == k)}
    if not f and base is not UNDEF: return base
    return T_("rec", base, tuple(sorted(f.items())))
FLD_HOOK = []
CMP_HOOK = []
def fld(t, f):
    if t.op == "rec":
        for k, v in t.args[1]:
            if k == f: return v
        return fld(t.args[0], f)
    if t.op == "ite": return ite(atom(t.args[0]), fld(t.args[1], f), fld(t.args[2], f))
    if t is UNDEF: return UNDEF
    if t.op == "vec" and f in VECF and VECF[f] < len(t.args): return t.args[VECF[f]]
    for hk in FLD_HOOK:
        r = hk(t, f)
        if r is not None: return r
    return T_("fld", t, f)
VECF = {"x": 0, "y": 1, "z": 2, "w": 3}
def merge_agg(c, x, y):
    if x is UNDEF or y is UNDEF: return x if y is UNDEF else y
    if x.op == "vec" or y.op == "vec":
        n = len(x.args) if x.op == "vec" else len(y.args)
        if x.op == "vec" and y.op == "vec" and len(x.args) != len(y.args): return None
        return T_("vec", *[ite(c, vget(x, i), vget(y, i)) for i in range(n)])
    ks = set()
    for t in (x, y):
        if t.op == "rec": ks.update(k for k, _ in t.args[1])
    bx = x.args[0] if x.op == "rec" else x
    by = y.args[0] if y.op == "rec" else y
    return rec(ite(c, bx, by) if bx is not by else bx, {k: ite(c, fld(x, k), fld(y, k)) for k in ks})
def vec(*xs):
    # eta
    b = None
    for i, x in enumerate(xs):
        if x.op == "fld" and x.args[1] == "[%d]" % i and (b is None or x.args[0] is b): b = x.args[0]
        else: b = False; break
    return T_("vec", *xs)
def vget(t, i):
    if t.op == "vec": return t.args[i]
    if t.op == "ite": return ite(atom(t.args[0]), vget(t.args[1], i), vget(t.args[2], i))
    if t is UNDEF: return UNDEF
    if t is NAN: return NAN
    return fld(t, "[%d]" % i)

# ------------------------------------------------------------------------------------------------ numbers
def canon(c):
    if c.denominator <= 1000: return c
    f = c.limit_denominator(1000)
    if abs(f - c) <= Fr(3, 10**7) * abs(c): return f
    return Fr("%.6g" % float(c))
def num(v):
    if isinstance(v, float):
        if math.isnan(v): return NAN
        if math.isinf(v): return INF if v > 0 else neg(INF)
        v = Fr(v)
    elif not isinstance(v, Fr): v = Fr(v)
    return T_("num", canon(v))
ZERO = num(0); ONE = num(1); MONE = num(-1)
def nval(t): return t.args[0] if t.op == "num" else None
def monos(t):
    """leaf numeric term -> dict mono->coef"""
    if t.op == "num": return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly": return dict(t.args[0])
    return {((t, 1),): Fr(1)}
def mkpoly(d):
    d = {m: canon(c) for m, c in d.items()}
    d = {m: c for m, c in d.items() if c}
    if not d: return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m: return T_("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return T_("poly", tuple(sorted(d.items(), key=lambda mc: mkey(mc[0]))))
def mkey(m): return tuple((a.sk, e) for a, e in m)
def _has_nan(x): return x is NAN
def add2(x, y):
    if x is UNDEF or y is UNDEF: return UNDEF
    if x is NAN or y is NAN: return NAN
    if x.op == "vec" or y.op == "vec": return vmap2(add, x, y)
    d = monos(x)
    for m, c in monos(y).items(): d[m] = d.get(m, 0) + c
    return mkpoly(d)
def vmap2(f, x, y):
    n = len(x.args) if x.op == "vec" else len(y.args)
    return T_("vec", *[f(vget(x, i) if x.op == "vec" or y.op == "vec" else x, vget(y, i)) for i in range(n)])
def mono_mul(m1, m2):
    d = {}
    for a, e in m1: d[a] = d.get(a, 0) + e
    for a, e in m2: d[a] = d.get(a, 0) + e
    return d
def from_monodict(d, c):
    """normalise a raw monomial (dict atom->exp)"""
    extra = None
    out = {}
    for a, e in d.items():
        if e == 0: continue
        if a.op == "sqrt" and abs(e) >= 2:
            k = e // 2 if e > 0 else -((-e) // 2)
            p = a.args[0]
            f = power(p, k)
            extra = f if extra is None else mul2(extra, f)
            e -= 2 * k
            if e == 0: continue
        if a.op == "abs" and abs(e) >= 2:
            k = e // 2 if e > 0 else -((-e) // 2)
            f = power(a.args[0], 2 * k)
            extra = f if extra is None else mul2(extra, f)
            e -= 2 * k
            if e == 0: continue
        if a.op == "grp" and e > 0:
            f = power(a.args[0], e)
            extra = f if extra is None else mul2(extra, f)
            continue
        out[a] = e
    r = mkpoly({tuple(sorted(out.items(), key=lambda ae: ae[0].sk)): c})
    return r if extra is None else mul2(r, extra)
MAXM = 24
def mul2(x, y):
    if x is UNDEF or y is UNDEF: return UNDEF
    if x is NAN or y is NAN: return NAN
    if x.op == "vec" and y.op != "vec": return T_("vec", *[mul(a, y) for a in x.args])
    if y.op == "vec" and x.op != "vec": return T_("vec", *[mul(x, a) for a in y.args])
    if x.op == "num" and x.args[0] == 1: return y
    if y.op == "num" and y.args[0] == 1: return x
    mx, my = monos(x), monos(y)
    if len(mx) * len(my) > MAXM:
        # keep the larger factors opaque
        if len(mx) > 1: c, q = lead(x); mx = {((T_("prd", q), 1),): c}
        if len(my) > 1: c, q = lead(y); my = {((T_("prd", q), 1),): c}
    # cancellation of p * p^-1
    for A, B in ((x, my), (y, mx)):
        if A.op == "poly" and len(A.args[0]) > 1 and len(B) == 1:
            (m, c), = B.items()
            for a, e in m:
                if a.op == "grp" and e < 0:
                    lc, q = lead(A)
                    if q is a.args[0]:
                        d = dict(m); d[a] = e + 1
                        return from_monodict(d, c * lc)
    acc = None; d = {}
    for m1, c1 in mx.items():
        for m2, c2 in my.items():
            md = mono_mul(m1, m2)
            if any((a.op in ("sqrt", "abs") and abs(e) >= 2) or (a.op == "grp" and e > 0) for a, e in md.items()):
                t = from_monodict(md, c1 * c2)
                acc = t if acc is None else add2(acc, t)
            else:
                m = tuple(sorted(((a, e) for a, e in md.items() if e), key=lambda ae: ae[0].sk))
                d[m] = d.get(m, 0) + c1 * c2
    r = mkpoly(d)
    return r if acc is None else add2(r, acc)
def lead(p):
    """(c, q): p = c*q, q with leading coefficient 1"""
    if p.op == "num": return p.args[0], ONE
    if p.op != "poly": return Fr(1), p
    items = [(m, c) for m, c in p.args[0] if m]
    c = items[0][1]
    if c == 1: return c, p
    return c, mkpoly({m: k / c for m, k in p.args[0]})
def power(p, k):
    if k == 0: return ONE
    if k < 0: return power(inv1(p), -k)
    r = p
    for _ in range(k - 1): r = mul2(r, p)
    return r
def inv1(x):
    if x is UNDEF: return UNDEF
    if x is NAN: return NAN
    if x.op == "num":
        if x.args[0] == 0: return T_("divzero")
        return T_("num", canon(1 / x.args[0]))
    if x.op == "poly":
        if len(x.args[0]) == 1:
            (m, c), = x.args[0]
            return from_monodict({a: -e for a, e in m}, 1 / c)
        c, q = lead(x)
        return mkpoly({((T_("grp", q), -1),): 1 / c})
    return mkpoly({((x, -1),): Fr(1)})
def add(x, y): return lift(add2, x, y)
def mul(x, y): return lift(mul2, x, y)
def neg(x): return mul(MONE, x)
def sub(x, y): return add(x, neg(y))
def div(x, y): return mul(x, lift(inv1, y))
def poly_atoms(t):
    if t.op == "poly":
        for m, _ in t.args[0]:
            for a, _ in m: yield a
    elif t.op != "num": yield t
INTOPS = {"trunc", "idiv", "mod", "size", "floor", "ceil", "round", "lround", "count", "cond", "rows", "cols", "toint", "uns"}
def is_int(t):
    if t.op == "num": return t.args[0].denominator == 1
    if t.op == "poly":
        for m, c in t.args[0]:
            if c.denominator != 1: return False
            for a, e in m:
                if e < 0 or not is_int(a): return False
        return True
    if t.op == "ite": return is_int(t.args[1]) and is_int(t.args[2])
    if t.op in ("max", "min"): return all(is_int(a) for a in t.args)
    if t.op == "abs": return is_int(t.args[0])
    if t.op == "elt" and t.args[0].op == "lamarr": return is_int(t.args[0].args[3])
    return t.op in INTOPS or t in INTS
def nonneg(t):
    if t.op == "num": return t.args[0] >= 0
    if t.op == "poly":
        r = all(c > 0 and all(nonneg(a) or e % 2 == 0 for a, e in m) for m, c in t.args[0])
        if r: return True
        # n minus the number of iterations below n in which something holds
        for m, c in t.args[0]:
            if c < 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sum" and unitbody(m[0][0].args[2]):
                s = m[0][0]
                if nonneg(s.args[0]) and s.args[0].op != "inf": return nonneg(add2(sub2(t, mul2(num(c), s)), mul2(num(c), s.args[0])))
        return False
    if t.op == "ite": return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op in ("size", "sqrt", "abs", "count", "rows", "cols", "hash"): return True
    if t.op == "max": return any(nonneg(a) for a in t.args)
    if t.op == "sum": return all(l.op == "num" and l.args[0] >= 0 for l in leaves(t.args[2]))
    if t.op == "min": return all(nonneg(a) for a in t.args)
    if t.op in ("trunc", "idiv", "floor", "ceil", "round"): return all(nonneg(a) for a in t.args)
    return t in NONNEG
def unitbody(b): return all(l.op == "num" and 0 <= l.args[0] <= 1 for l in leaves(b))
def split_const(p):
    if p.op == "num": return ZERO, p.args[0]
    if p.op == "poly":
        d = dict(p.args[0]); c = d.pop((), Fr(0))
        return mkpoly(d), c
    return p, Fr(0)
def _cmp(rel, p):
    """boolean value of p rel 0"""
    if p is UNDEF: return atom(T_("undefb"))
    if p is NAN: return FALSE
    core, c = split_const(p)
    if core.op == "num":
        return TRUE if (c < 0 if rel == "<" else c <= 0) else FALSE
    # |x|, min and max with a constant factor are decided by their alternatives
    cand = [(m[0][0], k) for m, k in (core.args[0] if core.op == "poly" else (((( core, 1),), Fr(1)),)) if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("abs", "min", "max")]
    if cand and len(cand) <= 3:
        a, k = min(cand, key=lambda x: x[0].sk)
        alts = (a.args[0], mul2(MONE, a.args[0])) if a.op == "abs" else a.args
        if len(alts) <= 6 and not any(y.op in ("ite", "inf", "undef", "nan") for y in alts):
            rest = add2(p, mul2(num(-k), a))
            parts = [lift(lambda q: _cmp(rel, q), add2(rest, mul2(num(k), y))) for y in alts]
            return AND(*parts) if (k > 0) == (a.op != "min") else OR(*parts)
    if core is INF or (core.op == "poly" and len(core.args[0]) == 1 and core.args[0][0][0] and core.args[0][0][0][0][0] is INF):
        s = 1 if core is INF else core.args[0][0][1]
        return TRUE if s < 0 else FALSE
    if core.op == "poly":       # an integer quotient of a non-negative number lies within one of the quotient
        for m, kk in core.args[0]:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "idiv" and m[0][0].args[1].op == "num" and m[0][0].args[1].args[0] > 1 and nonneg(m[0][0].args[0]):
                x, d = m[0][0].args[0], m[0][0].args[1].args[0]
                rest = add2(core, mul2(num(-kk), sub2(m[0][0], mul2(num(Fr(1) / d), x))))
                if rest.op == "num":
                    b = sorted((rest.args[0] + c, rest.args[0] + c - kk * Fr(d - 1) / d))
                    if b[1] < 0 or (b[1] == 0 and rel == "<="): return TRUE
                    if b[0] > 0 or (b[0] == 0 and rel == "<"): return FALSE
    lc, q = lead(core)
    q, c2 = split_const(q)
    k = canon(-c / lc)
    # lc*q + c rel 0   <=>  q rel k (lc>0)  or q rel' k flipped
    flip = lc < 0
    if is_int(q):
        for m, kk in monos(q).items():      # idiv(x, d) <= r  <=>  x <= d*r + d-1
            if len(m) == 1 and m[0][1] == 1 and abs(kk) == 1 and m[0][0].op == "idiv" and m[0][0].args[1].op == "num" and m[0][0].args[1].args[0] > 1 and nonneg(m[0][0].args[0]):
                x, d = m[0][0].args[0], m[0][0].args[1].args[0]
                p0 = add2(q, num(-k)) if not flip else add2(num(k), mul2(MONE, q))       # p0 rel 0
                if rel == "<": p0 = add2(p0, ONE) if is_int(p0) else add2(q, num(-Fr(math.ceil(k) - 1))) if not flip else add2(num(Fr(math.floor(k) + 1)), mul2(MONE, q))
                elif not is_int(p0): p0 = add2(q, num(-Fr(math.floor(k)))) if not flip else add2(num(Fr(math.ceil(k))), mul2(MONE, q))
                sg = kk if not flip else -kk         # sg*idiv + rest <= 0
                rest = add2(p0, mul2(num(-sg), m[0][0]))
                if sg > 0: return _cmp("<=", add2(add2(x, mul2(num(d), rest)), num(-(d - 1))))
                return _cmp("<=", add2(mul2(num(d), rest), mul2(MONE, x)))
        if not flip: # q < k or q <= k
            kk = Fr(math.ceil(k) - 1) if rel == "<" else Fr(math.floor(k))
            b = ("<=", q, kk); negate = False
        else: # q > k or q >= k
            kk = Fr(math.floor(k)) if rel == "<" else Fr(math.ceil(k) - 1)
            b = ("<=", q, kk); negate = True
        if nonneg(q) and kk < 0: return TRUE if negate else FALSE
        if q.op == "poly":
            nq = neg(q)
            if nonneg(nq) and kk >= 0: return FALSE if negate else TRUE
        if q.op in ("first", "sum", "poly"):
            for hk in CMP_HOOK:
                r = hk(q, kk)
                if r is not None: return NOT(r) if negate else r
    else:
        if not flip: b = (rel, q, k); negate = False
        else: b = ("<=" if rel == "<" else "<", q, k); negate = True
        if nonneg(q) and (k < 0 or (k == 0 and b[0] == "<")): return TRUE if negate else FALSE
    a = atom(T_("cmp", *b))
    return NOT(a) if negate else a
def lt(x, y): return lift(lambda a, b: _cmpxy("<", a, b), x, y)
def le(x, y): return lift(lambda a, b: _cmpxy("<=", a, b), x, y)
def _cmpxy(rel, a, b):
    if a is NAN or b is NAN: return FALSE
    for s, u, v in ((1, a, b), (-1, b, a)):
        if u.op == "iter" and v.op == "iter": return _cmpxy(rel, a.args[1], b.args[1])
    if a is INF or b is INF:
        if a is b: return TRUE if rel == "<=" else FALSE
        if a is INF: return NOT(atom(T_("isfin", b))) if rel == "<=" and False else FALSE
    return _cmp(rel, sub(a, b)) if not (sub(a, b).op == "ite") else lift(lambda p: _cmp(rel, p), sub(a, b))
def gt(x, y): return lt(y, x)
def ge(x, y): return le(y, x)
NUMLIKE = {"num", "poly", "inf", "sum", "trunc", "idiv", "mod", "size", "floor", "ceil", "round", "sqrt", "abs", "max", "min", "rows", "cols", "grp", "prd", "gv"}
def is_num(t): return t.op in NUMLIKE or t in INTS
def eq(x, y, numeric=None): return lift(lambda a, b: eq1(a, b, numeric), x, y)
def eq1(a, b, numeric=None):
    if a is b: return TRUE if a is not NAN else FALSE
    if a is NAN or b is NAN: return FALSE
    if a.op == "vec" or b.op == "vec":
        n = len(a.args) if a.op == "vec" else len(b.args)
        return AND(*[eq(vget(a, i), vget(b, i), numeric) for i in range(n)])
    if a in (TRUE, FALSE) or b in (TRUE, FALSE): return NOT(XOR(a, b))
    if a.op == "iter" and b.op == "iter": return eq1(a.args[1], b.args[1], True)
    if a.op == "rec" or b.op == "rec":
        ks = set(k for t in (a, b) if t.op == "rec" for k, _ in t.args[1])
        if a.op == "rec" and b.op == "rec" and a.args[0] is b.args[0]: return AND(*[eq(fld(a, k), fld(b, k), numeric) for k in sorted(ks)])
    if numeric or is_num(a) or is_num(b):
        p = sub(a, b)
        if p.op == "ite": return lift(lambda q: AND(_cmp("<=", q), NOT(_cmp("<", q))), p)
        core, c = split_const(p)
        lc, q = lead(core) if core.op != "num" else (1, core)
        if core.op != "num" and is_int(q) and Fr(-c / lc).denominator != 1: return FALSE
        return AND(_cmp("<=", p), NOT(_cmp("<", p)))
    if a.op == "str" and b.op == "str": return FALSE
    for u, v in ((a, b), (b, a)):
        if u is NULL and v.op in ("addr", "new"): return FALSE
    if a.op == "new" and b.op == "new": return FALSE
    if a.op == "num" and b.op == "num": return FALSE
    if b.sk < a.sk: a, b = b, a
    return atom(T_("eq", a, b))
def _flat(op, t): return t.args if t.op == op else (t,)
def vmax(x, y): return lift(lambda a, b: _mm("max", a, b), x, y)
def vmin(x, y): return lift(lambda a, b: _mm("min", a, b), x, y)
def _mm(op, a, b):
    if a is b: return a
    s = set(_flat(op, a)) | set(_flat(op, b))
    ns = [t for t in s if t.op == "num"]
    if len(ns) > 1:
        k = (max if op == "max" else min)(t.args[0] for t in ns)
        s -= set(ns); s.add(num(k))
    # x and x+c
    l = list(s)
    for i in range(len(l)):
        for j in range(len(l)):
            if i != j and l[i] in s and l[j] in s and l[i].op != "ite":
                d = sub2(l[i], l[j])
                if d.op == "num": s.discard(l[j] if (d.args[0] >= 0) == (op == "max") else l[i])
                elif op == "max" and l[j].op == "num" and l[j].args[0] <= 0 and nonneg(l[i]): s.discard(l[j])
                elif op == "min" and l[j].op == "num" and l[j].args[0] <= 0 and nonneg(l[i]): s.discard(l[i])
    if len(s) == 1: return next(iter(s))
    return T_(op, *sorted(s, key=lambda t: t.sk))
def sub2(a, b): return add2(a, mul2(MONE, b))
def minmax(c, x, y):
    """ite(p<q, ...) written as min/max/abs"""
    if c.op != "ite" or c.args[1] not in (TRUE, FALSE) or c.args[2] not in (TRUE, FALSE): return None
    a = c.args[0]
    if a.op != "cmp" or x.op in ("ite", "true", "false", "undef", "str", "null") or y.op in ("ite", "true", "false", "undef", "str", "null"): return None
    if x is NAN or y is NAN or x is INF or y is INF: return None
    if x.op in AGG or y.op in AGG: return None
    if not (numericish(x) and numericish(y)): return None
    _, q, k = a.args
    # atom: q < k   i.e. q-k < 0
    if x.op == "num" and y.op == "num": return None
    d = sub2(x, y)
    if d.op == "num": return None
    # abs: y = -x and atom tests x against 0
    if mul2(MONE, x) is y:
        lc, qx = lead(x)
        if qx is q and k == 0:
            # atom: qx<0 ; x = lc*qx
            xs = x if (c.args[1] is TRUE) else y    # value when atom true (q<=0)
            lcs = lc if xs is x else -lc
            r = absv(x)
            return r if lcs < 0 else neg(r)
    core, c0 = split_const(d)
    lc, qq = lead(core)
    qq2, _ = split_const(qq)
    if qq2 is q:
        kk = -c0 / lc           # x-y = lc*(q - kk)
        ok = canon(kk) == k or (is_int(q) and kk - 1 <= k <= kk)
        if ok:
            # hi means q<=k ~ (x-y)/lc <= 0
            hi_is_x = c.args[1] is TRUE
            small_when_hi = lc > 0   # x<=y when atom true
            if hi_is_x: return _mm("min" if small_when_hi else "max", x, y)
            return _mm("max" if small_when_hi else "min", x, y)
    return None
def minmax_gated(c, x, y):
    """ite(x < y, x, y) where the comparison is no single atom, because x or y is itself an extremum or gated"""
    if c.op != "ite" or c.args[0].op != "cmp" or x.op in NOTNUM or y.op in NOTNUM: return None
    if c.args[1] in (TRUE, FALSE) and c.args[2] in (TRUE, FALSE): return None
    if x.op == "num" and y.op == "num" or nleaves(x) * nleaves(y) > 4: return None
    for t in (x, y):
        for l in leaves(t):
            if l is NAN or l is INF or not numericish(l): return None
    l = lt(x, y)
    if l in (TRUE, FALSE): return None
    if c is l: return vmin(x, y)
    if c is NOT(l): return vmax(x, y)
    l = le(x, y)
    if l in (TRUE, FALSE): return None
    if c is l: return vmin(x, y)
    if c is NOT(l): return vmax(x, y)
    return None
NOTNUM = {"true", "false", "undef", "str", "null", "rec", "vec"}
def numericish(t): return t.op in NUMLIKE or t.op in ATOMIC_NUM
def absv(x): return lift(_abs, x)
def _abs(x):
    if x.op == "num": return num(abs(x.args[0]))
    if x in (NAN, UNDEF): return x
    if nonneg(x): return x
    if x.op == "poly" and len(x.args[0]) == 1:
        (m, c), = x.args[0]
        if c != 1: return mul2(num(abs(c)), _abs(mkpoly({m: Fr(1)})))
    c, q = lead(x)
    if q is not x and c == -1: return T_("abs", q)
    if q.op == "poly" and c < 0: return T_("abs", mul2(MONE, x))
    return T_("abs", x)
def sqrtv(x): return lift(_sqrt, x)
def _sqrt(x):
    if x.op == "num":
        v = x.args[0]
        return num(math.sqrt(float(v))) if v >= 0 else NAN
    if x in (NAN, UNDEF): return x
    c, q = lead(x)
    if c > 0 and c != 1: return mul2(num(math.sqrt(float(c))), _sqrt(q))
    if q.op == "poly" and len(q.args[0]) == 1 and c > 0:
        (m, k), = q.args[0]
        if all(e % 2 == 0 for a, e in m):
            r = ONE
            for a, e in m: r = mul2(r, power(_abs(a), e // 2))
            return r
    return T_("sqrt", x)
def trunc(x): return lift(lambda a: _rnd("trunc", a), x)
def _rnd(op, a):
    if a.op == "num":
        v = a.args[0]
        if op == "trunc": return num(int(v))
        if op == "floor": return num(math.floor(v))
        if op == "ceil": return num(math.ceil(v))
        if op == "round": return num(math.floor(abs(v) + Fr(1, 2)) * (1 if v >= 0 else -1))
    if a in (NAN, UNDEF): return a
    if is_int(a): return a
    if op == "trunc" and a.op in ("floor", "ceil", "round"): return a
    if op == "trunc" and nonneg(a): op = "floor"
    # pull out integer addends for floor/ceil
    if op in ("floor", "ceil") and a.op == "poly":
        ip = {m: c for m, c in a.args[0] if c.denominator == 1 and all(e > 0 and is_int(x) for x, e in m)}
        if ip:
            rest = mkpoly({m: c for m, c in a.args[0] if m not in ip})
            return add2(mkpoly(ip), _rnd(op, rest))
        # an integer over a number: the rounded-up quotient is the rounded-down one of the dividend plus (q - 1)
        q = 1
        for m, c in a.args[0]: q = q * c.denominator // math.gcd(q, c.denominator)
        if 1 < q <= 64:
            e = mul2(num(q), a)
            if op == "ceil": e = add2(e, num(q - 1))
            if is_int(e) and nonneg(e): return _idiv(e, num(q))
    return T_(op, a)
def idiv(x, y): return lift(_idiv, x, y)
def _idiv(x, y):
    if x.op == "num" and y.op == "num" and y.args[0]:
        q = abs(x.args[0]) // abs(y.args[0])
        return num(q if (x.args[0] < 0) == (y.args[0] < 0) else -q)
    if y.op == "num" and y.args[0] == 1: return x
    if y.op == "num" and y.args[0]:
        r = mul2(x, inv1(y))
        if is_int(r): return r
        q = y.args[0]
        if x.op == "poly" and q > 1 and q.denominator == 1 and nonneg(x):
            ip, rest = {}, {}
            for m, c in x.args[0]:
                if not is_int(mkpoly({m: Fr(1)})): return T_("idiv", x, y)
                w = c // q
                if w: ip[m] = Fr(w)
                if c - w * q: rest[m] = c - w * q
            rest = mkpoly(rest)
            if ip and nonneg(rest): return add2(mkpoly(ip), _idiv(rest, y))
    return T_("idiv", x, y)
def imod(x, y): return lift(_imod, x, y)
def _imod(x, y):
    if x.op == "num" and y.op == "num" and y.args[0]:
        r = abs(x.args[0]) % abs(y.args[0])
        return num(r if x.args[0] >= 0 else -r)
    if y.op == "num" and y.args[0] == 1: return ZERO
    m = sub(x, y)       # (m + y) % y with m itself a remainder of y
    if m.op == "mod" and m.args[1] is y:
        if nonneg(m): return m
        return ite(gt(y, ZERO), ite(lt(m, ZERO), x, m), ite(gt(m, ZERO), x, m))
    if x.op == "mod" and x.args[1] is y: return x
    return T_("mod", x, y)
def tobool(x): return lift(lambda a: a if a in (TRUE, FALSE) else (NOT(eq1(a, ZERO, True)) if a.op in NUMLIKE or a in INTS else (FALSE if a is NULL else (TRUE if a.op in ("addr", "new", "lam") else NOT(eq1(a, NULL))))), x)
def b2i(x):
    return lift(lambda a: ONE if a is TRUE else ZERO if a is FALSE else a, x)
def isfinite(x):
    def f(a):
        if a is NAN or a is INF: return FALSE
        if a.op == "num": return TRUE
        if a.op == "poly":
            if any(z is INF for z in poly_atoms(a)): return FALSE
            return AND(*[isfinite(z) for z in dict.fromkeys(poly_atoms(a))])
        if is_int(a): return TRUE
        if a.op == "vec": return AND(*[isfinite(z) for z in a.args])
        return atom(T_("isfin", a))
    return lift(f, x)
def isnan(x):
    def f(a):
        if a is NAN: return TRUE
        if a.op in ("num",) or a is INF: return FALSE
        if is_int(a): return FALSE
        if a.op == "poly": return OR(*[isnan(z) for z in dict.fromkeys(poly_atoms(a))])
        return atom(T_("isnan", a))
    return lift(f, x)

# ------------------------------------------------------------------------------------------------ substitution
BINDER = {}
def subst(t, m, memo=None):
    """replace atoms by values (dict T->T), renormalising"""
    keys = m.keys()
    if len(m) and all(v.op in RENVAL and k.op in VAROPS for k, v in m.items()) and t.big > 60:
        vals = set(m.values())
        if len(vals) == len(m) and all((k in INTS) == (v in INTS) and (k in NONNEG) == (v in NONNEG) and (k in MATS) == (v in MATS) for k, v in m.items()) and not occurs(t, vals, keys):
            try: return rename_([t], m)[0]
            except Slow: pass
    return subst_(t, m, memo)
def subst_(t, m, memo=None):
    if memo is None: memo = {}
    keys = m.keys()
    symkeys = all(k.op == "sym" and k.args[0][0] == "%" for k in keys)
    bvmin = min((k.args[0] for k in keys), default=0) if all(k.op in BV for k in keys) else -1
    def go(t):
        if t in m: return m[t]
        if symkeys and not (t.syms and any(k in t.syms for k in keys)): return t
        if t.hgt <= bvmin: return t
        r = memo.get(t)
        if r is not None: return r
        r = rebuild(t, go)
        if r.op == t.op and r is not t:
            if t in INTS: INTS.add(r)
            if t in NONNEG: NONNEG.add(r)
            if t in MATS: MATS.add(r)
        memo[t] = r
        return r
    return go(t)
class Slow(Exception): pass
RENVAL = {"fold", "sum", "elt", "sym", "call", "out", "size", "deref"}
VAROPS = {"sym", "bv", "bi", "ba"}
def occurs(t, vals, keys):
    """does a term of vals (or something built from one) occur in t"""
    seen = set()
    hv = {v.h for v in vals}
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen: continue
            seen.add(x)
            if x in vals: return True
            st.extend(x.args)
        elif isinstance(x, tuple): st.extend(x)
    return False
ORDERED = {"max", "min", "eq", "emul", "xor", "bitand", "bitor", "bit&", "bit|", "bit^"}
RENUM = {"abs", "sqrt", "grp", "prd"}
def rename(ts, m):
    try: return rename_(ts, m)
    except Slow:
        memo = {}
        return [subst_(t, m, memo) for t in ts]
def rename_(ts, m):
    """injective renaming of variables: a structural copy (orders are re-established only among terms of equal shape)"""
    memo = {}
    keys = list(m)
    ksyms = frozenset(k for k in keys if k.op == "sym")
    bvmin = min((k.args[0] for k in keys if k.op in BV), default=1 << 30)
    def ga(x):
        if isinstance(x, T): return go(x)
        if isinstance(x, tuple): return tuple([ga(y) for y in x])
        return x
    def go(t):
        r = m.get(t)
        if r is not None: return r
        if not (t.syms and not t.syms.isdisjoint(ksyms)) and t.hgt <= bvmin: return t
        r = memo.get(t)
        if r is None:
            r = go1(t)
            if r.op in ATOMIC_NUM or r.op in NUMFN or r.op in NUMLIKE:
                if t in INTS: INTS.add(r)
                if t in NONNEG: NONNEG.add(r)
            if t in MATS: MATS.add(r)
            memo[t] = r
        return r
    def goat(c):
        if c.op == "cmp":
            q = go(c.args[1])
            if q.op == "poly" and leadcoef(q) != 1: return _cmp(c.args[0], add2(q, T_("num", -c.args[2])))
            return T_("cmp", c.args[0], q, c.args[2])
        return go(c)
    hv = max((v.hgt for v in m.values() if v.op not in BV), default=0)
    def go1(t):
        op, a = t.op, t.args
        if hv and op in LEVEL: return RELEVEL(t, go)     # the levels of enclosing binders change
        if op == "ite":
            c, hi, lo = goat(a[0]), go(a[1]), go(a[2])
            if c.op == "ite" or c.op in ("true", "false"): return ite(c, hi, lo)
            if (hi.op != "ite" or c.key < hi.args[0].key) and (lo.op != "ite" or c.key < lo.args[0].key): return T_("ite", c, hi, lo)
            return ite(atom(c), hi, lo)
        if op == "poly":
            d = []
            for mo, c in a[0]:
                if len(mo) == 1: d.append((((go(mo[0][0]), mo[0][1]),), c))
                else: d.append((tuple(sorted([(go(x), e) for x, e in mo], key=lambda ae: ae[0].sk)), c))
            d.sort(key=lambda mc: mkey(mc[0]))
            return T_("poly", tuple(d))
        if op in ORDERED: return T_(op, *sorted([go(x) for x in a], key=lambda x: x.sk))
        if op in RENUM:
            x = go(a[0])
            if x.op == "poly" and leadcoef(x) != leadcoef(a[0]):
                if op == "abs": return absv(x)
                if op == "sqrt": return sqrtv(x)
                raise Slow()
            return T_(op, x)
        return T_(op, *[ga(x) for x in a])
    return [go(t) for t in ts]
def leadcoef(p):
    for mo, c in p.args[0]:
        if mo: return c
    return 1
def rebuild(t, go):
    op, a = t.op, t.args
    if op == "ite":
        c = go_atom(a[0], go)
        return ite(c, go(a[1]), go(a[2]))
    if op == "poly":
        r = ZERO
        for m, c in a[0]:
            p = T_("num", c)
            for x, e in m:
                y = go(x)
                p = mul(p, y if e == 1 else lift(lambda z, e=e: power(z, e), y))
            r = add(r, p)
        return r
    if not a or op in ("num", "str", "sym", "bv", "bi", "ba"): return t
    if op in BINDER: return BINDER[op](t, go)
    if op in ("grp", "gv"): return go(a[0])
    if op == "prd": return go(a[0])
    if op == "rec":
        return rec(go(a[0]), {k: go(v) for k, v in a[1]})
    if op == "vec": return T_("vec", *[go(x) for x in a])
    def ga(x):
        if isinstance(x, T): return go(x)
        if isinstance(x, tuple): return tuple(ga(y) for y in x)
        return x
    na = tuple(ga(x) for x in a)
    return mk(op, *na)
def go_atom(at, go):
    """atom -> boolean value under substitution"""
    op, a = at.op, at.args
    r = go(at) if False else None
    if op == "cmp":
        q = go(a[1])
        return lt(q, T_("num", a[2])) if a[0] == "<" else le(q, T_("num", a[2]))
    if op == "eq": return eq(go(a[0]), go(a[1]))
    if op == "isfin": return isfinite(go(a[0]))
    if op == "isnan": return isnan(go(a[0]))
    r = go(at)
    return r if r.op == "ite" or r in (TRUE, FALSE) else atom(r)
CTOR = {}
def mk(op, *args):
    f = CTOR.get(op)
    if f: return f(*args)
    if all(isinstance(x, T) for x in args) and args:
        try: return lift(lambda *xs: T_(op, *xs), *args)
        except TooBig: return T_(op, *args)
    return T_(op, *args)
def unsv(v):
    def f(x):
        if x is NAN or x is UNDEF or nonneg(x): return x
        r = T_("uns", x); NONNEG.add(r); INTS.add(r); return r
    return lift(f, v)
CTOR.update({"uns": unsv, "fld": fld, "sqrt": sqrtv, "abs": absv, "max": lambda *x: _fold(vmax, x), "min": lambda *x: _fold(vmin, x),
  "trunc": trunc, "floor": lambda x: lift(lambda a: _rnd("floor", a), x), "ceil": lambda x: lift(lambda a: _rnd("ceil", a), x),
  "round": lambda x: lift(lambda a: _rnd("round", a), x), "idiv": idiv, "mod": imod})
def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]: r = f(r, x)
    return r

# ------------------------------------------------------------------------------------------------ printing
def show(t, d=8, budget=None):
    if budget is None: budget = [400]
    def sh(t, d):
        if not isinstance(t, T):
            if isinstance(t, tuple): return "(" + ", ".join(sh(x, d) for x in t) + ")"
            return str(t)
        budget[0] -= 1
        if d <= 0 or budget[0] <= 0: return "..." + t.h.hex()[:4]
        op, a = t.op, t.args
        if op == "num": return str(a[0]) if a[0].denominator < 10**4 else "%.7g" % float(a[0])
        if op == "sym": return a[0]
        if op == "str": return repr(a[0])
        if op == "ite": return "(%s ? %s : %s)" % (sh(a[0], d - 1), sh(a[1], d - 1), sh(a[2], d - 1))
        if op == "cmp": return "%s %s %s" % (sh(a[1], d - 1), a[0], sh(num(a[2]), d))
        if op == "fld": return "%s.%s" % (sh(a[0], d), a[1])
        if op == "elt": return "%s[%s]" % (sh(a[0], d - 1), ",".join(sh(x, d - 1) for x in a[1]))
        if op == "deref": return "*" + sh(a[0], d) if a[0].op != "sym" or a[0].args[0] != "this" else "self"
        if op == "poly":
            s = []
            for m, c in a[0]:
                f = ["%s%s" % (sh(x, d - 1), "" if e == 1 else "^%d" % e) for x, e in m]
                if c != 1 or not f: f.insert(0, sh(T_("num", c), d))
                s.append("*".join(f))
            return "(" + " + ".join(s) + ")"
        if op == "rec": return "{%s | %s}" % (sh(a[0], d - 1), ", ".join("%s=%s" % (k, sh(v, d - 1)) for k, v in a[1]))
        if not a: return op
        return "%s(%s)" % (op, ", ".join(sh(x, d - 1) for x in a))
    return sh(t, d)
