"""Equality of two value graphs: identity of normal forms, then the random-interpretation hash, then congruence closure over
the gates (gated merges and containers are compared extensionally)."""
import functools
from term import *
from seq import *
import seq
from phash import phash, fbv
from loops import DC

class Budget(Exception): pass
class Diff:
    def __init__(self, facts, x, y): self.facts, self.x, self.y = facts, x, y
    def __str__(self):
        c = []
        for a, v in self.facts: c.append(("" if v else "not ") + "(" + show(a, 6, [60]) + ")")
        return "when %s: program gives %s, reference gives %s" % (" and ".join(c[:14]) or "always", show(self.x, 8, [80]), show(self.y, 8, [80]))
_ag = {}
def inner_gates(t):
    """gate atoms nested anywhere in t (not those on variables bound inside t)"""
    r = _ag.get(t)
    if r is not None: return r
    out = set()
    if t.op == "ite":
        out |= inner_gates(t.args[0]); out.add(t.args[0]); out |= inner_gates(t.args[1]) | inner_gates(t.args[2])
    else:
        def go(x):
            if isinstance(x, T): out.update(inner_gates(x))
            elif isinstance(x, tuple):
                for y in x: go(y)
        go(t.args)
        if t.op in BINDER:
            out = {g for g in out if g.hgt == 0}
    r = _ag[t] = frozenset(out)
    return r
def condition(t, facts, atoms):
    """t with every nested gate in atoms decided by the facts"""
    memo = {}
    def go(t):
        if inner_gates(t).isdisjoint(atoms): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == "ite":
            v = decide(t.args[0], facts)
            if v is None: r = ite(go_atom(t.args[0], go), go(t.args[1]), go(t.args[2]))
            else: r = go(t.args[1] if v else t.args[2])
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)
_xt = {}
def extrema(t):
    """min/max/abs terms anywhere in t that do not depend on a variable bound inside t"""
    r = _xt.get(t)
    if r is not None: return r
    out = set()
    if t.op in ("min", "max", "abs"): out.add(t)
    def go(x):
        if isinstance(x, T): out.update(extrema(x))
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(t.args)
    if t.op in BINDER: out = {g for g in out if g.hgt == 0}
    r = _xt[t] = frozenset(out)
    return r
ARR = {"st", "lamarr", "matc", "resized", "stblk", "emul", "gen", "app", "lit", "appall", "block"}
FULL = set()        # field sets of the record types: a record with all of these written has no other contents
def alternatives(t): return (t.args[0], mul2(MONE, t.args[0])) if t.op == "abs" else t.args
class Eq:
    def __init__(self, budget=4000):
        self.budget = budget; self.n = 0; self.diff = None; self.how = {"identity": 0, "hash": 0, "split": 0, "congruence": 0, "extensional": 0}
        self.proved = set()
    def same(self, x, y):
        if x is y: self.how["identity"] += 1; return True
        if x is DC or y is DC: return True
        if (x, y) in self.proved: return True
        if phash(x) == phash(y): self.how["hash"] += 1; self.proved.add((x, y)); return True
        return False
    def eq(self, x, y, facts=None, path=(), depth=0):
        self.n += 1
        if self.n > self.budget or depth > 400: raise Budget()
        if self.same(x, y): return True
        facts = facts or {}
        if facts:
            x, y = assume(x, facts), assume(y, facts)
            if self.same(x, y): return True
        if x is UNDEF and y is not UNDEF and False: return False
        if (x.op in AGG or y.op in AGG):
            if x.op == "vec" or y.op == "vec":
                n = len(x.args) if x.op == "vec" else len(y.args)
                if not (x.op == "vec" and y.op == "vec" and len(x.args) != len(y.args)):
                    return all(self.eq(vget(x, i), vget(y, i), facts, path, depth + 1) for i in range(n))
                return self.fail(path, x, y)
            ks = set()
            for t in (x, y):
                for l in leaves(t):
                    if l.op == "rec": ks.update(k for k, _ in l.args[1])
            bx = x.args[0] if x.op == "rec" else x
            by = y.args[0] if y.op == "rec" else y
            if not all(self.eq(fld(x, k), fld(y, k), facts, path, depth + 1) for k in sorted(ks)): return False
            if bx is by or ((bx is UNDEF or by is UNDEF) and frozenset(ks) in FULL) or (x.op == "ite" or y.op == "ite"): return True
            undef = lambda b: b.op == "ite" and any(l is UNDEF for l in leaves(b))      # fully overwritten on some paths
            if undef(bx) or undef(by):
                ls = {l for b in (bx, by) for l in leaves(b) if l is not UNDEF}
                if len(ls) <= 1: return True
            return self.eq(bx, by, facts, path, depth + 1)
        if x.op == "ite" or y.op == "ite":
            a = None
            for t in (x, y):
                if t.op == "ite" and (a is None or t.args[0].key < a.key): a = t.args[0]
            self.how["split"] += 1
            for v in (True, False):
                f = dict(facts)
                for k2, l in facts.items():
                    if isinstance(l, list): f[k2] = list(l)
                addfact(f, a, v)
                xs, ys = cof(x, a, v), cof(y, a, v)
                if self.same(xs, ys): continue
                pin = pinned(a, f)
                if pin is INFEASIBLE: continue
                if pin:
                    xs, ys = subst(xs, pin), subst(ys, pin)
                    f = {}
                if not self.eq(xs, ys, f, path + ((a, v),), depth + 1): return False
            self.proved.add((x, y)) if not facts else None
            return True
        # leaves: containers
        if x.op in ARR or y.op in ARR or is_mat(x) or is_mat(y):
            r = self.ext(x, y, facts, path, depth)
            if r is not None: return r
        sv = self.diff
        if x.op == y.op and self.cong(x, y, facts, path, depth): self.how["congruence"] += 1; return True
        self.diff = sv
        # nested gates
        g = inner_gates(x) ^ inner_gates(y) or inner_gates(x)
        g = [a for a in g if a.hgt == 0] or [a for a in inner_gates(x) | inner_gates(y) if a.hgt == 0]
        if g:
            # decide already known ones first
            known = {a for a in g if decide(a, facts) is not None}
            if known:
                xs, ys = condition(x, facts, known), condition(y, facts, known)
                if xs is not x or ys is not y: return self.eq(xs, ys, facts, path, depth + 1)
            a = min((a for a in g if a not in known), key=lambda a: (len(inner_gates(a)), a.key), default=None)
            if a is not None:
                self.how["split"] += 1
                for v in (True, False):
                    f = {k2: (list(l) if isinstance(l, list) else l) for k2, l in facts.items()}
                    addfact(f, a, v)
                    pin = pinned(a, f)
                    if pin is INFEASIBLE: continue
                    xs, ys = condition(x, f, {a}), condition(y, f, {a})
                    if pin: xs, ys = subst(xs, pin), subst(ys, pin); f = {}
                    if not self.eq(xs, ys, f, path + ((a, v),), depth + 1): return False
                return True
        r = self.extremum(x, y, facts, path, depth)
        if r is not None: return r
        return self.fail(path, x, y)
    def extremum(self, x, y, facts, path, depth):
        """a minimum or maximum in only one of the two, decided by comparing its alternatives"""
        ex, ey = extrema(x), extrema(y)
        ts = sorted(ex ^ ey, key=lambda t: t.sk)
        for t in ts + (sorted(ex & ey, key=lambda t: t.sk) if facts else []):
            alt = alternatives(t)
            for i in range(len(alt)):
                for j in range(len(alt)):
                    if i == j: continue
                    p, q = alt[i], alt[j]
                    c = assume(lt(p, q), facts)
                    if c.op == "ite" and not (c.args[1] in (TRUE, FALSE) and c.args[2] in (TRUE, FALSE)): continue
                    def without(z):
                        l = [w for w in alt if w is not z]
                        return l[0] if len(l) == 1 else functools.reduce(vmin if t.op == "min" else vmax, l)
                    if c in (TRUE, FALSE): v = c is TRUE
                    else:
                        v = decide(c.args[0], facts)
                        if v is not None: v = v == (c.args[1] is TRUE)
                    if v is not None:
                        m = {t: without(q if v == (t.op == "min") else p)}
                        return self.eq(subst(x, m), subst(y, m), facts, path, depth + 1)
        for t in ts:
            c = assume(lt(*alternatives(t)[:2]), facts)
            if c.op != "ite": continue
            a = c.args[0]
            self.how["split"] += 1
            for v in (True, False):
                f = {k2: (list(l) if isinstance(l, list) else l) for k2, l in facts.items()}
                addfact(f, a, v)
                pin = pinned(a, f)
                if pin is INFEASIBLE: continue
                xs, ys = x, y
                if pin: xs, ys = subst(x, pin), subst(y, pin); f = {}
                if not self.eq(xs, ys, f, path + ((a, v),), depth + 1): return False
            return True
        return None
    def fail(self, path, x, y):
        if path:
            k = (path, y)
            c = _contra.get(k)
            if c is None: c = _contra[k] = contradictory(path) or contradictory(path, reads(y))
            if c: return True
        if self.diff is None: self.diff = Diff(path, x, y)
        return False
    def cong(self, x, y, facts, path, depth):
        op = x.op
        def tup(a, b):
            if isinstance(a, T) and isinstance(b, T): return self.eq(a, b, facts, path, depth + 1)
            if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(tup(p, q) for p, q in zip(a, b))
            return a == b
        if op in ("any", "first", "lastk", "sum", "gen", "coll"):
            (n, h, b), (n2, h2, b2) = x.args, y.args
            if not self.eq(n, n2, facts, path, depth + 1): return False
            return self.bodies([b], [b2], [T_("bv", h)], [T_("bv", h2)], n, facts, path, depth)
        if op == "red":
            (mm, n, h, b), (mm2, n2, h2, b2) = x.args, y.args
            if mm != mm2 or not self.eq(n, n2, facts, path, depth + 1): return False
            return self.bodies([b], [b2], [T_("bv", h)], [T_("bv", h2)], n, facts, path, depth)
        if op == "fold":
            (n, h, kd, bs, ins, i), (n2, h2, kd2, bs2, ins2, i2) = x.args, y.args
            if len(bs) != len(bs2) or not self.eq(n, n2, facts, path, depth + 1): return False
            # align accumulators: start from the observed pair, follow equal initial values
            perms = align(ins, ins2, i, i2)
            for p in perms:
                if [kd2[j] for j in p] != list(kd): continue
                if not all(self.eq(a, ins2[j], facts, path, depth + 1) for a, j in zip(ins, p)): continue
                bv1 = [T_("bv", h)] + [T_(k, h + 1 + j) for j, k in enumerate(kd)]
                bv2 = [T_("bv", h2)] + [T_(kd2[j], h2 + 1 + j) for j in p]
                if self.bodies(list(bs), [bs2[j] for j in p], bv1, bv2, n, facts, path, depth): return True
            return False
        if op == "cmpfn":
            (h, b), (h2, b2) = x.args, y.args
            return self.bodies([b], [b2], [T_("ba", h), T_("ba", h + 1)], [T_("ba", h2), T_("ba", h2 + 1)], None, facts, path, depth)
        if op in ("poly", "num", "str", "sym", "bv", "bi", "ba"): return False
        if op == "emul" and len(x.args) == 2:
            sv = self.diff
            if tup(x.args[0], y.args[1]) and tup(x.args[1], y.args[0]): return True
            self.diff = sv
        return len(x.args) == len(y.args) and len(x.args) > 0 and all(tup(a, b) for a, b in zip(x.args, y.args))
    def bodies(self, bs, bs2, bv1, bv2, n, facts, path, depth):
        ss, o1 = open_(bs, bv1)
        o2 = rename(bs2, dict(zip(bv2, ss)))
        f = {k2: (list(l) if isinstance(l, list) else l) for k2, l in facts.items()}
        if n is not None and n is not INF:
            for a, v in in_range(ss[0], n).items():
                if isinstance(a, T): addfact(f, a, v)
        return all(self.eq(a, b, f, path, depth + 1) for a, b in zip(o1, o2))
    def ext(self, x, y, facts, path, depth):
        nd = None
        for t in (x, y):
            d = adims(t)
            if d is not None: nd = d; break
        if nd is None: return None
        if nd == 1:
            if not self.eq(size(x), size(y), facts, path, depth + 1): return False
            bnd = [size(x)]
        else:
            if not (self.eq(rows(x), rows(y), facts, path, depth + 1) and self.eq(cols(x), cols(y), facts, path, depth + 1)): return False
            bnd = [rows(x), cols(x)]
        ks = []
        f = {k2: (list(l) if isinstance(l, list) else l) for k2, l in facts.items()}
        for b in bnd:
            k = fresh("e"); INTS.add(k); NONNEG.add(k); ks.append(k)
            for a, v in in_range(k, b).items():
                if isinstance(a, T): addfact(f, a, v)
        ex, ey = elt(x, tuple(ks)), elt(y, tuple(ks))
        if ex.op == "elt" and ex.args[0] is x and ey.op == "elt" and ey.args[0] is y:
            return None
        self.how["extensional"] += 1
        return self.eq(ex, ey, f, path, depth + 1)
def adims(t):
    if t.op in ("gen", "app", "lit", "appall"): return 1
    if t.op == "st": return len(t.args[1])
    if t.op == "lamarr": return t.args[0]
    if t.op in ("block", "stblk"): return 2
    if t.op == "resized": return max(1, len(t.args) - 1)
    if t.op == "matc": return adims(t.args[0]) or 2
    return 2 if t in MATS else None
def align(ins, ins2, i, i2):
    import itertools
    n = len(ins)
    rest1 = [j for j in range(n) if j != i]; rest2 = [j for j in range(n) if j != i2]
    cnt = 0
    for p in itertools.permutations(rest2):
        m = dict(zip(rest1, p)); m[i] = i2
        yield [m[j] for j in range(n)]
        cnt += 1
        if cnt > 24: return
INFEASIBLE = object()
_contra = {}
def reads(t):
    """element reads a value certainly performs: undefined, so that nothing is required, when an index is outside its sequence"""
    out, seen = [], set()
    def go(x):
        if isinstance(x, tuple):
            for y in x: go(y)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op in BINDER: return
            if x.op == "ite": return go(x.args[0])
            if x.op == "elt" and len(x.args[1]) == 1 and x.hgt == 0 and numericish(x.args[1][0]): out.append((x.args[1][0], size(x.args[0])))
            go(x.args)
    go(t)
    return tuple(o for o in out if o[1].op != "ite")
def contradictory(path, rd=(), under=()):
    """no values satisfy the comparisons assumed on this path (Fourier-Motzkin elimination over their monomials)"""
    rows, ints = [], {}
    def row(d, c, strict): rows.append(({m: k for m, k in d.items() if k}, c, strict))           # sum d*m + c <= 0 (< 0)
    for i, n in rd:
        for e in (mul2(MONE, i), add(sub(i, n), ONE)):
            if e.op == "ite": continue
            d = dict(monos(e)); c = d.pop((), Fr(0)); row(d, c, False)
    for a, v in path:
        if a.op == "eq" and v and all(numericish(z) for z in a.args):
            d = dict(monos(sub(a.args[0], a.args[1]))); c = d.pop((), Fr(0))
            row(d, c, False); row({m: -k for m, k in d.items()}, -c, False)
        if a.op != "cmp": continue
        rel, q, k = a.args
        try: k = Fr(k)
        except (TypeError, ValueError, OverflowError): continue
        d = dict(monos(q)); c = d.pop((), Fr(0)) - k
        if v: row(d, c, rel == "<")
        else:
            d = {m: -x for m, x in d.items()}; c = -c; strict = rel == "<="
            if strict and is_int(q): c, strict = c + 1, False
            row(d, c, strict)
    ms = {m for d, _, _ in rows for m in d}
    for m in sorted(ms, key=repr):              # a conversion to unsigned keeps what the path shows not to be negative
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "uns":
            q = m[0][0].args[0]
            if any(b is q for b, _ in under): continue
            if contradictory(path + ((T_("cmp", "<=", q, -1), True),), rd, under + ((q, 0),)):
                d = dict(monos(sub(m[0][0], q))); c = d.pop((), Fr(0))
                row(d, c, False); row({z: -k for z, k in d.items()}, -c, False)
    ms = {m for d, _, _ in rows for m in d}
    for m in ms:
        if nonneg(mkpoly({m: Fr(1)})): row({m: Fr(-1)}, Fr(0), False)
    for m in sorted(ms, key=repr):
        pos = [r for r in rows if r[0].get(m, 0) > 0]; neg_ = [r for r in rows if r[0].get(m, 0) < 0]
        rest = [r for r in rows if not r[0].get(m, 0)]
        if len(pos) * len(neg_) > 400: return False
        for p in pos:
            for n in neg_:
                x, y = p[0][m], -n[0][m]
                d = {}
                for z, w in ((p, y), (n, x)):
                    for mm, k in z[0].items(): d[mm] = d.get(mm, 0) + k * w
                rest.append(({mm: k for mm, k in d.items() if k}, p[1] * y + n[1] * x, p[2] or n[2]))
        rows = rest
        if any(not d and (c > 0 or (c == 0 and st)) for d, c, st in rows): return True
    return any(not d and (c > 0 or (c == 0 and st)) for d, c, st in rows)
def pinned(a, f):
    """constant substitution implied by the bounds known for a's core"""
    if a.op != "cmp": 
        if a.op == "eq" and f.get(a) is True:
            x, y = a.args
            for u, v in ((x, y), (y, x)):
                if v.op in ("str", "num") and u.op in ATOMIC_NUM: return {u: v}
        return None
    q = a.args[1]
    hi = lo = None      # q <= hi / q < hi ; q > lo / q >= lo
    for b, v in f.get(("core", q), []):
        rel, k = b.args[0], b.args[2]
        if v: 
            c = (k, rel == "<=")
            if hi is None or c < hi: hi = c
        else:
            c = (k, rel == "<")     # not (q<k): q>=k inclusive
            if lo is None or (c[0], not c[1]) > (lo[0], not lo[1]): lo = c
    if hi is None or lo is None: return None
    if is_int(q):
        u = hi[0] if hi[1] else math.ceil(hi[0]) - 1
        l = lo[0] if lo[1] else math.floor(lo[0]) + 1
        if l > u: return INFEASIBLE
        if l != u: return None
        K = T_("num", Fr(l))
    else:
        if lo[0] > hi[0] or (lo[0] == hi[0] and not (lo[1] and hi[1])): return INFEASIBLE
        if lo[0] != hi[0]: return None
        K = T_("num", hi[0])
    for m, c in monos(q).items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            v = m[0][0]
            if v.op not in ATOMIC_NUM: continue
            d = dict(monos(q)); del d[m]
            r = mkpoly(d)
            if occurs(r, {v}, ()) : continue
            return {v: mul(T_("num", c), sub(K, r))}
    return None
def unify(x, y):
    """x, y with closed binders of equal hash replaced by one representative (so that gates on them are the same gates)"""
    rep, m, seen = {}, {}, set()
    def walk(t):
        if isinstance(t, tuple):
            for z in t: walk(z)
            return
        if not isinstance(t, T) or t.hgt == 0 or t in seen: return
        seen.add(t)
        for z in t.args: walk(z)
        if t.op in LEVEL and not fbv(t):
            r = rep.setdefault((t.op, phash(t)), t)
            if r is not t: m[t] = r
    walk(x); walk(y)
    if not m: return None
    memo = {}
    return subst_(x, m, memo), subst_(y, m, memo)
def check_equal(x, y, budget=4000):
    """-> (True, how) or (False, Diff) or (None, reason)"""
    r = _check(x, y, budget)
    if not r[0]:
        try: u = unify(x, y)
        except (TooBig, Slow): u = None
        if u and (u[0] is not x or u[1] is not y):
            r2 = _check(u[0], u[1], budget)
            if r2[0]: return r2
    return r
def _check(x, y, budget):
    e = Eq(budget)
    try:
        if e.eq(x, y): return True, e
        return False, e
    except (Budget, TooBig): return None, e
