"""Gated value-flow evaluation of extracted functions (dataflow to a value graph; no path enumeration, no execution)."""
import re, sys
from effects import effects
from term import *
from seq import *
import term, seq
sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
THIS = sym("this")

EIG_FIX = re.compile(r"^(?:const )?Eigen::(?:Matrix|Array)<(float|double|int|unsigned char|bool), (\d+), 1[,>]")
QUIET = {"avoidance::Histogram", "avoidance::Grid", "avoidance::TreeNode"}     # data classes: their methods have no effect besides the object
EIG_DYN = re.compile(r"^(?:const )?Eigen::(?:Matrix|Array)<(float|double|int|bool), -1, (-?\d+)[,>]")
def stripref(ty):
    ty = ty.rstrip("&").strip()
    if ty.startswith("const "): ty = ty[6:]
    return ty
EIG_BASE = re.compile(r"^(?:const )?Eigen::(?:DenseBase|DenseCoeffsBase|MatrixBase|ArrayBase|PlainObjectBase)<(Eigen::.*)>$")
def eig_n(ty):
    """dimension of a fixed-size vector, also when the type is named through one of Eigen's base classes"""
    if ty.startswith("Eigen::") or ty.startswith("const Eigen::"):
        m = EIG_BASE.match(ty)
        if m: ty = m.group(1)
    m = EIG_FIX.match(ty)
    return int(m.group(2)) if m else None
def tcat(ty):
    ty = stripref(ty)
    if ty == "bool": return "b"
    if ty in ("int", "long", "short", "signed char", "long long", "char"): return "i"
    if ty.startswith("unsigned") or ty == "size_t": return "u"
    if ty in ("float", "double", "long double"): return "f"
    if ty.endswith("*"): return "p"
    if ty in ENUMTY: return "e"
    return "r"
ENUMTY = set()
def typed(t, ty, cat=None):
    """give a value read from an unknown object the shape its declared type demands"""
    if ty: ty = stripref(ty)
    n = eig_n(ty) if ty else None
    if n:
        return T_("vec", *[typed1(vget(t, i), "i" if "<int" in ty else "f") for i in range(n)])
    if ty and EIG_DYN.match(ty):
        for l in leaves(t): MATS.add(l)
        return t
    if ty and ty.startswith(("std::unique_ptr", "std::shared_ptr", "boost::shared_ptr", "std::__shared_ptr")): return t
    if ty and ty.startswith("std::atomic<bool>"): return typed1(t, "b")
    c = cat if cat and cat not in ("r", "o", "v", "a") else (tcat(ty) if ty else None)
    if c in ("b", "i", "u", "e"): return typed1(t, c)
    return t
def typed1(t, c):
    if c == "b":
        if t is TRUE or t is FALSE: return t
        if t.op == "ite" and all(l in (TRUE, FALSE) for l in leaves(t)): return t
        return lift(lambda l: l if l in (TRUE, FALSE) else atom(T_("undefb")) if l is UNDEF else tobool(l) if l.op in NUMLIKE else atom(l), t)
    if c in ("i", "u", "e"):
        for l in leaves(t):
            if l.op in ATOMIC_NUM:
                INTS.add(l)
                if c == "u": NONNEG.add(l)
    return t

class LV:
    __slots__ = ("alts",)
    def __init__(s, root, path=(), alts=None): s.alts = alts or [(TRUE, root, path)]
    def sub(s, acc): return LV(None, alts=[(g, r, p + (acc,)) for g, r, p in s.alts])
    def one(s):
        if len(s.alts) != 1: raise Unsupported("conditional lvalue")
        return s.alts[0][1], s.alts[0][2]
class TupLV:
    def __init__(s, lvs): s.lvs = lvs

class Exit:
    __slots__ = ("g", "env", "val")
    def __init__(s, g, env, val=None): s.g, s.env, s.val = g, env, val

def known(env, c):
    """the environment where the condition c holds"""
    f = conj_facts(c)
    if not f: return env
    memo = {}
    return {r: assume(v, f, memo) if v.op in ("ite", "rec", "vec") and v.big < 3000 else v for r, v in env.items()}
def merge_env(c, a, b):
    if a is b: return a
    if c is TRUE: return a
    if c is FALSE: return b
    r = dict(a)
    for k, v in b.items():
        w = r.get(k)
        if w is None: w = initial(k)
        if w is None: r[k] = v
        elif w is not v: r[k] = choose(c, w, v)
    for k, w in a.items():
        if k not in b:
            v = initial(k)
            if v is not None and v is not w: r[k] = choose(c, w, v)
    return r
CUR = [None]
def initial(root):
    """value of a root that one side of a merge has not touched; None for objects that exist on the other side only"""
    if root.op in ("loc", "tmp") or (root.op == "H" and root.args[0].op == "new"): return None
    return CUR[0].rootinit(root)
def add_exit(exits, k, g, env, val):
    if g is FALSE: return
    e = exits.get(k)
    if e is None: exits[k] = Exit(g, env, val)
    else:
        v = e.val
        if v is not val: v = ite(e.g, v if v is not None else VOID, val if val is not None else VOID)
        exits[k] = Exit(OR(e.g, g), merge_env(e.g, e.env, env), v)

merge = merge_env
class Interp:
    def __init__(self, db, opts=None):
        self.db = db
        CUR[0] = self
        self.opts = opts or {}
        self.unrolling = 0
        self.opaque = self.opts.get("opaque", {})       # name -> mode
        self.dyncls = self.opts.get("dyncls")           # dynamic class of *this
        self.env = {}
        self.frames = []
        self.nframe = 0
        self.ub = set()
        self.ntmp = 0
        self.nnew = 0
        self.lams = {}
        self.loopdepth = 0
        self.throws = None
        self.callstack = []
        self.unsup = []
        self.inlined = set()
        self.opq = set()          # callees taken by contract
        self.assumed = TRUE
        self.fieldty = {}
        self.simplef = {}
        self.stats = {"calls": 0, "loops": 0, "stmts": 0}
        self.ctypes = {}
        self.heapinit = {}
        for e in db.enums: ENUMTY.add(e)

    # ------------------------------------------------------------------ memory
    def newtmp(self, v=None, n="t"):
        self.ntmp += 1
        r = T_("tmp", n, self.ntmp)
        if v is not None: self.env[r] = v
        return r
    def rootval(self, r):
        v = self.env.get(r)
        if v is not None: return v
        return self.rootinit(r)
    def rootinit(self, r):
        if r.op == "H":
            v = self.heapinit.get(r.args[0])
            return v if v is not None else T_("deref", r.args[0])
        if r.op == "R": return sym(r.args[0])
        if r.op == "G":
            return sym("::" + r.args[0])
        if r.op == "EV": return NIL
        return UNDEF
    def getp(self, v, path):
        for i, a in enumerate(path):
            k = a[0]
            if k == "f": v = fld(v, a[1])
            elif k == "e": v = elt(v, a[1])
            elif k == "v": v = vget(v, a[1])
            elif k == "w": v = T_("vec", *[vget(v, j) for j in a[1]])
            elif k == "k": v = mget(v, a[1])
            elif k == "me": v = rec(UNDEF, {"first": T_("mkey", v, a[1]), "second": lift(lambda m: T_("mval", m, a[1]), v)})
            elif k == "kk": v = rec(UNDEF, {"first": a[1], "second": mget(v, a[1])})
            elif k == "blk": v = lift(lambda m: T_("block", m, *a[1]), v)
            else: raise Unsupported("path " + k)
        return v
    def putp(self, v, path, x):
        if not path: return x
        a = path[0]
        k = a[0]
        if k == "f":
            if v.op == "ite" : return ite(atom(v.args[0]), self.putp(v.args[1], path, x), self.putp(v.args[2], path, x)) if False else self._putrec(v, a[1], path, x)
            return self._putrec(v, a[1], path, x)
        if k == "e":
            o = elt(v, a[1]) if len(path) > 1 else None
            return st(v, a[1], self.putp(o, path[1:], x))
        if k == "v":
            if v.op == "vec": n = len(v.args)
            else: n = None
            if n is None:
                l = leaves(v)[0]
                n = len(l.args) if l.op == "vec" else a[2] if len(a) > 2 else None
            if n is None:
                return self._putrec(v, "[%d]" % a[1], path, x)
            c = [vget(v, i) for i in range(n)]
            c[a[1]] = self.putp(c[a[1]], path[1:], x)
            return T_("vec", *c)
        if k == "w":
            n = len(v.args) if v.op == "vec" else None
            if n is None:
                l = leaves(v)[0]
                n = len(l.args) if l.op == "vec" else a[2] if len(a) > 2 and a[2] else max(a[1]) + 1
            cur = T_("vec", *[vget(v, j) for j in a[1]])
            nv = self.putp(cur, path[1:], x)
            c = [vget(v, i) for i in range(n)]
            for q, j in enumerate(a[1]): c[j] = vget(nv, q)
            return T_("vec", *c)
        if k == "k":
            o = mget(v, a[1]) if len(path) > 1 else None
            return mput(v, a[1], self.putp(o, path[1:], x))
        if k == "me":
            if len(path) > 1 and path[1] == ("f", "second"):
                o = T_("mval", v, a[1])
                return lift(lambda m: T_("putat", m, a[1], self.putp(T_("mval", m, a[1]), path[2:], x)), v)
            raise Unsupported("write to map key")
        if k == "kk":
            if len(path) > 1 and path[1] == ("f", "second"):
                o = mget(v, a[1]) if len(path) > 2 else None
                return mput(v, a[1], self.putp(o, path[2:], x))
            raise Unsupported("write to map key")
        if k == "blk":
            b = a[1]
            o = T_("block", v, *b) if len(path) > 1 else None
            y = self.putp(o, path[1:], x)
            return lift(lambda m: T_("stblk", m, *b, y), v)
        raise Unsupported("path " + k)
    def _putrec(self, v, f, path, x):
        if len(path) == 1: return rec(v if v.op == "rec" or v is UNDEF else v, {f: x})
        return rec(v, {f: self.putp(fld(v, f), path[1:], x)})
    def get(self, lv):
        if isinstance(lv, TupLV): return rec(UNDEF, {str(i): self.get(l) for i, l in enumerate(lv.lvs)})
        r = None
        for g, root, path in reversed(lv.alts):
            v = self.getp(self.rootval(root), path)
            r = v if r is None else ite(g, v, r)
        return r
    def put(self, lv, x):
        if isinstance(lv, TupLV):
            for i, l in enumerate(lv.lvs): self.put(l, fld(x, str(i)))
            return
        if len(lv.alts) == 1:
            _, root, path = lv.alts[0]
            self.env[root] = self.putp(self.rootval(root), path, x)
            return
        none = TRUE
        for g, root, path in lv.alts:
            gg = AND(none, g)
            old = self.rootval(root)
            self.env[root] = ite(gg, self.putp(old, path, x), old)
            none = AND(none, NOT(g))
    def deref(self, p):
        """pointer value -> LV"""
        alts = []
        def go(g, p):
            if p.op == "ite":
                a = atom(p.args[0])
                go(AND(g, a), p.args[1]); go(AND(g, NOT(a)), p.args[2]); return
            if p.op == "addr": alts.append((g, p.args[0], p.args[1])); return
            if p.op == "iter": 
                r, q = p.args[0].args
                alts.append((g, r, q + (("e", (p.args[1],)),))); return
            if p.op == "miter":
                r, q = p.args[0].args
                alts.append((g, r, q + (("kk", p.args[1]),))); return
            if p is NULL or p is UNDEF or p.op == "mend":
                if g is not FALSE: self.ub.add("an end iterator" if p.op == "mend" else "a null pointer" if p is NULL else "an unset pointer")
                return
            alts.append((g, T_("H", p), ()))
        go(TRUE, p)
        if not alts: alts = [(TRUE, T_("H", NULL), ())]
        if len(alts) == 1: alts = [(TRUE,) + alts[0][1:]]
        return LV(None, alts=alts)
    def addr_of(self, lv):
        r = None
        for g, root, path in reversed(lv.alts):
            v = root.args[0] if root.op == "H" and not path else T_("addr", root, path)
            r = v if r is None else ite(g, v, r)
        return r
    def event(self, ch, payload):
        r = T_("EV", ch)
        self.env[r] = app(self.rootval(r), payload) if self.rootval(r).op != "ite" else lift(lambda a: app(a, payload), self.rootval(r))

    # ------------------------------------------------------------------ frames / variables
    def push_frame(self, fn):
        self.nframe += 1
        self.frames.append({"#": self.nframe, "fn": fn})
    def pop_frame(self): self.frames.pop()
    def bind(self, vid, lv): self.frames[-1][vid] = lv
    def local(self, vid, v, ty=None):
        r = T_("loc", vid, self.frames[-1]["#"])
        self.env[r] = v
        lv = LV(r)
        self.frames[-1][vid] = lv
        return lv
    def var_lv(self, e):
        f = self.frames[-1]
        lv = f.get(e["id"])
        if lv is None:
            if e.get("static"):
                lv = LV(T_("G", "static:" + e["id"].split("#")[0]))
                return lv
            raise Unsupported("unbound variable " + e["id"])
        return lv

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "ev_" + e["k"], None)
        if m is None: return self.unk("expr " + e["k"], e)
        return m(e)
    def unk(self, why, e=None):
        self.unsup.append(why)
        return T_("unk", why)
    def ev_num(self, e):
        v = e["v"]
        if e["t"] == "b": return TRUE if v not in ("0", "false") else FALSE
        if v == "nan" or v == "-nan": return NAN
        if v == "inf": return INF
        if v == "-inf": return neg(INF)
        return num(Fr(v))
    def ev_str(self, e): return T_("str", e["v"])
    def ev_null(self, e): return NULL
    def ev_this(self, e): return self.frames[-1].get("this", THIS)
    def ev_fn(self, e): return T_("fnref", e["n"])
    def ev_var(self, e): return self.rd(self.var_lv(e), e)
    def rd(self, lv, e):
        v = self.get(lv)
        return typed(v, e.get("ty"), e.get("t"))
    def ev_gvar(self, e):
        n = e["n"]
        lv = LV(T_("G", n))
        r = lv.alts[0][1]
        if r not in self.env:
            v = self.db.vars.get(n)
            if v and v.get("const") and "init" in v:
                self.push_frame(None)
                try: self.env[r] = self.ev(v["init"])
                finally: self.pop_frame()
        return self.rd(lv, e)
    def ev_mem(self, e):
        if e.get("anon"): return self.ev(e["o"])
        lv = self.lv(e)
        if lv is not None: return self.rd(lv, e)
        return typed(fld(self.ev(e["o"]), e["f"]), e.get("ty"), e.get("t"))
    def ev_zero(self, e): return self.zero(e["ty"])
    def zero(self, ty):
        c = tcat(ty)
        if c == "b": return FALSE
        if c in "iuef": return ZERO
        if c == "p": return NULL
        return self.default(ty, True)
    def lv(self, e):
        """lvalue or None when e is not an lvalue the engine tracks"""
        k = e["k"]
        if k == "var": return self.var_lv(e)
        if k == "gvar":
            self.ev_gvar(e)
            return LV(T_("G", e["n"]))
        if k == "mem":
            if e.get("anon"): return self.lv(e["o"])
            if e.get("arrow"): return self.deref(self.ev(e["o"])).sub(("f", e["f"]))
            o = self.lv(e["o"])
            if o is None:
                o = LV(self.newtmp(self.ev(e["o"])))
            return o.sub(self.facc(e))
        if k == "un":
            if e["op"] == "*": return self.deref(self.ev(e["a"]))
            if e["op"] in ("++", "--") and not e["post"]:
                self.ev(e); return self.lv(e["a"])
        if k == "idx":
            ot = e["o"].get("ty", "")
            i = self.ev(e["i"])
            if ot.endswith("*"):
                p = self.ev(e["o"])
                return self.deref(lift(lambda q: T_("ptradd", q, i), p)) if i is not ZERO else self.deref(p)
            o = self.lv(e["o"])
            if o is None: o = LV(self.newtmp(self.ev(e["o"])))
            return o.sub(("e", (i,)))
        if k in ("casg",): self.ev(e); return self.lv(e["a"])
        if k == "bin":
            if e["op"] == "=": self.ev(e); return self.lv(e["a"])
            if e["op"] == ",": self.ev(e["a"]); return self.lv(e["b"])
        if k == "cast":
            if e["ck"] in ("Dynamic", "LValueBitCast", "NoOp"): return self.lv(e["a"])
            return None
        if k == "cond":
            c = self.ev(e["c"])
            a, b = self.lv(e["a"]), self.lv(e["b"])
            if a is None or b is None: return None
            return LV(None, alts=[(AND(c, g), r, p) for g, r, p in a.alts] + b.alts)
        if k == "opcall": return self.lib_oplv(e)
        if k == "mcall": return self.lib_mlv(e)
        if k == "call": return self.lib_calllv(e)
        if k == "ctor" and (e.get("copy") or e.get("move")) and len(e["a"]) == 1: return None
        return None
    def facc(self, e): return ("f", e["f"])
    def lv_or_tmp(self, e):
        l = self.lv(e)
        if l is None: l = LV(self.newtmp(self.ev(e)))
        return l

    def assign(self, lv, v, e=None):
        if e is not None:
            for g, r, p in (lv.alts if isinstance(lv, LV) else []): self.ctypes[(r, p)] = e.get("t"), e.get("ty")
        self.put(lv, v)
        if e is not None and e.get("k") == "mem": self.complete(lv, e)
    def complete(self, lv, e):
        """a record all of whose fields have been assigned no longer depends on its former value"""
        while e.get("k") == "mem" and isinstance(lv, LV) and len(lv.alts) == 1:
            _, root, path = lv.alts[0]
            if not path or path[-1][0] != "f": return
            fs = self.simple_fields(e.get("cls"))
            if not fs: return
            par = LV(root, path[:-1])
            pv = self.get(par)
            if pv.op != "rec": return
            if pv.args[0] is not UNDEF:
                if not fs <= {k for k, _ in pv.args[1]}: return
                self.put(par, rec(UNDEF, dict(pv.args[1])))
            if e.get("arrow"): return
            lv, e = par, e["o"]
    def simple_fields(self, cls):
        c = self.simplef.get(cls)
        if c is None:
            d = self.db.recs.get(cls)
            bases = {b if isinstance(b, str) else b.get("ty") for r in self.db.recs.values() for b in r["bases"]} if not hasattr(self, "_bases") else self._bases
            self._bases = bases
            c = frozenset(x["n"] for x in d["fields"]) if d and not d["bases"] and cls not in bases else frozenset()
            self.simplef[cls] = c
        return c
    def ev_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            lv = self.lv(e["a"])
            old = typed(self.get(lv), e["a"].get("ty"), e["a"].get("t"))
            nv = add(old, ONE if op == "++" else MONE) if old.op != "iter" else T_("iter", old.args[0], add(old.args[1], ONE if op == "++" else MONE))
            self.assign(lv, nv, e["a"])
            return old if e["post"] else nv
        if op == "*": return typed(self.get(self.deref(self.ev(e["a"]))), e.get("ty"), e.get("t"))
        if op == "&":
            if e["a"]["k"] in ("fn",): return self.ev(e["a"])
            lv = self.lv(e["a"])
            if lv is None: lv = LV(self.newtmp(self.ev(e["a"])))
            return self.addr_of(lv)
        v = self.ev(e["a"])
        if op == "!": return NOT(tobool(v))
        if op == "-": return neg(b2i(v))
        if op == "+": return v
        if op == "~": return mk("bitnot", v)
        return self.unk("unary " + op)
    def arith(self, op, a, b, ct):
        a, b = (b2i(a) if ct != "b" else a), (b2i(b) if ct != "b" else b)
        if a.op == "iter" or b.op == "iter": return self.iterarith(op, a, b)
        if op == "+": return add(a, b)
        if op == "-": return sub(a, b)
        if op == "*": return mul(a, b)
        if op == "/":
            if ct in ("i", "u"): return idiv(a, b)
            return div(a, b)
        if op == "%": return imod(a, b)
        if op in ("&", "|", "^"):
            if all(l in (ZERO, ONE) for x in (a, b) for l in leaves(x)):
                A, B = tobool(a), tobool(b)
                return b2i(AND(A, B) if op == "&" else OR(A, B) if op == "|" else XOR(A, B))
            if op == "^": 
                xs = []
                for t in (a, b): xs += list(t.args) if t.op == "xor" else [t]
                if a.op != "ite" and b.op != "ite":
                    r = T_("xor", *sorted(xs, key=lambda t: t.sk)); INTS.add(r); return r
            r = mk("bit" + op, *sorted((a, b), key=lambda t: t.sk)); [INTS.add(l) for l in leaves(r)]; return r
        if op in ("<<", ">>"):
            if b.op == "num" and 0 <= b.args[0] < 63:
                return mul(a, num(2 ** int(b.args[0]))) if op == "<<" else idiv(a, num(2 ** int(b.args[0])))
            r = mk("sh" + op, a, b); [INTS.add(l) for l in leaves(r)]; return r
        return self.unk("arith " + op)
    def iterarith(self, op, a, b):
        def f(x, y):
            if x.op == "iter" and y.op == "iter" and op == "-": return sub(x.args[1], y.args[1])
            if x.op == "iter": return T_("iter", x.args[0], add(x.args[1], y) if op == "+" else sub(x.args[1], y))
            if y.op == "iter" and op == "+": return T_("iter", y.args[0], add(y.args[1], x))
            return mk("itarith" + op, x, y)
        return lift(f, a, b)
    def compare(self, op, a, b, ot=None):
        if ot in ("b",) or any(l in (TRUE, FALSE) for l in leaves(a)) or any(l in (TRUE, FALSE) for l in leaves(b)):
            a, b = b2i(a), b2i(b)
        if op == "==": return eq(a, b, True if ot in ("i", "u", "e", "f", "b") else None)
        if op == "!=": return NOT(eq(a, b, True if ot in ("i", "u", "e", "f", "b") else None))
        if op == "<": return lt(a, b)
        if op == ">": return lt(b, a)
        if op == "<=": return le(a, b)
        if op == ">=": return le(b, a)
    def ev_bin(self, e):
        op = e["op"]
        if op == "=":
            v = self.ev(e["b"])
            lv = self.lv(e["a"])
            if lv is None: self.unk("assign to non-lvalue " + e["a"]["k"]); return v
            self.assign(lv, v, e["a"])
            return v
        if op == ",":
            self.ev(e["a"]); return self.ev(e["b"])
        if op in ("&&", "||"):
            a = tobool(self.ev(e["a"]))
            if a is (FALSE if op == "&&" else TRUE): return a
            env0 = dict(self.env)
            b = tobool(self.ev(e["b"]))
            g = a if op == "&&" else NOT(a)
            self.env = merge_env(g, self.env, env0)
            return AND(a, b) if op == "&&" else OR(a, b)
        a = self.ev(e["a"]); b = self.ev(e["b"])
        if op in ("==", "!=", "<", ">", "<=", ">="): return self.compare(op, a, b, e.get("ot"))
        return self.arith(op, a, b, e["t"])
    def ev_casg(self, e):
        b = self.ev(e["b"])
        lv = self.lv(e["a"])
        a = typed(self.get(lv), e["a"].get("ty"), e["a"].get("t"))
        v = self.arith(e["op"], a, b, e["ct"])
        if e["a"].get("t") in ("i", "u") and e["ct"] == "f": v = trunc(v)
        if e["a"].get("t") == "b": v = tobool(v)
        self.assign(lv, v, e["a"])
        return v
    def ev_cond(self, e):
        c = tobool(self.ev(e["c"]))
        if c is TRUE: return self.ev(e["a"])
        if c is FALSE: return self.ev(e["b"])
        env0 = self.env
        self.env = dict(env0); a = self.ev(e["a"]); enva = self.env
        self.env = dict(env0); b = self.ev(e["b"]); envb = self.env
        self.env = merge_env(c, enva, envb)
        return choose(c, a, b)
    def ev_idx(self, e):
        lv = self.lv(e)
        return self.rd(lv, e)
    def ev_cast(self, e):
        ck = e["ck"]
        v = self.ev(e["a"])
        return self.cast(ck, v, e.get("from"), e["t"], e)
    def cast(self, ck, v, frm, to, e=None):
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "MemberPointerToBoolean"): return tobool(v)
        if ck == "FloatingToIntegral": return trunc(v)
        if ck in ("IntegralCast", "IntegralToFloating"):
            v = b2i(v)
            if ck == "IntegralCast" and frm == "i" and to == "u":
                return unsv(v)
            if ck == "IntegralCast" and frm == "u" and to == "i":
                return lift(lambda x: x.args[0] if x.op == "uns" else x, v)
            return v
        if ck == "Dynamic": return lift(lambda x: x if x is NULL else T_("dyncast", x, e["ty"]) if False else x, v)
        if ck in ("BooleanToSignedIntegral",): return b2i(v)
        return v
    def ev_lambda(self, e):
        self.ntmp += 1
        t = T_("lam", e["f"], self.ntmp)
        fr = self.frames[-1]
        caps = {}
        for c in e["caps"]:
            if c.get("this"): caps["this"] = self.ev_this(None)
            elif "init" in c:
                r = self.newtmp(self.ev(c["init"]), "cap"); caps[c["id"]] = LV(r)
            elif c["ref"]: 
                if c["id"] in fr: caps[c["id"]] = fr[c["id"]]
            else:
                if c["id"] in fr: caps[c["id"]] = LV(self.newtmp(self.get(fr[c["id"]]), "cap"))
        self.lams[t] = (e, caps)
        return t
    def ev_new(self, e):
        p = self.newptr(stripref(e["ty"]).rstrip("* ") if "ty" in e else "?")
        if "n" in e:
            n = self.ev(e["n"])
            self.heapinit[p] = T_("resized", ZERO, n)
            return p
        r = T_("H", p)
        v = self.ev(e["init"]) if "init" in e else self.default(e["ty"])
        return self.newobj(p, v)
    def newptr(self, ty):
        """identity of a fresh heap object: numbered per type along the current path, so that allocations on exclusive branches do not count each other"""
        k = 1 + max([r.args[0].args[0] for r in self.env if r.op == "H" and r.args[0].op == "new" and r.args[0].args[1] == ty], default=0)
        return T_("new", max(k, self.nnew + 1), ty)
    def newobj(self, p, v):
        if self.loopdepth:
            # the contents are part of the identity of an object made in a loop (the analysis keeps no per-iteration heap)
            p = T_("new", p.args[0], p.args[1], v)
            self.nnew = max(self.nnew, p.args[0])
        self.env[T_("H", p)] = v
        return p
    def ev_delete(self, e):
        v = self.ev(e["a"]); c = eq(v, NULL)      # deleting a null pointer does nothing
        if c is FALSE: self.event("delete", v)
        elif c is not TRUE:
            env0 = dict(self.env); self.event("delete", v)
            self.env = merge_env(c, env0, self.env)
        return VOID
    def ev_throw(self, e):
        v = T_("exc", e.get("ty", "?"))
        self.raise_(TRUE, v)
        return UNDEF
    def raise_(self, g, v, env=None):
        self.throws.append((g, dict(env if env is not None else self.env), v))
    def ev_unk(self, e):
        if e.get("d") in ("ExprWithCleanups", "CXXFunctionalCastExpr", "ConstantExpr") and e["a"]: return self.ev(e["a"][0])
        return self.unk("expr " + str(e.get("d")), e)

    # ------------------------------------------------------------------ construction
    def recty(self, ty):
        ty = stripref(ty)
        return self.db.recs.get(ty)
    def all_fields(self, r):
        out = [x for b in r["bases"] for q in [self.recty(b)] if q for x in self.all_fields(q)]
        return out + [x["n"] for x in r["fields"]]
    def default(self, ty, zero=False):
        ty = stripref(ty)
        n = eig_n(ty)
        if n: return T_("vec", *[UNDEF] * n)
        c = tcat(ty)
        if c != "r":
            return self.zero(ty) if zero else UNDEF
        m = re.match(r"^(.*)\[(\d+)\]$", ty)
        if m:
            k = int(m.group(2))
            return T_("lit", *[self.default(m.group(1).strip(), zero)] * k) if k <= 64 else T_("resized", ZERO, num(k))
        if ty.startswith(("std::vector", "std::deque", "std::map", "std::unordered_map", "std::unordered_set", "std::set", "std::priority_queue", "std::queue", "std::list", "pcl::PointCloud<")):
            if ty.startswith("pcl::PointCloud<"):
                return rec(UNDEF, {"points": NIL, "header": self.default("pcl::PCLHeader"), "width": ZERO, "height": ZERO, "is_dense": TRUE})
            return NIL
        if ty.startswith("std::basic_string"): return T_("str", "")
        if ty.startswith(("std::unique_ptr", "std::shared_ptr", "boost::shared_ptr")): return NULL
        if ty in ("ros::Time", "ros::Duration", "ros::WallTime", "ros::WallDuration"): return ZERO
        m = re.match(r"^(?:std|boost)::array<(.*), (\d+)>$", ty)
        if m:
            k = int(m.group(2))
            return T_("lit", *[self.default(m.group(1), zero)] * k) if k <= 64 else T_("resized", ZERO, num(k))
        m = re.match(r"^std::pair<(.*)>$", ty)
        if m:
            a = split_targs(m.group(1))
            if len(a) == 2: return rec(UNDEF, {"first": self.zero(a[0]), "second": self.zero(a[1])})
        if EIG_DYN.match(ty): return T_("resized", ZERO, ZERO, ZERO)
        if ty.startswith("Eigen::Quaternion"): return rec(UNDEF, {})if False else T_("undefq")
        r = self.recty(ty)
        if r is None: return T_("default", ty)
        d = {}
        cf = self.default_ctor(r)
        if cf is not None: return self.construct(cf, [], ty)
        return self.default_fields(r, zero)
    def default_ctor(self, r):
        for m in r["methods"]:
            f = self.db.fns.get(m["f"])
            if f and f.get("kind") == "ctor" and not f["params"]: return f
        return None
    def default_fields(self, r, zero=False):
        d = {}
        base = UNDEF
        for b in r["bases"]:
            bv = self.default(b, zero)
            if bv.op == "rec": d.update(dict(bv.args[1]))
            elif bv.op not in ("undef", "default"): base = bv
        for f in r["fields"]:
            if "init" in f:
                self.push_frame(None)
                try: v = self.ev(f["init"])
                finally: self.pop_frame()
            else: v = self.default(f["ty"], zero)
            d[f["n"]] = v
        return rec(base, d)
    def construct(self, f, args, ty, lvs=None):
        """run user constructor f on a fresh object; returns its value"""
        obj = self.newtmp(UNDEF, "obj")
        self.call_fn(f, args, this=T_("addr", obj, ()), lvs=lvs)
        v = self.env.pop(obj)
        return v
    def ev_ctor(self, e):
        from lib import ctor
        return ctor(self, e)
    def ev_ilist(self, e):
        ty = e["ty"]
        vals = [self.ev(a) for a in e["a"]]
        if "fields" in e and e["fields"] is not None and e.get("cls"):
            r = self.recty(ty)
            d = {}
            for f, v in zip(e["fields"], vals):
                if f.startswith("<base>"):
                    if v.op == "rec": d.update(dict(v.args[1]))
                else: d[f] = v
            if "array" in ty and len(vals) == 1 and len(e["fields"]) == 1: return vals[0]
            return rec(UNDEF, d)
        if "n" in e:
            n = e["n"]
            if n > 256: return T_("matc", T_("resized", ZERO, num(n)), vals[0] if vals else ZERO)
            fill = self.ev(e["filler"]) if e.get("filler") else None
            if len(vals) < n and fill is None: fill = UNDEF
            return T_("lit", *(vals + [fill] * (n - len(vals))))
        if tcat(ty) != "r" and len(vals) == 1: return vals[0]
        if tcat(ty) != "r" and not vals: return self.zero(ty)
        return T_("lit", *vals)

    # ------------------------------------------------------------------ calls
    def ev_opcall(self, e):
        from lib import opcall
        return opcall(self, e)
    def ev_mcall(self, e):
        from lib import mcall
        return mcall(self, e)
    def ev_call(self, e):
        from lib import call
        return call(self, e)
    def lib_oplv(self, e):
        from lib import oplv
        return oplv(self, e)
    def lib_mlv(self, e):
        from lib import mlv
        return mlv(self, e)
    def lib_calllv(self, e):
        from lib import calllv
        return calllv(self, e)

    def call_fn(self, f, args, this=None, lvs=None, wantlv=False):
        """inline a repo function: args values; lvs: list of LV or None per arg (for reference params)"""
        name = f["n"]
        self.inlined.add(f["id"])
        self.stats["calls"] += 1
        if self.callstack.count(f["id"]) >= 2 or len(self.callstack) > 60:
            return self.opaque_call(f, args, this, lvs)
        self.callstack.append(f["id"])
        self.push_frame(f)
        fr = self.frames[-1]
        if this is not None: fr["this"] = this
        try:
            for i, p in enumerate(f["params"]):
                if p.get("ref") and lvs and i < len(lvs) and lvs[i] is not None: fr[p["id"]] = lvs[i]
                else:
                    self.local(p["id"], args[i] if i < len(args) else UNDEF)
            saved = self.throws
            self.throws = []
            if f.get("kind") == "ctor": self.run_inits(f, this)
            prethrow = self.throws
            self.throws = []
            n, exits = self.exec(f["body"])
            self.throws = saved
            for x in prethrow: add_exit(exits, "t", *x)
            return self.finish_call(f, n, exits)
        finally:
            self.pop_frame()
            self.callstack.pop()
    def finish_call(self, f, n, exits):
        r = exits.get("r"); t = exits.get("t")
        if r is not None:
            if n is FALSE: self.env = r.env; val = r.val
            else:
                self.env = merge_env(r.g, r.env, self.env); val = r.val
        else: val = VOID
        if t is not None:
            if self.throws is None: self.throws = []
            self.throws.append((t.g, t.env, t.val))
            if t.g is TRUE: val = UNDEF
        return val if val is not None else VOID
    def run_inits(self, f, this):
        tlv = self.deref(this)
        done = set()
        for i in f.get("inits", []):
            if "base" in i:
                e = i["e"]
                b = i["base"]
                if e and e["k"] == "ctor":
                    cf = self.db.fns.get(e["f"])
                    if cf:
                        lvs = [self.lv(a) for a in e["a"]]
                        vals = [self.get(l) if l is not None else self.ev(a) for l, a in zip(lvs, e["a"])]
                        self.call_fn(cf, vals, this=this, lvs=lvs)
                    elif (e.get("copy") or e.get("move")) and len(e["a"]) == 1:
                        bv = self.ev(e["a"][0])
                        r = self.recty(b)
                        if r:
                            for n in self.all_fields(r): self.put(tlv.sub(("f", n)), fld(bv, n))
                    else:
                        r = self.recty(b)
                        if r:
                            bv = self.default_fields(r)
                            cur = self.get(tlv)
                            if bv.op == "rec": self.put(tlv, rec(cur, dict(bv.args[1])))
            elif i.get("deleg"):
                v = self.ev(i["e"])
                self.put(tlv, v)
            elif "f" in i:
                v = self.ev(i["e"]) if i.get("e") else UNDEF
                self.put(tlv.sub(("f", i["f"])), v)
        return
    def opaque_call(self, f, args, this=None, lvs=None):
        name = f["n"]
        self.opq.add(name)
        av = list(args)
        tv = None
        if f.get("cls") and not f.get("static") and this is not None and f.get("kind") != "ctor":
            tv = self.get(self.deref(this))
        mode = self.opaque.get(name)
        if mode == "event":
            self.event(name, T_("args", *av)); return typed(T_("ret", name, NIL, *av), f["ret"], f["rt"])
        const = tv is not None and (f.get("const") or mode in ("pure", "constthis"))
        keep = {}
        eff = effects(self.db, f)
        obj = []
        if tv is not None and mode != "args":
            ptrs = {}
            if not eff.all:
                for x, other in sorted(eff.fields.items()):
                    if other: continue
                    keep[x] = fld(tv, x)
                    # what the object points to is part of what the call sees
                    for _, r_, q_ in self.deref(keep[x]).alts if keep[x].op not in ("undef", "null") else ():
                        if r_.op == "H" and not q_: ptrs[r_] = x
            obj = [rec(UNDEF, {x: fld(tv, x) for x in eff.fields})] if not eff.all else [tv]
            obj += [self.env[r_] for r_, x in sorted(ptrs.items(), key=lambda z: z[1]) if r_ in self.env]
        base = obj + av
        if tv is not None and mode != "args" and not const and not eff.all and not eff.events and not eff.w and not ptrs: const = True      # it changes nothing
        if tv is not None and not const and mode != "args":
            lv = self.deref(this)
            nv = mkraw("mut", name, *base)
            for r_, x in ptrs.items(): self.env[r_] = mkraw("mut", name + "->" + x, *base)
            self.put(lv, rec(nv, keep) if eff.all else rec(tv, {x: fld(nv, x) for x in eff.w - set(keep)}))
            if f.get("cls") not in QUIET: self.event("call " + name, T_("args", *av))
        elif eff.events: self.event("call " + name, T_("args", *base))
        if mode != "pure":
            for i, p in enumerate(f["params"]):
                if p.get("ref") and not p.get("cref") and not p.get("rref") and lvs and lvs[i] is not None:
                    self.put(lvs[i], typed(mkraw("out", name, num(i), *base), p["ty"], p["t"]))
        return typed(mkraw("call", name, *base), f["ret"], f["rt"]) if f["rt"] != "v" else VOID
    def resolve_virtual(self, fid, name, cls):
        """most derived override for the analysed dynamic class"""
        if not self.dyncls: return None
        m = name.rsplit("::", 1)[-1]
        c = self.dyncls
        seen = set()
        while c and c not in seen:
            seen.add(c)
            cand = [x for x in self.db.byname.get(c + "::" + m, [])]
            if cand: return cand[0]
            r = next((x for x in self.db.recs.values() if x["n"] == c), None)
            c = r["bases"][0] if r and r["bases"] else None
            if c: c = re.sub(r"<.*", "", c)
        return None
    def call_lam(self, t, args, lvs=None):
        e, caps = self.lams[t]
        self.callstack.append(e["f"])
        self.push_frame(None)
        fr = self.frames[-1]
        fr.update(caps)
        try:
            body = e.get("body"); params = e["params"]
            if body is None:
                return self.unk("generic lambda")
            for i, p in enumerate(params):
                if p.get("ref") and lvs and lvs[i] is not None: fr[p["id"]] = lvs[i]
                else: self.local(p["id"], args[i] if i < len(args) else UNDEF)
            saved = self.throws; self.throws = []
            n, exits = self.exec(body)
            self.throws = saved
            return self.finish_call(None, n, exits)
        finally:
            self.pop_frame(); self.callstack.pop()

    # ------------------------------------------------------------------ statements
    def exec(self, s):
        """-> (guard of normal completion, exits).  self.env is the normal-completion environment."""
        if s is None: return TRUE, {}
        self.stats["stmts"] += 1
        m = getattr(self, "st_" + s["k"], None)
        saved = self.throws
        self.throws = []
        if m is None:
            self.unk("stmt " + s["k"]); n, ex = TRUE, {}
        else: n, ex = m(s)
        th = self.throws; self.throws = saved
        if th:
            # expression-level exceptions happen before the rest of the statement's effects
            tg = OR(*[g for g, _, _ in th])
            ex2 = {}
            for g, env, v in th: add_exit(ex2, "t", g, env, v)
            ng = NOT(tg)
            for k, x in ex.items(): add_exit(ex2, k, AND(ng, x.g), x.env, x.val)
            return AND(ng, n), ex2
        return n, ex
    def seq_exec(self, stmts):
        exits = {}
        N = TRUE
        for s in stmts:
            n, ex = self.exec(s)
            for k, x in ex.items(): add_exit(exits, k, AND(N, x.g), x.env, x.val)
            N = AND(N, n)
            if N is FALSE: break
        return N, exits
    def st_comp(self, s): return self.seq_exec(s["b"])
    def st_null(self, s): return TRUE, {}
    def st_expr(self, s):
        self.ev(s["e"]); return TRUE, {}
    def st_decl(self, s):
        for v in s["vars"]: self.declare(v)
        return TRUE, {}
    def declare(self, v):
        if v.get("static"):
            g = T_("G", "static:" + v["n"])
            self.bind(v["id"], LV(g)); return
        if v.get("bindings"):
            lv = None
            if v.get("ref"): lv = self.lv(v["init"])
            if lv is None: lv = LV(self.newtmp(self.ev(v["init"])))
            base = v["ty"]
            names = self.binding_names(v)
            for b, n in zip(v["bindings"], names): self.bind(b["id"], lv.sub(("f", n)))
            return
        if v.get("ref") and "init" in v:
            lv = self.lv(v["init"])
            if lv is None: lv = LV(self.newtmp(self.ev(v["init"])))
            self.bind(v["id"], lv)
            return
        if "init" in v and v["init"] is not None:
            val = self.ev(v["init"])
        else: val = self.default(v["ty"])
        n = eig_n(stripref(v["ty"]))
        if n and val.op != "vec" and val is not UNDEF: val = T_("vec", *[vget(val, i) for i in range(n)])
        if n and val is UNDEF: val = T_("vec", *[UNDEF] * n)
        lv = self.local(v["id"], val)
        self.ctypes[(lv.alts[0][1], ())] = v["t"], v["ty"]
    def binding_names(self, v):
        ty = stripref(v["ty"])
        if ty.startswith("std::pair"): return ["first", "second"]
        if ty.startswith("std::tuple"): return [str(i) for i in range(len(v["bindings"]))]
        r = self.recty(ty)
        if r: return [f["n"] for f in r["fields"]]
        return ["first", "second"] if len(v["bindings"]) == 2 else [str(i) for i in range(len(v["bindings"]))]
    def branch(self, c, fa, fb):
        if c is TRUE: return fa()
        if c is FALSE: return fb()
        env0 = self.env
        ea, eb = known(env0, c), known(env0, NOT(c))
        self.env = dict(ea); na, xa = fa(); enva = self.env
        self.env = dict(eb); nb, xb = fb(); envb = self.env
        exits = {}
        def merge_env(c, a, b):
            back = {r: env0[r] for r in env0 if (ea[r] is not env0[r] or eb[r] is not env0[r]) and a.get(r) is ea[r] and b.get(r) is eb[r]}
            return merge(c, {**a, **back}, {**b, **back}) if back else merge(c, a, b)
        for k in set(xa) | set(xb):
            a, b = xa.get(k), xb.get(k)
            if a and b:
                v = a.val if a.val is b.val else ite(c, a.val if a.val is not None else VOID, b.val if b.val is not None else VOID)
                exits[k] = Exit(ite(c, a.g, b.g), merge_env(c, a.env, b.env), v)
            elif a: exits[k] = Exit(AND(c, a.g), a.env, a.val)
            else: exits[k] = Exit(AND(NOT(c), b.g), b.env, b.val)
            if exits[k].g is FALSE: del exits[k]
        if na is FALSE: self.env = envb
        elif nb is FALSE: self.env = enva
        else: self.env = merge_env(c, enva, envb)
        return ite(c, na, nb), exits
    def st_if(self, s):
        if s.get("init"): self.exec(s["init"])
        if s.get("cv"): self.declare(s["cv"])
        c = tobool(self.ev(s["c"]))
        return self.branch(c, lambda: self.exec(s["a"]), lambda: self.exec(s.get("b")))
    def st_ret(self, s):
        v = VOID
        if s.get("e"):
            v = None
            f = self.frames[-1].get("fn")
            if f and f.get("rref"):
                lv = self.lv(s["e"])
                if lv is not None: v = T_("lvref", self.addr_of(lv)); 
            if v is None: v = self.ev(s["e"])
        return FALSE, {"r": Exit(TRUE, dict(self.env), v)}
    def st_brk(self, s): return FALSE, {"b": Exit(TRUE, dict(self.env))}
    def st_cont(self, s): return FALSE, {"c": Exit(TRUE, dict(self.env))}
    def st_switch(self, s):
        if s.get("init"): self.exec(s["init"])
        v = b2i(self.ev(s["c"]))
        items = []  # ('label', value|None) or stmt
        def flat(st):
            if st["k"] == "comp":
                for x in st["b"]: flat1(x)
            else: flat1(st)
        def flat1(x):
            while x is not None and x["k"] in ("case", "default"):
                items.append(("L", x.get("v") if x["k"] == "case" else None)); x = x["b"]
            if x is not None: items.append(("S", x))
        flat(s["b"])
        entries = []; used = FALSE; default_at = None
        i = 0
        pend = FALSE; isdef = False; start = None
        for i, it in enumerate(items):
            if it[0] == "L":
                if start is None: start = i
                if it[1] is None: isdef = True
                else: pend = OR(pend, eq(v, self.ev(it[1]), True))
            if it[0] == "L" and (i + 1 == len(items) or items[i + 1][0] == "S"):
                entries.append([i + 1, pend, isdef]); used = OR(used, pend); pend = FALSE; isdef = False; start = None
        exits = {}
        env0 = self.env
        dflt = NOT(used)
        nG = FALSE; nEnv = None
        anydef = False
        for pos, g, isd in entries:
            if isd: g = OR(g, dflt); anydef = True
            if g is FALSE: continue
            self.env = dict(env0)
            n, ex = self.seq_exec([x[1] for x in items[pos:] if x[0] == "S"])
            b = ex.pop("b", None)
            if b is not None:
                if n is FALSE: n, self.env = b.g, b.env
                else: self.env = merge_env(b.g, b.env, self.env); n = OR(b.g, n)
            for k, x in ex.items(): add_exit(exits, k, AND(g, x.g), x.env, x.val)
            if n is not FALSE:
                gn = AND(g, n)
                nEnv = self.env if nEnv is None else merge_env(nG, nEnv, self.env)
                nG = OR(nG, gn)
        if not anydef and dflt is not FALSE:
            nEnv = env0 if nEnv is None else merge_env(nG, nEnv, env0)
            nG = OR(nG, dflt)
        self.env = nEnv if nEnv is not None else dict(env0)
        return nG, exits
    def st_try(self, s):
        n, ex = self.exec(s["b"])
        t = ex.pop("t", None)
        if t is None: return n, ex
        # all handlers considered one: dispatch on nothing (first handler)
        nenv = self.env
        self.env = dict(t.env)
        self.push_catch(s["h"][0])
        hn, hx = self.exec(s["h"][0]["b"])
        for k, x in hx.items(): add_exit(ex, k, AND(t.g, x.g), x.env, x.val)
        if n is FALSE: return AND(t.g, hn), ex
        if hn is FALSE: self.env = nenv; return n, ex
        self.env = merge_env(t.g, self.env, nenv)
        return OR(n, AND(t.g, hn)), ex
    def push_catch(self, h):
        if h.get("var"): self.local(h["var"]["id"], T_("excval", h["var"]["ty"]))
    def st_for(self, s):
        if s.get("init"): self.exec(s["init"])
        return self.loop(lambda: tobool(self.ev(s["c"])) if s.get("c") else TRUE, lambda: self.exec(s["b"]),
                         (lambda: self.ev(s["inc"])) if s.get("inc") else None)
    def st_while(self, s):
        def c():
            if s.get("cv"): self.declare(s["cv"])
            return tobool(self.ev(s["c"]))
        return self.loop(c, lambda: self.exec(s["b"]), None)
    def st_do(self, s):
        # body; while(c) body
        first = [True]
        n, ex = self.exec(s["b"])
        b = ex.pop("b", None); c = ex.pop("c", None)
        if c is not None:
            if n is FALSE: n, self.env = c.g, c.env
            else: self.env = merge_env(c.g, c.env, self.env); n = OR(n, c.g)
        exits = dict(ex)
        N = n; out = FALSE; oenv = None
        if b is not None: out, oenv = b.g, b.env
        if n is not FALSE:
            n2, ex2 = self.loop(lambda: tobool(self.ev(s["c"])), lambda: self.exec(s["b"]), None)
            for k, x in ex2.items(): add_exit(exits, k, AND(N, x.g), x.env, x.val)
            if oenv is not None: self.env = merge_env(out, oenv, self.env)
            return OR(out, AND(N, n2)), exits
        if oenv is not None: self.env = oenv
        return out, exits
    def st_rfor(self, s):
        from lib import range_for
        return range_for(self, s)
    def loop(self, cond, body, inc):
        from loops import loop
        return loop(self, cond, body, inc)

def mkraw(op, name, *args):
    try:
        p = 1
        for a in args: p *= nleaves(a)
        return lift(lambda *xs: T_(op, name, *xs), *args) if p <= 8 else T_(op, name, *args)
    except TooBig: return T_(op, name, *args)
ATOMIC_NUM.update({"call", "mut", "out", "mr", "mc", "unk", "mval", "mkey", "popped"})
CTOR["call"] = lambda n, *a: mkraw("call", n, *a)
CTOR["mut"] = lambda n, *a: mkraw("mut", n, *a)
CTOR["out"] = lambda n, *a: mkraw("out", n, *a)
CTOR["mc"] = lambda n, *a: mkraw("mc", n, *a)
CTOR["mr"] = lambda n, *a: mkraw("mr", n, *a)
def split_targs(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<(": d += 1
        if ch in ">)": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    out.append(cur.strip())
    return out
