"""Front end for the Python tool: its syntax tree evaluated on the same term domain as the C++ code."""
import ast, re
from term import *
from seq import *
import seq, loops, interp
from interp import Interp, LV, Exit, Unsupported, mkraw, add_exit, merge_env
from db import AnalysisBroken

class NoPy(AnalysisBroken): pass
def bad(n, why): raise NoPy("line %s: %s not supported by the Python front end" % (getattr(n, "lineno", "?"), why))
def S(s): return T_("str", s)
NONE = sym("None")
def code(s): return int.from_bytes(s.encode(), "big")       # distinct strings, distinct numbers
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"}
STRF = {"py.cat", "py.strip", "py.lstrip", "py.rstrip", "py.replace", "py.lastpart", "py.join", "py.str", "py.lower", "py.upper", "py.read"}
def isstr(t): return t.op == "str" or (t.op == "call" and t.args[0] in STRF) or (t.op == "slice" and isstr(t.args[0])) or \
    (t.op == "elt" and t.args[0].op == "call" and t.args[0].args[0] == "py.split")
def f(name, *a): return mkraw("call", name, *a)
def cat(*ps):
    """concatenation, flattened; neighbouring constants joined"""
    def one(*ls):
        out = []
        for l in ls:
            for x in (l.args[1:] if l.op == "call" and l.args[0] == "py.cat" else (l,)):
                if x.op == "str" and out and out[-1].op == "str": out[-1] = S(out[-1].args[0] + x.args[0])
                elif x.op == "str" and not x.args[0]: continue
                else: out.append(x)
        if not out: return S("")
        return out[0] if len(out) == 1 else T_("call", "py.cat", *out)
    r = ps[0] if ps else S("")
    for p in ps[1:]: r = lift(one, r, p)
    return lift(one, r)
def tostr(v):
    def one(l):
        if l.op == "num": return S(str(l.args[0]))
        if l in (TRUE, FALSE): return S("True" if l is TRUE else "False")
        if l.op == "pyfloat": return S(l.args[0])
        if isstr(l): return l
        if l.op in NUMLIKE: return T_("call", "py.str", l)
        return l                     # fields and elements of unknown type: strings in this tool
    return lift(one, v)
def replace(s, a, b):
    """chains of single-character replacements that do not touch each other are put in order"""
    def one(s):
        if a.op == "str" and b.op == "str" and len(a.args[0]) == 1:
            ch = [(a.args[0], b.args[0])]; t = s
            while t.op == "call" and t.args[0] == "py.replace" and t.args[2].op == "str" and t.args[3].op == "str" and len(t.args[2].args[0]) == 1:
                ch.insert(0, (t.args[2].args[0], t.args[3].args[0])); t = t.args[1]
            src = [x for x, _ in ch]
            if not any(x in y for x in src for _, y in ch) and len(set(src)) == len(src):
                for x, y in sorted(ch): t = T_("call", "py.replace", t, S(x), S(y))
                return t
        return f("py.replace", s, a, b)
    return lift(one, s)

class Py(Interp):
    def __init__(self, db, mod, opaque=None, only=None):
        Interp.__init__(self, db, {"noarr": True})
        self.mod = mod; self.pyopq = opaque or set()
        self.usedopq = set(); self.inl = set()
        self.depth = 0
        self.throws = []
        self.trying = 0
    # ------------------------------------------------------------------ names
    def push_py(self, fn):
        self.push_frame(None)
        self.frames[-1]["py"] = fn
    def name_lv(self, n, node):
        fr = self.frames[-1]
        n0, n = n, "$" + n
        if n in fr: return fr[n]
        o = fr.get("outer")
        while o is not None:
            if n in o: return o[n]
            o = o.get("outer")
        if n0 in self.mod.consts:
            return LV(self.newtmp(self.mod.consts[n0]))
        return None
    def store_name(self, n, v):
        fr = self.frames[-1]; n = "$" + n
        lv = fr.get(n)
        if lv is None or n in fr["alias"]: self.local(n, v); fr["alias"].discard(n)
        else: self.put(lv, v)
    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        if isinstance(e, T): return e
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None: bad(e, "expression " + type(e).__name__)
        return m(e)
    def lv(self, e):
        if isinstance(e, ast.Name): return self.name_lv(e.id, e)
        if isinstance(e, ast.Attribute):
            b = self.lv(e.value)
            if b is None: return None
            v = self.get(b)
            if any(l.op == "addr" for l in leaves(v)): b = self.deref(v)
            return b.sub(("f", e.attr))
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            b = self.lv(e.value)
            if b is None: return None
            v = self.get(b)
            if v.op in ("pydict", "call") or isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str): return None
            return b.sub(("e", (self.index(e.slice, v),)))
        return None
    def index(self, s, v):
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub): return sub(size(v), self.ev(s.operand))
        if isinstance(s, ast.Constant) and isinstance(s.value, int) and s.value < 0: return add(size(v), num(s.value))
        return self.ev(s)
    def x_Constant(self, e):
        v = e.value
        if v is True: return TRUE
        if v is False: return FALSE
        if v is None: return NONE
        if isinstance(v, int): return num(v)
        if isinstance(v, float): return T_("pyfloat", repr(v))
        if isinstance(v, str): return S(v)
        bad(e, "constant %r" % (v,))
    def x_Name(self, e):
        lv = self.name_lv(e.id, e)
        if lv is None:
            if e.id in self.mod.funcs or e.id in self.mod.classes: return T_("fnref", e.id)
            return sym("py:" + e.id)
        return self.get(lv)
    def x_Attribute(self, e):
        if isinstance(e.value, ast.Name) and self.name_lv(e.value.id, e) is None: return sym("py:%s.%s" % (e.value.id, e.attr))
        v = self.ev(e.value)
        if any(l.op == "addr" for l in leaves(v)): v = self.get(self.deref(v))
        return fld(v, e.attr)
    def x_Subscript(self, e):
        v = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            if e.slice.step: bad(e, "slice with a step")
            lo = self.index(e.slice.lower, v) if e.slice.lower else ZERO
            hi = self.index(e.slice.upper, v) if e.slice.upper else size(v)
            return self.slice(v, lo, hi)
        if v.op == "pydict" or any(l.op == "pydict" for l in leaves(v)):
            k = self.ev(e.slice)
            return lift(lambda d: self.lookup(d, k, UNDEF), v)
        i = self.index(e.slice, v)
        last = isinstance(e.slice, (ast.UnaryOp, ast.Constant)) and i is add(size(v), num(-1))
        def one(l):
            if l.op == "call" and l.args[0] == "py.split" and last and len(l.args) == 3: return f("py.lastpart", l.args[1], l.args[2])
            return None
        if last and v.op == "call":
            r = one(v)
            if r is not None: return r
        if v.op == "pyrpart":
            if i is num(2): return f("py.lastpart", *v.args)
            bad(e, "part of rpartition")
        return elt(v, (i,))
    def slice(self, v, lo, hi):
        def one(l):
            if l.op == "slice": return T_("slice", l.args[0], add(l.args[1], lo), add(l.args[1], hi))
            if lo is ZERO and hi is size(l): return l
            return T_("slice", l, lo, hi)
        return lift(one, v)
    def lookup(self, d, k, dflt):
        if d.op != "pydict": raise NoPy("lookup in an unknown mapping")
        r = dflt
        for kk, vv in reversed(d.args[0]): r = ite(self.eqv(k, kk), vv, r)
        return r
    def x_Dict(self, e):
        if any(k is None for k in e.keys): bad(e, "** in a dict")
        return T_("pydict", tuple((self.ev(k), self.ev(v)) for k, v in zip(e.keys, e.values)))
    def x_List(self, e):
        r = NIL
        for x in e.elts:
            if isinstance(x, ast.Starred): r = appseq(r, self.ev(x.value))
            else: r = app(r, self.ev(x))
        return r
    def x_Tuple(self, e): return T_("vec", *[self.ev(x) for x in e.elts])
    def x_JoinedStr(self, e):
        ps = []
        for x in e.values:
            if isinstance(x, ast.Constant): ps.append(S(x.value))
            else:
                if x.format_spec or x.conversion not in (-1, 115): bad(e, "format specification")
                ps.append(tostr(self.ev(x.value)))
        return cat(*ps)
    def x_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        if c is TRUE: return self.ev(e.body)
        if c is FALSE: return self.ev(e.orelse)
        env0 = self.env
        self.env = dict(env0); a = self.ev(e.body); ea = self.env
        self.env = dict(env0); b = self.ev(e.orelse); eb = self.env
        self.env = merge_env(c, ea, eb)
        return choose(c, a, b)
    def truth(self, v):
        def one(l):
            if l in (TRUE, FALSE): return l
            if l is NONE: return FALSE
            if l.op == "str": return TRUE if l.args[0] else FALSE
            if l.op == "num": return TRUE if l.args[0] != 0 else FALSE
            if isstr(l) or l.op in ("slice", "nil", "app", "lit", "appall", "fold", "call", "gen", "coll"): return NOT(eq(size(l), ZERO, True)) if l.op != "call" or l.args[0].startswith("py") else tobool(l)
            if l.op in ("rec", "addr"): return TRUE
            if l.op in NUMLIKE: return NOT(eq(l, ZERO, True))
            if l.op in ("sym", "fld", "elt", "bv"): return NOT(eq(size(l), ZERO, True))      # strings and lists of unknown content
            return tobool(l)
        return lift(one, v)
    def x_BoolOp(self, e):
        # values only used as conditions in this tool, except 'x or default'
        vals = e.values
        is_and = isinstance(e.op, ast.And)
        v = self.ev(vals[0])
        for nx in vals[1:]:
            c = self.truth(v)
            if c is (FALSE if is_and else TRUE): return v
            g = c if is_and else NOT(c)
            env0 = dict(self.env)
            n0 = len(self.throws)
            w = self.ev(nx)
            for i in range(n0, len(self.throws)): self.throws[i] = (AND(g, self.throws[i][0]),) + self.throws[i][1:]
            self.env = merge_env(g, self.env, env0)
            if all(l in (TRUE, FALSE) for l in leaves(v)) and all(l in (TRUE, FALSE) for l in leaves(w)): v = AND(v, w) if is_and else OR(v, w)
            else: v = ite(c, w, v) if is_and else ite(c, v, w)
        return v
    def x_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not): return NOT(self.truth(v))
        if isinstance(e.op, ast.USub): return neg(v)
        bad(e, "operator")
    def x_Compare(self, e):
        r = TRUE
        a = self.ev(e.left)
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x)
            r = AND(r, self.cmp(op, a, b, e)); a = b
        return r
    def cmp(self, op, a, b, e):
        if isinstance(op, (ast.Eq, ast.Is)): return self.eqv(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)): return NOT(self.eqv(a, b))
        if isinstance(op, ast.Lt): return lt(a, b)
        if isinstance(op, ast.Gt): return lt(b, a)
        if isinstance(op, ast.LtE): return le(a, b)
        if isinstance(op, ast.GtE): return le(b, a)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(a, b, e)
            return c if isinstance(op, ast.In) else NOT(c)
        bad(e, "comparison")
    def eqv(self, a, b):
        def one(x, y):
            if x.op == "str" and y.op == "str": return TRUE if x is y else FALSE
            if x.op == "str": x, y = y, x
            if y.op == "str" and not y.args[0]: return eq(size(x), ZERO, True)
            if NONE in (x, y) and (x.op == "addr" or y.op == "addr" or x.op in ("str", "num", "rec", "call") or y.op in ("str", "num", "rec", "call")): return FALSE
            if y in (TRUE, FALSE) or x in (TRUE, FALSE): return eq(b2i(x), b2i(y), True)
            if y.op == "str" and (isstr(x) or x.op in ("sym", "fld", "elt", "slice", "call")):
                c = T_("call", "py.code", x); INTS.add(c)
                return eq(c, num(code(y.args[0])), True)
            return eq(x, y, True if x.op in NUMLIKE or y.op in NUMLIKE else None)
        return lift(one, a, b)
    def contains(self, a, b, e):
        if b.op == "vec": return OR(*[self.eqv(a, x) for x in b.args])
        l = []
        x = b
        while x.op == "app": l.append(x.args[1]); x = x.args[0]
        if x.op == "nil" and l: return OR(*[self.eqv(a, y) for y in l])
        if b.op == "lit": return OR(*[self.eqv(a, y) for y in b.args])
        if b.op == "pydict": return OR(*[self.eqv(a, k) for k, _ in b.args[0]])
        if b.op == "str" and len(b.args[0]) > 1 and a.op == "elt": return OR(*[self.eqv(a, S(c)) for c in b.args[0]])
        return self.found(b, a)
    def found(self, s, k): return lift(lambda s, k: atom(T_("call", "py.has", s, k)), s, k)
    def pos(self, s, k):
        def one(s, k):
            t = T_("call", "py.pos", s, k)
            INTS.add(t); NONNEG.add(t); return t
        return lift(one, s, k)
    def x_BinOp(self, e):
        a = self.ev(e.left)
        if isinstance(e.op, ast.Mod) and any(isstr(l) for l in leaves(a)):
            args = list(e.right.elts) if isinstance(e.right, ast.Tuple) else [e.right]
            return self.percent(a, [self.ev(x) for x in args], e)
        return self.bin(e.op, a, self.ev(e.right), e)
    def bin(self, op, a, b, e):
        if isinstance(op, ast.Add):
            if any(isstr(l) for l in leaves(a)) or any(isstr(l) for l in leaves(b)): return cat(a, b)
            if any(l.op in ("nil", "app", "appall", "lit") for l in leaves(a) + leaves(b)): return appseq(a, b)
            if any(l.op in NUMLIKE for l in leaves(a) + leaves(b)) or (a in INTS and b in INTS): return add(a, b)
            return f("py.add", a, b)
        if isinstance(op, ast.Sub): return sub(a, b)
        if isinstance(op, ast.Mult): return mul(a, b)
        if isinstance(op, (ast.BitOr, ast.BitAnd)) and all(l in (TRUE, FALSE) for l in leaves(a) + leaves(b)): return OR(a, b) if isinstance(op, ast.BitOr) else AND(a, b)
        bad(e, "operator " + type(op).__name__)
    def percent(self, a, vals, e):
        if a.op != "str": bad(e, "computed format string")
        parts = re.split(r"(%s|%d|%%)", a.args[0])
        out = []; vals = list(vals)
        for p in parts:
            if p in ("%s", "%d"): out.append(tostr(vals.pop(0)))
            elif p == "%%": out.append(S("%"))
            elif "%" in p: bad(e, "format string")
            else: out.append(S(p))
        return cat(*out)
    def fmt(self, a, args, kw, e):
        if a.op != "str": bad(e, "computed format string")
        import string
        out = []; n = 0
        for lit, fieldn, spec, conv in string.Formatter().parse(a.args[0]):
            if lit: out.append(S(lit))
            if fieldn is None: continue
            if spec or conv: bad(e, "format specification")
            path = fieldn.split(".")
            if path[0] == "": v = args[n]; n += 1
            elif path[0].isdigit(): v = args[int(path[0])]
            else: v = kw[path[0]]
            for p in path[1:]: v = fld(v, p)
            out.append(tostr(v))
        return cat(*out)
    def comp(self, e, emit):
        """nested generators as loops"""
        fr = dict(self.frames[-1])
        def gen(i):
            if i == len(e.generators): emit(); return TRUE, {}
            g = e.generators[i]
            def body():
                c = TRUE
                for x in g.ifs: c = AND(c, self.truth(self.ev(x)))
                return self.branch(c, lambda: gen(i + 1), lambda: (TRUE, {}))
            return self.over(g.target, g.iter, body, e)
        r = gen(0)
        self.frames[-1].clear(); self.frames[-1].update(fr)
        return r
    def x_ListComp(self, e):
        lv = LV(self.newtmp(NIL))
        self.comp(e, lambda: self.put(lv, app(self.get(lv), self.ev(e.elt))))
        return self.get(lv)
    x_GeneratorExp = x_ListComp
    def quant(self, e, any_):
        r = LV(self.newtmp(FALSE if any_ else TRUE))
        def emit():
            c = self.truth(self.ev(e.elt))
            self.put(r, OR(self.get(r), c) if any_ else AND(self.get(r), c))
        self.comp(e, emit)
        return self.get(r)
    # ------------------------------------------------------------------ calls
    def x_Call(self, e):
        fn = e.func
        kw = {}
        for k in e.keywords:
            if k.arg is None: bad(e, "** in a call")
            kw[k.arg] = k.value
        if any(isinstance(a, ast.Starred) for a in e.args): bad(e, "* in a call")
        if isinstance(fn, ast.Name):
            n = fn.id
            lv = self.name_lv(n, e)
            if lv is not None:
                v = self.get(lv)
                if v.op != "pylam": bad(e, "call of a computed function")
                return self.call_py(self.lams[v], e.args, kw, e)
            if n in self.mod.funcs: return self.call_py(self.mod.funcs[n], e.args, kw, e)
            if n in self.mod.classes: return self.make(self.mod.classes[n], e.args, kw, e)
            return self.builtin(n, e, kw)
        if isinstance(fn, ast.Attribute): return self.method(fn, e, kw)
        bad(e, "call")
    def builtin(self, n, e, kw):
        a = e.args
        if n == "len": return size(self.ev(a[0]))
        if n in ("any", "all") and isinstance(a[0], (ast.GeneratorExp, ast.ListComp)): return self.quant(a[0], n == "any")
        if n == "str": return tostr(self.ev(a[0]))
        if n == "list" and not a: return NIL
        if n in ("list", "tuple"): return self.ev(a[0])
        if n == "open":
            return T_("pyfile", self.ev(a[0]), self.ev(a[1]) if len(a) > 1 else self.ev(kw["mode"]) if "mode" in kw else S("r"))
        if n in ("exit", "quit"):
            self.raise_(TRUE, T_("exc", "exit", *[self.ev(x) for x in a])); return UNDEF
        if n == "print":
            if kw: bad(e, "print options")
            self.event("print", T_("args", *[tostr(self.ev(x)) for x in a])); return NONE
        if n == "next" and len(a) == 2 and isinstance(a[0], ast.GeneratorExp):
            r = LV(self.newtmp(self.ev(a[1]))); done = LV(self.newtmp(FALSE))
            def emit():
                el = a[0].elt
                v = self.addr_of(self.lv(el)) if isinstance(el, ast.Name) and "$" + el.id in self.frames[-1]["alias"] else self.ev(el)
                d = self.get(done)
                self.put(r, ite(d, self.get(r), v)); self.put(done, TRUE)
            self.comp(a[0], emit)
            return self.get(r)
        if n == "int" and len(a) == 1:
            v = self.ev(a[0]); return lift(lambda l: ONE if l is TRUE else ZERO if l is FALSE else f("py.int", l) if l.op not in NUMLIKE else l, v)
        if n == "bool": return self.truth(self.ev(a[0]))
        if n in ("min", "max") and len(a) == 2: return (vmin if n == "min" else vmax)(self.ev(a[0]), self.ev(a[1]))
        return self.opq_call("py.fn." + n, e, kw)
    def opq_call(self, name, e, kw, *pre):
        """a library function this front end has no model of: uninterpreted"""
        return f(name, *pre, *[self.argval(x) for x in e.args], *[T_("vec", S(k), self.argval(v)) for k, v in sorted(kw.items())])
    def argval(self, x): return T_("pycode", ast.dump(x)) if isinstance(x, ast.Lambda) else self.ev(x)
    def method(self, fn, e, kw):
        m = fn.attr; a = e.args
        if isinstance(fn.value, ast.Name) and self.name_lv(fn.value.id, e) is None:
            full = fn.value.id + "." + m
            if full == "sys.exit": self.raise_(TRUE, T_("exc", "exit", *[self.ev(x) for x in a])); return UNDEF
            return self.opq_call("py.fn." + full, e, kw)
        lv = self.lv(fn.value)
        if m in MUTATORS and lv is None: bad(e, m + " on a temporary")
        o = self.get(lv) if lv is not None else self.ev(fn.value)
        if m == "append": v = self.ev(a[0]); self.put(lv, app(self.get(lv), v)); return NONE
        if m == "extend": v = self.ev(a[0]); self.put(lv, appseq(self.get(lv), v)); return NONE
        if m in MUTATORS: bad(e, "method " + m)
        if any(l.op == "pyfile" for l in leaves(o)):
            if m == "read" and not a: return f("py.read", o)
            if m == "write": self.event("write", T_("args", o, self.ev(a[0]))); return NONE
            if m == "close": return NONE
            bad(e, "file method " + m)
        if o.op == "pydict":
            if m == "get": return self.lookup(o, self.ev(a[0]), self.ev(a[1]) if len(a) > 1 else NONE)
            bad(e, "dict method " + m)
        av = [self.ev(x) for x in a]
        if m == "format": return self.fmt(o, av, {k: self.ev(v) for k, v in kw.items()}, e)
        if kw and not (m in ("split", "rsplit") and set(kw) <= {"maxsplit", "sep"}): bad(e, "keyword arguments of " + m)
        if m in ("split", "rsplit"):
            if "sep" in kw: av.insert(0, self.ev(kw["sep"]))
            if "maxsplit" in kw: av.append(self.ev(kw["maxsplit"]))
            if len(av) == 1: return f("py.split", o, av[0])
            if len(av) == 2 and m == "rsplit": return f("py.split", o, av[0]) if av[1] is num(-1) else T_("pyrsplit", o, *av) if False else self.rsplit(o, av, e)
            if len(av) == 2: return f("py.splitn", o, *av)
            return f("py." + m, o, *av)
        if m == "rpartition": return T_("pyrpart", o, av[0])
        if m in ("index", "find"):
            if len(av) > 1: return self.search_from(o, av, m, e)
            s, k = o, av[0]
            c = self.found(s, k); p = self.pos(s, k)
            if m == "find": return self.under(ite(c, p, num(-1)))
            if self.trying: self.raise_(NOT(c), T_("exc", "ValueError"))
            return p
        if m == "replace": return lift(lambda s: replace(s, av[0], av[1]), o)
        if m == "join": return f("py.join", o, av[0])
        if m == "count": return f("py.count", o, *av)
        if m in ("strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith", "splitlines"):
            r = f("py." + m, o, *av)
            return lift(lambda l: atom(l), r) if m.endswith("swith") else r
        return self.opq_call("py.m." + m, e, kw, o)
    def rsplit(self, o, av, e):
        # only its last part is ever used: same as the last part of split
        if av[1] is ONE: return f("py.split", o, av[0])
        bad(e, "rsplit")
    def search_from(self, o, av, m, e):
        c = atom(T_("call", "py.hasfrom", o, *av)); t = T_("call", "py.posfrom", o, *av)
        INTS.add(t); NONNEG.add(t)
        if m == "find": return self.under(ite(c, t, num(-1)))
        if self.trying: self.raise_(NOT(c), T_("exc", "ValueError"))
        return t
    def bindargs(self, fd, args, kw, e):
        a = fd.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs: bad(e, "argument list")
        names = [x.arg for x in a.args]
        got = {}
        for n, x in zip(names, args): got[n] = x
        for n, x in kw.items(): got[n] = x
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        return names, got, dfl
    def call_py(self, fd, args, kw, e, selfv=None):
        if isinstance(fd, tuple): fd, outer = fd
        else: outer = None
        name = fd.name if hasattr(fd, "name") else "<lambda>"
        names, got, dfl = self.bindargs(fd, ([selfv] if selfv is not None else []) + list(args), kw, e)
        if outer is None and name in self.pyopq and not self.mod.effects(fd):
            vals = [self.ev(got.get(n, dfl.get(n))) for n in names]
            self.usedopq.add(name)
            return f("py:" + name, *vals)
        if self.callstack.count(name) >= 2: bad(e, "recursion")
        stored = {x.id for x in ast.walk(fd) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        mutated = self.mod.mutated(fd)
        bound = {}
        for n in names:
            x = got.get(n, dfl.get(n))
            if x is None: bad(e, "missing argument " + n)
            if isinstance(x, LV): bound[n] = (x, None); continue
            lv = self.lv(x) if not isinstance(x, T) else None
            if n in mutated and lv is not None:
                if n in stored: bad(e, "argument %s both mutated and rebound" % n)
                bound[n] = (lv, None)
            else: bound[n] = (None, self.ev(x))
        self.inl.add(name)
        self.callstack.append(name)
        self.push_py(fd); fr = self.frames[-1]; fr["alias"] = set()
        if outer is not None: fr["outer"] = outer
        try:
            for n, (lv, v) in bound.items():
                n = "$" + n
                if lv is not None: fr[n] = lv; fr["alias"].add(n)
                else: self.local(n, v)
            if isinstance(fd, ast.Lambda): return self.ev(fd.body)
            self.mod.guard(fd)
            saved = self.throws; self.throws = []
            n, ex = self.block(fd.body)
            self.throws = saved
            r = self.finish_call(None, n, ex)
            return NONE if r is VOID else lift(lambda l: NONE if l is VOID else l, r)
        finally:
            self.pop_frame(); self.callstack.pop()
    def make(self, cd, args, kw, e):
        init = next((x for x in cd.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"), None)
        other = [x for x in cd.body if x is not init and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) and not isinstance(x, ast.Pass)]
        if init is None or other or cd.bases or cd.decorator_list: bad(e, "class " + cd.name)
        o = LV(self.newtmp(rec(UNDEF, {})))
        self.call_py(init, args, kw, e, selfv=o)
        return self.get(o)
    def x_Lambda(self, e):
        t = T_("pylam", len(self.lams)); self.lams[t] = (e, self.frames[-1]); return t
    # ------------------------------------------------------------------ statements
    def exec(self, s):
        self.stats["stmts"] += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: bad(s, "statement " + type(s).__name__)
        saved = self.throws; self.throws = []
        n, ex = m(s)
        th = self.throws; self.throws = saved
        if th:
            tg = OR(*[g for g, _, _ in th]); ex2 = {}
            for g, env, v in th: add_exit(ex2, "t", g, env, v)
            ng = NOT(tg)
            for k, x in ex.items(): add_exit(ex2, k, AND(ng, x.g), x.env, x.val)
            return AND(ng, n), ex2
        return n, ex
    def block(self, b):
        # what follows a statement that can leave runs under the condition that it did not
        exits = {}; N = TRUE; pc = self.pc
        try:
            for s in b:
                n, ex = self.exec(s)
                for k, x in ex.items(): add_exit(exits, k, AND(N, x.g), x.env, x.val)
                N = AND(N, n)
                if n is not TRUE: self.pc = AND(self.pc, n)
                if N is FALSE: break
        finally: self.pc = pc
        return N, exits
    pc = TRUE
    def under(self, v):
        """v where control is"""
        fs = conj_facts(self.pc)
        return assume(v, fs, {}) if fs else v
    def branch(self, c, fa, fb):
        pc = self.pc
        def w(c, f):
            def g():
                self.pc = AND(pc, c)
                try: return f()
                finally: self.pc = pc
            return g
        return Interp.branch(self, c, w(c, fa), w(NOT(c), fb))
    def s_Pass(self, s): return TRUE, {}
    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass
    def s_Assert(self, s): return TRUE, {}
    def s_Expr(self, s): self.ev(s.value); return TRUE, {}
    def assign(self, t, v, node=None):
        if isinstance(t, ast.Name): self.store_name(t.id, v); return
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred): bad(t, "starred target")
                self.assign(x, vget(v, i) if v.op == "vec" else f("py.lastpart", *v.args) if v.op == "pyrpart" and i == 2 else UNDEF if v.op == "pyrpart" else elt(v, (num(i),)))
            return
        lv = self.lv(t)
        if lv is None: bad(t, "assignment target")
        self.put(lv, v)
    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets: self.assign(t, v)
        return TRUE, {}
    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value))
        return TRUE, {}
    def s_AugAssign(self, s):
        lv = self.lv(s.target)
        if lv is None: bad(s, "assignment target")
        a = self.get(lv)
        v = self.bin(s.op, a, self.ev(s.value), s)
        if isinstance(s.target, ast.Name): self.store_name(s.target.id, v)
        else: self.put(lv, v)
        return TRUE, {}
    def s_FunctionDef(self, s):
        t = T_("pylam", len(self.lams)); self.lams[t] = (s, self.frames[-1]); self.store_name(s.name, t); return TRUE, {}
    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        return FALSE, {"r": Exit(TRUE, dict(self.env), v)}
    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        return self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))
    def s_Break(self, s):
        for lv in self.brk[-1:]:
            if lv is not None: self.put(lv, TRUE)
        return FALSE, {"b": Exit(TRUE, dict(self.env))}
    def s_Continue(self, s): return FALSE, {"c": Exit(TRUE, dict(self.env))}
    brk = []
    def looped(self, s, run):
        flag = None
        self.predeclare(s)
        if s.orelse:
            flag = LV(self.newtmp(FALSE))
        self.brk = self.brk + [flag]
        try: n, ex = run()
        finally: self.brk = self.brk[:-1]
        if not s.orelse: return n, ex
        n2, ex2 = self.branch(self.truth(self.get(flag)), lambda: (TRUE, {}), lambda: self.block(s.orelse))
        for k, x in ex2.items(): add_exit(ex, k, AND(n, x.g), x.env, x.val)
        return AND(n, n2), ex
    def predeclare(self, s):
        """names first assigned inside a loop live in the function's frame"""
        fr = self.frames[-1]
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and "$" + x.id not in fr: self.local("$" + x.id, UNDEF)
    def s_While(self, s):
        return self.looped(s, lambda: self.loop(lambda: self.truth(self.ev(s.test)), lambda: self.block(s.body), None))
    def s_For(self, s):
        names = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        fr = self.frames[-1]
        def run(): return self.over(s.target, s.iter, lambda: self.block(s.body), s)
        def go():
            for n in names: fr.pop("$" + n, None)
            return run()
        body = {x.id for b in s.body + s.orelse for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if names & body: bad(s, "loop variable assigned in the body")
        r = self.looped2(s, go, names)
        return r
    def looped2(self, s, go, names):
        fr = self.frames[-1]
        for b in s.body + s.orelse:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and "$" + x.id not in fr and x.id not in names: self.local("$" + x.id, UNDEF)
        flag = LV(self.newtmp(FALSE)) if s.orelse else None
        self.brk = self.brk + [flag]
        try: n, ex = go()
        finally: self.brk = self.brk[:-1]
        if not s.orelse: return n, ex
        n2, ex2 = self.branch(self.truth(self.get(flag)), lambda: (TRUE, {}), lambda: self.block(s.orelse))
        for k, x in ex2.items(): add_exit(ex, k, AND(n, x.g), x.env, x.val)
        return AND(n, n2), ex
    def over(self, target, it, body, node):
        """for target in it: body"""
        fr = self.frames[-1]
        def bindv(t, lv, v):
            if isinstance(t, ast.Name):
                n = "$" + t.id
                if lv is not None: fr[n] = lv; fr["alias"].add(n)
                else: fr["alias"].discard(n); self.local(n, v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                v = v if v is not None else self.get(lv)
                for i, x in enumerate(t.elts): bindv(x, None, vget(v, i) if v.op == "vec" else elt(v, (num(i),)))
            else: bad(node, "loop target")
        def one(x):
            """-> (length, k -> (lv, value))"""
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and self.name_lv(x.func.id, x) is None:
                n = x.func.id
                if n == "range":
                    a = [self.ev(y) for y in x.args]
                    if len(a) == 1: return vmax(a[0], ZERO), lambda k: (None, k)
                    if len(a) == 2: return vmax(sub(a[1], a[0]), ZERO), lambda k: (None, add(a[0], k))
                    bad(x, "range with a step")
                if n in ("iter", "list", "tuple") and len(x.args) == 1: return one(x.args[0])
            lv = self.lv(x)
            if lv is None: lv = LV(self.newtmp(self.ev(x)))
            v = self.get(lv)
            if v.op == "vec":
                return num(len(v.args)), lambda k: (lv.sub(("e", (k,))), None)
            if v.op == "pydict": bad(x, "iteration over a dict")
            return size(v), lambda k: (lv.sub(("e", (k,))), None)
        if isinstance(it, (ast.Tuple, ast.List)):
            vals = [self.ev(x) for x in it.elts]
            t = T_("lit", *vals)
            lv = LV(self.newtmp(t))
            n, el = num(len(vals)), lambda k: (lv.sub(("e", (k,))), None)
            def b(k): bindv(target, *el(k)); return body()
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate":
            n, el = one(it.args[0])
            start = self.ev(it.args[1]) if len(it.args) > 1 else ZERO
            def b(k):
                if not isinstance(target, ast.Tuple): bad(node, "loop target")
                bindv(target.elts[0], None, add(k, start)); bindv(target.elts[1], *el(k)); return body()
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip":
            parts = [one(x) for x in it.args]
            n = parts[0][0]
            for q, _ in parts[1:]: n = vmin(n, q)
            def b(k):
                for t, (_, el) in zip(target.elts, parts): bindv(t, *el(k))
                return body()
        else:
            n, el = one(it)
            def b(k): bindv(target, *el(k)); return body()
        return loops.counted_stmt(self, n, b)
    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None: self.assign(it.optional_vars, v)
        return self.block(s.body)
    def s_Raise(self, s):
        self.raise_(TRUE, T_("exc", ast.dump(s.exc) if s.exc else "")); return TRUE, {}
    def s_Try(self, s):
        if s.finalbody or len(s.handlers) != 1: bad(s, "try")
        h = s.handlers[0]
        if not (h.type is None or isinstance(h.type, ast.Name) and h.type.id in ("ValueError", "Exception")): bad(s, "handler")
        self.trying += 1
        try: n, ex = self.block(s.body)
        finally: self.trying -= 1
        t = ex.pop("t", None)
        if s.orelse:
            N0 = n
            n2, ex2 = self.block(s.orelse)
            for k, x in ex2.items(): add_exit(ex, k, AND(N0, x.g), x.env, x.val)
            n = AND(n, n2)
        if t is None: return n, ex
        nenv = self.env
        self.env = dict(t.env)
        hn, hx = self.block(h.body)
        for k, x in hx.items(): add_exit(ex, k, AND(t.g, x.g), x.env, x.val)
        if n is FALSE: return AND(t.g, hn), ex
        if hn is FALSE: self.env = nenv; return n, ex
        self.env = merge_env(t.g, self.env, nenv)
        return OR(n, AND(t.g, hn)), ex

class Mod:
    def __init__(self, path, db):
        self.path = path
        self.tree = ast.parse(open(path).read(), path)
        self.funcs = {}; self.classes = {}; self.consts = {}; self.listy = set()
        I = None
        for s in self.tree.body:
            if isinstance(s, ast.FunctionDef): self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef): self.classes[s.name] = s
        self._eff = {}
        I = Py(db, self); I.env = {}; I.push_py(None); I.frames[-1]["alias"] = set()
        for s in self.tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name): self.consts[s.targets[0].id] = I.ev(s.value)
    def mutated(self, fd):
        """names whose object the function changes in place"""
        r = set()
        def root(x):
            while isinstance(x, (ast.Attribute, ast.Subscript)): x = x.value
            return x.id if isinstance(x, ast.Name) else None
        for x in ast.walk(fd):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS: r.add(root(x.func.value))
            elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store): r.add(root(x))
            elif isinstance(x, ast.AugAssign) and not isinstance(x.target, ast.Name): r.add(root(x.target))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in self.funcs and self.funcs[x.func.id] is not fd:
                g = self.funcs[x.func.id]
                m = self.mutated(g)
                for p, a in zip(g.args.args, x.args):
                    if p.arg in m: r.add(root(a))
        # through loop variables
        for _ in range(3):
            for x in ast.walk(fd):
                if isinstance(x, (ast.For, ast.comprehension)):
                    ns = {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
                    if ns & r:
                        for y in ast.walk(x.iter):
                            if isinstance(y, ast.Name): r.add(y.id)
        r.discard(None)
        return r
    def guard(self, fd):
        """an object reachable under two names that is changed through one of them is outside the value semantics used here"""
        m = self.mutated(fd)
        for x in ast.walk(fd):
            if isinstance(x, ast.Assign) and isinstance(x.value, (ast.IfExp, ast.BoolOp)) and any(isinstance(n, ast.Name) and n.id in m for t in x.targets for n in ast.walk(t)): bad(x, "second name for an object that is changed in place")
            if isinstance(x, ast.Assign) and isinstance(x.value, (ast.Name, ast.Attribute, ast.Subscript)) and not (isinstance(x.value, ast.Subscript) and isinstance(x.value.slice, ast.Slice)):
                for t in x.targets:
                    v = x.value
                    while isinstance(v, (ast.Attribute, ast.Subscript)): v = v.value
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in m: bad(x, "second name for an object that is changed in place")
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and isinstance(v, ast.Name) and v.id in m and isinstance(x.value, ast.Name): bad(x, "second name for an object that is changed in place")
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "insert") and isinstance(x.func.value, ast.Name):
                a = x.args[-1]
                if isinstance(a, ast.Name) and a.id in m:
                    # changed after it was stored?
                    for y in ast.walk(fd):
                        if isinstance(y, (ast.Attribute, ast.Subscript)) and isinstance(y.ctx, ast.Store) and y.lineno > x.lineno:
                            z = y
                            while isinstance(z, (ast.Attribute, ast.Subscript)): z = z.value
                            if isinstance(z, ast.Name) and z.id == a.id and not self.loopvar(fd, z.id): bad(y, "object changed after it was stored in a list")
    def loopvar(self, fd, n): return any(isinstance(x, ast.For) and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(x.target)) for x in ast.walk(fd))
    def effects(self, fd):
        """does it do more than compute a value from its arguments?"""
        if fd.name in self._eff: return self._eff[fd.name]
        self._eff[fd.name] = True
        r = bool(self.mutated(fd) & {a.arg for a in fd.args.args}) or self.io(fd)
        self._eff[fd.name] = r
        return r
    def io(self, fd, seen=()):
        r = False
        for x in ast.walk(fd):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                if x.func.id in ("open", "print", "exit", "quit", "input"): r = True
                if x.func.id in self.funcs and x.func.id not in seen and self.io(self.funcs[x.func.id], seen + (fd.name,)): r = True
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "sys": r = True
        return r

def summarize(db, mod, name, opaque, listy=()):
    """value summary of one function of a module -> (outputs, interpreter)"""
    fd = mod.funcs.get(name)
    if fd is None: raise NoPy("function %s not found in %s" % (name, mod.path))
    mod.listy = set(listy)
    I = Py(db, mod, set(opaque) - {name})
    I.throws = []; I.env = {}
    I.push_py(fd); fr = I.frames[-1]; fr["alias"] = set()
    I.callstack.append(name); I.inl.add(name)
    mut = mod.mutated(fd)
    outs = []
    for i, a in enumerate(fd.args.args):
        lv = I.local("$" + a.arg, sym("a%d" % i))
        if a.arg in mut: outs.append((i, lv))
    mod.guard(fd)
    n, ex = I.block(fd.body)
    r = ex.get("r"); t = ex.get("t")
    out = {}
    env = I.env; val = NONE
    if r is not None:
        val = r.val if n is FALSE else ite(r.g, r.val, NONE)
        env = r.env if n is FALSE else merge_env(r.g, r.env, I.env)
    thr = t.g if t is not None else FALSE
    def normal(v): return v if thr is FALSE else ite(thr, T_("dontcare"), v)
    out["ret"] = normal(lift(lambda l: NONE if l is VOID else l, val))
    for i, lv in outs: out["arg%d" % i] = normal(I.getp(env[lv.alts[0][1]], ()))
    for root, v in env.items():
        if root.op == "EV": out["ev:" + root.args[0]] = normal(v)
    if thr is not FALSE:
        out["throws"] = thr
        out["throw:value"] = ite(thr, t.val, T_("dontcare"))
        for root, v in t.env.items():
            if root.op == "EV": out["throw:ev:" + root.args[0]] = ite(thr, v, T_("dontcare"))
    return out, I
