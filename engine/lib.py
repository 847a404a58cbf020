"""Models of the standard library, Eigen, ROS time/pub-sub and PCL containers used by the repository."""
from term import *
from seq import *
from interp import (LV, TupLV, Unsupported, typed, typed1, eig_n, EIG_DYN, stripref, tcat, THIS, mkraw, split_targs, Exit, add_exit)
import re, math

IGN = {"ros::stubLog", "printf", "fprintf", "std::setw", "std::setprecision", "std::fixed", "ros::Time::init"}
SEQ = ("std::vector", "std::deque", "std::list", "boost::array", "std::array", "pcl::PointCloud", "std::initializer_list", "std::basic_string", "boost::circular_buffer")
MAP = ("std::unordered_map", "std::map")
SET = ("std::unordered_set", "std::set")
SP = ("std::unique_ptr", "std::shared_ptr", "boost::shared_ptr", "std::__shared_ptr_access", "std::__shared_ptr")
TIME = ("ros::Time", "ros::Duration", "ros::WallTime", "ros::WallDuration", "ros::TimeBase", "ros::DurationBase")
def is_(ty, pre): return ty.startswith(pre)
def isvec(t):
    l = t
    while l.op == "ite": l = l.args[1]
    return l.op == "vec"

def taint(s): return int(re.match(r"-?\d+", s).group(0))
def vals_lvs(I, args, params=None):
    lvs, vals = [], []
    for i, a in enumerate(args):
        wl = True
        if params is not None and i < len(params): wl = params[i].get("ref")
        l = I.lv(a) if wl else None
        if isinstance(l, TupLV): l = None
        lvs.append(l)
        vals.append(I.rd(l, a) if l is not None else I.ev(a))
    return vals, lvs
def unref(I, v, e):
    """rvalue of a call result that may be a reference"""
    if v.op == "lvref" or (v.op == "ite" and leaves(v)[0].op == "lvref"):
        return typed(I.get(ref_lv(I, v)), e.get("ty"), e.get("t"))
    return v
def ref_lv(I, v):
    return I.deref(lift(lambda x: x.args[0] if x.op == "lvref" else x, v))
def user_call(I, f, e_args, this, e, want=False):
    vals, lvs = vals_lvs(I, e_args, f["params"])
    if f["n"] in I.opaque or any(f["n"].startswith(p[:-1]) for p in I.opaque if p.endswith("*")):
        return I.opaque_call(f, vals, this, lvs)
    return I.call_fn(f, vals, this, lvs)

# ------------------------------------------------------------------------------------------------ constructors
def private(a):
    """without Eigen's overload-selection dummies"""
    return [x for x in a if "PrivateType" not in str(x.get("ty", "")) + str(x.get("cls", "")) + str((x.get("a") or [{}])[0].get("cls", "") if isinstance(x.get("a"), list) else "")]
def ctor(I, e):
    cls, ty, a = e["cls"], stripref(e["ty"]), e["a"]
    if (e.get("copy") or e.get("move")) and len(a) == 1 and cls not in ("std::unique_lock",):
        return I.ev(a[0])
    f = I.db.fns.get(e["f"])
    if f is not None:
        vals, lvs = vals_lvs(I, a, f["params"])
        return I.construct(f, vals, ty, lvs)
    if ty.startswith("std::allocator"): return VOID
    n = eig_n(ty)
    if n:
        if n != len(a): a = private(a)
        if not a: return T_("vec", *[UNDEF] * n)
        v = [I.ev(x) for x in a]
        if len(v) == 1:
            if isvec(v[0]) or n > 1: return lift(lambda t: T_("vec", *[vget(t, i) for i in range(n)]), v[0]) if not isvec(v[0]) else v[0]
            return T_("vec", v[0])
        if len(v) == n: return T_("vec", *v)
    if EIG_DYN.match(ty):
        a = private(a)
        if not a: return T_("resized", ZERO, ZERO, ZERO)
        v = [I.ev(x) for x in a]
        if len(v) == 2: return resized(ZERO, v[0], v[1])
        if len(v) == 1 and a[0].get("t") in ("i", "u"): return resized(ZERO, v[0], ONE)
        if len(v) == 1: return v[0]
    if cls == "Eigen::Quaternion":
        v = [I.ev(x) for x in a]
        if len(v) == 4: return rec(UNDEF, {"w": v[0], "x": v[1], "y": v[2], "z": v[3]})
        if not v: return T_("undefq")
        if len(v) == 1: return v[0]
    if cls in TIME:
        v = [I.ev(x) for x in a]
        if not v: return ZERO
        if len(v) == 1: return v[0]
        if len(v) == 2: return add(v[0], mul(v[1], num(Fr(1, 10**9))))
    if cls == "std::chrono::duration":
        v = [I.ev(x) for x in a]
        scale = 1
        m = re.search(r"std::ratio<(\d+)(?:, (\d+))?>", ty)
        if m: scale = Fr(int(m.group(1)), int(m.group(2) or 1))
        if len(v) == 1: return mul(v[0], num(scale)) if a[0].get("t") in ("i", "u", "f") else v[0]
        return ZERO
    if cls == "std::basic_string" or ty.startswith("std::basic_string<"):
        v = [I.ev(x) for x in a if not (x["k"] == "ctor" and x["cls"] == "std::allocator")]
        if not v: return T_("str", "")
        if len(v) == 1 or (len(v) == 2 and v[1] is VOID): return v[0]
        return mk("string", *v)
    if ty.startswith(SP):
        if not a: return NULL
        return I.ev(a[0])
    if ty.startswith(("std::pair", "std::tuple")) and len(a):
        v = [I.ev(x) for x in a]
        if len(v) == 1 and v[0].op == "rec": return v[0]
        if ty.startswith("std::pair") and len(v) == 2: return rec(UNDEF, {"first": v[0], "second": v[1]})
        if ty.startswith("std::tuple"): return rec(UNDEF, {str(i): x for i, x in enumerate(v)})
    if ty.startswith(SEQ):
        aa = [x for x in a if not (x["k"] == "ctor" and x["cls"] == "std::allocator")]
        v = [I.ev(x) for x in aa]
        if not v: return I.default(ty)
        if len(v) == 1 and v[0].op in ("lit", "nil"): return v[0]
        if len(v) == 1 and aa[0].get("t") in ("i", "u"):
            r = resized(ZERO, v[0])
            dflt = elem_default(I, ty)
            if dflt is not None: r = fillseq(I, v[0], dflt)
            return r
        if len(v) == 2 and aa[0].get("t") in ("i", "u"): return fillseq(I, v[0], v[1])
        if len(v) == 2 and all(l.op == "iter" for x in v for l in leaves(x)): return subrange(I, v[0], v[1])
        if len(v) == 1: return v[0]
    if ty.startswith(MAP + SET + ("std::priority_queue",)):
        v = [I.ev(x) for x in a]
        v = [x for x in v if x is not VOID]
        if not v: return NIL
        if len(v) >= 1 and v[0].op == "lit":
            r = NIL
            for x in v[0].args:
                r = mput(r, fld(x, "first"), fld(x, "second")) if ty.startswith(MAP) else mput(r, x, TRUE)
            return r
        if len(v) == 2: 
            # iterator range
            return mkraw("mapof", "range", *[rng(I, v[0], v[1])])
    if cls in ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "boost::recursive_mutex::scoped_lock"):
        for x in a: I.lv(x)
        return VOID
    if cls == "std::atomic":
        return I.ev(a[0]) if a else UNDEF
    r = I.recty(ty)
    if r is not None and not a:
        return I.default(ty)
    if r is not None and e.get("def"): return I.default(ty)
    v = [I.ev(x) for x in a]
    if (len(v) == 1 or len(v) == 2 and cls in ("std::function", "boost::function")) and cls in ("std::function", "boost::function", "__gnu_cxx::__normal_iterator", "std::reverse_iterator", "std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator", "std::initializer_list", "std::unordered_set", "std::move_iterator", "std::hash"):
        return v[0]
    if cls.startswith("(lambda"): return v[0] if v else VOID
    if r is not None:
        # stub class constructor: fields by matching declaration order when a simple aggregate-like constructor
        pass
    return mkraw("new:" + cls, "ctor", *v) if v else I.default(ty)
def elem_ty(ty):
    m = re.match(r"^[\w:]+<(.*)>$", ty)
    if not m: return None
    return split_targs(m.group(1))[0]
def elem_default(I, ty):
    t = elem_ty(ty)
    return I.default(t, True) if t else None
def fillseq(I, n, x):
    if n.op == "num" and n.args[0] <= 32: return T_("lit", *[x] * int(n.args[0]))
    return lift(lambda nn: T_("matc", T_("resized", ZERO, nn), x), n)
def rng(I, b, e):
    """sequence value denoted by iterator pair"""
    def f(x, y):
        if x.op == "iter":
            v = I.get(I.deref(x.args[0]))
            if x.args[1] is ZERO and y.op == "iter" and y.args[1] is size(v): return v
            return T_("slice", v, x.args[1], y.args[1] if y.op == "iter" else y)
        return T_("range", x, y)
    return lift(f, b, e)
def subrange(I, b, e): return rng(I, b, e)

# ------------------------------------------------------------------------------------------------ lvalues
def oplv(I, e):
    op = e["op"]
    a = e["a"]
    oty = stripref(e.get("oty", ""))
    f = I.db.fns.get(e.get("f"))
    if f is not None:
        if not e["ty"].endswith("&") and not f.get("rref"): return None
        v = opcall(I, e, raw=True)
        if v.op == "lvref" or (v.op == "ite" and leaves(v)[0].op == "lvref"): return ref_lv(I, v)
        return None
    if op == "[]" or op == "()":
        if oty.startswith("std::function") or e.get("lam"): return None
        o = I.lv(a[0])
        n = eig_n(oty)
        if isinstance(o, TupLV): return None
        if oty.startswith(MAP):
            if o is None: return None
            k = I.ev(a[1])
            return map_at(I, o, k, oty)
        if n or (oty.startswith("Eigen::") and "-1" not in oty):
            if o is None: return None
            i = I.ev(a[1])
            if i.op == "num": return o.sub(("v", int(i.args[0]), eig_n(oty)))
            return None
        idx = tuple(I.ev(x) for x in a[1:])
        if o is None: o = LV(I.newtmp(I.ev(a[0])))
        if oty.startswith("pcl::PointCloud"): o = o.sub(("f", "points"))
        if oty.startswith(("std::unique_ptr",)):
            return I.deref(I.get(o)).sub(("e", idx))
        return o.sub(("e", idx))
    if op in ("*", "->") and len(a) == 1:
        if oty.startswith(SP): return I.deref(I.ev(a[0]))
        p = I.ev(a[0])
        return iter_lv(I, p)
    if op in ("=", "+=", "-=", "*=", "/=", "<<", "++", "--"):
        opcall(I, e)
        return I.lv(a[0])
    return None
def iter_lv(I, p):
    if all(l.op in ("iter", "miter", "addr", "sym", "fld", "riter") or True for l in leaves(p)):
        alts = []
        def go(g, p):
            if p.op == "ite":
                c = atom(p.args[0]); go(AND(g, c), p.args[1]); go(AND(g, NOT(c)), p.args[2]); return
            if p.op == "iter":
                r, q = p.args[0].args
                alts.append((g, r, q + (("e", (p.args[1],)),)))
            elif p.op == "riter":
                r, q = p.args[0].args
                alts.append((g, r, q + (("e", (sub(sub(size(I.get(LV(r, q))), ONE), p.args[1]),)),)))
            elif p.op == "miter":
                r, q = p.args[0].args
                alts.append((g, r, q + (("kk", p.args[1]),)))
            elif p.op == "addr": alts.append((g, p.args[0], p.args[1]))
            elif p.op == "mend":
                if g is not FALSE: I.ub.add("an end iterator")
            else: alts.append((g, T_("H", p), ()))
        go(TRUE, p)
        if not alts: return LV(T_("H", NULL))
        if len(alts) == 1: alts = [(TRUE,) + alts[0][1:]]
        return LV(None, alts=alts)
def map_at(I, o, k, oty):
    """operator[]: inserts a default when absent"""
    root, path = o.one()
    m = I.get(o)
    a = split_targs(re.match(r"^[\w:]+<(.*)>$", oty).group(1))
    h = mhas(m, k)
    if h is not TRUE:
        d = I.zero(a[1]) if len(a) > 1 else UNDEF
        I.put(o, ite(h, m, mput(m, k, d)))
    return o.sub(("k", k))

VCOMP = {"x": 0, "y": 1, "z": 2, "w": 3}
def mlv(I, e):
    m = e.get("m"); o = e.get("o"); oty = stripref(e.get("oty", ""))
    f = I.db.fns.get(e.get("f"))
    if f is not None or e.get("virt"):
        if not (f and f.get("rref")): return None
        v = mcall(I, e, raw=True)
        if v.op == "lvref" or (v.op == "ite" and leaves(v)[0].op == "lvref"): return ref_lv(I, v)
        return None
    if o is None: return None
    cls = e.get("cls", "")
    if cls.startswith("Eigen::Quaternion") and m in VCOMP:
        ol = objlv(I, e)
        return ol.sub(("f", m)) if ol is not None else None
    if cls.startswith("Eigen::") and m in ("x", "y", "z", "w", "topRows", "head", "array", "matrix", "bottomRows", "tail", "segment", "noalias", "derived", "coeffRef", "block", "row", "col"):
        ol = objlv(I, e)
        if ol is None or isinstance(ol, TupLV): return None
        if m in VCOMP: return ol.sub(("v", VCOMP[m], eig_n(oty)))
        if m in ("array", "matrix", "noalias", "derived"): return ol
        if m == "block":
            if len(e["a"]) == 4: return ol.sub(("blk", tuple(I.ev(x) for x in e["a"])))
            return None
        if m in ("row", "col"):
            x = I.ev(e["a"][0]); w = I.get(ol)
            return ol.sub(("blk", (x, ZERO, ONE, cols(w)) if m == "row" else (ZERO, x, rows(w), ONE)))
        if m == "coeffRef":
            ii = tuple(I.ev(x) for x in e["a"])
            if len(ii) == 1 and ii[0].op == "num" and eig_n(oty): return ol.sub(("v", int(ii[0].args[0]), eig_n(oty)))
            return ol.sub(("e", ii))
        n = view_n(I, e)
        if n is None: return None
        tot = eig_n(oty)
        if tot is None:
            v = I.get(ol)
            tot = len(v.args) if v.op == "vec" else None
        if m in ("topRows", "head"): return ol.sub(("w", tuple(range(n)), tot))
        if m in ("bottomRows", "tail") and tot: return ol.sub(("w", tuple(range(tot - n, tot)), tot))
        if m == "segment":
            s = I.ev(e["a"][0])
            if s.op == "num": return ol.sub(("w", tuple(range(int(s.args[0]), int(s.args[0]) + n)), tot))
        return None
    if oty.startswith(SEQ):
        if m in ("back", "front", "at"):
            ol = objlv(I, e)
            if ol is None: return None
            if oty.startswith("pcl::PointCloud"): ol = ol.sub(("f", "points"))
            if m == "at": return ol.sub(("e", (I.ev(e["a"][0]),)))
            if m == "front": return ol.sub(("e", (ZERO,)))
            return ol.sub(("e", (sub(size(I.get(ol)), ONE),)))
        if m in ("begin", "end", "size"): return None
    if oty.startswith(MAP) and m == "at":
        ol = objlv(I, e)
        return ol.sub(("k", I.ev(e["a"][0])))
    if oty.startswith("std::priority_queue"): return None
    if oty.startswith("tf::") and m in ("getOrigin", "getRotation"):
        ol = objlv(I, e)
        return ol.sub(("f", m)) if ol is not None else None
    return None
def objlv(I, e):
    if e.get("arrow"): return I.deref(I.ev(e["o"]))
    return I.lv(e["o"])
def view_n(I, e):
    if e.get("ta"):
        try: return taint(e["ta"][-1]) if len(e["ta"]) == 1 else taint(e["ta"][0])
        except (ValueError, AttributeError): pass
    if e["a"]:
        v = I.ev(e["a"][-1])
        if v.op == "num": return int(v.args[0])
    return None
def calllv(I, e):
    n = e.get("n")
    f = I.db.fns.get(e.get("f"))
    if f is not None:
        if not f.get("rref"): return None
        v = call(I, e, raw=True)
        if v.op == "lvref" or (v.op == "ite" and leaves(v)[0].op == "lvref"): return ref_lv(I, v)
        return None
    if n in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const"): return I.lv(e["a"][0])
    if n == "std::get":
        o = I.lv(e["a"][0])
        if o is None: return None
        i = taint(e["ta"][0])
        t = stripref(e["a"][0].get("ty", ""))
        return o.sub(("f", ("first", "second")[i] if "std::pair" in t or is_pair(I, e["a"][0], o) else str(i)))
    if n == "std::tie": return TupLV([I.lv(x) for x in e["a"]])
    if n in ("std::max", "std::min"): return None
    return None
def is_pair(I, x, o):
    v = I.get(o)
    l = leaves(v)[0]
    return l.op == "rec" and any(k == "first" for k, _ in l.args[1])

# ------------------------------------------------------------------------------------------------ operator calls
def opcall(I, e, raw=False):
    op = e["op"]; a = e["a"]; n = e.get("n", ""); oty = stripref(e.get("oty", ""))
    f = I.db.fns.get(e.get("f"))
    if op == "()" and (e.get("lam") or (f and f.get("lam"))):
        t = I.ev(a[0])
        if t.op == "lam" and t in I.lams:
            le, caps = I.lams[t]
            body = le.get("body")
            if body is None and f is not None:   # generic lambda: use the instantiated call operator with the captures
                return generic_lambda(I, f, caps, a[1:], e)
            vals, lvs = vals_lvs(I, a[1:], le["params"])
            return unref(I, I.call_lam(t, vals, lvs), e) if not raw else I.call_lam(t, vals, lvs)
        if f is not None and f.get("lam") is None:
            pass
        return mkraw("call", "lambda", t, *[I.ev(x) for x in a[1:]])
    if f is not None and not e.get("asg_builtin"):
        if e.get("meth") and not f.get("static"):
            o = I.lv(a[0])
            if o is None: o = LV(I.newtmp(I.ev(a[0])))
            v = user_call(I, f, a[1:], I.addr_of(o), e)
        else: v = user_call(I, f, a, None, e)
        return v if raw else unref(I, v, e)
    if op == "()" and oty.startswith(("std::function", "boost::function")):
        t = I.ev(a[0])
        vals, lvs = vals_lvs(I, a[1:])
        outs = [x for x in leaves(t)]
        if t.op == "lam" and t in I.lams: return I.call_lam(t, vals, lvs)
        I.event("callback", T_("args", t, *vals))
        return typed(mkraw("call", "callback", t, *vals), e.get("ty"), e.get("t")) if e.get("t") != "v" else VOID
    if op == "()" and n.startswith(("std::uniform", "std::normal")):
        return mkraw("call", n)
    if op == "=":
        if e.get("asg") or True:
            if a[0]["k"] == "opcall" and a[0]["op"] == "[]" and False: pass
            if n.startswith("Eigen::CommaInitializer"): pass
            v = I.ev(a[1])
            lv = I.lv(a[0])
            if lv is None: return I.unk("assign to " + a[0]["k"] + " " + a[0].get("m", ""))
            nn = eig_n(oty) or (len(v.args) if v.op == "vec" else None)
            if isinstance(lv, LV) and stripref(a[1].get("ty", "")) and oty.startswith("std::function") is False:
                pass
            I.assign(lv, v, {"t": "r", "ty": oty}) if isinstance(lv, LV) else I.put(lv, v)
            return v
    if op in ("+=", "-=", "*=", "/="):
        b = I.ev(a[1])
        if oty.startswith("std::basic_string") and op == "+=":
            lv = I.lv(a[0]); v = cat(I.get(lv), b); I.put(lv, v); return v
        lv = I.lv(a[0])
        if lv is None: return I.unk("op= on non-lvalue")
        cur = typed(I.get(lv), oty)
        v = binop(I, op[0], cur, b, e)
        I.put(lv, v)
        return v
    if op in ("++", "--"):
        lv = I.lv(a[0])
        if lv is None: lv = LV(I.newtmp(I.ev(a[0])))      # ++ on the value a call returned
        cur = I.get(lv)
        d = ONE if op == "++" else MONE
        def step(x):
            if x.op in ("iter", "riter"): return T_(x.op, x.args[0], add(x.args[1], d))
            return T_("itnext", x)
        nv = lift(step, cur)
        I.put(lv, nv)
        return cur if len(a) == 2 else nv
    if op in ("*", "->") and len(a) == 1:
        lv = oplv(I, e)
        if op == "->": return I.addr_of(lv) if lv is not None else I.ev(a[0])
        return typed(I.get(lv), e.get("ty"), e.get("t"))
    if op in ("[]", "()"):
        lv = oplv(I, e)
        if lv is not None: return typed(I.get(lv), e.get("ty"), e.get("t"))
        if a[0]["k"] == "lambda" or e.get("lam"): pass
        o = I.ev(a[0])
        if isvec(o) or eig_n(oty):
            i = I.ev(a[1])
            if i.op == "num": return typed(vget(o, int(i.args[0])), e.get("ty"), e.get("t"))
            return lift(lambda t: elt(t, (i,)), o)
        return typed(elt(o, tuple(I.ev(x) for x in a[1:])), e.get("ty"), e.get("t"))
    if op == "<<":
        if oty.startswith(("Eigen::Matrix", "Eigen::DenseBase")) :
            return comma_init(I, e)
        for x in a: 
            if x["k"] not in ("str", "num"): I.ev(x)
        return T_("stream")
    if op == ",":
        return comma_init(I, e)
    if op == "-" and len(a) == 1: return neg(I.ev(a[0]))
    if op == "!" : return NOT(tobool(I.ev(a[0])))
    if len(a) == 2:
        x, y = I.ev(a[0]), I.ev(a[1])
        return binop(I, op, x, y, e)
    vals = [I.ev(x) for x in a]
    return typed(mkraw("call", "op" + op, *vals), e.get("ty"), e.get("t"))
def generic_lambda(I, f, caps, args, e):
    vals, lvs = vals_lvs(I, args, f["params"])
    I.callstack.append(f["id"])
    if I.callstack.count(f["id"]) > 3:
        I.callstack.pop(); return I.unk("recursive generic lambda")
    I.push_frame(f)
    fr = I.frames[-1]
    # captures are by name: variable ids differ between instantiation and definition only by number
    byname = {k.split("#")[0]: v for k, v in caps.items() if k != "this"}
    if "this" in caps: fr["this"] = caps["this"]
    class FR(dict):
        def get(s, k, d=None):
            if k in s: return s[k]
            return byname.get(k.split("#")[0], d)
    nf = FR(fr); I.frames[-1] = nf
    try:
        for i, p in enumerate(f["params"]):
            if p.get("ref") and lvs[i] is not None: nf[p["id"]] = lvs[i]
            else: I.local(p["id"], vals[i])
        saved = I.throws; I.throws = []
        n, exits = I.exec(f["body"])
        I.throws = saved
        return I.finish_call(f, n, exits)
    finally:
        I.pop_frame(); I.callstack.pop()
def comma_init(I, e):
    """matrix << a, b, c"""
    items = []
    x = e
    while x["k"] == "opcall" and x["op"] == ",":
        items.insert(0, I.ev(x["a"][1])); x = x["a"][0]
    if x["k"] == "opcall" and x["op"] == "<<":
        items.insert(0, I.ev(x["a"][1]))
        lv = I.lv(x["a"][0])
        flat = []
        for it in items:
            if isvec(it): flat += [vget(it, i) for i in range(len(leaves(it)[0].args))]
            else: flat.append(it)
        if lv is not None: I.put(lv, T_("vec", *flat))
        return VOID
    return I.unk("comma init")
def cat(x, y):
    def f(p, q):
        if p.op == "str" and q.op == "str": return T_("str", p.args[0] + q.args[0])
        xs = []
        for t in (p, q): xs += list(t.args) if t.op == "cat" else [t]
        return T_("cat", *xs)
    return lift(f, x, y)
QT = ("Eigen::Quaternion", "Eigen::AngleAxis", "Eigen::Matrix<float, 3, 3>", "Eigen::Matrix<double, 3, 3>")
def binop(I, op, x, y, e):
    oty = stripref(e.get("oty", "")); a = e["a"]
    t0 = stripref(a[0].get("ty", "")) if a else ""; t1 = stripref(a[1].get("ty", "")) if len(a) > 1 else ""
    if any(l.op in ("iter", "riter", "miter", "mend") for z in (x, y) for l in leaves(z)):
        if op == "==": return itereq(I, x, y)
        if op == "!=": return NOT(itereq(I, x, y))
        if op in ("<", ">", "<=", ">="):
            f = {"<": lt, ">": gt, "<=": le, ">=": ge}[op]
            return lift(lambda p, q: f(p.args[1], q.args[1]), x, y)
        return I.iterarith(op, x, y)
    if op in ("==", "!=", "<", ">", "<=", ">=") and oty.startswith(("std::tuple<", "std::pair<")):
        from interp import split_targs
        ts = split_targs(oty[oty.index("<") + 1:oty.rindex(">")])
        ns = ["first", "second"] if oty.startswith("std::pair<") else [str(i) for i in range(len(ts))]
        if all(re.match(r"^(unsigned |signed )?(int|long|short|char|float|double|bool|unsigned|size_t)( int| long)*$", t.strip()) for t in ts):
            ps = [(typed(fld(x, n), t, None), typed(fld(y, n), t, None)) for n, t in zip(ns, ts)]
            if op in ("==", "!="):
                r = TRUE
                for p, q in ps: r = AND(r, eq(p, q, True))
                return r if op == "==" else NOT(r)
            if op in (">", "<="): ps = [(q, p) for p, q in ps]
            r = FALSE
            for p, q in reversed(ps): r = OR(lt(p, q), AND(eq(p, q, True), r))
            return r if op in ("<", ">") else NOT(r)
    if op == "+" and (x.op in ("str", "cat") or y.op in ("str", "cat") or t0.startswith("std::basic_string") or t1.startswith("std::basic_string")): return cat(x, y)
    if op in ("==", "!="):
        if oty.startswith(SP) or t1 == "std::nullptr_t": r = eq(x, y)
        elif any(z.startswith(TIME) for z in (oty, t0, t1)): r = eq(x, y, True)
        elif isvec(x) or isvec(y): r = eq(x, y, True)
        else: r = eq(x, y)
        return r if op == "==" else NOT(r)
    q = any(z.startswith(QT) for z in (oty, t0, t1)) or (oty.startswith(("tf::",)) and op == "*" and not oty.startswith("tf::Vector3"))
    if q:
        return mkraw("call", "q" + op, x, y)
    mats = is_matty(oty) or is_matty(t0) or is_matty(t1)
    if op in ("<", ">", "<=", ">="):
        if e.get("t") == "b": return I.compare(op, x, y)
        # elementwise comparison: 1 where it holds
        return elementwise(I, lambda p, q: ite(I.compare(op, p, q), ONE, ZERO), x, y)
    if op in ("+", "-"):
        if (isvec(x) != isvec(y)):  # array + scalar
            v, s = (x, y) if isvec(x) else (y, x)
            if not isvec(s) and s.op != "undef":
                return lift(lambda p, q: p if False else T_("vec", *[(add if op == "+" else sub)(vget(p, i) if isvec(x) else p, vget(q, i) if isvec(y) else q) for i in range(len((p if isvec(x) else q).args))]), x, y)
        return add(x, y) if op == "+" else sub(x, y)
    if op == "*":
        if isvec(x) and isvec(y):
            return T_("vec", *[mul(vget(x, i), vget(y, i)) for i in range(len(leaves(x)[0].args))])
        if all(is_mat(l) for l in leaves(x)) and all(is_mat(l) for l in leaves(y)):
            return T_("emul", *sorted((x, y), key=lambda t: t.sk))
        if e.get("t") in ("i", "u", "f", "r", "o"): return mul(x, y)
    if op == "/":
        if isvec(x) and isvec(y): return T_("vec", *[div(vget(x, i), vget(y, i)) for i in range(len(leaves(x)[0].args))])
        return div(x, y)
    if op in ("&&", "||"): return AND(tobool(x), tobool(y)) if op == "&&" else OR(tobool(x), tobool(y))
    if op in ("&", "|", "^", "%", "<<", ">>"): return I.arith(op, x, y, "i")
    return typed(mkraw("call", "op" + op, x, y), e.get("ty"), e.get("t"))
def elementwise(I, f, *xs):
    """the array of f(elements) of arrays and scalars of one shape"""
    vs = [x for x in xs if isvec(x)]
    if vs:
        n = len(leaves(vs[0])[0].args)
        return T_("vec", *[f(*[vget(x, i) if isvec(x) else x for x in xs]) for i in range(n)])
    ms = [x for x in xs if any(is_mat(l) for l in leaves(x)) or not all(is_num(l) for l in leaves(x))]
    if not ms: return f(*xs)
    i, j = fresh("o"), fresh("o")
    for q in (i, j): INTS.add(q); NONNEG.add(q)
    def mk2(m):
        el = lambda x: elt(x, (i, j)) if any(is_mat(l) for l in leaves(x)) or x is ms[0] else x
        return lamarr(m, [i, j], f(*[el(x) for x in xs]))
    return lift(lambda m: mk2(shape(m)), ms[0])
def is_matty(t): return "-1" in t and t.startswith("Eigen::")
def itereq(I, x, y):
    def f(p, q):
        if p.op in ("iter", "riter") and q.op == p.op: return eq(p.args[1], q.args[1], True)
        for u, v in ((p, q), (q, p)):
            if u.op == "mend" and v.op == "miter": return FALSE
            if u.op == "mend" and v.op == "mend": return TRUE
            if u.op == "miter" and v.op == "miter": return eq(u.args[1], v.args[1])
            if u.op == "mend" and v.op == "mbegin": return eq(size(I.get(I.deref(v.args[0]))), ZERO, True)
        return eq(p, q)
    return lift(f, x, y)

# ------------------------------------------------------------------------------------------------ member calls
def mcall(I, e, raw=False):
    m = e.get("m"); oty = stripref(e.get("oty", "")); a = e["a"]; cls = e.get("cls", "")
    f = I.db.fns.get(e.get("f"))
    if e.get("virt") and not e.get("qual"):
        this_obj = e["o"]["k"] == "this" if e.get("o") else False
        g = I.resolve_virtual(e["f"], e["n"], cls) if I.dyncls else None
        if g is not None: f = g
        elif f is not None and this_obj is False and False: pass
    if f is not None:
        if f.get("static"): v = user_call(I, f, a, None, e)
        else:
            if e.get("arrow"): p = I.ev(e["o"])
            else:
                o = I.lv(e["o"])
                if o is None: o = LV(I.newtmp(I.ev(e["o"])))
                p = I.addr_of(o)
            if p.op == "ite" and len([l for l in leaves(p) if l is not NULL]) > 1:
                I.unk("method call on several possible objects")
            if p.op == "ite": p = [l for l in leaves(p) if l is not NULL][0]
            v = user_call(I, f, a, p, e)
        return v if raw else unref(I, v, e)
    if cls.startswith("Eigen::"): return eig_m(I, e)
    if oty.startswith(TIME) or cls in TIME: return time_m(I, e)
    if oty.startswith(SP) or cls.startswith(SP): return sp_m(I, e)
    if oty.startswith(MAP): return map_m(I, e)
    if oty.startswith(SET): return set_m(I, e)
    if oty.startswith("std::priority_queue") or oty.startswith("std::queue") or oty.startswith("std::stack"): return pq_m(I, e)
    if oty.startswith(SEQ): return seq_m(I, e)
    if oty.startswith("std::atomic"):
        if m in ("load",) or m.startswith("operator"): return typed(I.ev(e["o"]), e.get("ty"), e.get("t"))
        if m == "store": I.put(objlv(I, e), I.ev(a[0])); return VOID
        if m == "exchange":
            o = objlv(I, e); v = I.get(o); I.put(o, I.ev(a[0])); return typed(v, e.get("ty"), e.get("t"))
    if oty.startswith(("std::function", "boost::function")) and m == "operator bool": return tobool(I.ev(e["o"]))
    return gen_m(I, e)
def gen_m(I, e):
    m = e.get("m"); cls = e.get("cls", ""); a = e["a"]
    vals, lvs = vals_lvs(I, a)
    o = objlv(I, e)
    if o is None and e.get("o") is not None: o = LV(I.newtmp(I.ev(e["o"])))
    if cls in ("std::mutex", "std::unique_lock", "std::condition_variable", "std::recursive_mutex", "boost::mutex") or cls.startswith("std::unique_lock"):
        if m.startswith("wait"):
            # other threads may have changed anything; values are kept (sequential view), the wake-up reason is unknown
            for v in vals[1:]:
                if v.op == "lam": pass
            return typed(T_("sym", "waitresult"), e.get("ty"), e.get("t"))
        return VOID if e.get("t") == "v" else typed(T_("mc", m, sym(cls)), e.get("ty"), e.get("t"))
    if cls == "ros::Publisher" and m == "publish":
        I.event("pub:" + chan(I, o), vals[0] if not leaves(vals[0])[0].op in ("new", "addr") else I.get(I.deref(vals[0])))
        return VOID
    ov = I.get(o)
    nm = cls + "::" + m
    r = None
    if e.get("t") != "v" or True:
        r = typed(mkraw("mc" if e.get("cst") else "mr", nm, ov, *vals), e.get("ty"), e.get("t")) if e.get("t") != "v" else VOID
    if not e.get("cst"):
        I.put(o, mkraw("mut", nm, ov, *vals))
        I.event("m:" + nm, T_("args", T_("str", chan(I, o)), *vals))
    # non-const reference arguments are clobbered
    sig = e.get("f", "")
    ps = split_targs(sig[sig.rfind("(") + 1:sig.rfind(")")].rstrip(",")) if "(" in sig else []
    for i, l in enumerate(lvs):
        if l is not None and i < len(ps) and ps[i].endswith("&") and not ps[i].startswith("const") and not e.get("ta"):
            I.put(l, typed(mkraw("out", nm, num(i), ov, *vals), ps[i]))
    return r
def chan(I, o):
    root, path = o.alts[0][1], o.alts[0][2]
    s = ".".join(str(p[1]) if p[0] == "f" else "[%s]" % show(p[1]) for p in path)
    if root.op == "H" and root.args[0] is THIS: return s
    return show(root) + ("." + s if s else "")

def bigadd(xs):
    r = ZERO
    for x in xs: r = add(r, x)
    return r
def norm2(v): return bigadd([mul(x, x) for x in v])
def eig_m(I, e):
    m = e["m"]; a = e["a"]; oty = stripref(e.get("oty", ""))
    if e["cls"].startswith("Eigen::Quaternion") and m in VCOMP:
        lv = mlv(I, e)
        return I.get(lv) if lv is not None else fld(I.ev(e["o"]), m)
    if e.get("o") is None: return I.unk("eigen static " + m)
    # mutators
    if m in ("setZero", "setOnes", "setConstant", "fill", "resize", "normalize", "swap", "conservativeResize"):
        o = objlv(I, e)
        v = I.get(o); n = eig_n(oty) or (len(leaves(v)[0].args) if isvec(v) else None)
        if m == "normalize":
            I.put(o, normalized(I, v, n)); return VOID
        if m in ("resize", "conservativeResize"):
            d = [I.ev(x) for x in a]
            if len(d) == 1: d.append(ONE)
            I.put(o, resized(v, *d)); return VOID
        if m == "swap":
            o2 = I.lv(a[0]); w = I.get(o2); I.put(o2, v); I.put(o, w); return VOID
        x = ZERO if m == "setZero" else ONE if m == "setOnes" else I.ev(a[0])
        if len(a) >= 2 and m == "setZero": v = resized(v, *[I.ev(q) for q in a])
        if n: I.put(o, T_("vec", *[x] * n))
        else:
            r, p = o.alts[0][1], o.alts[0][2]
            if p and p[-1][0] == "blk":
                b = p[-1][1]
                I.put(o, T_("matc", T_("resized", ZERO, b[2], b[3]), x))
            else: I.put(o, matc(v, x))
        return VOID
    v = I.ev(e["o"]) if not e.get("arrow") else typed(I.get(I.deref(I.ev(e["o"]))), oty)
    n = eig_n(oty) or (len(leaves(v)[0].args) if isvec(v) else None)
    if n and not isvec(v): v = T_("vec", *[vget(v, i) for i in range(n)])
    if n or isvec(v):
        c = [vget(v, i) for i in range(n)]
        if m in VCOMP: return typed(c[VCOMP[m]], e.get("ty"), e.get("t"))
        if m == "norm": return sqrtv(norm2(c))
        if m == "squaredNorm": return norm2(c)
        if m == "normalized": return normalized(I, v, n)
        if m == "dot":
            w = I.ev(a[0]); return bigadd([mul(c[i], vget(w, i)) for i in range(n)])
        if m == "cross":
            w = I.ev(a[0]); d = [vget(w, i) for i in range(3)]
            return T_("vec", *[sub(mul(c[(i + 1) % 3], d[(i + 2) % 3]), mul(c[(i + 2) % 3], d[(i + 1) % 3])) for i in range(3)])
        if m in ("head", "topRows"):
            k = view_n(I, e)
            if k is not None: return T_("vec", *c[:k])
        if m in ("tail", "bottomRows"):
            k = view_n(I, e)
            if k is not None: return T_("vec", *c[-k:])
        if m in ("array", "matrix", "eval", "derived", "transpose", "colwise", "rowwise", "reshaped"): return v
        if m == "cast": return v if "int" not in "".join(e.get("ta", [])) else T_("vec", *[trunc(x) for x in c])
        if m == "select":
            w = [I.ev(x) for x in a]
            return T_("vec", *[ite(tobool(c[i]), *[vget(x, i) if isvec(x) else x for x in w]) for i in range(n)])
        if m == "count": return typed1(bigadd([ite(tobool(x), ONE, ZERO) for x in c]), "u")
        if m == "allFinite": return AND(*[isfinite(x) for x in c])
        if m == "hasNaN": return OR(*[isnan(x) for x in c])
        if m == "sum": return bigadd(c)
        if m == "mean": return div(bigadd(c), num(n))
        if m == "prod":
            r = ONE
            for x in c: r = mul(r, x)
            return r
        if m in ("maxCoeff", "minCoeff") and not a:
            r = c[0]
            for x in c[1:]: r = (vmax if m == "maxCoeff" else vmin)(r, x)
            return r
        if m in ("cwiseAbs", "abs"): return T_("vec", *[absv(x) for x in c])
        if m in ("sqrt", "cwiseSqrt"): return T_("vec", *[sqrtv(x) for x in c])
        if m == "square": return T_("vec", *[mul(x, x) for x in c])
        if m == "cwiseProduct":
            w = I.ev(a[0]); return T_("vec", *[mul(c[i], vget(w, i)) for i in range(n)])
        if m == "cwiseMin": w = I.ev(a[0]); return T_("vec", *[vmin(c[i], vget(w, i)) for i in range(n)])
        if m == "cwiseMax": w = I.ev(a[0]); return T_("vec", *[vmax(c[i], vget(w, i)) for i in range(n)])
        if m in ("size", "rows"): return num(n)
        if m == "cols": return ONE
        if m in ("any",): return OR(*[tobool(x) for x in c])
        if m in ("all",): return AND(*[tobool(x) for x in c])
        if m in ("coeff", "operator()", "operator[]"):
            i = I.ev(a[0])
            if i.op == "num": return c[int(i.args[0])]
        if m == "isApprox": return typed(mkraw("mc", "isApprox", v, I.ev(a[0])), "bool", "b")
        vals = [I.ev(x) for x in a]
        return typed(mkraw("mc", "eig_" + m, v, *vals), e.get("ty"), e.get("t"))
    if m == "rows": return typed1(rows(v), "u")
    if m == "cols": return typed1(cols(v), "u")
    if m == "size": return mul(rows(v), cols(v))
    if m in ("array", "matrix", "eval", "derived", "noalias"): return v
    if m == "block":
        d = [I.ev(x) for x in a]
        if len(d) == 2 and e.get("ta"): d += [num(taint(e["ta"][0])), num(taint(e["ta"][1]))]
        if len(d) == 4:
            r = lift(lambda mm: T_("block", mm, *d), v)
            return r
    if m in ("row", "col", "segment", "head", "tail", "topRows", "bottomRows", "leftCols", "rightCols") and len(a) == (2 if m == "segment" else 1):
        x = [I.ev(q) for q in a]
        R, C = rows(v), cols(v)
        if m == "row": return lift(lambda mm: T_("block", mm, x[0], ZERO, ONE, cols(mm)), v)
        if m == "col": return lift(lambda mm: T_("block", mm, ZERO, x[0], rows(mm), ONE), v)
        if m in ("topRows", "bottomRows", "leftCols", "rightCols"):
            w = {"topRows": lambda mm: (ZERO, ZERO, x[0], cols(mm)), "bottomRows": lambda mm: (sub(rows(mm), x[0]), ZERO, x[0], cols(mm)),
                 "leftCols": lambda mm: (ZERO, ZERO, rows(mm), x[0]), "rightCols": lambda mm: (ZERO, sub(cols(mm), x[0]), rows(mm), x[0])}[m]
            return lift(lambda mm: T_("block", mm, *w(mm)), v)
        def seg(mm):
            n = x[-1]
            i = x[0] if m == "segment" else ZERO if m == "head" else sub(mul(rows(mm), cols(mm)), n)
            return T_("block", mm, ZERO, i, ONE, n) if rows(mm) is ONE and cols(mm) is not ONE else T_("block", mm, i, ZERO, n, ONE)
        return lift(seg, v)
    if m in ("colwise", "rowwise"): return lift(lambda mm: T_("wise", T_("str", m), mm), v)
    if v.op == "wise" and m == "reverse":
        mm = v.args[1]
        i, j = fresh("o"), fresh("o")
        for q in (i, j): INTS.add(q); NONNEG.add(q)
        ii = (sub(sub(rows(mm), ONE), i), j) if v.args[0].args[0] == "colwise" else (i, sub(sub(cols(mm), ONE), j))
        return lamarr(mm, [i, j], elt(mm, ii))
    if m in ("coeff", "operator()"): return typed(elt(v, tuple(I.ev(x) for x in a)), e.get("ty"), e.get("t"))
    if m == "cwiseProduct":
        return T_("emul", *sorted((v, I.ev(a[0])), key=lambda t: t.sk))
    R, C = rows(v), cols(v)
    if m in ("sum", "mean", "maxCoeff", "minCoeff", "prod") and not a and R.op == "num" and C.op == "num" and 0 < R.args[0] * C.args[0] <= 16:
        c = [elt(v, (num(i), num(j))) for i in range(int(R.args[0])) for j in range(int(C.args[0]))]
        if m == "sum": return bigadd(c)
        if m == "mean": return div(bigadd(c), num(len(c)))
        r = c[0]
        for x in c[1:]: r = {"maxCoeff": vmax, "minCoeff": vmin, "prod": mul}[m](r, x)
        return r
    vals = [I.ev(x) for x in a]
    if m in ("maxCoeff", "minCoeff") and a:
        lvs = [I.lv(x) if x["k"] != "un" else I.deref(I.ev(x)) for x in a]
        for i, l in enumerate(lvs):
            if l is not None: I.put(l, typed1(lift(lambda mm: T_("argext", m, mm, num(i)), v), "i"))
    if m == "cast": return v if not any(z in "".join(e.get("ta", [])) for z in ("int", "long", "short", "char")) else elementwise(I, trunc, v)
    if m == "select" and len(vals) == 2: return elementwise(I, lambda c, p, q: ite(tobool(c), p, q), v, *vals)
    if m == "count" and not a:
        i, j = fresh("o"), fresh("o")
        for q in (i, j): INTS.add(q); NONNEG.add(q)
        r = lift(lambda mm: bind_sum(rows(mm), i, bind_sum(cols(mm), j, ite(tobool(elt(mm, (i, j))), ONE, ZERO))), v)
        return typed(r, e.get("ty"), e.get("t"))
    if m in ("sum", "mean") and not a:
        def tot(mm):
            R, C = rows(mm), cols(mm)
            i, j = fresh("o"), fresh("o")
            for q in (i, j): INTS.add(q); NONNEG.add(q)
            if C is ONE: return bind_sum(R, i, elt1(mm, i))
            if R is ONE: return bind_sum(C, i, elt1(mm, i))
            return bind_sum(R, i, bind_sum(C, j, elt(mm, (i, j))))
        r = lift(tot, v)
        return typed(r if m == "sum" else div(r, mul(rows(v), cols(v))), e.get("ty"), e.get("t"))
    if m in ("sum", "mean", "maxCoeff", "minCoeff", "prod", "any", "all", "norm", "allFinite", "hasNaN") :
        r = lift(lambda mm: mkraw("mc", "eig_" + m, mm), v)
        return typed(r, e.get("ty"), e.get("t"))
    r = mkraw("mc", "eig_" + m, v, *vals)
    if e.get("t") == "r":
        for l in leaves(r): MATS.add(l)
    return typed(r, e.get("ty"), e.get("t"))
def normalized(I, v, n):
    c = [vget(v, i) for i in range(n)]
    s = norm2(c)
    k = lift(lambda x: inv1(x), sqrtv(s))
    g = gt(s, ZERO)
    return T_("vec", *[ite(g, mul(x, k), x) for x in c])
def time_m(I, e):
    m = e["m"]; o = I.ev(e["o"]) if not e.get("arrow") else I.get(I.deref(I.ev(e["o"])))
    if m in ("toSec", "toBoost"): return o
    if m == "toNSec": return mul(o, num(10**9))
    if m == "isZero": return eq(o, ZERO, True)
    if m in ("fromSec", "fromNSec"):
        v = I.ev(e["a"][0])
        if m == "fromNSec": v = mul(v, num(Fr(1, 10**9)))
        l = objlv(I, e)
        if l is not None: I.put(l, v)
        return v
    if m == "sleep": I.event("sleep", o); return TRUE
    return gen_m(I, e)
def sp_m(I, e):
    m = e["m"]
    if m == "get": return I.ev(e["o"])
    if m.startswith("operator bool") or m == "operator bool": return tobool(I.ev(e["o"]))
    if m == "reset":
        o = objlv(I, e)
        v = I.ev(e["a"][0]) if e["a"] else NULL
        I.put(o, v); return VOID
    if m == "release":
        o = objlv(I, e); v = I.get(o); I.put(o, NULL); return v
    if m in ("operator->",): return I.ev(e["o"])
    if m == "operator*": return I.get(I.deref(I.ev(e["o"])))
    if m == "use_count": return I.unk("use_count")
    return gen_m(I, e)
def seqlv(I, e):
    o = objlv(I, e)
    if o is None: o = LV(I.newtmp(I.ev(e["o"])))
    if stripref(e.get("oty", "")).startswith("pcl::PointCloud"): o = o.sub(("f", "points"))
    return o
def seq_m(I, e):
    m = e["m"]; a = e["a"]; oty = stripref(e.get("oty", ""))
    if oty.startswith("std::basic_string"): return str_m(I, e)
    o = seqlv(I, e)
    if m in ("push_back", "emplace_back"):
        if m == "emplace_back" and not (len(a) == 1 and stripref(a[0].get("ty", "")) == (elem_ty(oty) or "?")):
            et = elem_ty(oty)
            v = emplace(I, et, a)
        else: v = I.ev(a[0])
        cur = I.get(o)
        I.put(o, lift(lambda s: app(s, v), cur) if cur.op == "ite" else app(cur, v))
        return VOID
    cur = I.get(o)
    if m == "size" or m == "length": return typed1(size(cur), "u")
    if m == "empty": return eq(size(cur), ZERO, True)
    if m == "clear": I.put(o, NIL); return VOID
    if m in ("reserve", "shrink_to_fit"):
        for x in a: I.ev(x)
        return VOID
    if m in ("begin", "cbegin"): return T_("iter", I.addr_of(o), ZERO)
    if m in ("end", "cend"): return T_("iter", I.addr_of(o), size(cur)) if size(cur).op != "ite" else lift(lambda s: T_("iter", I.addr_of(o), s), size(cur))
    if m in ("rbegin", "crbegin"): return T_("riter", I.addr_of(o), ZERO)
    if m in ("rend", "crend"): return lift(lambda s: T_("riter", I.addr_of(o), s), size(cur))
    if m in ("back", "front", "at"):
        return typed(I.get(mlv(I, e)), e.get("ty"), e.get("t"))
    if m == "resize":
        n = I.ev(a[0])
        if len(a) > 1: x = I.ev(a[1])
        else: x = elem_default(I, oty)
        old = size(cur)
        if cur is NIL: I.put(o, fillseq(I, n, x)); return VOID
        if old is n: return VOID
        if n.op == "num" and cur.op == "lit":
            l = list(cur.args)[:int(n.args[0])]; l += [x] * (int(n.args[0]) - len(l))
            I.put(o, T_("lit", *l)); return VOID
        I.put(o, resizev(cur, n, x)); return VOID
    if m == "assign":
        v = [I.ev(x) for x in a]
        if all(l.op == "iter" for x in v for l in leaves(x)): I.put(o, rng(I, v[0], v[1])); return VOID
        I.put(o, fillseq(I, v[0], v[1])); return VOID
    if m in ("pop_back",):
        I.put(o, popb(cur)); return VOID
    if m in ("pop_front",):
        I.put(o, lift(lambda s: T_("popf", s), cur)); return VOID
    if m in ("push_front", "emplace_front"):
        v = I.ev(a[0]); I.put(o, T_("pushf", cur, v)); return VOID
    if m == "swap":
        o2 = I.lv(a[0])
        if oty.startswith("pcl::PointCloud"): o2 = o2.sub(("f", "points"))
        w = I.get(o2); I.put(o2, cur); I.put(o, w); return VOID
    if m == "insert":
        v = [I.ev(x) for x in a]
        if len(v) == 3 and v[0].op == "iter" and v[0].args[1] is size(cur):
            s = rng(I, v[1], v[2])
            I.put(o, appseq(cur, s)); return T_("iter", I.addr_of(o), size(cur))
        if len(v) == 2 and v[0].op == "iter" and v[0].args[1] is size(cur):
            I.put(o, app(cur, v[1])); return T_("iter", I.addr_of(o), size(cur))
        I.put(o, mkraw("seqinsert", "i", cur, *[x.args[1] if x.op == "iter" else x for x in v])); return VOID
    if m == "erase":
        v = [I.ev(x) for x in a]
        vv = [x.args[1] if x.op == "iter" else x for x in v]
        if len(vv) == 1 and v[0].op == "iter" and vv[0] is sub(size(cur), ONE): I.put(o, popb(cur))
        else: I.put(o, mkraw("seqerase", "e", cur, *vv))
        return v[0]
    if m == "fill":
        x = I.ev(a[0]); s = size(cur)
        I.put(o, fillseq(I, s, x) if s.op != "ite" else matc(cur, x)); return VOID
    if m == "data": return T_("iter", I.addr_of(o), ZERO)
    if m in ("makeShared",): 
        return I.newobj(I.newptr("cloud"), I.get(objlv(I, e)))
    if oty.startswith("pcl::PointCloud"): return gen_m(I, e)
    return gen_m(I, e)
def popb(cur):
    def f(s):
        if s.op == "lit": return T_("lit", *s.args[:-1]) if len(s.args) > 1 else NIL
        if s.op == "app": return s.args[0]
        return T_("popb", s)
    return lift(f, cur)
def emplace(I, et, a):
    vals = [I.ev(x) for x in a]
    if et is None: return mkraw("emplaced", "?", *vals)
    n = eig_n(et)
    if n and len(vals) == n: return T_("vec", *vals)
    if len(vals) == 1 and tcat(et) != "r": return vals[0]
    if et.startswith("std::pair") and len(vals) == 2: return rec(UNDEF, {"first": vals[0], "second": vals[1]})
    r = I.recty(et)
    if r:
        for mm in r["methods"]:
            f = I.db.fns.get(mm["f"])
            if f and f.get("kind") == "ctor" and len(f["params"]) == len(vals):
                lvs = [None] * len(vals)
                return I.construct(f, vals, et, lvs)
    if len(vals) == 1: return vals[0]
    if not vals: return I.default(et, True)
    return mkraw("emplaced", et, *vals)
def str_m(I, e):
    m = e["m"]; a = e["a"]
    v = I.ev(e["o"]) if not e.get("arrow") else I.get(I.deref(I.ev(e["o"])))
    if m in ("c_str", "data", "str"): return v
    if m in ("size", "length"): return typed1(size(v), "u")
    if m == "empty": return eq(v, T_("str", ""))
    vals = [I.ev(x) for x in a]
    if m == "clear": I.put(objlv(I, e), T_("str", "")); return VOID
    if m in ("append", "push_back"): I.put(objlv(I, e), cat(v, vals[0])); return VOID
    if m == "compare" and len(vals) == 1: return ite(eq(v, vals[0]), ZERO, mkraw("mc", "strcmp", v, vals[0]))
    r = typed(mkraw("mc", "str_" + m, v, *vals), e.get("ty"), e.get("t"))
    if not e.get("cst") and m not in ("begin", "end"): I.put(objlv(I, e), mkraw("mut", "str_" + m, v, *vals))
    return r
def map_m(I, e):
    m = e["m"]; a = e["a"]; oty = stripref(e.get("oty", ""))
    o = objlv(I, e)
    if o is None: o = LV(I.newtmp(I.ev(e["o"])))
    cur = I.get(o)
    if m == "find":
        k = I.ev(a[0]); ad = I.addr_of(o)
        return ite(mhas(cur, k), lift(lambda kk: T_("miter", ad, kk), k), T_("mend"))
    if m in ("end", "cend"): return T_("mend")
    if m in ("begin", "cbegin"): return T_("mbegin", I.addr_of(o))
    if m == "count": k = I.ev(a[0]); return ite(mhas(cur, k), ONE, ZERO)
    if m == "at": return typed(I.get(o.sub(("k", I.ev(a[0])))), e.get("ty"), e.get("t"))
    if m == "size": return typed1(size(cur), "u")
    if m == "empty": return eq(size(cur), ZERO, True)
    if m == "clear": I.put(o, NIL); return VOID
    if m in ("insert", "emplace", "insert_or_assign"):
        v = [I.ev(x) for x in a]
        if len(v) == 1: k, x = fld(v[0], "first"), fld(v[0], "second")
        else: k, x = v[0], v[1]
        h = mhas(cur, k)
        I.put(o, mput(cur, k, x) if m == "insert_or_assign" else ite(h, cur, mput(cur, k, x)))
        return rec(UNDEF, {"first": T_("miter", I.addr_of(o), k), "second": NOT(h)})
    if m == "erase":
        v = I.ev(a[0])
        def f(c, k): return T_("del", c, k.args[1] if k.op == "miter" else k)
        I.put(o, lift(f, cur, v)); return VOID
    if m in ("reserve",): return VOID
    return gen_m(I, e)
def insert_range(I, o, b, e):
    """every key of a range put into the set at o"""
    from loops import counted
    if b.op == "mbegin" and e.op == "mend":
        src = I.deref(b.args[0]); n = size(I.get(src)); key = lambda k: T_("mkey", I.get(src), k)
    elif b.op == "iter" and e.op == "iter" and b.args[0] is e.args[0]:
        n = sub(e.args[1], b.args[1]); key = lambda k: elem(I, b.args[0], b.args[1], k, "iter")
    else: return False
    def body(k):
        x = key(k); cur = I.get(o)
        I.put(o, ite(mhas(cur, x), cur, mput(cur, x, TRUE)))
    counted(I, typed1(n, "u"), body)
    return True
def set_m(I, e):
    m = e["m"]; a = e["a"]
    o = objlv(I, e)
    if o is None: o = LV(I.newtmp(I.ev(e["o"])))
    cur = I.get(o)
    if m == "find":
        k = I.ev(a[0]); ad = I.addr_of(o)
        return ite(mhas(cur, k), T_("miter", ad, k), T_("mend"))
    if m in ("end", "cend"): return T_("mend")
    if m in ("begin", "cbegin"): return T_("mbegin", I.addr_of(o))
    if m == "count": k = I.ev(a[0]); return ite(mhas(cur, k), ONE, ZERO)
    if m == "size": return typed1(size(cur), "u")
    if m == "empty": return eq(size(cur), ZERO, True)
    if m == "clear": I.put(o, NIL); return VOID
    if m in ("insert", "emplace") and len(a) == 1:
        k = I.ev(a[0]); h = mhas(cur, k)
        I.put(o, ite(h, cur, mput(cur, k, TRUE)))
        return rec(UNDEF, {"first": T_("miter", I.addr_of(o), k), "second": NOT(h)})
    if m == "insert" and len(a) == 2:
        v = [I.ev(x) for x in a]
        if insert_range(I, o, *v): return VOID
    if m == "erase":
        v = I.ev(a[0])
        I.put(o, lift(lambda c, k: T_("del", c, k.args[1] if k.op == "miter" else k), cur, v)); return VOID
    return gen_m(I, e)
def pq_m(I, e):
    m = e["m"]; a = e["a"]; oty = stripref(e.get("oty", ""))
    o = objlv(I, e)
    cur = I.get(o)
    q = "pq" if oty.startswith("std::priority_queue") else "q"
    cmpf = ""
    mm = re.match(r"^std::priority_queue<(.*)>$", oty)
    if mm:
        p = split_targs(mm.group(1)); cmpf = p[2] if len(p) > 2 else ""
    if m in ("push", "emplace"):
        v = I.ev(a[0]) if len(a) == 1 else emplace(I, elem_ty(oty), a)
        I.put(o, lift(lambda c: T_("qpush", q + cmpf, c, v), cur)); return VOID
    if m == "pop": I.put(o, lift(lambda c: T_("qpop", q + cmpf, c), cur)); return VOID
    if m in ("top", "front"): 
        return typed(lift(lambda c: T_("qtop", q + cmpf, c), cur), e.get("ty"), e.get("t"))
    if m == "size": return typed1(qsize(cur), "u")
    if m == "empty": return eq(qsize(cur), ZERO, True)
    return gen_m(I, e)
def qsize(c):
    if c.op == "ite": return ite(atom(c.args[0]), qsize(c.args[1]), qsize(c.args[2]))
    if c is NIL: return ZERO
    if c.op == "qpush": return add(qsize(c.args[1]), ONE)
    if c.op == "qpop": return sub(qsize(c.args[1]), ONE)
    return size(c)

# ------------------------------------------------------------------------------------------------ free functions
M1 = {"sqrt": sqrtv, "abs": absv, "fabs": absv, "floor": lambda x: mk("floor", x), "ceil": lambda x: mk("ceil", x), "round": lambda x: mk("round", x),
      "trunc": trunc, "isfinite": isfinite, "isnan": isnan}
def odd(name):
    def f(x):
        def g(t):
            if t.op == "num" and t.args[0] == 0: return ZERO
            if t in (NAN, UNDEF): return t
            c, q = lead(t) if t.op != "num" else (t.args[0], t)
            if c < 0: return mul2(MONE, T_(name, mul2(MONE, t)))
            return T_(name, t)
        return lift(g, x)
    return f
def even(name):
    def f(x):
        def g(t):
            if t.op == "num" and t.args[0] == 0 and name == "cos": return ONE
            if t in (NAN, UNDEF): return t
            c, q = lead(t) if t.op != "num" else (t.args[0], t)
            return T_(name, mul2(MONE, t) if c < 0 else t)
        return lift(g, x)
    return f
M1.update({"sin": odd("sin"), "tan": odd("tan"), "asin": odd("asin"), "atan": odd("atan"), "cos": even("cos"), "acos": lambda x: mk("acos", x), "exp": lambda x: mk("exp", x), "log": lambda x: mk("log", x), "cbrt": odd("cbrt")})
CTOR.update({"sin": M1["sin"], "tan": M1["tan"], "asin": M1["asin"], "atan": M1["atan"], "cos": M1["cos"]})
def base(n):
    n = n.rsplit("::", 1)[-1]
    if n.endswith("f") and n[:-1] in ("sqrt", "fabs", "floor", "ceil", "round", "sin", "cos", "atan", "asin", "acos", "atan2", "pow", "hypot", "fmod", "copysign", "fmin", "fmax", "log", "exp", "tan", "trunc"): n = n[:-1]
    return n
def powv(x, y):
    def g(a, b):
        if b.op == "num" and b.args[0].denominator == 1 and -6 <= b.args[0] <= 8: return power(a, int(b.args[0]))
        if b.op == "num" and b.args[0] == Fr(1, 2): return sqrtv(a)
        return T_("pow", a, b)
    return lift(g, x, y)
def call(I, e, raw=False):
    n = e.get("n"); a = e["a"]
    if n is None:
        # call through a value
        t = I.ev(e["callee"])
        vals = [I.ev(x) for x in a]
        if t.op == "lam" and t in I.lams: return I.call_lam(t, vals)
        if t.op == "fnref":
            c = I.db.byname.get(t.args[0])
            if c and len(c) == 1: return I.call_fn(c[0], vals)
        I.event("callback", T_("args", t, *vals))
        return typed(mkraw("call", "indirect", t, *vals), e.get("ty"), e.get("t"))
    if n in IGN: return VOID
    if n == "spec::assume": I.assumed = AND(I.assumed, tobool(I.ev(a[0]))); return VOID
    if n == "spec::unspecified": return T_("dontcare")
    f = I.db.fns.get(e.get("f"))
    if f is not None:
        v = user_call(I, f, a, None, e)
        return v if raw else unref(I, v, e)
    std = n.startswith("std::") or "::" not in n
    b = base(n)
    if n in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "boost::ref"): return I.ev(a[0])
    if std and b in M1 and len(a) == 1:
        v = b2i(I.ev(a[0]))
        if isvec(v): return I.unk(b + " of vector")
        return M1[b](v)
    if std and b in ("max", "min", "fmax", "fmin"):
        mx = b in ("max", "fmax")
        if len(a) == 1:
            v = I.ev(a[0])
            if v.op == "lit":
                r = v.args[0]
                for x in v.args[1:]: r = (vmax if mx else vmin)(r, x)
                return r
        if len(a) == 2:
            return (vmax if mx else vmin)(I.ev(a[0]), I.ev(a[1]))
        if len(a) == 3:
            x, y = I.ev(a[0]), I.ev(a[1]); c = I.ev(a[2])
            r = tobool(I.call_lam(c, [x, y] if mx else [y, x]))
            return ite(r, y, x)
    if n == "std::clamp": return vmin(vmax(I.ev(a[0]), I.ev(a[1])), I.ev(a[2]))
    if std and b == "hypot":
        v = [I.ev(x) for x in a]; return sqrtv(bigadd([mul(x, x) for x in v]))
    if std and b == "pow": return powv(I.ev(a[0]), I.ev(a[1]))
    if std and b in ("atan2", "fmod", "copysign"):
        x, y = I.ev(a[0]), I.ev(a[1])
        return mk(b, x, y)
    if n in ("ros::Time::now", "ros::WallTime::now"): return sym("now")
    if n in ("clock", "std::clock", "std::chrono::_V2::system_clock::now", "std::chrono::_V2::steady_clock::now"): return sym("clock")
    if n == "std::make_pair":
        return rec(UNDEF, {"first": I.ev(a[0]), "second": I.ev(a[1])})
    if n in ("std::make_tuple", "std::forward_as_tuple"):
        return rec(UNDEF, {str(i): I.ev(x) for i, x in enumerate(a)})
    if n == "std::tie":
        return rec(UNDEF, {str(i): I.ev(x) for i, x in enumerate(a)})
    if n == "std::get":
        lv = calllv(I, e)
        if lv is not None: return typed(I.get(lv), e.get("ty"), e.get("t"))
        v = I.ev(a[0]); i = taint(e["ta"][0])
        l = leaves(v)[0]
        if l.op == "rec" and any(k == "first" for k, _ in l.args[1]): return typed(fld(v, ("first", "second")[i]), e.get("ty"), e.get("t"))
        return typed(fld(v, str(i)), e.get("ty"), e.get("t"))
    if n in ("std::make_shared", "std::make_unique", "boost::make_shared"):
        ty = elem_ty(stripref(e["ty"])) or "?"
        p = I.newptr(ty)
        return I.newobj(p, emplace(I, ty, a) if a else I.default(ty, True))
    if n in ("std::swap", "std::iter_swap"):
        x, y = I.lv(a[0]), I.lv(a[1]); vx, vy = I.get(x), I.get(y)
        I.put(x, vy); I.put(y, vx); return VOID
    if n.startswith("Eigen::"):
        nn = eig_n(stripref(e["ty"])) 
        mcls = re.search(r"<Eigen::(?:Matrix|Array)<\w+, (\d+), 1>", n)
        if mcls: nn = int(mcls.group(1))
        if b == "Zero" and nn and not a: return T_("vec", *[ZERO] * nn)
        if b == "Ones" and nn and not a: return T_("vec", *[ONE] * nn)
        if b == "Constant" and nn: return T_("vec", *[I.ev(a[-1])] * nn)
        if b.startswith("Unit") and nn:
            k = {"UnitX": 0, "UnitY": 1, "UnitZ": 2}[b]; return T_("vec", *[ONE if i == k else ZERO for i in range(nn)])
        if b in ("Zero", "Ones", "Constant"):
            d = [I.ev(x) for x in a]
            x = ZERO if b == "Zero" else ONE if b == "Ones" else d[-1]
            dims = d if b != "Constant" else d[:-1]
            if len(dims) == 1: dims.append(ONE)
            return T_("matc", T_("resized", ZERO, *dims), x)
        if b == "Identity": return T_("identity", stripref(e["ty"]))
    if n in ("std::to_string",): return mk("to_string", I.ev(a[0]))
    if n.startswith("std::") and b in ALG:
        r = ALG[b](I, e)
        if r is not None: return r
    if n in ("std::begin", "std::end", "std::cbegin", "std::cend"):
        o = I.lv(a[0]); return T_("iter", I.addr_of(o), ZERO if "begin" in n else size(I.get(o)))
    if n == "std::distance":
        return I.iterarith("-", I.ev(a[1]), I.ev(a[0]))
    if n in ("std::next", "std::prev"):
        x = I.ev(a[0]); k = I.ev(a[1]) if len(a) > 1 and a[1] else ONE
        return I.iterarith("+" if n == "std::next" else "-", x, k)
    if n == "std::advance":
        o = I.lv(a[0]); I.put(o, I.iterarith("+", I.get(o), I.ev(a[1]))); return VOID
    if n.startswith("std::chrono::duration_cast"): return I.ev(a[0])
    # unknown library function: uninterpreted; non-const reference parameters are outputs
    sig = e.get("f", "")
    ps = split_targs(sig[sig.rfind("(") + 1:].rstrip("const)").rstrip(",)")) if "(" in sig else []
    vals, lvs = vals_lvs(I, a)
    nm = n
    eff = False
    for i, l in enumerate(lvs):
        if i < len(ps) and ps[i].endswith("&") and not ps[i].startswith("const") and l is not None:
            I.put(l, typed(mkraw("out", nm, num(i), *vals), ps[i])); eff = True
    if n in ("boost::bind", "std::bind"): return mkraw("bind", "b", *vals)
    if e.get("t") == "v" or n.startswith("std::this_thread"):
        I.event("call:" + n, T_("args", *vals))
        return VOID
    return typed(mkraw("call", nm, *vals), e.get("ty"), e.get("t"))

# ------------------------------------------------------------------------------------------------ algorithms
def fncall(I, t, vals, lvs=None):
    if t.op == "lam" and t in I.lams: return I.call_lam(t, vals, lvs)
    if t.op == "fnref":
        c = I.db.byname.get(t.args[0])
        if c and len(c) == 1: return I.call_fn(c[0], vals, None, lvs)
    if t.op in ("default",):
        pass
    return typed(mkraw("call", "fn", t, *vals), "bool", "b")
def it_range(I, e):
    b, en = I.ev(e["a"][0]), I.ev(e["a"][1])
    if b.op == "iter" and en.op == "iter" : return b.args[0], b.args[1], sub(en.args[1], b.args[1]), b.op
    if b.op == "riter" and en.op == "riter": return b.args[0], b.args[1], sub(en.args[1], b.args[1]), b.op
    return None
def alg_quant(kind):
    def f(I, e):
        r = it_range(I, e)
        if r is None: return None
        ad, lo, n, op = r
        fn = I.ev(e["a"][2])
        k = fresh("k"); INTS.add(k); NONNEG.add(k)
        p = tobool(fncall(I, fn, [elem(I, ad, lo, k, op)], [elem_lv(I, ad, lo, k, op)]))
        if kind == "any": return bind_any(n, k, p)
        if kind == "all": return NOT(bind_any(n, k, NOT(p)))
        if kind == "none": return NOT(bind_any(n, k, p))
        if kind == "find":
            g = bind_any(n, k, p)
            return ite(g, lift(lambda i: T_(op, ad, add(lo, i)), bind_first(n, k, p)), lift(lambda nn: T_(op, ad, add(lo, nn)), n))
        if kind == "count":
            return bind_sum(n, k, ite(p, ONE, ZERO))
    return f
def elem_lv(I, ad, lo, k, op):
    return iter_lv(I, T_(op, ad, add(lo, k)))
def elem(I, ad, lo, k, op):
    return I.get(elem_lv(I, ad, lo, k, op))
def alg_find(I, e):
    r = it_range(I, e)
    if r is None: return None
    ad, lo, n, op = r
    x = I.ev(e["a"][2])
    k = fresh("k"); INTS.add(k); NONNEG.add(k)
    p = eq(elem(I, ad, lo, k, op), x)
    g = bind_any(n, k, p)
    return ite(g, lift(lambda i: T_(op, ad, add(lo, i)), bind_first(n, k, p)), lift(lambda nn: T_(op, ad, add(lo, nn)), n))
def alg_loop(body):
    """algorithm = counted loop over the range with the given body(I, e, k, ctx)"""
    def f(I, e):
        from loops import counted
        r = it_range(I, e)
        if r is None: return None
        ad, lo, n, op = r
        return body(I, e, ad, lo, n, op, counted)
    return f
def _foreach(I, e, ad, lo, n, op, counted):
    fn = I.ev(e["a"][2])
    def b(k):
        l = elem_lv(I, ad, lo, k, op)
        fncall(I, fn, [I.get(l)], [l])
    counted(I, n, b)
    return fn
def _accum(I, e, ad, lo, n, op, counted):
    init = I.ev(e["a"][2])
    acc = LV(I.newtmp(init, "acc"))
    fn = I.ev(e["a"][3]) if len(e["a"]) > 3 else None
    def b(k):
        x = elem(I, ad, lo, k, op)
        cur = I.get(acc)
        I.put(acc, fncall(I, fn, [cur, x]) if fn is not None else add(cur, x))
    counted(I, n, b)
    return I.get(acc)
def _fill(I, e, ad, lo, n, op, counted):
    x = I.ev(e["a"][2])
    cont = I.deref(ad); cur = I.get(cont)
    if lo is ZERO and n is size(cur): I.put(cont, fillseq(I, n, x)); return VOID
    counted(I, n, lambda k: I.put(elem_lv(I, ad, lo, k, op), x))
    return VOID
def _transform(I, e, ad, lo, n, op, counted):
    a = e["a"]
    out = I.ev(a[-2]); fn = I.ev(a[-1])
    second = I.ev(a[2]) if len(a) == 5 else None
    def b(k):
        vs = [elem(I, ad, lo, k, op)]
        if second is not None: vs.append(elem(I, second.args[0], second.args[1], k, second.op))
        v = fncall(I, fn, vs)
        if out.op == "inserter":
            l = I.deref(out.args[0]); I.put(l, app(I.get(l), v))
        else: I.put(elem_lv(I, out.args[0], out.args[1], k, out.op), v)
    counted(I, n, b)
    return VOID
def _copy(cond):
    def g(I, e, ad, lo, n, op, counted):
        a = e["a"]; out = I.ev(a[2]); fn = I.ev(a[3]) if cond else None
        def b(k):
            v = elem(I, ad, lo, k, op)
            def put():
                if out.op == "inserter":
                    l = I.deref(out.args[0]); c = I.get(l); I.put(l, lift(lambda s: app(s, v), c))
                else: I.put(elem_lv(I, out.args[0], out.args[1], k, out.op), v)
            if fn is None: put()
            else:
                c = tobool(fncall(I, fn, [v]))
                env0 = dict(I.env); put()
                from interp import merge_env
                I.env = merge_env(c, I.env, env0)
        counted(I, n, b)
        return VOID
    return g
def alg_sort(I, e):
    r = it_range(I, e)
    if r is None: return None
    ad, lo, n, op = r
    cont = I.deref(ad); cur = I.get(cont)
    key = VOID
    if len(e["a"]) > 2:
        fn = I.ev(e["a"][2])
        x, y = fresh("a"), fresh("b")
        c = fncall(I, fn, [x, y])
        h, (c,) = close([c], [x, y]); key = T_("cmpfn", h, c)
    w = cur if (lo is ZERO and n is size(cur)) else None
    if w is None: I.put(cont, T_("sortpart", cur, lo, n, key))
    else: I.put(cont, lift(lambda s: T_("sorted", s, key), cur))
    return VOID
def alg_reverse(I, e):
    r = it_range(I, e)
    if r is None: return None
    ad, lo, n, op = r
    cont = I.deref(ad); cur = I.get(cont)
    if lo is ZERO and n is size(cur): I.put(cont, lift(lambda s: s.args[0] if s.op == "rev" else T_("rev", s), cur))
    else: I.put(cont, T_("revpart", cur, lo, n))
    return VOID
def alg_minmax(mx):
    def f(I, e):
        r = it_range(I, e)
        if r is None: return None
        ad, lo, n, op = r
        cur = rng(I, T_(op, ad, lo), T_(op, ad, add(lo, n)))
        key = VOID
        if len(e["a"]) > 2:
            fn = I.ev(e["a"][2]); x, y = fresh("a"), fresh("b")
            c = fncall(I, fn, [x, y]); h, (c,) = close([c], [x, y]); key = T_("cmpfn", h, c)
        i = lift(lambda s: T_("argext", "max" if mx else "min", s, key), cur)
        for l in leaves(i): INTS.add(l)
        return lift(lambda q: T_(op, ad, add(lo, q)), i)
    return f
def alg_inserter(I, e):
    o = I.lv(e["a"][0])
    return T_("inserter", I.addr_of(o))
ALG = {"any_of": alg_quant("any"), "all_of": alg_quant("all"), "none_of": alg_quant("none"), "find_if": alg_quant("find"), "count_if": alg_quant("count"),
       "find": alg_find, "for_each": alg_loop(_foreach), "accumulate": alg_loop(_accum), "fill": alg_loop(_fill), "transform": alg_loop(_transform),
       "copy": alg_loop(_copy(False)), "copy_if": alg_loop(_copy(True)), "sort": alg_sort, "stable_sort": alg_sort, "reverse": alg_reverse,
       "max_element": alg_minmax(True), "min_element": alg_minmax(False), "back_inserter": alg_inserter}

# ------------------------------------------------------------------------------------------------ range for
def range_for(I, s):
    r = s["r"]
    ty = stripref(r.get("ty", ""))
    lv = I.lv(r)
    if lv is None: lv = LV(I.newtmp(I.ev(r)))
    if ty.startswith("pcl::PointCloud") or (leaves(I.get(lv))[0].op == "rec" and any(k == "points" for k, _ in leaves(I.get(lv))[0].args[1])): lv = lv.sub(("f", "points"))
    var = s["var"]
    cur = I.get(lv)
    ismap = ty.startswith(MAP + SET) or "pair<const" in var.get("ty", "")
    from loops import counted_stmt
    def bodyfn(k):
        if ty.startswith(SET): el = LV(I.newtmp(typed(T_("mkey", I.get(lv), k), var["ty"], var["t"])))
        else: el = lv.sub(("me", k) if ismap else ("e", (k,)))
        if var.get("bindings"):
            names = I.binding_names(dict(var))
            src = el if var.get("ref") else LV(I.newtmp(I.get(el)))
            for b, nme in zip(var["bindings"], names): I.bind(b["id"], src.sub(("f", nme)))
        elif var.get("ref"): I.bind(var["id"], el)
        else: I.local(var["id"], typed(I.get(el), var["ty"], var["t"]))
        return I.exec(s["b"])
    return counted_stmt(I, typed1(size(cur), "u"), bodyfn)
