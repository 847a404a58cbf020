"""C40: the state diagram tool (Python) against its reference definition, on the same value graphs as the C++ code"""
import os
import db as D
import py, compare
from term import *
TOOL = "tools/generate_flow_diagram.py"
NAMES = (   # callees first
    "extract_first_wrapped", "extract_all_wrapped", "extract_transitions", "make_dot_file_string", "main")
def load(db):
    p = os.path.join(D.REPO, TOOL)
    if not os.path.exists(p): raise D.AnalysisBroken("%s not found" % TOOL)
    return py.Mod(p, db), py.Mod(os.path.join(D.VERIF, "spec", "flow.py"), db)
def differ(db, impl, spec, name, opaque):
    a, I = py.summarize(db, impl, name, opaque)
    b, J = py.summarize(db, spec, name, opaque)
    d = []
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if k.startswith("ev:") or k.startswith("throw:ev:"): x, y = x if x is not None else NIL, y if y is not None else NIL
        if k == "throws": x, y = x if x is not None else FALSE, y if y is not None else FALSE
        if k == "throw:value": x, y = x if x is not None else T_("dontcare"), y if y is not None else T_("dontcare")
        if x is None or y is None: d.append("%s: only one side has it" % k); continue
        ok, e = compare.check_equal(x, y)
        if not ok: d.append("%s: %s" % (k, str(e.diff) if e.diff else "equality not established within the budget"))
    return d, sorted(a), I
def timed(sec, fn):
    import run, signal
    left = signal.alarm(sec)
    try: return fn()
    except (run.TO, MemoryError, TooBig): return None
    finally: signal.alarm(left)
def rule(c):
    """bottom up: a function proved equal stands for itself in its callers; one that is not (its interface may have changed)
    is inlined there.  What counts in the end is the program: main and everything below it."""
    impl, spec = load(c.db)
    proved, bad = set(), {}
    if "main" not in impl.funcs: raise D.AnalysisBroken("main not found in %s" % TOOL)
    for name in NAMES:
        fd = impl.funcs.get(name)
        if fd is None: continue
        r = timed(60, lambda: differ(c.db, impl, spec, name, proved))
        if r is None: bad[name] = ["not decided within its bound"]; continue
        d, keys, I = r
        for k in keys: c.site("%s: %s" % (name, k))
        for g in sorted(I.inl - {name}): c.site("%s: %s inlined" % (name, g))
        if d: bad[name] = d
        else: proved.add(name)
    if "main" in proved: return
    for name, d in bad.items():
        if name == "main" and len(bad) > 1 and d == ["not decided within its bound"]: continue
        for x in d: c.bad("%s:%s %s" % (TOOL, impl.funcs[name].lineno, name), x, name)
