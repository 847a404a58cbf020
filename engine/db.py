"""Extraction driver: parses /repo's current sources (all translation units, including those whose ROS dependencies are
not installed, against the stub headers) into one resolved program database.  Everything is cached by content hash in
/verif/build (git-ignored)."""
import re, hashlib, json, os, subprocess, sys, fcntl, concurrent.futures as cf, pickle, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
STUBS = os.path.join(VERIF, "stubs")
SPEC = os.path.join(VERIF, "spec")
class AnalysisBroken(Exception): pass

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)
def _h(*parts):
    h = hashlib.blake2b(digest_size=12)
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()
def _read(p):
    with open(p, "rb") as f: return f.read()
_lockf = []
class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def extractor():
    src = os.path.join(VERIF, "extract", "extract.cpp")
    out = os.path.join(BUILD, "extract-" + _h(_read(src)))
    if os.path.exists(out): return out
    tmp = out + ".tmp%d" % os.getpid()
    r = sh(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
            "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM.so", "-Wl,-rpath,/usr/lib/llvm-18/lib"])
    if r.returncode: raise AnalysisBroken("extractor does not build: " + r.stderr[-2000:])
    os.rename(tmp, out)
    return out

def repo_sources():
    fs = []
    for pkg in ("avoidance", "local_planner", "safe_landing_planner", "global_planner"):
        for ext in ("cpp", "h", "hpp", "cfg", "msg"):
            fs += glob.glob("%s/%s/**/*.%s" % (REPO, pkg, ext), recursive=True)
    return sorted(f for f in fs if "/test/" not in f)

TUS = ["avoidance/src/*.cpp", "local_planner/src/**/*.cpp", "safe_landing_planner/src/**/*.cpp", "global_planner/src/**/*.cpp"]
def tus():
    r = []
    for p in TUS: r += glob.glob(os.path.join(REPO, p), recursive=True)
    return sorted(set(r))

_resdir = [None]
def cflags(inc):
    if not _resdir[0]: _resdir[0] = sh(["clang++", "-print-resource-dir"]).stdout.strip()
    fl = ["-std=c++14", "-resource-dir", _resdir[0], "-w", "-ferror-limit=0", "-I" + inc, "-I/usr/include/eigen3"]
    for d in ("avoidance", "local_planner", "safe_landing_planner", "global_planner"): fl.append("-I%s/%s/include" % (REPO, d))
    fl.append("-I%s/local_planner/src" % REPO)
    return fl

def _headers_hash():
    hs = [f for f in repo_sources() if not f.endswith(".cpp")]
    return _h(*[x for f in hs for x in (f, _read(f))], _read(os.path.join(STUBS, "ros_stub.h")), _read(os.path.join(STUBS, "tf_vector.h")), _read(os.path.join(STUBS, "tf_transform.h")), _read(os.path.join(STUBS, "mkinclude.py")))

def _extract(args):
    exe, roots, f, flags, out = args
    r = sh([exe, roots, f, "--"] + flags)
    if not r.stdout.strip(): return f, "extractor failed on %s: %s" % (f, r.stderr[-800:])
    tmp = out + ".tmp%d" % os.getpid()
    txt = r.stdout
    # two packages define avoidance::WaypointGenerator: keep them apart
    if "/safe_landing_planner/" in f or b"safe_landing_planner/waypoint_generator" in _read(f):
        txt = re.sub(r"avoidance::WaypointGenerator(?!Node)", "avoidance::SLPWaypointGenerator", txt)
    d = json.loads(txt)
    d["stderr"] = "\n".join(l for l in r.stderr.splitlines() if "error:" in l)[:4000]
    with open(tmp, "wb") as g: pickle.dump(d, g, protocol=4)
    os.rename(tmp, out)
    return f, None

def stub_include():
    sys.path.insert(0, STUBS)
    import mkinclude
    key = _headers_hash()
    inc = os.path.join(BUILD, "inc-" + key)
    params = mkinclude.main(inc, REPO)
    return inc, key, params

class DB:
    def __init__(self):
        self.fns = {}; self.recs = {}; self.vars = {}; self.enums = {}; self.errors = {}; self.byname = {}; self.files = []
        self.cfg = {}
    def add(self, d, f):
        self.files.append(f)
        if d["errors"]: self.errors[f] = d["stderr"]
        for x in d["fns"]:
            if x["id"] not in self.fns:
                self.fns[x["id"]] = x
                self.byname.setdefault(x["n"], []).append(x)
        for x in d["recs"]: self.recs.setdefault(x["ty"], x)
        for x in d["vars"]:
            if x["n"] not in self.vars or ("init" in x and "init" not in self.vars[x["n"]]): self.vars[x["n"]] = x
        for x in d["enums"]: self.enums[x["n"]] = x["c"]
    def fn(self, name, nparams=None, ptypes=None, const=None):
        c = [x for x in self.byname.get(name, []) if (nparams is None or len(x["params"]) == nparams)
             and (ptypes is None or all(t in p["ty"] for t, p in zip(ptypes, x["params"])))
             and (const is None or x.get("const", False) == const)]
        if not c: raise AnalysisBroken("anchor function %s not found in the program" % name)
        if len(c) > 1: raise AnalysisBroken("anchor function %s is ambiguous: %s" % (name, [x["id"] for x in c]))
        return c[0]
    def has(self, name): return name in self.byname

_cache = {}
def load(spec=()):
    """program database of the repository (plus the given spec files)"""
    spec = tuple(spec)
    if spec in _cache: return _cache[spec]
    with Lock():
        exe = extractor()
        inc, key, params = stub_include()
        flags = cflags(inc)
        jobs = []
        files = [(f, "%s/,%s/tf_,+%s" % (REPO, inc, inc)) for f in tus()]
        if len(files) < 20: raise AnalysisBroken("only %d translation units found in %s" % (len(files), REPO))
        sp = [os.path.join(SPEC, s) for s in spec]
        files += [(f, "%s/,%s/,%s/tf_,+%s" % (REPO, SPEC, inc, inc)) for f in sp]
        outs = []
        for f, roots in files:
            fl = list(flags)
            if f in sp: fl += ["-fno-access-control", "-I" + SPEC]
            hdrs = b"".join(_read(h) for h in sorted(glob.glob(SPEC + "/*.h"))) if f in sp else b""
            out = os.path.join(BUILD, "tu-" + _h("v2", _read(f), f, key, exe, roots, " ".join(fl), hdrs))
            outs.append((f, out))
            if not os.path.exists(out): jobs.append((exe, roots, f, fl, out))
        if jobs:
            with cf.ThreadPoolExecutor(8) as ex:
                for f, err in ex.map(_extract, jobs):
                    if err: raise AnalysisBroken(err)
        # prune old cache entries
        keep = {o for _, o in outs} | {inc, exe}
        ents = sorted(glob.glob(BUILD + "/tu-*"), key=os.path.getmtime)
        for o in ents[:-400]:
            if o not in keep:
                try: os.unlink(o)
                except OSError: pass
        db = DB()
        for f, o in outs:
            with open(o, "rb") as g: d = pickle.load(g)
            os.utime(o)
            if f in sp and d["errors"]: raise AnalysisBroken("reference definition %s no longer matches the program's declarations: %s" % (f, d["stderr"][:1500]))
            db.add(d, f)
        db.cfg = params
        import compare
        compare.FULL = {frozenset(x["n"] for x in r["fields"]) for r in db.recs.values() if r["fields"] and not r["bases"]}
    _cache[spec] = db
    return db
if __name__ == "__main__":
    import time
    t = time.time(); d = load(); print(len(d.fns), "functions", len(d.recs), "records", len(d.files), "units", d.errors, "%.1fs" % (time.time() - t))
