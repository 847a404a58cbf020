"""mkseed.py: make and confirm a planted change.
usage in python: seed(id, prop, [(file, old, new)...], needs, breaks, demo_cpp or (files dict, shell), srcs=[...])"""
import os, sys, json, subprocess as sp
VS = "/verif/seeded"
def sh(c, **k): return sp.run(c, shell=True, capture_output=True, text=True, **k)
CPP = """#!/bin/bash
# run in /repo after the build: 0 = the property holds, 1 = it is broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w %s -I avoidance/include -I local_planner/include -I safe_landing_planner/include -I global_planner/include -I "$D" -I /usr/include/eigen3 "$D/demo.cpp" %s -o "$T/demo" || exit 2
"$T/demo"
"""
def seed(id, prop, edits, needs, breaks, demo, srcs="", flags="", files=None, run=True, check=True):
    d = os.path.join(VS, id); os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    try:
        for f, o, n in edits:
            p = "/repo/" + f; s = open(p).read()
            assert s.count(o) == 1, (f, o, s.count(o))
            open(p, "w").write(s.replace(o, n))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        if demo.startswith("#!"): open(d + "/demo.sh", "w").write(demo)
        else:
            open(d + "/demo.cpp", "w").write(demo); open(d + "/demo.sh", "w").write(CPP % (flags, srcs))
        for n, c in (files or {}).items(): open(os.path.join(d, n), "w").write(c)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        if not run: return
        r = sh("bash /opt/vp/test.sh /tmp/seed_out.json"); 
        try: fails = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/seed_out.json"))["passed"])
        except Exception as e: fails = str(e)
        bad = sh("bash %s/demo.sh" % d, cwd="/repo")
        c = sh("cd /verif && timeout 900 python3 check.py %s" % prop) if check else None
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    good = sh("bash %s/demo.sh" % d, cwd="/repo")
    ok = not fails and bad.returncode != 0 and bad.returncode != 2 and good.returncode == 0
    print("%-28s %s %s tests_lost=%s demo(patched)=%d demo(clean)=%d check=%s %s" % (id, prop, "COUNTS" if ok else "*** NO", fails or "-", bad.returncode, good.returncode,
      c and c.returncode, c and [l for l in c.stdout.splitlines() if l.startswith("VIOLATION") or "BROKEN" in l]))
    if not ok: print(bad.stdout[-600:], bad.stderr[-900:], "\n--clean", good.stdout[-600:], good.stderr[-900:])
