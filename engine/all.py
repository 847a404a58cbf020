import sys, time, signal, traceback, collections
sys.path.insert(0, '/verif/engine')
import db as D
from summ import *
from multiprocessing import Pool
db = D.load()
class TO(Exception): pass
def h(*a): raise TO()
LIM = int(sys.argv[2]) if len(sys.argv) > 2 else 20
def one(fid):
    f = db.fns[fid]
    signal.signal(signal.SIGALRM, h)
    t = time.time(); signal.alarm(LIM)
    try:
        S = summarize(db, f); st = "ok"
        if S.unsup: st = "unsup " + "; ".join(sorted(set(S.unsup)))[:150]
    except TO: st = "TIMEOUT"
    except Exception as ex:
        signal.alarm(0)
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        st = "EXC %s %s @%s:%d" % (type(ex).__name__, str(ex)[:80], tb.filename.split("/")[-1], tb.lineno)
    signal.alarm(0)
    return fid, time.time() - t, st
pat = sys.argv[1] if len(sys.argv) > 1 else ""
todo = [fid for fid, f in db.fns.items() if not f.get("lam") and f.get("body") and pat in fid and "/stubs/" not in f.get("file", "")]
bad = 0
with Pool(8, maxtasksperchild=20) as p:
    for fid, dt, st in p.imap_unordered(one, todo):
        if st != "ok" or dt > 3: print("%6.2f %-70s %s" % (dt, fid[:70], st), flush=True); bad += 1
print(len(todo), "functions", bad, "bad")
