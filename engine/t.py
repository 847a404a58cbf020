import sys, time
sys.path.insert(0, '/verif/engine')
import db as D
from summ import *
db = D.load()
for n in sys.argv[1:]:
    for f in db.byname.get(n, []):
        t = time.time()
        S = summarize(db, f)
        print("=====", f["id"], "%.2fs" % (time.time() - t), "unsup", S.unsup)
        for k, v in S.out.items(): print("  ", k, "=", show(v, 30))
