import cProfile,pstats,signal,sys
sys.path.insert(0,'/verif/engine')
import db as D
from summ import *
db=D.load()
def h(*a): raise KeyboardInterrupt
signal.signal(signal.SIGALRM,h); signal.alarm(int(sys.argv[2]))
p=cProfile.Profile(); p.enable()
try:
  S=summarize(db, db.byname[sys.argv[1]][0], {"opaque":{x:'mut' for x in sys.argv[3:]}})
  print("DONE")
except KeyboardInterrupt: pass
p.disable()
pstats.Stats(p).sort_stats('cumtime').print_stats(60)
