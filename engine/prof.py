import cProfile,pstats,signal,sys,traceback
sys.path.insert(0,'/verif/engine')
import db as D
from summ import *
db=D.load()
def h(*a): raise KeyboardInterrupt
signal.signal(signal.SIGALRM,h); signal.alarm(int(sys.argv[2]) if len(sys.argv)>2 else 20)
opq={x:'mut' for x in sys.argv[3:]}
try:
  S=summarize(db, db.byname[sys.argv[1]][0], {"opaque":opq})
  for k, v in S.out.items(): print("  ", k, "=", show(v, 30))
except BaseException as e:
  signal.alarm(0)
  print(repr(e)[:200])
  prev=None
  for f in traceback.extract_tb(sys.exc_info()[2]):
    if f.name!=prev or f.name not in ('ite','_ite','go'): print(f.name,f.lineno,end=' ')
    prev=f.name
  tb=sys.exc_info()[2]
  while tb:
    fr=tb.tb_frame
    for v in ('e','s'):
      x=fr.f_locals.get(v)
      if isinstance(x,dict) and 'loc' in x: print('\n  at',x['loc'],x.get('k'),end='')
    if fr.f_code.co_name in('_ite',) : print([ (n,nleaves(fr.f_locals[n]), len(str(fr.f_locals[n].big))) for n in 'cxy' if n in fr.f_locals][:3], end='|')
    tb=tb.tb_next
print()
