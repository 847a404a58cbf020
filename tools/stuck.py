"""stuck.py pattern [seconds]: where is a slow obligation spending its time?"""
import sys, multiprocessing as mp
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/checks'); sys.setrecursionlimit(20000)
import threading; threading.stack_size(512<<20)
def go():
    import run, table
    obs=[e for es in table.INDEX.values() for e in es if sys.argv[1] in e.name]
    opq = {n: "constthis" if all(run.constref(e) for e in es) else "callee" for n, es in table.INDEX.items()}
    run.D.load((obs[0].area+'.cpp',))
    def w():
        import traceback
        def al(*a):
            prev=None
            for f in traceback.extract_stack():
                k=(f.name,f.lineno)
                if k!=prev: print(f.filename.split("/")[-1],f.name,f.lineno)
                prev=k
            sys.stdout.flush(); import os; os._exit(1)
        run._alarm=al
        r=run.run_E(obs[0],opq,int(sys.argv[2]) if len(sys.argv)>2 else 30); print(r["ok"],r["t"],r["modes"])
    p=mp.get_context('fork').Process(target=w); p.start(); p.join()
t=threading.Thread(target=go); t.start(); t.join()
