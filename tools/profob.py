"""profob.py pattern [n]: profile one obligation (run in this process)"""
import sys
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/checks'); sys.setrecursionlimit(20000)
import threading; threading.stack_size(512<<20)
import cProfile,pstats
def go():
    import run, table, summ
    o=[e for es in table.INDEX.values() for e in es if sys.argv[1] in e.name][0]
    opq = {n: "constthis" if all(run.constref(e) for e in es) else "callee" for n, es in table.INDEX.items()}
    run.D.load((o.area+'.cpp',))
    run.signal.signal=lambda *a: None; run.signal.alarm=lambda *a: None; run.signal.setitimer=lambda *a: None
    pr=cProfile.Profile(); 
    if "--first" in sys.argv:
        pass
    pr.enable(); r=run.run_E(o,opq,0); pr.disable()
    print(r["ok"],r["t"])
    for k in ("cumtime","tottime"): pstats.Stats(pr).sort_stats(k).print_stats(int(sys.argv[2]) if len(sys.argv)>2 else 40)
t=threading.Thread(target=go); t.start(); t.join()
