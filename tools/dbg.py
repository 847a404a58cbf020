"""dbg.py PROP pattern: run matching obligations in this process, print all modes"""
import sys, os
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/checks')
sys.setrecursionlimit(20000)
import threading; threading.stack_size(512<<20)
def go():
    import run, table
    meta, obs = table.P[sys.argv[1]] if sys.argv[1] in table.P else (0, [e for es in table.INDEX.values() for e in es])
    for o in obs:
        if len(sys.argv) > 2 and sys.argv[2] not in o.name: continue
        opq = {n: "constthis" if all(run.constref(e) for e in es) else "callee" for n, es in table.INDEX.items()}
        if "--inline" in sys.argv: opq = {}
        run.D.load((o.area+'.cpp',)) if isinstance(o, run.E) else 0
        def w():
            r = run.run_E(o, opq, 600) if isinstance(o, run.E) else run.run_R(o, 600)
            for k, v in r.items(): print(k, ":", str(v)[:3000])
        import multiprocessing as mp
        p = mp.get_context('fork').Process(target=w); p.start(); p.join()
t=threading.Thread(target=go); t.start(); t.join()
