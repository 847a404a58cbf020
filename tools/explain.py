"""explain.py PROP pattern [--inline]: where do the program's and the reference's value graphs differ?"""
import sys, os
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/checks')
sys.setrecursionlimit(20000)
import threading; threading.stack_size(512<<20)
import run, table, compare
from run import *
from compare import *
def go():
    seen=set()
    def ex(x,y,d,what):
        ind="  "*d
        if x is y or phash(x)==phash(y): return
        if (x,y) in seen or d>40: print(ind+what+" (seen)"); return
        seen.add((x,y))
        if x.op==y.op and x.op in ("fold",):
            (n,h,kd,bs,ins,i),(n2,h2,kd2,bs2,ins2,i2)=x.args,y.args
            print(ind+what+" fold accs %d/%d"%(len(bs),len(bs2)))
            ex(n,n2,d+1,"trip")
            if len(bs)!=len(bs2):
                print(ind+" inits1",[show(t,3,[12]) for t in ins]); print(ind+" inits2",[show(t,3,[12]) for t in ins2]); return
            used=set(); p=[]
            for j,a in enumerate(ins):
                c=[q for q in range(len(ins2)) if q not in used and phash(ins2[q])==phash(a)]
                if j==i: c=[i2]
                if not c: print(ind+" no init for",show(a,4,[20])); p.append(None); continue
                used.add(c[0]); p.append(c[0])
            for j in range(len(p)):
                if p[j] is None:
                    r=[q for q in range(len(p)) if q not in used]; p[j]=r[0]; used.add(r[0]); ex(ins[j],ins2[p[j]],d+1,"init%d"%j)
            bv1=[T_("bv",h)]+[T_(k,h+1+j) for j,k in enumerate(kd)]
            bv2=[T_("bv",h2)]+[T_(kd2[j],h2+1+j) for j in p]
            ss,o1=open_(list(bs),bv1)
            o2=rename([bs2[j] for j in p],dict(zip(bv2,ss)))
            for j,(a,b) in enumerate(zip(o1,o2)): ex(a,b,d+1,"acc%d<%s>"%(j,show(ins[j],2,[6])))
            return
        if x.op==y.op and x.op in ("any","first","lastk","sum","gen","coll"):
            (n,h,b),(n2,h2,b2)=x.args,y.args
            ex(n,n2,d+1,what+".n")
            ss,o1=open_([b],[T_("bv",h)]); o2=rename([b2],{T_("bv",h2):ss[0]})
            ex(o1[0],o2[0],d+1,x.op+".body"); return
        def g(x): return x.args if x.op!="ite" else (x.args[0],x.args[1],x.args[2])
        if x.op==y.op and len(x.args)==len(y.args) and x.op not in ("poly","num","str","sym","bv","bi","ba"):
            subs=[]
            def tup(a,b,w):
                if isinstance(a,T) and isinstance(b,T):
                    if not(a is b or phash(a)==phash(b)): subs.append((a,b,w))
                elif isinstance(a,tuple) and isinstance(b,tuple) and len(a)==len(b):
                    for q,(m,n) in enumerate(zip(a,b)): tup(m,n,w+".%d"%q)
                elif a!=b: subs.append((a,b,w))
            tup(x.args,y.args,x.op)
            if x.op in("cmp","eq") or len(subs)>2 and x.op!="rec" or any(not isinstance(s[0],T) for s in subs):
                print(ind+what+" "+x.op+"\n"+ind+"  1: "+show(x,9,[140])+"\n"+ind+"  2: "+show(y,9,[140])); 
            print(ind+what+" "+x.op+" %d differing"%len(subs))
            for a,b,w in subs:
                if isinstance(a,T): ex(a,b,d+1,w)
            return
        print(ind+what+" DIFF\n"+ind+"  1: "+show(x,9,[160])+"\n"+ind+"  2: "+show(y,9,[160]))
    meta, obs = table.P[sys.argv[1]] if sys.argv[1] in table.P else (0, [e for es in table.INDEX.values() for e in es])
    for o in obs:
        if sys.argv[2] not in o.name: continue
        opq = {n: "constthis" if all(run.constref(e) for e in es) else "callee" for n, es in table.INDEX.items() if n!=o.impl}
        opq.update(o.opaque); opq={k:v for k,v in opq.items() if v}
        if "--inline" in sys.argv: opq = {}
        db=run.D.load((o.area+'.cpp',))
        f=find(db,o); gg=db.fn("spec::"+o.ref)
        opts=dict(o.opts); opts["opaque"]=opq
        if o.dyncls: opts["dyncls"]=o.dyncls
        a=summarize(db,f,opts)
        def pre(I):
            if o.ctor: I.env[T_("H",THIS)]=UNDEF
        b=summarize(db,gg,opts,selfparam=bool(f.get("cls")) and not f.get("static"),pre=pre)
        oa,ta=outputs(a); ob_,tb=outputs(b)
        print("unsup",set(a.unsup),set(b.unsup)); print(sorted(oa)); print(sorted(ob_))
        A=getattr(b.I,"assumed",TRUE)
        for k in sorted(set(oa)|set(ob_)):
            x,y=oa.get(k,default_of(k)),ob_.get(k,default_of(k))
            if x is None or y is None: print(k,"missing",x is None,y is None, show(x or y,6,[60])); continue
            if A is not TRUE: x,y=ite(A,x,DC),ite(A,y,DC)
            if "--eq" in sys.argv: print(k, check_equal(x,y,o.budget)[0])
            ex(x,y,0,k)
            if "--show" in sys.argv: print(k,"\n 1:",show(x,12,[300]),"\n 2:",show(y,12,[300]))
t=threading.Thread(target=go); t.start(); t.join()
