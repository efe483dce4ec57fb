import signal, sys, time, re, traceback
sys.path.insert(0, "/verif")
from pg import facts, engine
from pg.terms import *
F = facts.load("/tmp/w/facts.json")
an = engine.Analyzer(F)
out=open("/tmp/w/all.txt","w")

class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM,h)
bad=0; t0=time.time()
for b in sorted(F.roots,key=lambda b:b["def"]):
    if b.get("derived"): continue
    t=time.time()
    signal.alarm(20)
    try:
        r=an.run(b)
    except Exception as ex:
        bad+=1
        print("FAIL",b["def"],type(ex).__name__,str(ex)[:200]); 
        if "-v" in sys.argv: traceback.print_exc()
        continue
    finally: signal.alarm(0)
    dt=time.time()-t
    if dt>0.5: print("slow %.2f"%dt,b["def"])
    print("=====", b["def"], b["span"], b.get("trait"), file=out)
    print("  ret:", pp(r.ret)[:3000] if r.ret else r.ret, file=out)
    for e in r.effects: print("   ", str(e)[:2000], file=out)
    for p in r.panics: print("    PANIC", pp_c(p[0])[:600], p[1], p[3], file=out)
print("bad",bad,"time",time.time()-t0,len(F.roots))
