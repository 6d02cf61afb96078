"""dev: run one contract symbolically: one.py C16 harness [unbounded|bounded] [-p]"""
import sys, os, time
sys.path.insert(0,'/verif')
from pyvc import worker
from pyvc import engine, nf, sym
from pyvc import loader; loader.install()
hs=[h for h in worker.load(sys.argv[1]) if h.name==sys.argv[2]]
h=hs[0]
mode=sys.argv[3] if len(sys.argv)>3 else h.modes[0]
e=engine.Engine(bounded=mode=='bounded',budget=h.budget,sizes=h.sizes,z3_timeout=h.z3_timeout,max_paths=h.max_paths)
def go():
    try: e.explore(h.f, engine.SymVC)
    except Exception as x:
        import traceback; traceback.print_exc()
t=time.time()
if '-p' in sys.argv:
    import cProfile,pstats
    p=cProfile.Profile(); p.runcall(go); pstats.Stats(p).sort_stats('cumtime').print_stats(45)
else: go()
print('paths',e.paths,'wall',time.time()-t,nf.STATS)
for o in e.obls:
    d=o.as_dict()
    if "-v" in sys.argv or d["status"]!="discharged": print(str(d)[:1500])
