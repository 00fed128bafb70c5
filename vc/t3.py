import sys; import time; t0=time.time()
sys.setrecursionlimit(20000)
import cast, task, importlib, prove
import multiprocessing as mp
mod=importlib.import_module(sys.argv[1])
P=cast.Program(); P.load(sys.argv[2].split(',')); print('load',time.time()-t0)
for n in sys.argv[3:]:
    try: t=getattr(mod,n)(P)
    except Exception as e:
        import traceback; traceback.print_exc(); continue
    r=task.run_task(t,verbose=True,budget=400)
    print(r.name, 'OK' if r.ok else 'NOT OK', round(r.wall,1), r.paths, r.error, r.backends, sorted(r.inlined), sorted(r.contracts))
    for k,v in r.loops.items(): print('   inv',k,v)
    for o,v,be in r.failed[:int(__import__('os').environ.get('NF','2'))]: print('  FAIL',o[0],o[1],v,be, '\n     '+'\n     '.join(task.tm.show(p)[:300] for p in o[2][-int(__import__('os').environ.get('PCN','12')):]), '\n  |-', task.tm.show(o[3])[:1200])
