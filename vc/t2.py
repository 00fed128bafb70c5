import sys,random,collections; import harness,importlib
g=importlib.import_module(sys.argv[1])
exe=harness.build(); rng=random.Random(int(sys.argv[3]) if len(sys.argv)>3 else 1)
p=getattr(g,sys.argv[2])()
import time; t=time.time()
cs=list(p.cases(rng,int(sys.argv[4]) if len(sys.argv)>4 else 20000,p.hints(),0)); print('gen',time.time()-t)
rs=harness.run_parallel(exe,[p.command(c) for c in cs]); print('run',time.time()-t)
st=collections.Counter(); nb=0
for c,r in zip(cs,rs):
    st[str(r[1])[:40] if r and r[0]=='exc' else r[0] if r else None]+=1
    m=p.judge(c,r)
    if m:
        nb+=1
        if nb<6: print(str(harness.dump(p.command(c)))[:700],'\n   ',str(m)[:1500])
print(nb,st,time.time()-t)
