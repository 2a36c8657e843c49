import sys, random, time
sys.path[:0]=['/repo','/verif/bounded']
import warnings; warnings.simplefilter('ignore')
import importlib, collections, json
import view
mod=importlib.import_module(sys.argv[1]); P=getattr(mod,sys.argv[2])()
N=int(sys.argv[3])
t0=time.time(); n=0; bad=collections.Counter(); ex={}
def go(c):
    global n
    n+=1
    m=view.guarded(P.check,c)
    if m:
        import re
        k=re.sub(r'[-\d.]+','#',m)[:90]
        bad[k]+=1
        if k not in ex or len(json.dumps(c))<len(json.dumps(ex[k][0])): ex[k]=(c,m)
for c in P.fixed(): go(c)
nf=n; tf=time.time()-t0
rng=random.Random(int(sys.argv[4]) if len(sys.argv)>4 else 1)
for _ in range(N):
    go(json.loads(json.dumps(P.gen(rng))))
print(sys.argv[2],'fixed',nf,'%.1fs'%tf,'rand',n-nf,'%.1fs'%(time.time()-t0-tf), 'bad',sum(bad.values()))
for k,v in bad.most_common(6): print('  ',v,ex[k][1],'\n     ',json.dumps(ex[k][0])[:700])
