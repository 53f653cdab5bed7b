#!/usr/bin/env python3
"""sweep.py WORLD PROFILE N [start] - run N seeds on 8 workers, group violations (development helper)."""
import subprocess,sys,json,os,collections,re,time
w,p,n=sys.argv[1],sys.argv[2],int(sys.argv[3]); st=int(sys.argv[4]) if len(sys.argv)>4 else 1
v=os.environ.get('SIM_VARIANT','plain'); exe=os.path.dirname(os.path.abspath(__file__))+f'/../build/{v}/sim'
t=time.time(); ps=[]
for k in range(8):
    f=open(f'/tmp/sw{os.getpid()}.{k}.out','w'); i=open(f'/tmp/sw{os.getpid()}.{k}.in','w+'); i.write(''.join(f"{w} {p} seed {s}\n" for s in range(st+k,st+n,8))); i.seek(0); q=subprocess.Popen([exe],stdin=i,stdout=f,stderr=open(f'/tmp/sw{os.getpid()}.{k}.err','w'),text=True)
    ps.append(q)
g=collections.defaultdict(list); cnt=collections.Counter(); vt=0; runs=0; cov=set()
for k,q in enumerate(ps):
    q.wait(); s=st+k
    for l in open(f'/tmp/sw{os.getpid()}.{k}.out',errors='replace'):
        try: d=json.loads(l)
        except Exception: g['badjson '+l[:200]].append(s); s+=8; continue
        runs+=1
        if 'crash' in d: g['CRASH '+str(d['crash'])[:200]].append(s)
        for tag,txt in d.get('viol',[])[:1]:
            key=tag+': '+re.sub(r'\[(MTA )?history.*','',re.sub(r'0x[0-9a-f]+|\d+','#',txt))[:170]; g[key].append(s)
        vt+=d.get('vt',0); cnt.update(d.get('cnt',{})); cov.update(d.get('cov',[])); s+=8
print(f"{runs} runs {time.time()-t:.1f}s vt={vt/1e9:.0f}s cov={len(cov)} bad={sum(map(len,g.values()))}")
for k,x in sorted(g.items(),key=lambda e:-len(e[1]))[:int(os.environ.get('TOP','12'))]: print(len(x),sorted(x)[:6],k)
if os.environ.get('CNT'): print(dict(cnt))
