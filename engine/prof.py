"""(debugging) t2 with a profile of solver queries by caller"""
import sys, time, collections, signal, traceback
sys.path[:0]=['/verif/engine','/verif/contracts']
import jobs, solver, requests_ as R, prims
prims.VERIFIED|=set(prims.USE)|{(k,r.api,v) for r in R.REQ.values() for v in r.versions for k in ('length','EncodeTo')}
o=solver._check
tot=collections.defaultdict(lambda:[0,0.0,0.0])
sizes=[]
def ck(hs,goal,depth,wm,to):
    t=time.time(); r=o(hs,goal,depth,wm,to); d=time.time()-t
    key='<'.join('%s:%d'%(f.name,f.lineno) for f in reversed(traceback.extract_stack()[-8:-1]) if f.name not in('check','prove','<listcomp>'))
    e=tot[key]; e[0]+=1; e[1]+=d; e[2]=max(e[2],d)
    sizes.append((d,len(hs),goal.k,r))
    return r
solver._check=ck
n,v=sys.argv[1],int(sys.argv[2])
r=R.REQ[n]
try:
    res=jobs.run_job('x',R.encode_job(r,v,('frame','body')),timeout=float(sys.argv[3]))
    print(n,v,'OK' if res.ok else 'FAIL','obl',res.obligations,res.discharged,'%.2fs z3 %.2fs q%d'%(res.time,res.solver_time,res.queries), (res.unsupported or '')[:300])
    for f in res.fails[:3]: print('    ',f.obligation,f.line,f.detail[:600])
finally:
    for k,e in sorted(tot.items(),key=lambda z:-z[1][1])[:12]: print('%5d %7.2fs max %.2f %s'%(e[0],e[1],e[2],k[:230]))
    print(solver.stats)
