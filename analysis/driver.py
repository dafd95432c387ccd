"""Obligations, parallel evaluation, evidence and verdicts."""
import resource, os, sys, time, json, traceback, multiprocessing as mp, signal
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from dom import *
from interp import *
from ir import Program
import content
from model import *

VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('M4RIE_REPO','/repo')

class Violation:
    def __init__(s,where,rule,what,witness=None): s.where=where; s.rule=rule; s.what=what; s.witness=witness
    def d(s): return dict(construct=s.where,rule=s.rule,what=s.what,witness=s.witness)
class Res:
    """outcome of one obligation"""
    def __init__(s): s.n=0; s.viol=[]; s.und=[]; s.fn=set(); s.notes=[]
    def absorb(s,I):
        s.fn|=I.visited
class Ob:
    """group: what is being decided; name: instance; fn(ctx,res): analysis; need: public functions that must exist"""
    __slots__=('group','name','fn','args','need','cost')
    def __init__(s,group,name,fn,args=(),need=(),cost=1): s.group=group; s.name=name; s.fn=fn; s.args=args; s.need=need; s.cost=cost

class Ctx:
    def __init__(s,repo,tier):
        s.repo=repo; s.tier=tier; s.prog=Program(repo); s.lay=Lay(repo)
        s.thorough=tier=='thorough'
_ctx=None; _obs=None
class OutOfTime(BaseException): pass
def _work(i):
    ob=_obs[i]; r=Res(); t=time.time(); reset(); content._so.clear(); Interp.hard.clear()
    try:
        def alarm(*a): raise OutOfTime()
        signal.signal(signal.SIGALRM,alarm); signal.alarm(max(1,min(_budget,int(_deadline-time.time()))))
        if time.time()>=_deadline: raise OutOfTime()
        try: ob.fn(_ctx,r,*ob.args)
        finally: signal.alarm(0)
    except NullUse as e: r.viol.append(Violation(str(e).split(' at ')[-1].split(':the')[0].split(': the')[0],'null',str(e)[:300],e.wit))
    except Undecided as e: r.und.append(str(e)[:300])
    except OutOfTime: r.und.append('time budget of the obligation exceeded')
    except TooBig: r.und.append('form too large')
    except RecursionError: r.und.append('recursion depth')
    except MemoryError: r.und.append('memory')
    except Exception as e:
        r.und.append('internal: '+repr(e)[:200]+' '+traceback.format_exc().strip().splitlines()[-3].strip()[:160])
    seen=set()
    for h in Interp.hard:
        if h not in seen: seen.add(h); r.viol.append(Violation(*h))
    return i,r.n,[v.d() for v in r.viol],r.und,sorted(r.fn),r.notes,round(time.time()-t,3)
_budget=120; _deadline=0
def evaluate(ctx,obs,procs=None,budget=120,total=600,stop=None):
    """stop: number of violated obligations after which no further obligation is started"""
    global _ctx,_obs,_budget,_deadline
    _deadline=time.time()+total
    _ctx=ctx; _obs=obs; _budget=budget
    procs=procs or int(os.environ.get('M4RIE_PROCS',0)) or min(8,os.cpu_count() or 8)
    order=sorted(range(len(obs)),key=lambda i:-obs[i].cost)
    out=[None]*len(obs)
    if procs==1 or len(obs)==1:
        for i in order: out[i]=_work(i)
        return out
    # one pipe per worker; a worker that dies or overruns loses its obligation only
    ctx_=mp.get_context('fork'); batch=4 if len(obs)>=2000 else 1; todo=list(reversed(order)); workers={}
    from multiprocessing.connection import wait
    def serve(c):
        resource.setrlimit(resource.RLIMIT_AS,(MEM,MEM))
        while True:
            m=c.recv()
            if m is None: os._exit(0)
            for i in m: c.send(_work(i))
    def start():
        a,b=ctx_.Pipe(); p=ctx_.Process(target=serve,args=(b,),daemon=True); p.start(); b.close()
        workers[a]=[p,[],0]
    def feed(c):
        w=workers[c]
        if todo:
            m=[todo.pop() for _ in range(min(batch,len(todo)))]; w[1]=list(m); w[2]=time.time(); c.send(m)
        else:
            w[1]=[]
            try: c.send(None)
            except OSError: pass
            workers.pop(c); c.close()
    def lost(c,why):
        w=workers.pop(c)
        if w[1]:
            i=w[1].pop(0); out[i]=(i,0,[],[why],[],[],0.0); todo.extend(w[1])
        w[0].kill(); c.close()
        if todo: start()
    for _ in range(min(procs,len(obs))): start()
    fed=set(); bad=0
    while workers:
        for c in [c for c in workers if c not in fed]: fed.add(c); feed(c)
        if not workers: break
        for c in wait(list(workers),timeout=5):
            try: r=c.recv()
            except (EOFError,OSError): lost(c,'the worker was ended'); continue
            out[r[0]]=r; w=workers[c]; bad+=bool(r[2])
            if stop and bad>=stop: todo.clear()
            if r[0] in w[1]: w[1].remove(r[0])
            w[2]=time.time()
            if not w[1]: feed(c)
        now=time.time()
        for c in list(workers):
            w=workers.get(c)
            if w and w[1] and now-w[2]>budget+20: lost(c,'time budget of the obligation exceeded')
    return out
MEM=int(os.environ.get('M4RIE_MEM',6<<30))

def load_known(prop):
    path=os.path.join(VERIF,'known_findings.jsonl'); out=[]
    if os.path.exists(path):
        for l in open(path):
            l=l.strip()
            if not l or l.startswith('fixed:') or l.startswith('#'): continue
            j=json.loads(l)
            if j.get('property')==prop: out.append(j)
    return out

def main(prop,module,argv):
    t0=time.time(); tier='quick'
    for a in argv:
        if a in('quick','thorough'): tier=a
    if os.environ.get('VERIF_TIER')=='thorough' and 'quick' not in argv: tier='thorough'
    only=[y for a in argv if a.startswith('--only=') for y in a[7:].split(',')]
    verbose='-v' in argv
    try: ctx=Ctx(REPO,tier)
    except Exception as e:
        print(f'ERROR property={prop}: the front end cannot process {REPO}: {e}'); return 2
    obs=module.obligations(ctx)
    if only: obs=[o for o in obs if any(x in o.group+'/'+o.name for x in only)]
    missing=sorted({n for o in obs for n in o.need if ctx.prog.func(n) is None})
    if missing:
        print(f'ERROR property={prop}: anchors vanished from the source: {", ".join(missing)}'); return 2
    if not obs:
        print(f'ERROR property={prop}: no obligation was generated'); return 2
    known=load_known(prop)
    res=evaluate(ctx,obs,budget=getattr(module,'BUDGET',150),total=650,stop=None if known or verbose else 12)
    skipped=sum(r is None for r in res)
    groups={}; viol=[]; und=[]; fns=set(); n=0
    for ob,r in zip(obs,res):
        if r is None: continue
        _,k,vs,us,fn,notes,dt=r
        g=groups.setdefault(ob.group,dict(obligations=0,proved=0,undecided=0,violated=0,comparisons=0,seconds=0.0))
        g['obligations']+=1; g['comparisons']+=k; g['seconds']=round(g['seconds']+dt,2)
        fns|=set(fn); n+=k
        if vs: g['violated']+=1; viol+=[(ob,v) for v in vs]
        elif us or k==0: g['undecided']+=1; und.append((ob,us or ['nothing was compared']))
        else: g['proved']+=1
        if verbose and (us or vs or k==0): print('  ',ob.group,ob.name,us[:2],[v['what'][:300] for v in vs[:2]],dt)
    shown=set(); fresh_v=[]
    for ob,v in viol:
        hit=None
        for kf in known:
            if kf['group']==ob.group and kf['construct'] in v['construct'] and kf.get('what','') in v['what']: hit=kf
        if hit: shown.add(hit['id'])
        else: fresh_v.append((ob,v))
    for kf in known:
        if kf['id'] in shown: print(f"KNOWN-FINDING: property={prop} {kf['summary']}")
    for g in sorted(groups):
        x=groups[g]; print(f"  {g}: {x['obligations']} obligations, {x['proved']} proved, {x['undecided']} undecided, {x['violated']} violated, {x['comparisons']} comparisons, {x['seconds']}s")
    for ob,us in und[:15]: print(f'  undecided: {ob.group}/{ob.name}: {us[0][:200]}')
    os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
    replay=os.path.join(VERIF,'evidence',prop+'.violation.json')
    if fresh_v:
        with open(replay,'w') as f: json.dump([dict(obligation=ob.group+'/'+ob.name,**v) for ob,v in fresh_v[:200]],f,indent=1,default=str)
    elif os.path.exists(replay): os.unlink(replay)
    tot=len(obs); proved=sum(g['proved'] for g in groups.values())
    expl=module.EXPLANATION if hasattr(module,'EXPLANATION') else (module.__doc__ or '')
    ev=dict(property=prop,tier=tier,seed=int(os.environ.get('VERIF_SEED','1')),level=getattr(module,'LEVEL','other'),
        coverage=dict(explanation=' '.join(expl.split()),rules=getattr(module,'RULES',None) or [],obligations=tot,discharged=proved,undecided=len(und),comparisons=n,
            groups=groups,functions_analysed=sorted(fns),undecided_list=[dict(obligation=ob.group+'/'+ob.name,reason=us[0][:200]) for ob,us in und[:60]],
            checker_cmd=f'python3 /verif/check.py {prop} {tier}',trusted_base=getattr(module,'TRUSTED',TRUSTED),
            known_findings=[k['id'] for k in known if k['id'] in shown]),
        assumptions=list(getattr(module,'ASSUMPTIONS',[])),wall_s=round(time.time()-t0,2),violations=len(fresh_v))
    if skipped: ev['coverage']['not_evaluated']=f'{skipped} obligations were not started after violations had been found'
    with open(os.path.join(VERIF,'evidence',prop+'.json'),'w') as f: json.dump(ev,f,indent=1,default=str)
    print(f'{prop}: {tot} obligations, {proved} proved, {len(und)} undecided, {len(viol)} violated; {len(fns)} functions; {ev["wall_s"]}s')
    if fresh_v:
        seen=set()
        for ob,v in fresh_v[:400]:
            key=(v['construct'],v['rule'])
            if key in seen: continue
            seen.add(key); print(f"  violation: {v['construct']} rule={v['rule']} [{ob.group}/{ob.name}] {v['what'][:400]}" + (f" witness={v['witness']}" if v['witness'] else ''))
        print(f'VIOLATION property={prop} replay={replay}')
        return 1
    return 0
TRUSTED=['clang 18 front end and mem2reg (source to IR)','the abstract interpreter in /verif/analysis','the stated specification of the external m4ri/libc primitives']
