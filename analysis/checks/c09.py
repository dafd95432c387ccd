"""Ownership.  The abstract interpretations of the other properties (matrix contents by contract, symbolic sizes, all paths) are repeated at one
degree per entry width with an ownership judgement on every returning path: each object created during the call is released exactly once, or is
reachable from the result or an argument and not released; nothing is released twice or used after its release; nothing that belongs to the caller is
released except by the releasing functions.  Loops are judged per iteration.  Constructor / destructor pairs are run on top of each other.  Independently of sizes and contents, every function of the library is followed
from each site that creates an object over the paths of its control flow graph (live / released / handed out), with summaries of its callees."""
from driver import *
import interp, importlib
from content import witness
EXPLANATION=__doc__
RULES=['release: every object created by a call is released exactly once on every returning path, or handed out','use: no object is used or released after its release','pair: releasing a complete object releases everything its construction allocated']
MODS=('c02','c03','c04','c05','c06','c07','c13','c16','c17','c18','c19','c23')
LEAK={'leak','release','double-free','use-after-free'}
def objs_in(v,out):
    if isinstance(v,Ptr):
        if v.obj: out.append(v.obj)
    elif isinstance(v,(tuple,list,set,frozenset)):
        for x in v: objs_in(x,out)
    elif isinstance(v,dict):
        for x in v.values(): objs_in(x,out)
def reach(I,t,roots):
    seen=set(); todo=list(roots)
    while todo:
        o=todo.pop()
        if o in seen or o==0: continue
        seen.add(o); ptrs=[]
        c=t.mem.get(o)
        if c is not None: 
            for l in c.layers: objs_in(l,ptrs) if isinstance(l,(dict,tuple,list)) else None
        for k,x in I.objs[o].info.items(): objs_in(x,ptrs) if isinstance(x,(Ptr,tuple,list,dict)) else None
        todo+=ptrs
    return seen
def flat(evs,al,fr,bad):
    for ev in evs:
        if ev[0]=='alloc': al.append(ev[1])
        elif ev[0]=='free': fr.append(ev[1])
        elif ev[0] in('use-after-free','double-free'): bad.append(f'{ev[0].replace("-"," ")} of {ev[1]} {" ".join(map(str,ev[2:]))}')
def judge(I,fn,args,outs,res,loc,mayfree):
    for r,t in outs:
        al=[];fr=[];bad=[]; flat(t.events(),al,fr,bad); res.n+=1
        for b in bad: res.viol.append(Violation(loc,'use',f'{fn}: {b}')); return
        roots=[]; objs_in(r,roots); objs_in(tuple(a for a in args if isinstance(a,Ptr)),roots)
        keep=reach(I,t,roots)
        for a in al:
            if fr.count(a)>1: res.viol.append(Violation(loc,'use',f'{fn}: {I.objs[a].name} is released twice')); return
            if a not in fr and a not in keep: res.viol.append(Violation(loc,'release',f'{fn}: {I.objs[a].name} is never released',witness(t.facts,[]))); return
            if isinstance(r,Ptr) and a==r.obj and a in fr: res.viol.append(Violation(loc,'use',f'{fn}: {I.objs[a].name} is returned after its release')); return
        if not mayfree:
            for a in fr:
                if a not in al: res.viol.append(Violation(loc,'release',f'{fn}: {I.objs[a].name}, which belongs to the caller, is released')); return
        for ev in t.events():
            if ev[0]=='loop':
                for alt in ev[4] if len(ev)>4 and isinstance(ev[4],(list,tuple)) else ():
                    a2=[];f2=[];b2=[]; flat(alt,a2,f2,b2)
                    for b in b2: res.viol.append(Violation(loc,'use',f'{fn}: {b}')); return
                    for a in a2:
                        if a not in f2 and a not in keep and a not in fr: res.viol.append(Violation(loc,'release',f'{fn}: {I.objs[a].name}, created in a loop, is never released')); return
FREES=('_free','_free_window','_adapt_depth','_truncate','realloc')
def run_sub(ctx,res,ob):
    log=[]; sub=Res(); interp.Interp.audit=log
    try: ob.fn(ctx,sub,*ob.args)
    except(Undecided,TooBig) as x: res.und.append(str(x)[:200])
    finally: interp.Interp.audit=None
    res.fn|=sub.fn
    for v in sub.viol:
        if v.rule in LEAK: res.viol.append(v)
    if res.viol: return
    for I,fn,args,outs in log:
        F=ctx.prog.func(fn)
        if F is None: continue
        judge(I,fn,args,outs,res,F.file+':'+fn,any(x in fn for x in FREES))
        if res.viol: return
    if not res.n and sub.und: res.und.append(sub.und[0])
    if res.n: res.und.clear()
def pick(ctx,name,group):
    """one degree per entry width"""
    import re
    m=re.search(r'degree (\d+)',name) or re.search(r'\be(\d+)',name)
    if m is None: return True
    return int(m.group(1)) in ((2,3,5,9) if not ctx.thorough else (2,3,4,5,8,9,16))
def obligations(ctx):
    obs=[]
    for m in MODS:
        q=importlib.import_module(m).obligations(ctx); seen={}
        for o in q:
            if not pick(ctx,o.name,o.group): continue
            k=(o.group,o.need,o.name.split(' degree')[0] if m not in('c02','c18') else o.need)
            seen[k]=seen.get(k,0)+1
            if not ctx.thorough and m in('c02','c18') and seen[k]>8: continue
            obs.append(Ob(m.upper()+' '+o.group,o.name,run_sub,(o,),o.need,o.cost))
    return obs
# ---------------------------------------------------------------- complete objects
def released(I,t,res,loc,must,what):
    al=[];fr=[];bad=[]; flat(t.events(),al,fr,bad); res.n+=1
    for b in bad: res.viol.append(Violation(loc,'use',f'{what}: {b}')); return
    for a in sorted(set(al)|set(must)):
        k=fr.count(a)
        if k!=1: res.viol.append(Violation(loc,'pair',f'{what}: {I.objs[a].name} is released {k} times')); return
    for a in fr:
        if a not in al and a not in must: res.viol.append(Violation(loc,'pair',f'{what}: {I.objs[a].name} is released')); return
def pair(ctx,res,what,e):
    """construction followed by release, on the machine words level of the constructors"""
    from structs import Case
    import emats
    fmt='s' if what.startswith('mzd_slice') else 'p'; init,free=what.split('/')[:2]; loc=ctx.prog.func(free).file+':'+free
    K=Case(ctx,res,fmt,e,init); I=K.I
    m,n=K.dim('m'),K.dim('n')
    try:
        if init=='njt_mzed_init': out=I.run(init,[K.ff,n],K.st)
        else:
            if init.endswith('window'):
                A=K.mat('A',m,n); out=I.run(init,[A,ZL,ZL,m,n],K.st)
            else: out=I.run(init,[K.ff,m,n],K.st)
            if 'adapt' in what:
                out=[y for r,t in out for d in ((2*e-1,) if what.count('adapt')==1 else (e,)) for y in I.run('_mzd_slice_adapt_depth',[r,L(min(16,d))],t)]
        n0=0
        for r,t in out:
            for _,u in I.run(free,[r],t): n0+=1; released(I,u,res,loc,(),what)
    finally: res.absorb(I)
    if not n0: res.und.append('no returning path')
def field_free(ctx,res,e):
    """a field as the constructor leaves it: product rows for degree up to 8, powers, reductors"""
    I=Interp(ctx.prog,{**BASE,**mk_prims(ctx.lay)}); I.lay=ctx.lay; I.unroll_max=600; st=State(); lay=ctx.lay
    def mem(name): 
        p=I.new(st,name,'zero',None); I.objs[p.obj].info['heap']='mem'; ids.append(p.obj); return p
    ids=[]; ff=mem('field')
    from model import setf
    setf(I,st,ff,lay,'gf2e','degree',L(e),lay.fsize('gf2e','degree') if hasattr(lay,'fsize') else 4)
    for f in('pow_gen','red'): setf(I,st,ff,lay,'gf2e',f,mem(f),8)
    if e<=8:
        rows=mem('_mul'); setf(I,st,ff,lay,'gf2e','_mul',rows,8)
        for i in range(1<<e): I.put(st,rows.obj,((),L(8*i)),8,mem(f'_mul[{i}]'))
    else: setf(I,st,ff,lay,'gf2e','_mul',NULL,8)
    out=I.run('gf2e_free',[ff],st); res.absorb(I)
    if not out: res.und.append('no returning path')
    for _,t in out: released(I,t,res,ctx.prog.func('gf2e_free').file+':gf2e_free',ids,f'field of degree {e}')
_sub=obligations
PAIRS=('mzed_init/mzed_free','mzed_init_window/mzed_free_window','mzd_slice_init/mzd_slice_free','mzd_slice_init/mzd_slice_free/adapt','mzd_slice_init_window/mzd_slice_free_window','njt_mzed_init/njt_mzed_free')
def obligations(ctx):
    obs=_sub(ctx)
    for e in range(2,17):
        obs.append(Ob('pair',f'gf2e_free degree {e}',field_free,(e,),('gf2e_free',)))
        for w in PAIRS: obs.append(Ob('pair',f'{w} degree {e}',pair,(w,e),tuple(w.split('/')[:2])))
    return obs
# ---------------------------------------------------------------- every function, over the control flow graph
import ownflow
def flow(ctx,res,fs):
    W=getattr(ctx,'flow',None)
    if W is None: W=ctx.flow=ownflow.Flow(ctx.prog)
    for p,nm in fs:
        m=[m for m in ctx.prog.mods if m.path==p][0]; F=ctx.prog.func(nm,m); n,out,und=W.judge(F); res.n+=n+1; res.fn.add(nm)
        for line,rule,txt in out: res.viol.append(Violation(f'{F.file}:{line}({nm})',rule,f'{nm}: {txt}'))
        res.und+=und
_run=obligations
def obligations(ctx):
    obs=_run(ctx); done=set(); by={}
    for m in ctx.prog.mods:
        for nm in m.funcs:
            F=ctx.prog.func(nm,m)
            if (F.file,nm) in done or F.file in('mzd.h','mzp.h','misc.h','djb.h'): continue
            done.add((F.file,nm)); by.setdefault(F.file,[]).append((m.path,nm))
    for f in sorted(by): obs.append(Ob('flow',f,flow,(by[f],),()))
    return obs
