"""Triangular solving.  (1) recursion step over block matrices with symbolic sizes: the solution X found by the code is multiplied by the
triangular matrix, block row by block row of X; recursive calls and base cases enter by their contract (B := T^-1 B, T^-1 a formal inverse of the
triangular part of the diagonal block) and must cancel to the right hand side.  (2) base cases: the row operations (scale by the inverse of a diagonal
element, add a multiple of a finished row) are collected as a schedule of affine loop nests; every strictly triangular pair exactly once, with
the element at that position, after the source row is finished and before the target row is scaled - decided for all sizes by dependence analysis."""
from rows import *
from bmats import *
import c04
EXPLANATION=__doc__
RULES=['solution: T * X equals the right hand side, for every block row','operands: the triangular matrix keeps its content','window range: windows stay inside their matrix and start on a word boundary',
 'dimensions: blocks fit','leak: temporary matrices and windows are released exactly once','schedule: each triangular pair is eliminated exactly once, in an order that respects dependences']
def solve_contract(kind,getview):
    def f(I,st,args,ins,name):
        t,b=getview(I,st,args[0],ins),getview(I,st,args[1],ins)
        same_dim(I,st,t.nr,t.nc,ins,'triangular block is square'); same_dim(I,st,b.nr,t.nr,ins,'triangular solve: rows')
        g=region(I,st,t); o=Order(st.facts)
        if o.eq(t.nr,ZL): return [(UNDEF,st)]
        if not disjoint(st,t,b): raise Undecided('triangular solve onto itself')
        if len(g.rc)!=2 or len(g.cc)!=2 or len(g.v[0][0])!=1: raise Undecided('triangular block is not one piece at '+I.where(ins))
        m=next(iter(g.v[0][0]))
        if len(m)!=1: raise Undecided('triangular block is a product at '+I.where(ins))
        x=Atm(('inv',m[0],kind),ZL,t.nr,ZL,t.nr)
        write(I,st,b,g_mul(st,Grid((ZL,t.nr),(ZL,t.nr),((frozenset([(x,)]),),)),region(I,st,b)),ins); return [(UNDEF,st)]
    return f
def slice_view(I,st,p,ins=None):
    if not isinstance(p,Ptr) or p.obj==0 or 'bms' not in I.objs[p.obj].info: raise Undecided('unresolved bitsliced matrix')
    I.check_alive(st,p,ins,'use'); return view(I,st,I.objs[p.obj].info['bms'],ins)
def mk_bslice(I,st,lay,name,ff,r,c):
    d=mk_store(I,st,name,r,c); x=mk_bmzd(I,st,lay,name+'.x',r,c*unit(I),d)
    p=I.new(st,name,'bslice',None); I.objs[p.obj].info.update(bms=x,ff=ff)
    from model import setf
    setf(I,st,p,lay,'mzd_slice_t','finite_field',ff,8); setf(I,st,p,lay,'mzd_slice_t','nrows',r,4); setf(I,st,p,lay,'mzd_slice_t','ncols',c,4)
    setf(I,st,p,lay,'mzd_slice_t','depth',L(I.objs[ff.obj].info['degree']),4)
    return p
def run_rec(ctx,res,fn,e,lower,sl,samples):
    r=Res()
    try: one_rec(ctx,r,fn,e,lower,sl,None)
    except(Undecided,TooBig) as x: r.und.append(str(x)[:300])
    if r.und and not r.viol:
        for d in samples:
            q=Res()
            try: one_rec(ctx,q,fn,e,lower,sl,d)
            except(Undecided,TooBig): pass
            r.viol+=q.viol; r.fn|=q.fn
            if q.viol: break
    res.n+=r.n; res.viol+=r.viol; res.und+=r.und; res.fn|=r.fn
SAMPLES=[(130,30,10),(200,300,64),(1,1,0),(65,1,1),(64,64,63),(300,129,128),(1000,600,512),(513,513,512)]
def one_rec(ctx,res,fn,e,lower,sl,dims):
    kind='lower' if lower else 'upper'
    gv=slice_view if sl else view
    ex=slice_prims(ctx.lay)
    for x in('','_'):
        for k in('lower','upper'):
            for tail in('left','left_newton_john','left_naive'):
                for m in('mzed','mzd_slice'):
                    ex[f'{x}{m}_trsm_{k}_{tail}']=solve_contract(k,slice_view if m=='mzd_slice' else view)
    if fn[0]!='_': ex.pop(fn,None)
    if not sl: ex.update({'mzed_addmul':c04.contract(True,''),'_mzed_addmul':c04.contract(True,''),'mzed_mul':c04.alloc_contract(False,'',ctx.lay)})
    I,st,ff,w=c04.setup(ctx,e,ex); I.frozen={'T'}
    if sl: I.bm_u=1; I.bm_align=True
    n,m=(S('n'),S('m')) if dims is None else map(L,dims[:2]); cutoff=S('cutoff') if dims is None else L(dims[2])
    st.facts=st.facts.add_ge(n).add_ge(m)
    if dims is None: st.facts=st.facts.add_ge(cutoff)
    if sl: T=mk_bslice(I,st,ctx.lay,'T',ff,n,n); B=mk_bslice(I,st,ctx.lay,'B',ff,n,m)
    else: T=mk_bmzed(I,st,ctx.lay,'T',ff,e,w,n,n); B=mk_bmzed(I,st,ctx.lay,'B',ff,e,w,n,m)
    F=ctx.prog.func(fn); where=F.file+':'+fn
    args=[T,B]+([cutoff] if len(F.params)>2 else [])
    try: out=I.run(fn,args,st)
    finally:
        res.absorb(I); softs(I,res,Violation)
    if not out: res.und.append('no returning path')
    for r,t in out:
        x=gv(I,t,B); g=region(I,t,x); o=Order(t.facts)
        for i in range(len(g.rc)-1):
            r0,r1=g.rc[i],g.rc[i+1]
            if o.eq(r0,r1): continue
            js=range(0,i+1) if lower else range(i,len(g.rc)-1)
            for jc in range(len(g.cc)-1):
                c0,c1=g.cc[jc],g.cc[jc+1]
                if o.eq(c0,c1): continue
                p=PZ; ok=True
                for j in js:
                    for mo in g.v[j][jc]:
                        for a in mo:
                            if isinstance(a.n,tuple) and a.n[2]!=kind: res.viol.append(Violation(where,'solution',f'{fn}: block {a.n[1]} is solved as a {a.n[2]} triangular matrix')); return
                            if isinstance(a.n,tuple) and not(o.eq(a.r1-a.r0,a.n[1].r1-a.n[1].r0)): ok=False
                    p=padd_(p,pmul_(frozenset([(Atm('T',r0,r1,g.rc[j],g.rc[j+1]),)]),g.v[j][jc]))
                p=padd_(p,frozenset([(Atm('B',r0,r1,c0,c1),)]))
                z,rest=zero_poly(t,p); res.n+=1
                if z is True: continue
                s2=t.fork(); s2.facts=t.facts.add_ge(r1-r0-1).add_ge(c1-c0-1)
                if s2.facts.infeasible(): continue
                txt=f'{fn}, rows {r0}..{r1} of T*X: differs from the right hand side by {pshow(rest)}'
                wit=differs(s2,rest) if ok else None
                if wit is not None: res.viol.append(Violation(where,'solution',txt,wit))
                else: res.und.append(txt[:280])
        check_grid(I,t,gv(I,t,T),lambda r0,r1,c0,c1:frozenset([(Atm('T',r0,r1,c0,c1),)]),where,res,'operands','triangular matrix',Violation)
        c04.finish(I,res,where,t,[])
def obligations(ctx):
    obs=[]
    for e in (2,3,8,16) if not ctx.thorough else range(2,17):
        for lower in(1,0):
            for sl in(0,1):
                fn=f'_{"mzd_slice" if sl else "mzed"}_trsm_{"lower" if lower else "upper"}_left'
                obs.append(Ob('recursion step',f'{fn} degree {e}',run_rec,(fn,e,lower,sl,SAMPLES),(fn,)))
                obs.append(Ob('public entry',f'{fn[1:]} degree {e}',run_rec,(fn[1:],e,lower,sl,SAMPLES),(fn[1:],)))
    return obs
# ---------------------------------------------------------------- base cases
import rowsched
def run_leaf(ctx,res,fn,e,lower,sl,samples):
    r=Res()
    try: one_leaf(ctx,r,fn,e,lower,sl,None)
    except(Undecided,TooBig) as x: r.und.append(str(x)[:300])
    if r.und and not r.viol:
        for d in samples:
            q=Res()
            try: one_leaf(ctx,q,fn,e,lower,sl,d)
            except(Undecided,TooBig): pass
            r.viol+=q.viol; r.fn|=q.fn
            if q.viol: break
    res.n+=r.n; res.viol+=r.viol; res.und+=r.und; res.fn|=r.fn
LEAF=[(1,1),(2,2),(3,1),(4,3),(6,2),(11,2),(18,1)]
def one_leaf(ctx,res,fn,e,lower,sl,dims):
    I,st,ff,w=c04.setup(ctx,e,rowsched.sched_prims(ctx.lay,slice_view)); I.via=True
    I.unroll_max=40
    n,m=(S('n'),S('m')) if dims is None else map(L,dims)
    st.facts=st.facts.add_ge(n).add_ge(m)
    if sl: T=mk_bslice(I,st,ctx.lay,'T',ff,n,n); B=mk_bslice(I,st,ctx.lay,'B',ff,n,m)
    else: T=mk_bmzed(I,st,ctx.lay,'T',ff,e,w,n,n); B=mk_bmzed(I,st,ctx.lay,'B',ff,e,w,n,m)
    gv=slice_view if sl else view
    dB,dT=gv(I,st,B).d,gv(I,st,T).d
    I.frozen={'T'}
    F=ctx.prog.func(fn); where=F.file+':'+fn
    try: out=I.run(fn,[T,B],st)
    finally:
        res.absorb(I); softs(I,res,Violation)
    if not out: res.und.append('no returning path')
    for r,t in out:
        evs=[x for x in t.events() if x[0] in('acc','loop')]
        res.n+=1
        if dims is None:
            bad=rowsched.prove(evs,t.facts,n,m,lower,dB,dT)
            if bad: res.und.append(f'{fn}: {bad[0]}')
        else:
            got,tri=rowsched.evaluate_rows(evs,t.facts,n.c,dB,dT); want=rowsched.wanted_rows(n.c,lower,dB,dT)
            for i,(x,y) in enumerate(zip(got,want)):
                if x!=y: res.viol.append(Violation(where,'schedule',f'{fn}, {n.c} unknowns: row {i} of the solution has {len(x^y)} wrong terms',f'n={n.c}')); break
            for i,x in enumerate(tri):
                if x!=frozenset([frozenset([(('b',dT,i),1)])]): res.viol.append(Violation(where,'operands',f'{fn}: row {i} of the triangular matrix is modified')); break
        c04.finish(I,res,where,t,[])
_rec=obligations
def obligations(ctx):
    obs=_rec(ctx)
    for e in (2,3,8,16) if not ctx.thorough else range(2,17):
        for lower in(1,0):
            for sl in(0,1):
                for how in('naive','newton_john'):
                    fn=f'{"mzd_slice" if sl else "mzed"}_trsm_{"lower" if lower else "upper"}_left_{how}'
                    obs.append(Ob('base case',f'{fn} degree {e}',run_leaf,(fn,e,lower,sl,LEAF),(fn,)))
    return obs
