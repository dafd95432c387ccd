"""Packed products through windows.  Abstract interpretation of the Strassen-Winograd sequences over block matrices: symbolic dimensions,
symbolic window positions ordered by proof, content of every rectangle a polynomial in non-commuting blocks of the operands; recursive calls
and the table based base case are replaced by their contract (C = A*B, C += A*B), so the obligation is the induction step.  The expected
value is the block product itself.  Every block row / column remainder case is a path."""
from rows import *
from bmats import *
EXPLANATION=__doc__
RULES=['block-product: every rectangle of the result equals the block row times block column of the operands [+ old content when accumulating]',
 'operands: A and B keep their content','window range: windows stay inside their matrix and start on a word boundary','dimensions: sums and products only combine fitting blocks','leak: temporary matrices and windows are released exactly once']
def setup(ctx,e,extra=None):
    w=w_of(e)
    I=Interp(ctx.prog,{**BASE,**bm_prims(ctx.lay)}); I.lay=ctx.lay; I.bm_u=w; I.bmviol=[]; I.on_mat=None; I.unroll_max=40
    if extra: I.prims.update(extra)
    st=State(); ff=mk_ff(I,st,ctx.lay,e)
    return I,st,ff,w
def leaks(I,st,keep=()):
    """allocated and not released at return: ids"""
    al=[];fr=[]
    for ev in st.events():
        if ev[0]=='alloc': al.append(ev[1])
        if ev[0]=='free': fr.append(ev[1])
    return [a for a in al if a not in fr and a not in keep]
def finish(I,res,fn,st,keep=()):
    for ev in st.events():
        if ev[0] in('use-after-free','double-free'): res.viol.append(Violation(fn,'leak',f'{ev[0]} of {ev[1]} {ev[2:]}'))
    for a in leaks(I,st,keep):
        res.viol.append(Violation(fn,'leak',f'{I.objs[a].name} is never released'))
def mzx(I,st,p): return I.load(st,p.at(I.lay('mzed_t','x')),PTR)
def run_mul(ctx,res,fn,e,acc,target,contracts,extra,samples):
    """symbolic dimensions; when that leaves something open, also sample dimensions (for definite violations only)"""
    r=Res()
    try: one_mul(ctx,r,fn,e,acc,target,contracts,extra,None)
    except(Undecided,TooBig) as x: r.und.append(str(x)[:300])
    if r.und and not r.viol:
        for d in samples:
            q=Res()
            try: one_mul(ctx,q,fn,e,acc,target,contracts,extra,d)
            except(Undecided,TooBig): pass
            r.viol+=q.viol; r.fn|=q.fn
            if q.viol: break
    res.n+=r.n; res.viol+=r.viol; res.und+=r.und; res.fn|=r.fn
SAMPLES=[(130,130,130,64),(1,1,1,64),(64,65,63,64),(200,129,257,64),(128,256,192,32),(129,70,300,32),(300,300,300,100),(3,600,600,128),(600,600,600,128),(513,512,511,256)]
def one_mul(ctx,res,fn,e,acc,target,contracts,extra,dims):
    I,st,ff,w=setup(ctx,e,contracts(ctx)); I.frozen={'A','B'}
    m,k,n=(S('m'),S('k'),S('n')) if dims is None else map(L,dims[:3])
    if dims is not None: extra=[L(dims[3]) if isinstance(x,Lin) and not x.isc() else x for x in extra]
    for x in(m,k,n): st.facts=st.facts.add_ge(x)
    A=mk_bmzed(I,st,ctx.lay,'A',ff,e,w,m,k); B=mk_bmzed(I,st,ctx.lay,'B',ff,e,w,k,n)
    C=mk_bmzed(I,st,ctx.lay,'C',ff,e,w,m,n) if target else NULL
    where=ctx.prog.func(fn).file+':'+fn
    try: out=I.run(fn,[C,A,B]+list(extra),st)
    finally:
        res.absorb(I)
        softs(I,res,Violation)
    if not out: res.und.append('no returning path')
    for r,t in out:
        if not isinstance(r,Ptr) or r.obj==0 or (target and r!=C): res.viol.append(Violation(where,'block-product','the returned matrix is not the result')); continue
        flush(I,t); c=view(I,t,r)
        # no-op exit: empty result
        check_grid(I,t,c,lambda r0,r1,c0,c1: frozenset([(Atm('A',r0,r1,ZL,k),Atm('B',ZL,k,c0,c1))])^(frozenset([(Atm('C',r0,r1,c0,c1),)]) if acc else PZ),where,res,'block-product',f'{fn}, entry width {w}',Violation)
        for p,nm in((A,'A'),(B,'B')):
            check_grid(I,t,view(I,t,p),lambda r0,r1,c0,c1:frozenset([(Atm(nm,r0,r1,c0,c1),)]),where,res,'operands',f'operand {nm}',Violation)
        keep=[]
        if not target: keep=[r.obj,mzx(I,t,r).obj]
        finish(I,res,where,t,keep)
def strassen(ctx):
    return {'_mzed_mul_strassen':contract(False,''),'_mzed_addmul_strassen':contract(True,''),'_mzed_mul_newton_john':contract(True,''),'_mzed_mul_newton_john0':contract(True,''),'mzed_mul_strassen':alloc_contract(False,'',ctx.lay)}
def obligations(ctx):
    obs=[]
    for e in (2,3,8,16) if not ctx.thorough else range(2,17):
        for fn,acc in(('_mzed_mul_strassen',0),('_mzed_addmul_strassen',1)):
            obs.append(Ob('strassen recursion step',f'{fn} degree {e}',run_mul,(fn,e,acc,1,strassen,(S('cutoff'),),SAMPLES),(fn,)))
    return obs
def leaf(ctx):
    d=acc_prims(ctx.lay); d['_mzed_mul_naive']=None
    return {k:v for k,v in d.items() if v}
def leaf_nj(ctx): return {**leaf(ctx),'_mzed_mul_naive':contract(True,'')}
LEAF=[(2048*17+5,17,1,0),(2048*16+1,9,2,0),(1,1,1,0),(3,5,4,0),(9,8,7,0),(8,7,9,0),(17,16,3,0),(20,25,2,0),(130,9,1,0)]
def fronts(entry):
    def f(ctx):
        d={**slice_prims(ctx.lay)}
        for n,a in(('_mzed_mul_strassen',0),('_mzed_addmul_strassen',1),('_mzed_mul_newton_john',1),('_mzed_mul_newton_john0',1),('_mzed_mul_naive',1)):
            if n!=entry: d[n]=contract(bool(a),'')
        def cut(I,st,args,ins,name):
            return [(S(fresh('cutoff')),st)]
        d['_mzed_strassen_cutoff']=cut
        return d
    return f
_strassen=obligations
FRONTS=[('mzed_mul',0,()),('mzed_addmul',1,()),('_mzed_mul',0,()),('_mzed_addmul',1,()),('mzed_mul_naive',0,()),('mzed_addmul_naive',1,()),
 ('mzed_mul_newton_john',0,()),('mzed_addmul_newton_john',1,()),('mzed_mul_strassen',0,(S('cutoff'),)),('mzed_addmul_strassen',1,(S('cutoff'),)),
 ('_mzed_addmul_karatsuba',1,()),('mzed_mul_karatsuba',0,()),('mzed_addmul_karatsuba',1,()),('_mzed_addmul_blm',1,()),('mzed_mul_blm',0,()),('mzed_addmul_blm',1,())]
def obligations(ctx):
    obs=_strassen(ctx)
    for e in (2,3,8,16) if not ctx.thorough else range(2,17):
        for fn,acc,extra in FRONTS:
            for target in(1,0):
                if not target and (acc and fn!='_mzed_addmul_karatsuba' and fn!='_mzed_addmul_blm' or fn[0]=='_'and not acc): continue
                obs.append(Ob('product front end',f'{fn} degree {e} {"target" if target else "new target"}',run_mul,(fn,e,acc if target else 0,target,fronts(fn),extra,SAMPLES),(fn,)))
    return obs

_front=obligations
def obligations(ctx):
    obs=_front(ctx)
    for e in (2,3,8,16) if not ctx.thorough else range(2,17):
        for fn,pr in(('_mzed_mul_naive',leaf),('_mzed_mul_newton_john0',leaf),('_mzed_mul_newton_john',leaf_nj)):
            obs.append(Ob('base case product',f'{fn} degree {e}',run_mul,(fn,e,1,1,pr,(),LEAF),(fn,)))
    return obs
import njtab
_base=obligations
def obligations(ctx): return _base(ctx)+njtab.table_obligations(ctx,lambda per:[(0,0),(per-1,0),(0,1),(1,2),(0,9)] if not ctx.thorough else [(l,h) for h in(0,1,2,3,5,8,9,17) for l in sorted({0,1,per-1})])
