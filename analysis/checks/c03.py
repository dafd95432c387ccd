"""Abstract interpretation over the domain of non-commutative polynomials: every product of bitsliced matrices is evaluated on matrix symbols, so
the content of each result slice is an exact polynomial in the symbols A_j, B_k and the reduction coefficients of x^t; it is compared with the
schoolbook product modulo the minimal polynomial."""
from mats import *
from driver import *
EXPLANATION=__doc__
RULES=['product: slice i of the result = [accumulator_i] + sum over j,k of (coefficient of x^i in x^(j+k) mod minpoly) * A_j * B_k','operands: the factors keep their content','dimensions: no primitive call stops the program']
def coef(e,t,i):
    if t<e: return ONE if t==i else ZERO
    return atom(('pg','ff',t,i))
def machine(ctx,e):
    I=Interp(ctx.prog,{**BASE,**mat_prims(ctx.lay)}); I.join_val=join_mat
    st=State(); st.facts=st.facts.add_ge(S('m')-1).add_ge(S('l')-1).add_ge(S('n')-1)
    ff=mk_ff(I,st,ctx.lay,e)
    return I,st,ff
def ptrs(I,st,name,n,nr,nc,content=None):
    p=I.new(st,name,'ptrs',None,nm=name); xs=[]
    for i in range(n):
        x=mk_mat(I,st,I.lay,f'{name}{i}',nr,nc,content); xs.append(x); I.put(st,p.obj,((),L(8*i)),8,x)
    return p,xs
def expected(e,n,name,same):
    """polynomials of the n result entries (n=e reduced, n=2e-1 unreduced)"""
    b='A' if same else 'B'
    out=[]
    for i in range(n):
        m=matom(f'{name}{i}') if name else MZERO
        d=dict(m.d)
        for j in range(e):
            for k in range(e):
                c=coef(e,j+k,i) if n==e else (ONE if i==j+k else ZERO)
                if c: 
                    key=(f'A{j}',f'{b}{k}'); d[key]=padd(d.get(key,ZERO),c)
        out.append(Mat(d))
    return out
def slices(I,st,p,n):
    return [I.load(st,p.at(I.lay('mzd_slice_t','x')+8*i),PTR) for i in range(n)]
def judge(ctx,res,I,out,F,getx,exp,ins_,what):
    loc=f"{os.path.basename(ctx.prog.func(F).file)}:{F}"
    if not out: res.viol.append(Violation(loc,'dimensions',f'{what}: no path returns for matching operands')) if I.dead else res.und.append('no returning path')
    for r,t in out:
        xs=getx(r,t)
        if xs is None: res.viol.append(Violation(loc,'product',f'{what}: the result is not the given target')); continue
        for i,(x,w) in enumerate(zip(xs,exp)):
            g=getmat(I,t,x); res.n+=1
            d=g.add(w)
            if d.d and not in_ideal(t,d):
                mono,c=sorted(d.d.items(),key=str)[0]
                res.viol.append(Violation(loc,'product',f'{what}: slice {i} differs in the term {"*".join(map(str,mono))} (has {_c(g,mono)}, must be {_c(w,mono)})'))
        for nm,x in ins_:
            g=getmat(I,t,x); res.n+=1
            if g!=matom(nm): res.viol.append(Violation(loc,'operands',f'{what}: factor {nm} is modified'))
def _c(m,k):
    v=m.d.get(k,ZERO)
    return '0' if not v else '1' if v==ONE else 'coefficient '+repr(v)[:80]
def run_ptr(ctx,res,fn,k,red,same):
    I,st,ff=machine(ctx,k); I.lay=ctx.lay; I.frozen={'A','B'}
    m,l,n=S('m'),S('l'),S('n')
    if same: st.facts=st.facts.add_eq(m-l).add_eq(l-n)
    A,xa=ptrs(I,st,'A',k,m,l)
    B,xb=(A,xa) if same else ptrs(I,st,'B',k,l,n)
    N=k if red else 2*k-1
    X,xx=ptrs(I,st,'X',N,m,n)
    out=I.run(fn,[ff if red else NULL,X,A,B],st); res.absorb(I)
    ins_=[(f'A{i}',x) for i,x in enumerate(xa)]+([] if same else [(f'B{i}',x) for i,x in enumerate(xb)])
    judge(ctx,res,I,out,fn,lambda r,t:xx,expected(k,N,'X',same),ins_,f'{fn} on {k} coefficients, '+('reduced' if red else 'unreduced'))
def run_slice(ctx,res,fn,e,target,acc,same):
    I,st,ff=machine(ctx,e); I.lay=ctx.lay; I.frozen={'A','B'}
    m,l,n=S('m'),S('l'),S('n')
    if same: l=n=m
    A=mk_mslice(I,st,ctx.lay,'A',ff,e,m,l)
    B=A if same else mk_mslice(I,st,ctx.lay,'B',ff,e,l,n)
    C=mk_mslice(I,st,ctx.lay,'C',ff,e,m,n) if target else NULL
    out=I.run(fn,[C,A,B],st); res.absorb(I)
    ins_=[(f'A{i}',x) for i,x in enumerate(slices(I,st,A,e))]+([] if same else [(f'B{i}',x) for i,x in enumerate(slices(I,st,B,e))])
    def getx(r,t):
        if not isinstance(r,Ptr) or (target and r!=C): return None
        return slices(I,t,r,e)
    judge(ctx,res,I,out,fn,getx,expected(e,e,'C' if target and acc else '',same),ins_,f'{fn} degree {e}'+(' into a given target' if target else ' into a new matrix'))
def obligations(ctx):
    obs=[]
    for k in range(2,17):
        f=f'_mzd_ptr_addmul_karatsuba{k}'
        for red in(0,1): obs.append(Ob('polynomial products',f'{k} coefficients {"reduced" if red else "unreduced"}',run_ptr,(f,k,red,0),(f,),k*k*(1+red)))
        for same in(0,1):
            s=' square' if same else ''
            for t in(0,1):
                obs.append(Ob('schoolbook product',f'degree {k} {"accumulate" if t else "new"}{s}',run_slice,('_mzd_slice_addmul_naive',k,t,1,same),('_mzd_slice_addmul_naive',),k*k*3))
                obs.append(Ob('product',f'mzd_slice_mul degree {k} {"target" if t else "new"}{s}',run_slice,('mzd_slice_mul',k,t,0,same),('mzd_slice_mul','mzd_slice_mul_karatsuba'),k*k*2))
            obs.append(Ob('product',f'mzd_slice_addmul degree {k}{s}',run_slice,('mzd_slice_addmul',k,1,1,same),('mzd_slice_addmul',),k*k*2))
    return obs
