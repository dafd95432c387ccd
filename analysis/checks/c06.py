"""Triangular factorisations.  The functions are interpreted abstractly over the field-matrix domain (entries are Laurent polynomials in
formal matrix entries; zero tests split the state and record the polynomial as zero or invertible; row operations, products, triangular solves,
permutations, L-compression and conversions enter by their contracts) for a list of shapes: small generic matrices for the base cases, matrices with
generic columns across word boundaries for the block recursion, whose base cases enter by their own specification.  On every abstract path the formal
factors are multiplied out, at a witness point that satisfies the recorded conditions, and compared with the permuted input; permutations are
checked to be lists of forward transpositions, pivot columns to increase, the diagonal of L to be nonzero, and every temporary to be released.
The choice of algorithm is decided separately for all sizes."""
from fconc import *
from driver import *
EXPLANATION=__doc__
RULES=['factorisation: L*E (or L*U*Q) equals P*A, rank, shape of L and E', 'permutations: every entry set, a forward transposition, pivot columns increase', 'release: temporary matrices, windows and permutations are released exactly once', 'dispatch: every size and cutoff runs one factorisation of the whole matrix and keeps its result']
def at(i,j): return fatom(('a','A',0,L(i),L(j)))
def ple_problem(F,A,X,rank,P,Q,m,n,tri):
    """does X hold a factorisation of A?  tri: PLUQ"""
    if not 0<=rank<=min(m,n): return f'returns the rank {rank} for {m} rows and {n} columns'
    if any(v is None for v in P+Q): return 'a permutation entry is not set'
    if any(not i<=v<m for i,v in enumerate(P)): return f'the row permutation {P} is not a list of forward transpositions'
    if any(not i<=v<n for i,v in enumerate(Q)): return f'the column permutation {Q} is not a list of forward transpositions'
    B=[list(r) for r in A]
    for i,v in enumerate(P): B[i],B[v]=B[v],B[i]
    Lm=[[X[i][k] if k<=i else 0 for k in range(rank)] for i in range(m)]
    for k in range(rank):
        if not X[k][k]: return f'the diagonal entry {k} of L is zero'
    if not tri:
        if any(Q[i]>=Q[i+1] for i in range(rank-1)): return f'the pivot columns {Q[:rank]} do not increase'
        E=[[1 if j==Q[i] else X[i][j] if j>Q[i] else 0 for j in range(n)] for i in range(rank)]
    else:
        E=[[1 if j==i else X[i][j] if j>i else 0 for j in range(n)] for i in range(rank)]
        for q in range(n-1,-1,-1):
            for r in E: r[q],r[Q[q]]=r[Q[q]],r[q]
    got=F.matmul(Lm,E) if rank else [[0]*n for _ in range(m)]
    for i in range(m):
        for j in range(n):
            if got[i][j]!=B[i][j]: return f'entry ({i},{j}) of L*E is {got[i][j]}, of P*A is {B[i][j]}'
    return None
def shapes(kind):
    """(rows, columns, values)"""
    b=lambda x: FONE if x else FZ
    if kind[0]=='full': return kind[1],kind[2],at
    if kind[0]=='cols':
        # symbolic entries in some columns, zero elsewhere
        _,m,n,cs=kind; return m,n,lambda i,j: at(i,j) if j in cs else FZ
    if kind[0]=='rank':
        # k pivots in given columns, the other entries of these columns and one more column symbolic
        _,m,n,cs=kind; k=len(cs)
        def v(i,j):
            if j in cs:
                q=cs.index(j); return b(i==m-1-q) if i>=m-k else at(i,j) if i==0 else FZ
            if i>=m-k and j>min(cs) and j%7==3: return at(i,j)
            return b((i*j+i)%5==2 and i>=m-k and j>cs[-1])
        return m,n,v
def ple(ctx,res,fn,e,kind,fmt,tri=False,cutoff=None,extra=None):
    m,n,vals=shapes(kind)
    I,st,ff=fmachine(ctx,e,True,{**conc_prims(ctx.lay),**(extra or {})}); F=GF(max(e,8)); rng=random.Random(5)
    I.maxrec=8
    A=mk_fm(I,st,'A',ff,L(m),L(n),fmt); sid=I.objs[A.obj].info['fm'].sid; I.objs[sid].info['values']=vals
    base=entries(I,st,sid,m,n)
    P=new_mzp(I,st,ctx.lay,'P',L(m)); Q=new_mzp(I,st,ctx.lay,'Q',L(n))
    for p,k in((P,m),(Q,n)):
        q=I.load(st,p.at(ctx.lay('mzp_t','values')),PTR)
        for i in range(k): I.put(st,q.obj,((),L(4*i)),4,S(('junk',i)))
    args=[A,P,Q]+([L(cutoff)] if cutoff is not None else [])
    outs=run_fn(I,res,fn,args,st,Violation); nw=0
    for ret,t in outs:
        released(I,t,fn,res,Violation)
        if res.viol: return
        res.n+=1; r=t.facts.norm(ret)
        if not r.isc(): raise Undecided('rank')
        X=entries(I,t,sid,m,n); w=numeric(I,t,F,(base,X),rng)
        if w is None: nw+=1; continue
        p=ple_problem(F,w[0],w[1],r.c,pvals(I,t,P,ctx.lay),pvals(I,t,Q,ctx.lay),m,n,tri)
        if p: res.viol.append(Violation(fn,'factorisation',p,{'input':str(w[0]) if n<20 else f'{m}x{n}, nonzero: '+str({(i,j):w[0][i][j] for i in range(m) for j in range(n) if w[0][i][j]}),'field degree':e})); return
    if nw*4>len(outs): res.und.append(f'{nw} of {len(outs)} paths have no witness')
def ple_contract_all(I,st,args,ins,name):
    v=fview(I,st,args[0],ins); o=I.objs[v.sid].info; f=st.facts
    if not(f.eq0(v.r0) and f.eq0(v.c0) and f.eq0(v.nr-o['rows']) and f.eq0(v.nc-o['cols'])): raise Undecided('factorisation of a window')
    ver=fresh('ver')[2]; I.fver[ver]=[]; r=S(fresh('rank')); I.ple.append((v.sid,ver,fops(st,v.sid),I.where(ins),r,args[1],args[2],name))
    emit(I,st,v.sid,('havoc',ver),ins); st.facts=st.facts.add_ge(r).add_ge(v.nr-r).add_ge(v.nc-r); return [(r,st)]
def dispatch(ctx,res,fn,e,fmt,cutoff,tri):
    """the function hands its matrix and permutations to one factorisation and returns that rank"""
    from c19 import everywhere
    names=[x for x in('mzed_ple_newton_john','mzed_ple_naive','_mzed_ple','_mzd_slice_ple','_mzd_slice_pluq') if x!=fn]
    I,st,ff=fmachine(ctx,e,False,{k:ple_contract_all for k in names}); I.ple=[]; m,n=(S('m'),S('n')); st.facts=st.facts.add_ge(m-1).add_ge(n-1)
    A=mk_fm(I,st,'A',ff,m,n,fmt); sa=I.objs[A.obj].info['fm'].sid
    P=new_mzp(I,st,ctx.lay,'P',m); Q=new_mzp(I,st,ctx.lay,'Q',n)
    outs=run_fn(I,res,fn,[A,P,Q]+([S('cutoff')] if cutoff=='s' else [L(cutoff)] if cutoff is not None else []),st,Violation)
    if not outs: res.viol.append(Violation(fn,'dispatch','no path returns')); return
    for ret,t in outs:
        res.n+=1; released(I,t,fn,res,Violation); r=t.facts.norm(ret); w=witness(t.facts,[m,n])
        ple=[x for x in I.ple if any(o==('havoc',x[1]) for o in fops(t,x[0]))]
        if not ple:
            if not fops(t,sa): res.viol.append(Violation(fn,'dispatch','a path leaves the matrix as it is',w)); return
            raise Undecided('no factorisation is computed')
        if len(ple)!=1: raise Undecided('several factorisations')
        sid,ver,before,where,rk,p,q,name=ple[0]
        if tri is not None and tri!=(name=='_mzd_slice_pluq'): res.viol.append(Violation(where,'dispatch',f'{name} computes the other form',w)); return
        if p!=P or q!=Q: res.viol.append(Violation(where,'dispatch','the permutations handed on are not those of the caller',w)); return
        if r!=t.facts.norm(rk):
            d=t.facts.norm(r-rk)
            if d.isc() or r.isc(): res.viol.append(Violation(fn,'dispatch',f'returns {r} where the rank is {rk}',w)); return
            raise Undecided('returned rank')
        for bad in everywhere(I,t,sid,before,ZL,ZL,m,n,lambda w,sg,i,j: fatom(('a','A',0,i,j))): res.viol.append(Violation(where,'dispatch',f'entry ({bad[1]},{bad[2]}) of the matrix that is factored is {fshow(bad[3])}',w)); return
        for bad in everywhere(I,t,sa,fops(t,sa),ZL,ZL,m,n,lambda w,sg,i,j: fatom(('a',I.objs[sid].info['nm'],ver,i,j))): res.viol.append(Violation(fn,'dispatch',f'entry ({bad[1]},{bad[2]}) of the result is {fshow(bad[3])}, not that of the factorisation',w)); return
def obligations(ctx):
    obs=[]
    for e in range(2,17):
        for fn,fmt,cut,tri in(('_mzed_ple','p','s',0),('_mzed_ple','p',0,0),('mzed_ple','p',None,0),('mzd_slice_ple','s',None,0),('mzd_slice_pluq','s',None,1)):
            obs.append(Ob('dispatch',f'{fn} degree {e} cutoff {cut}',dispatch,(fn,e,fmt,cut,bool(tri)),(fn,)))
    for fn in('mzed_ple_naive','mzed_ple_newton_john'):
        for m,n in((3,4),(4,3),(4,4),(2,6),(6,2),(1,7))*ctx.thorough+((1,1),(1,2),(2,1),(2,2),(2,3),(3,2),(3,3),(2,4),(4,2)):
            for e in(range(2,17) if ctx.thorough and m*n<8 else (3,8)): obs.append(Ob('base',f'{fn} {m}x{n} degree {e}',ple,(fn,e,('full',m,n),'p'),(fn,)))
    for fn in('_mzd_slice_ple','_mzd_slice_pluq'):
        more=[(m,n,cs) for n in(65,96,128,129,193,256,257) for m in(2,3,4) for cs in((0,),(n-1,),(0,n-1),(63,64),(31,n-2),(0,1,n-1),(62,63,64),(1,n//2,n-1))]
        for m,n,cs in(more if ctx.thorough else [])+list(((2,65,(3,64)),(3,65,(0,63,64)),(2,130,(10,70)),(3,130,(0,100)),(3,130,(5,6,70)),(2,100,(70,90)),(3,200,(10,100,150)),(2,64,(1,5)),(3,66,(64,65)),(3,130,(0,1)))):
            obs.append(Ob('block',f'{fn} {m}x{n} {cs}',ple,(fn,8,('cols',m,n,cs),'s',fn.endswith('pluq'),1),(fn,),5))
    return obs
