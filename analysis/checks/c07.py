"""Echelon forms.  (1) proof for all sizes: inductive loop invariants over the field-matrix domain (the rows below are reduced, pivots are
one and in increasing columns, the rows span the row space of the input, in the full form the rest of each pivot column is zero); the invariants
are checked on entry and across one abstract iteration, and imply the postcondition at the exit; the block step enters by its own proved contract and the tables by C04.
(2) shaped evaluation: matrices with formal entries in selected positions (blocks of 1..6 pivots, rank
deficits, ranks around multiples of the word size) are carried through the code in the same domain, and the formal result is compared with the
definition at a witness point of each path.  (3) dispatch, for all sizes: exactly one echelonisation of the whole operand with the requested form."""
from fmats import *
from fconc import *
from driver import *
EXPLANATION=__doc__
RULES=['echelon form: zero rows last, leading ones in increasing columns, cleared pivot columns if the full form is requested', 'row space: the rows of the result span the row space of the input', 'rank: the returned number is the number of nonzero rows', 'invariant: the loop invariants hold on entry and are preserved', 'release: temporaries are released exactly once', 'dispatch: the requested form is computed on the whole matrix']
def shape_problem(F,A,E,rank,full,m,n):
    """is E an echelon form of A?"""
    if rank>m or rank<0: return f'returns the rank {rank} for {m} rows'
    prev=-1; piv=[]
    for i in range(m):
        lead=next((j for j in range(n) if E[i][j]),None)
        if i<rank:
            if lead is None: return f'row {i} is zero but the returned rank is {rank}'
            if lead<=prev: return f'the pivots of rows {i-1} and {i} are in columns {prev} and {lead}'
            if E[i][lead]!=1: return f'the pivot of row {i} is {E[i][lead]}'
            piv.append(lead); prev=lead
        elif lead is not None: return f'row {i} has a nonzero entry in column {lead} but the returned rank is {rank}'
    if full:
        for i,p in enumerate(piv):
            for l in range(m):
                if l!=i and E[l][p]: return f'the pivot column {p} has a nonzero entry in row {l}'
    if not(F.rank(A+E)==F.rank(A)==rank): return f'the rows do not span the row space of the input (rank {F.rank(A)}, together {F.rank(A+E)}, returned {rank})'
    return None
def ech(ctx,res,fn,e,m,n,full,optk=None,values=None,fmt='p',extra=None):
    I,st,ff=fmachine(ctx,e,True,{**(extra or {}),**({'m4ri_opt_k':lambda I,st,a,ins,nm:[(L(optk),st)]} if optk else {})}); F=GF(max(e,8)); rng=random.Random(7)
    A=mk_fm(I,st,'A',ff,L(m),L(n),fmt); sid=I.objs[A.obj].info['fm'].sid
    if values: I.objs[sid].info['values']=values
    base=entries(I,st,sid,m,n)
    outs=run_fn(I,res,fn,[A,L(full)],st,Violation); res.n+=len(outs); nw=0
    for ret,t in outs:
        released(I,t,fn,res,Violation)
        if res.viol: return
        r=t.facts.norm(ret)
        E=entries(I,t,sid,m,n)
        w=numeric(I,t,F,(base,E),rng)
        if w is None: nw+=1; continue
        p=shape_problem(F,w[0],w[1],r.c,full,m,n)
        if p: res.viol.append(Violation(fn,'echelon form',p,{'input':str(w[0]),'output':str(w[1]),'field degree':e})); return
    if nw*2>len(outs): res.und.append(f'{nw} of {len(outs)} paths have no witness')
# ---------------------------------------------------------------- all sizes: loop invariant
def check_know(I,st,sid,kn,when):
    I.reads=0
    ops=fops(st,sid); out=[]
    for k in kn:
        for t,r,c,want in k.generic(st):
            for u,x in fread(I,t,sid,ops,r,c):
                if renorm(u,x)!=renorm(u,want) and not u.facts.infeasible():
                    out.append((when,f'{k}: entry ({u.facts.norm(r)},{u.facts.norm(c)}) is {fshow(renorm(u,x))}')); break
    return out
class Inv:
    rows=None; ints=()
class Echelon(Inv):
    """rows from s on are zero in the columns before c; the pivot of an arbitrary earlier row K is in column P"""
    def __init__(s,sid,nr,s_,c_,s0,c0,full,small=()): s.small=small; s.sid=sid; s.sids=[sid]; s.nr=nr; s.s_=s_; s.c_=c_; s.s0=s0; s.c0=c0; s.ints=[s_,c_]; s.full=full; s.K=S(fresh('K')); s.P=S(fresh('P'))
    def know(s,K,P):
        return [One(K,P),Zero(K,K+1,s.c0,P),Zero(K+1,s.nr,s.c0,P+1)]+([Zero(s.s0,s.nr,P,P+1,K)] if s.full else [])
    def assume(s,I,h,val,ver):
        a,c=val[s.s_],val[s.c_]; h.facts=h.facts.add_ge(a-s.s0).add_ge(c-s.c0).add_ge((c-s.c0)-(a-s.s0)).add_ge(s.nr-a)
        h.facts=h.facts.add_ge(s.K-s.s0).add_ge(s.P-s.c0)
        for q in s.small: h.facts=h.facts.add_ge(val[q]-1).add_ge(L(6)-val[q])
        I.fver[ver[s.sid]]=[Zero(a,s.nr,s.c0,c)]
        I.byver[ver[s.sid]]=(s,a,c)
        I.fver[ver[s.sid]].append(Cond(lambda st,a=a,c=c: st.facts.ge0(a-1-s.K) and st.facts.ge0(c-1-s.P),s.know(s.K,s.P)))
    def check(s,I,st,kn,when): return check_know(I,st,s.sid,kn,when)
    def verify(s,I,st,vals,when):
        a,c=(st.facts.norm(vals[x]) for x in(s.s_,s.c_)); f=st.facts; out=[]
        for what,g in(('rank',a-s.s0),('rank and column',(c-s.c0)-(a-s.s0)),('rank and rows',s.nr-a)):
            if not f.ge0(g): out.append((when,what+f': {f.norm(g)} >= 0 is not proved'))
        for q in s.small:
            v=f.norm(vals[q])
            if not(f.ge0(v-1) and f.ge0(L(6)-v)): out.append((when,f'block size {v} is not proved to be in 1..6'))
        if out: return out
        return s.check(I,st,[Zero(a,s.nr,s.c0,c)],when)
    def step(s,I,x,h,val,nv,mark,ver):
        a,c=val[s.s_],val[s.c_]; a2,c2=(x.facts.norm(nv[q]) for q in(s.s_,s.c_)); out=[]
        if not x.facts.ge0(c2-c-1): out.append(('step','the column does not advance'))
        # old pivots keep their form
        t=x.fork(); t.facts=t.facts.add_ge(a-1-s.K).add_ge(c-1-s.P)
        if not t.facts.infeasible(): out+=s.check(I,t,s.know(s.K,s.P),'earlier pivot')
        d=x.facts.norm(a2-a)
        if d.isc() and d.c>0 and x.facts.eq0(c2-c-d):
            for t in range(d.c): out+=s.check(I,x,s.know(a+t,c+t),'new pivot')
        elif d!=ZL: out.append(('step',f'the rank grows by {d}, the column by {x.facts.norm(c2-c)}'))
        return out
    def __str__(s): return 'echelon form of the columns before the current one'
class Cond:
    """knowledge that holds under a condition on the skolem constants"""
    def __init__(s,cond,know): s.cond=cond; s.know=know
    def cases(s,st,r,c):
        if not s.cond(st): yield st,None; return
        def go(i,t):
            if i==len(s.know): yield t,None; return
            for u,x in s.know[i].cases(t,r,c):
                if x is None: yield from go(i+1,u)
                else: yield u,x
        yield from go(0,st)
class Steps(Inv):
    """inner loops of the block elimination"""
    def __init__(s,sid,ints,rows,know,conds,desc): s.sids=[sid]; s.sid=sid; s.ints=ints; s.rows=rows; s.know=know; s.conds=conds; s.desc=desc
    def assume(s,I,h,val,ver):
        v=[val[i] for i in s.ints]
        for g,eq in s.conds(v): h.facts=h.facts.add_eq(g) if eq else h.facts.add_ge(g)
        I.fver[ver[s.sid]]=s.know(v); s.cur=v
    def verify(s,I,st,vals,when):
        v=[st.facts.norm(vals[i]) for i in s.ints]; out=[]
        for g,eq in s.conds(v):
            if not(st.facts.eq0(g) if eq else st.facts.ge0(g)): out.append((when,f'{st.facts.norm(g)} {"=" if eq else ">="} 0 is not proved'))
        return out or check_know(I,st,s.sid,s.know(v),when)
    def __str__(s): return s.desc
def gauss_step(ctx,res,fn,e):
    """contract of the block elimination, by nested loop invariants"""
    I,st,ff=fmachine(ctx,e); m,n,r,c,k=(S(x) for x in 'mnrck'); I.rowops=True
    for g in(m-1,n,r,c,m-r,k,n-c-k): st.facts=st.facts.add_ge(g)
    A=mk_fm(I,st,'A',ff,m,n); sid=I.objs[A.obj].info['fm'].sid
    I.fver[0]=[Zero(r,m,ZL,c)]; cur={}
    def ints(phis,init): return [p.id for p in phis if p.ty.k=='int' and isinstance(init[p.id],Lin)]
    def outer(I,F,lp,st,phis,init):
        n_=st.facts.norm; z=ints(phis,init)
        for a in z:
            for b in z:
                if n_(init[a])==c and n_(init[b])==r:
                    iv=Steps(sid,[a,b],(r,m),lambda v:[Zero(r,m,ZL,c),Ident(r,c,v[0]-c)],lambda v:[((v[0]-c)-(v[1]-r),True),(v[0]-c,False),(m-v[1],False),(c+k-v[0],False)],'identity block so far')
                    cur['J']=iv; yield iv
    def mid(I,F,lp,st,phis,init):
        j,sr=cur['J'].cur
        for a in ints(phis,init):
            if not st.facts.eq0(init[a]-sr): continue
            iv=Steps(sid,[a],(sr,m),lambda v:[Zero(sr,m,ZL,c),Zero(sr,v[0],c,j+1)],lambda v:[(v[0]-sr,False),(m-v[0],False)],'rows searched so far are zero up to the current column')
            cur['I']=iv
            try: yield iv
            finally: cur.pop('I',None)
    def inner(I,F,lp,st,phis,init):
        if 'I' not in cur: raise Undecided('inner loop')
        j,sr=cur['J'].cur; i=cur['I'].cur[0]
        for a in ints(phis,init):
            if not st.facts.eq0(init[a]): continue
            yield Steps(sid,[a],(i,i+1),lambda v:[Zero(i,i+1,ZL,c+v[0])],lambda v:[(v[0],False),(j-c-v[0],False)],'row cleared so far')
    I.inv_for=lambda F,lp: outer if I.inloop==1 else (mid,) if I.inloop==2 else (inner,) if I.inloop==3 else None
    outs=I.run(fn,[A,r,c,m,k],st); res.absorb(I)
    if I.noninv or I.partial or I.selfadd: raise Undecided(f'row operation is not proved invertible {I.noninv} {I.partial} {I.selfadd}'[:300])
    for ret,t in outs:
        res.n+=1; kb=t.facts.norm(ret)
        for g in(kb,k-kb,m-r-kb):
            if not t.facts.ge0(g): res.und.append(f'{g} >= 0 is not proved')
        p=check_know(I,t,sid,[Zero(r,m,ZL,c),Ident(r,c,kb)],'result')
        for sg,u in split(t,k-kb):
            if sg>0: p+=check_know(I,u,sid,[Zero(r+kb,m,c,c+kb+1)],'rows below when the block is not full')
        if p: res.und.append(str(p[0]))
        for op in fops(t,sid)[:1]:
            if not(op[0]=='havoc' and len(op)==4 and op[2:]==(r,m)): res.und.append('frame of the block elimination')
    res.notes.append(str(I.cutlog))
def gauss_contract(I,st,args,ins,name):
    v=fview(I,st,args[0],ins); r,c,er,k=(st.facts.norm(I.to_lin(x)) for x in args[1:5]); f=st.facts
    for what,g in(('row',r),('column',c),('rows',v.nr-r),('block',k),('columns',v.nc-c-k)):
        if not f.ge0(g): raise Undecided(f'block elimination: {what}: {g} >= 0 is not proved at {I.where(ins)}')
    if not f.eq0(er-v.nr): raise Undecided('block elimination stops early')
    if v.r0!=ZL or v.c0!=ZL: raise Undecided('window')
    p=check_know(I,st,v.sid,[Zero(r,er,ZL,c)],'before the block elimination')
    if p: raise Undecided(str(p[0]))
    out=[]
    for full in(0,1):
        t=st.fork(); kb=S(fresh('kbar')); t.facts=t.facts.add_ge(kb).add_ge(er-r-kb)
        t.facts=t.facts.add_eq(k-kb) if full else t.facts.add_ge(k-kb-1)
        if t.facts.infeasible(): continue
        ver=fresh('ver')[2]; kb=t.facts.norm(kb)
        emit(I,t,v.sid,('havoc',ver,r,er),ins)
        I.fver[ver]=[Zero(r,er,ZL,c),Ident(r,c,kb)]+([] if full else [Zero(r+kb,er,c,c+kb+1)])
        out.append((kb,t))
    return out
def ech_all(ctx,res,fn,e,full,contracts=None):
    I,st,ff=fmachine(ctx,e,extra=contracts); m,n=S('m'),S('n'); I.rowops=True; I.byver={}
    st.facts=st.facts.add_ge(m).add_ge(n)
    A=mk_fm(I,st,'A',ff,m,n); sid=I.objs[A.obj].info['fm'].sid; last=[]
    def invs(I,F,lp,st,phis,init):
        z=[p.id for p in phis if p.ty.k=='int' and isinstance(init[p.id],Lin)]
        for a in z:
            for b in z:
                if a==b: continue
                small=[q for q in z if q not in(a,b) and st.facts.ge0(init[q]-1) and st.facts.ge0(L(6)-init[q])]
                iv=Echelon(sid,m,a,b,st.facts.norm(init[a]),st.facts.norm(init[b]),full,small); last.append(iv); yield iv
    depth=[0]
    def inv_for(F,lp):
        if I.inloop!=1: return None
        return invs
    I.inv_for=inv_for
    outs=I.run(fn,[A,L(full)],st); res.absorb(I)
    for v in I.fviol: res.viol.append(Violation(*v))
    if I.noninv or I.partial or I.selfadd: raise Undecided(f'row operation is not proved invertible {I.noninv} {I.partial} {I.selfadd}'[:300])
    for ret,t in outs:
        r=t.facts.norm(ret); res.n+=1; op=fops(t,sid)[:1]
        if not op or op[0][0]!='havoc' or op[0][1] not in I.byver: res.und.append('result without loop'); continue
        iv,la,lc=I.byver[op[0][1]]
        p=iv.check(I,t,[Zero(r,m,ZL,n)],'at the end')
        # the pivot of row K of the result is the one the invariant speaks about
        u=t.fork(); u.facts=u.facts.add_ge(r-1-iv.K).add_ge(lc-1-iv.P)
        if not u.facts.infeasible(): p+=iv.check(I,u,[One(iv.K,iv.P)],'at the end')
        if p: res.und.append(str(p[0]))
    res.notes.append(str(I.cutlog))
def shaped(kind,k):
    """matrices that lead to blocks of k pivots: (rows, columns, values)"""
    at=lambda i,j: fatom(('a','A',0,L(i),L(j))); b=lambda x: FONE if x else FZ
    if kind=='below': return k+1,k+2,lambda i,j: b(i==j) if i<k and j<k else at(i,j) if (i<k and j==k) or i==k else b(i+j==1)
    if kind=='swapped': return k+1,k+2,lambda i,j: b(i==k-1-j) if i<k and j<k else at(i,j) if i==k and j<=k else b((i*j+i)%3==1)
    if kind=='above': return 2*k+1,2*k+1,lambda i,j: b(i==j) if (i<k)==(j<k) else at(i,j) if i==0 or (i==2*k and j<k) else b((i+j)%4==1 and i<k)
    # the column d of the first block depends on the earlier ones
    d=kind; return k+1,k+2,lambda i,j: b(j==d-1 and i==j or j==d and i==d-1) if j in(d-1,d) and i<=k-1 else b(i==j-(j>d)) if i<k and j<k else at(i,j) if i==k and j!=d else b((i+2*j)%3==1) if i<k and j!=d else FZ
def ech_shaped(ctx,res,fn,e,kind,k,full,optk):
    m,n,v=shaped(kind,k); ech(ctx,res,fn,e,m,n,full,optk,v)
def ech_slice(ctx,res,fn,e,shape,full,cut):
    import c06
    ex=conc_prims(ctx.lay)
    m,n,v=c06.shapes(shape); ech(ctx,res,fn,e,m,n,full,None,v,'s',ex)
def wide(r,n,extra,shift):
    """rank r: unit upper triangular in the columns from shift on, a few symbolic entries"""
    at=lambda i,j: fatom(('a','A',0,L(i),L(j))); near={0,1,r//2,r-2,r-1,62,63,64}
    def v(i,j):
        if i>=r: return FZ
        p=i+shift
        if j<=p: return FONE if j==p else FZ
        if i in near and (j==p+1 or j in(r,r+shift,n-1,64,127,128)): return at(i,j)
        return FZ
    def w(i,j):
        # multiples of the first row make the lower triangular factor non-trivial
        return fadd(v(i,j),fmul(fatom(('a','A',0,L(i),L(0))),v(0,j))) if i in near and i>1 or i>=r else v(i,j)
    return r+extra,n,w
def ech_wide(ctx,res,fn,e,args,full):
    ex={**conc_prims(ctx.lay),'_mzd_slice_ple':ple_contract,'mzd_slice_ple':ple_contract}
    m,n,v=wide(*args); ech(ctx,res,fn,e,m,n,full,None,v,'s',ex)
def dispatch(ctx,res,fn,e,fmt,full,dims=None):
    """the function hands its matrix to one echelon form computation and returns that rank"""
    from c19 import ech_contract,everywhere
    names=[x for x in('mzed_echelonize_newton_john','mzed_echelonize_naive','mzed_echelonize_ple','mzd_slice_echelonize_ple') if x!=fn]
    if fn=='mzed_echelonize': names.remove('mzed_echelonize_ple')
    I,st,ff=fmachine(ctx,e,False,{k:ech_contract for k in names}); I.ech=[]; m,n=(S('m'),S('n')); st.facts=st.facts.add_ge(m-1).add_ge(n-1)
    A=mk_fm(I,st,'A',ff,m,n,fmt); sa=I.objs[A.obj].info['fm'].sid
    outs=run_fn(I,res,fn,[A,L(full)],st,Violation)
    if not outs: res.viol.append(Violation(fn,'stops','no path returns')); return
    for ret,t in outs:
        res.n+=1; released(I,t,fn,res,Violation); r=t.facts.norm(ret)
        ech=[x for x in I.ech if any(o==('havoc',x[1]) for o in fops(t,x[0]))]
        if not ech:
            if not fops(t,sa): res.viol.append(Violation(fn,'dispatch','a path leaves the matrix as it is',witness(t.facts,[m,n]))); return
            raise Undecided('no echelon form is computed')
        if len(ech)!=1: raise Undecided('several echelon forms')
        sid,ver,f,before,where,rk=ech[0]; f=t.facts.norm(f)
        if f.isc() and bool(f.c)!=bool(full): res.viol.append(Violation(where,'dispatch',f'full={full} is handed on as {f}',witness(t.facts,[m,n]))); return
        if not f.isc(): raise Undecided('full')
        if r!=t.facts.norm(rk):
            d=t.facts.norm(r-rk)
            if d.isc() or r.isc(): res.viol.append(Violation(fn,'dispatch',f'returns {r} where the rank is {rk}',witness(t.facts,[m,n]))); return
            raise Undecided('returned rank')
        for bad in everywhere(I,t,sid,before,ZL,ZL,m,n,lambda w,sg,i,j: fatom(('a','A',0,i,j))): res.viol.append(Violation(where,'dispatch',f'entry ({bad[1]},{bad[2]}) of the matrix that is reduced is {fshow(bad[3])}')); return
        for bad in everywhere(I,t,sa,fops(t,sa),ZL,ZL,m,n,lambda w,sg,i,j: fatom(('a',I.objs[sid].info['nm'],ver,i,j))): res.viol.append(Violation(fn,'dispatch',f'entry ({bad[1]},{bad[2]}) of the result is {fshow(bad[3])}, not that of the echelon form',witness(bad[0].facts,[m,n]))); return
def obligations(ctx):
    obs=[]
    for full in(0,1):
        for m,n in((1,1),(1,2),(2,1),(2,2),(2,3),(3,2),(3,3)):
            obs.append(Ob('naive',f'mzed_echelonize_naive {m}x{n} full={full}',ech,('mzed_echelonize_naive',8,m,n,full),('mzed_echelonize_naive',)))
            for k in(1,2,3): obs.append(Ob('nj',f'mzed_echelonize_newton_john {m}x{n} full={full} k={k}',ech,('mzed_echelonize_newton_john',4,m,n,full,{1:1,2:2,3:2}[k]),('mzed_echelonize_newton_john',)))
    for full in(0,1):
        for e in range(2,17):
            for fn in('mzed_echelonize','mzed_echelonize_ple'): obs.append(Ob('dispatch',f'{fn} degree {e} full={full}',dispatch,(fn,e,'p',full),(fn,)))
    nj='mzed_echelonize_newton_john'
    for full in(0,1):
        for k in range(1,7):
            for kind in['below','swapped','above']+list(range(1,k)):
                obs.append(Ob('nj',f'{nj} blocks of {k}, {kind}, full={full}',ech_shaped,(nj,6,kind,k,full,k),(nj,)))
    fn='mzd_slice_echelonize_ple'
    for full in(0,1):
        for sh in[('full',m,n) for m,n in((1,1),(1,2),(2,1),(2,2),(2,3),(3,2),(3,3))]+[('cols',2,65,(3,64)),('cols',2,130,(10,70)),('cols',3,66,(0,63,64))]:
            for e in(2,8): obs.append(Ob('ple',f'{fn} {sh} degree {e} full={full}',ech_slice,(fn,e,sh,full,1),(fn,),4))
    for full in(0,1):
        for r,n,x,sh in((63,64,0,1),(63,64,1,0),(64,64,0,0),(64,65,1,0),(64,66,0,1),(64,130,0,2),(65,66,0,0),(65,67,1,1),(65,128,0,0),(65,129,1,0),(65,130,0,1),(66,200,0,3),(128,129,0,0),(3,64,0,0),(3,65,1,2),(3,130,0,1)):
            obs.append(Ob('ple',f'{fn} rank {r} of {r+x}x{n} shift {sh} full={full}',ech_wide,(fn,2,(r,n,x,sh),full),(fn,),10))
    degs=range(2,17) if ctx.thorough else(2,8)
    for e in degs:
        for full in(0,1): obs.append(Ob('proof',f'naive full={full} degree {e}',ech_all,('mzed_echelonize_naive',e,full)))
        obs.append(Ob('proof',f'gauss degree {e}',gauss_step,('_mzed_gauss_submatrix_full',e),('_mzed_gauss_submatrix_full',)))
        for full in(0,1): obs.append(Ob('proof',f'newton_john full={full} degree {e}',ech_all,('mzed_echelonize_newton_john',e,full,{'_mzed_gauss_submatrix_full':gauss_contract}),('mzed_echelonize_newton_john',)))
    return obs
