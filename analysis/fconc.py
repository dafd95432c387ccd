"""Field matrices of given dimensions with symbolic entries: further operations, and reading of results."""
from fmats import *
from fnum import *
from ir import *
def entries(I,st,sid,m,n):
    rows,pend=dense(I,st,sid,fops(st,sid))
    if pend: raise Undecided('some bits of an entry are cleared')
    z={natom(st,a) for a in zero_atoms(st)}
    return [[renorm(st,p,z) if p and p!=FONE else p for p in row[:n]] for row in rows[:m]]
def numeric(I,st,F,mats,rng):
    """values of the matrices at one point of the path"""
    atoms=set()
    def at(p):
        for m in p:
            for a,_ in m:
                if a[0]=='a': atoms.add(a)
                elif a[0]=='n' and a not in seen: seen.add(a); at(I.named[a[1]])
    seen=set()
    for M in mats:
        for row in M:
            for p in row: at(p)
    for p,_ in forks(I,st): at(p)
    V=solve(I,F,st,sorted(atoms,key=str),rng)
    if V is None: return None
    try: return [[[V.poly(p) for p in row] for row in M] for M in mats]
    except ZeroDivisionError: return None
def rect(I,st,v,ins=None):
    n=st.facts.norm; x=[n(y) for y in(v.r0,v.c0,v.nr,v.nc)]
    if not all(y.isc() for y in x): raise Undecided('dimensions at '+I.where(ins))
    return [y.c for y in x]
def block(I,st,v,ins=None):
    r0,c0,nr,nc=rect(I,st,v,ins); rows,pend=dense(I,st,v.sid,fops(st,v.sid))
    if pend: raise Undecided('some bits of an entry are cleared')
    z={natom(st,a) for a in zero_atoms(st)}
    return [[renorm(st,p,z) if p and p!=FONE else p for p in row[c0:c0+nc]] for row in rows[r0:r0+nr]]
def name_poly(I,p):
    if len(p)<=1: return p
    I.named.append(p); return fatom(('n',len(I.named)-1))
def put_block(I,st,v,M,ins):
    """write the block, entry by entry"""
    r0,c0,nr,nc=rect(I,st,v,ins)
    old=block(I,st,v,ins)
    for i in range(nr):
        for j in range(nc):
            if M[i][j]!=old[i][j]: emit(I,st,v.sid,('el',L(r0+i),L(c0+j),name_poly(I,M[i][j]),'set'),ins)
def pvals(I,st,P,lay,ins=None):
    I.check_alive(st,P,ins,'use')
    n=st.facts.norm(I.to_lin(I.load(st,P.at(lay('mzp_t','length')),I32))).c; q=I.load(st,P.at(lay('mzp_t','values')),PTR); out=[]
    for i in range(n):
        x=st.facts.norm(I.to_lin(I.load(st,q.at(4*i),I32))); out.append(x.c if x.isc() else None)
    return out
def new_mzp(I,st,lay,nm,length,window=None):
    p=I.new(st,nm,'mzp',None)
    setf(I,st,p,lay,'mzp_t','length',length,4)
    if window is None:
        window=I.new(st,nm+'.values','pvals',None)
        for i in range(length.c): I.put(st,window.obj,((),L(4*i)),4,L(i))
    setf(I,st,p,lay,'mzp_t','values',window,8); return p
def ple_contract(I,st,args,ins,name): return ple_contract.fn(I,st,args,ins,name)
def conc_prims(lay):
    n_=lambda I,st,x: st.facts.norm(I.to_lin(x))
    def perm(kind):
        def f(I,st,args,ins,name):
            v=fview(I,st,args[0],ins); r0,c0,nr,nc=rect(I,st,v,ins)
            if name.startswith('mzd_') and I.objs[args[0].obj].info.get('plane') not in(None,0): return [(UNDEF,st)]
            vals=pvals(I,st,args[1],lay,ins)
            if kind.startswith('left'):
                ix=list(range(min(len(vals),nr)))
                if kind=='left_trans': ix.reverse()
                for i in ix:
                    if vals[i] is None: raise Undecided('permutation')
                    if vals[i]>=nr: I.fviol.append((I.where(ins),'range',f'row {vals[i]} of {nr} is permuted',{})); raise Undecided('permutation')
                    if vals[i]!=i: emit(I,st,v.sid,('rswap',L(r0+i),L(r0+vals[i]),L(c0),L(c0+nc)),ins)
            else:
                ix=list(range(min(len(vals),nc)))
                if kind=='right': ix.reverse()
                for i in ix:
                    if nr==0: break
                    if vals[i] is None: raise Undecided('permutation')
                    if vals[i]>=nc: I.fviol.append((I.where(ins),'range',f'column {vals[i]} of {nc} is permuted',{})); raise Undecided('permutation')
                    h=min(i,nr) if kind=='right_trans_tri' else nr
                    if vals[i]!=i and h: emit(I,st,v.sid,('cswap',L(c0+i),L(c0+vals[i]),L(r0),L(r0+h)),ins)
            return [(UNDEF,st)]
        return f
    def compress(I,st,args,ins,name):
        v=fview(I,st,args[0],ins); r0,c0,nr,nc=rect(I,st,v,ins); r1,n1,r2=(n_(I,st,x).c for x in args[1:4])
        if r1!=n1:
            for i in range(r2): emit(I,st,v.sid,('cswap',L(c0+r1+i),L(c0+n1+i),L(r0+r1+i),L(r0+nr)),ins)
        return [(UNDEF,st)]
    def inv(I,st,p,ins):
        p=name_poly(I,p)
        if not p: raise Undecided('division by zero at '+I.where(ins))
        (m,)=p; return frozenset([tuple((a,-e) for a,e in m)])
    def trsm(lower):
        def f(I,st,args,ins,name):
            t,b=fview(I,st,args[0],ins),fview(I,st,args[1],ins); T,B=block(I,st,t,ins),block(I,st,b,ins)
            if len(T)!=len(B) or T and len(T[0])!=len(T): I.fviol.append((I.where(ins),'dimensions',f'{name}: {len(T)} unknowns, {len(B)} rows',{})); raise Undecided('dimensions')
            n=len(T); X=[list(r) for r in B]
            for i in(range(n) if lower else range(n-1,-1,-1)):
                js=range(i) if lower else range(i+1,n); d=inv(I,st,T[i][i],ins)
                for k in range(len(B[0]) if B else 0):
                    x=X[i][k]
                    for j in js:
                        if T[i][j] and X[j][k]: x=fadd(x,fmul(name_poly(I,T[i][j]),X[j][k]))
                    X[i][k]=name_poly(I,fmul(d,x))
            put_block(I,st,b,X,ins); return [(UNDEF,st)]
        return f
    def mul(acc):
        def f(I,st,args,ins,name):
            C,A,B=args[:3]; a,b=block(I,st,fview(I,st,A,ins),ins),block(I,st,fview(I,st,B,ins),ins); c=fview(I,st,C,ins); M=block(I,st,c,ins)
            r0,c0,nr,nc=rect(I,st,c,ins)
            if len(a)!=nr or rect(I,st,fview(I,st,B,ins),ins)[3]!=nc or rect(I,st,fview(I,st,A,ins),ins)[3]!=len(b): I.fviol.append((I.where(ins),'dimensions',name,{})); raise Undecided('dimensions')
            for i in range(nr):
                for j in range(nc):
                    x=M[i][j] if acc else FZ
                    for k in range(len(b)):
                        if a[i][k] and b[k][j]: x=fadd(x,fmul(name_poly(I,a[i][k]),name_poly(I,b[k][j])))
                    M[i][j]=x
            put_block(I,st,c,M,ins); return [(C,st)]
        return f
    def pinit(I,st,args,ins,name): return [(heap(I,st,new_mzp(I,st,lay,f'perm@{I.where(ins)}',n_(I,st,args[0])),'mzp'),st)]
    def pwin(I,st,args,ins,name):
        P,a,b=args; a,b=n_(I,st,a),n_(I,st,b); q=I.load(st,P.at(lay('mzp_t','values')),PTR); length=n_(I,st,I.load(st,P.at(lay('mzp_t','length')),I32))
        if a.c<0 or b.c<a.c or b.c>length.c: I.fviol.append((I.where(ins),'range',f'{name}: {a}..{b} of {length}',{})); raise Undecided('window')
        return [(heap(I,st,new_mzp(I,st,lay,f'permwin@{I.where(ins)}',b-a,q.at(4*a.c)),'mzpwin'),st)]
    def pfree(I,st,args,ins,name): do_free(I,st,args[0],ins,name); return [(UNDEF,st)]
    def psetui(I,st,args,ins,name):
        P=args[0]; n=n_(I,st,I.load(st,P.at(lay('mzp_t','length')),I32)).c; q=I.load(st,P.at(lay('mzp_t','values')),PTR)
        for i in range(n): I.store(st,q.at(4*i),L(i),4,ins)
        return [(UNDEF,st)]
    def clr(I,st,args,ins,name):
        M=args[0]; i=I.objs[M.obj].info; v=fview(I,st,M,ins); r,c,k=(n_(I,st,x) for x in args[1:4])
        if i.get('fmt')!='s': raise Undecided('bits of a packed matrix')
        emit(I,st,v.sid,('pclr',i['plane'],v.r0+r,v.c0+c,v.c0+c+k,i['e']),ins); return [(UNDEF,st)]
    def wbit(I,st,args,ins,name):
        b=st.norm(args[3]) if isinstance(args[3],Word) else st.facts.norm(args[3])
        if b!=ZL and not(isinstance(b,Lin) and b.isc() and b.c==0): raise Undecided(f'bit of a plane set at {I.where(ins)}')
        return clr(I,st,list(args[:3])+[L(1)],ins,name)
    def ple(I,st,args,ins,name):
        v=fview(I,st,args[0],ins); r0,c0,m,n=rect(I,st,v,ins); X=block(I,st,v,ins)
        P,Q=pvals(I,st,args[1],lay,ins),pvals(I,st,args[2],lay,ins)
        if len(P)!=m or len(Q)!=n: I.fviol.append((I.where(ins),'dimensions',f'{name}: permutations of length {len(P)}, {len(Q)} for {m}x{n}',{})); raise Undecided('dimensions')
        P=list(range(m)); Q=list(range(n)); r=0; c=0
        while r<m and c<n:
            piv=None
            for j in range(c,n):
                for i in range(r,m):
                    if X[i][j]:
                        if X[i][j]!=FONE: raise Undecided('pivot')
                        piv=(i,j); break
                if piv: break
            if not piv: break
            i,j=piv; P[r]=i; Q[r]=j; X[r],X[i]=X[i],X[r]
            for l in range(r+1,m):
                if X[l][j]:
                    for q in range(j+1,n):
                        if X[r][q]: X[l][q]=fadd(X[l][q],fmul(name_poly(I,X[l][j]),X[r][q]))
            r+=1; c=j+1
        for k in range(r):
            for i in range(k,m): X[i][k],X[i][Q[k]]=X[i][Q[k]],X[i][k]
        emit(I,st,v.sid,('mat',L(r0),L(c0),tuple(tuple(x) for x in X)),ins)
        for p,vals in((args[1],P),(args[2],Q)):
            q=I.load(st,p.at(lay('mzp_t','values')),PTR)
            for i,x in enumerate(vals): I.store(st,q.at(4*i),L(x),4,ins)
        return [(L(r),st)]
    ple_contract.fn=ple
    def cmp_(I,st,args,ins,name):
        a,b=fview(I,st,args[0],ins),fview(I,st,args[1],ins); X,Y=block(I,st,a,ins),block(I,st,b,ins)
        if [len(X),len(X[0]) if X else 0]!=[len(Y),len(Y[0]) if Y else 0]: return [(L(1),st)]
        D=[fadd(x,y) for r,q in zip(X,Y) for x,y in zip(r,q)]
        if all(not d for d in D): return [(ZL,st)]
        if any(d==FONE or len(d)==1 and st.facts.ne0(pack(d)) for d in D): return [(L(1),st.fork()),(L(-1),st)]
        # the rest of the function only uses whether they differ
        raise Undecided('comparison at '+I.where(ins))
    d={'mzed_cmp':cmp_,'mzd_slice_cmp':cmp_,'mzp_init':pinit,'mzp_init_window':pwin,'mzp_free':pfree,'mzp_free_window':pfree,'mzp_set_ui':psetui,'_mzd_slice_compress_l':compress,'mzd_clear_bits':clr,'mzd_write_bit':wbit,'__mzd_clear_bits':clr}
    for k in('left','left_trans','right','right_trans','right_trans_tri'):
        d['mzd_slice_apply_p_'+k]=perm(k); d['mzed_apply_p_'+k]=perm(k)
    for m in('mzed','mzd_slice'):
        for u in('','_'):
            for k in('lower','upper'):
                for tail in('left','left_newton_john','left_naive'): d[f'{u}{m}_trsm_{k}_{tail}']=trsm(k=='lower')
            d[f'{u}{m}_addmul']=mul(True); d[f'{u}{m}_mul']=mul(False)
            d[f'{u}{m}_addmul_karatsuba']=mul(True); d[f'{u}{m}_mul_karatsuba']=mul(False)
    return d
def run_fn(I,res,fn,args,st,V):
    """outcomes of a call; definite problems on the way become violations"""
    try: outs=I.run(fn,args,st)
    finally:
        res.absorb(I)
        for v in dict.fromkeys((a,b,c) for a,b,c,_ in I.fviol): res.viol.append(V(*v,{}))
    return outs
def released(I,st,fn,res,V,keep=()):
    al=[];fr=set()
    for e in st.events():
        if e[0]=='alloc': al.append(e[1])
        elif e[0]=='free': fr.add(e[1])
        elif e[0]=='double-free': res.viol.append(V(fn,'release',f'{e[1]} is released twice at {e[2]}'))
    for a in al:
        if a not in fr and a not in keep: res.viol.append(V(fn,'release',f'{I.objs[a].name} is never released'))
        if a in fr and a in keep: res.viol.append(V(fn,'release',f'{I.objs[a].name} is returned but released'))
