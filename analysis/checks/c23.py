"""Polynomials with matrix coefficients.  Abstract interpretation over the domain of non-commutative polynomials (C03): the coefficient arrays are
followed exactly for every listed number of coefficients, the matrices themselves are formal symbols of any size.  The content of every coefficient of
the result must be the coefficient of the sum or product of the formal polynomials; every access to a coefficient array must lie inside the
allocation; everything that is allocated is released or returned exactly once.  For the evaluation based product the evaluation points, the
interpolation matrix and its inverse are constants of the source, they are propagated as constants; the matrices stay formal."""
from mats import *
from driver import *
from fnum import GF
import c03,math
from interp import fconst
EXPLANATION=__doc__
RULES=['content: coefficient i of the result equals coefficient i of the sum or product (plus the old one where the operation accumulates)','operands: the operands keep their content','bounds: coefficient arrays are accessed inside their allocation','header: depth and sizes of a new or resized polynomial','leak: what is allocated is released or returned exactly once','comparison: zero exactly for equal polynomials']
LEVEL='other'
def cint(I,st,x,what='value'):
    x=st.norm(x) if isinstance(x,Word) else st.facts.norm(x) if isinstance(x,Lin) else x
    if isinstance(x,Word):
        c=x.const()
        if c is None: raise Undecided(f'{what} is not a constant')
        return c
    if isinstance(x,Lin) and x.isc(): return x.c
    raise Undecided(f'{what} is not a constant')
def prims(lay):
    base=mat_prims(lay)
    def cmp(I,st,args,ins,name):
        out=base['mzd_cmp'](I,st,args,ins,name); r=[]
        for k,(v,t) in enumerate(out):
            v=t.facts.norm(v)
            t.event('compared',args[0],args[1],k)
            if v.isc(): r.append((v,t))
            else: r.append((L(1 if k==1 else -1),t))
        return r
    # constant field matrices
    def newcm(I,st,g,m,n,ins):
        p=I.new(st,f'cm@{I.where(ins)}','zero',None); I.objs[p.obj].info.update(cm=(m,n),gf=g); I.put(st,p.obj,((),L(0)),8,('cm',{})); return heap(I,st,p,'mem')
    def cmat(I,st,p,ins):
        if not isinstance(p,Ptr) or 'cm' not in I.objs[p.obj].info: raise Undecided('unresolved constant matrix at '+I.where(ins))
        I.check_alive(st,p,ins,'use'); return dict(I.os(st,p.obj).layers[-1][((),L(0))][1][1])
    def ginit(I,st,args,ins,name):
        mp=cint(I,st,args[0],'minimal polynomial'); e=mp.bit_length()-1
        if not 2<=e<=16: st.event('die',I.where(ins),'degree'); I.dead.append(st); return []
        p=mk_ff(I,st,lay,e,name=f'ff{I.nobj}'); g=GF(e); g.m=mp; I.objs[p.obj].info['gf']=g; setf(I,st,p,lay,'gf2e','minpoly',wconst(mp),8)
        return [(heap(I,st,p,'mem'),st)]
    def gf_of(I,p,ins):
        if not isinstance(p,Ptr) or p.obj==0 or 'gf' not in I.objs[p.obj].info: raise Undecided('unresolved field at '+I.where(ins))
        return I.objs[p.obj].info['gf']
    def fmul(I,st,args,ins,name): return [(wconst(gf_of(I,args[0],ins).mul(cint(I,st,args[1]),cint(I,st,args[2]))),st)]
    def finv(I,st,args,ins,name): return [(wconst(gf_of(I,args[0],ins).inv(cint(I,st,args[1]))),st)]
    def zinit(I,st,args,ins,name): return [(newcm(I,st,gf_of(I,args[0],ins),cint(I,st,args[1]),cint(I,st,args[2]),ins),st)]
    def at(I,st,args,ins):
        m,n=I.objs[args[0].obj].info['cm']; i,j=cint(I,st,args[1]),cint(I,st,args[2])
        if not(0<=i<m and 0<=j<n): I.bviol.append((I.where(ins),f'entry ({i},{j}) of a {m}x{n} matrix is accessed')); raise Undecided('entry outside the matrix')
        return i,j
    def zwrite(add):
        def f(I,st,args,ins,name):
            M=cmat(I,st,args[0],ins); k=at(I,st,args,ins); v=cint(I,st,args[3]); M[k]=v^(M.get(k,0) if add else 0); I.put(st,args[0].obj,((),L(0)),8,('cm',M)); return [(UNDEF,st)]
        return f
    def zread(I,st,args,ins,name): M=cmat(I,st,args[0],ins); return [(wconst(M.get(at(I,st,args,ins),0)),st)]
    def zinv(I,st,args,ins,name):
        M=cmat(I,st,args[1],ins); g=I.objs[args[1].obj].info['gf']; n,_=I.objs[args[1].obj].info['cm']
        W=[[M.get((i,j),0) for j in range(n)]+[int(i==j) for j in range(n)] for i in range(n)]
        for c in range(n):
            p=next((i for i in range(c,n) if W[i][c]),None)
            if p is None: I.bviol.append((I.where(ins),'the matrix of the evaluation points is singular')); raise Undecided('singular')
            W[c],W[p]=W[p],W[c]; v=g.inv(W[c][c]); W[c]=[g.mul(v,x) for x in W[c]]
            for i in range(n):
                if i!=c and W[i][c]: y=W[i][c]; W[i]=[a^g.mul(y,b) for a,b in zip(W[i],W[c])]
        B=args[0] if args[0]!=NULL else newcm(I,st,g,n,n,ins)
        I.put(st,B.obj,((),L(0)),8,('cm',{(i,j):W[i][n+j] for i in range(n) for j in range(n)})); return [(B,st)]
    # bitsliced matrices of formal slices
    def sfield(I,st,p,ins): return gf_of(I,I.load(st,p.at(lay('mzd_slice_t','finite_field')),PTR),ins)
    def sl(I,st,p,e): return [I.load(st,p.at(lay('mzd_slice_t','x')+8*i),PTR) for i in range(e)]
    def getdim(I,st,p,f): return st.facts.norm(I.to_lin(I.load(st,p.at(lay('mzd_slice_t',f)),I32)))
    def smul(I,st,args,ins,name):
        C,A,B=args; g=sfield(I,st,A,ins); e=g.e
        if not st.facts.eq0(getdim(I,st,A,'ncols')-getdim(I,st,B,'nrows')): raise Undecided('sizes of a product')
        a=[getmat(I,st,x,ins) for x in sl(I,st,A,e)]; b=[getmat(I,st,x,ins) for x in sl(I,st,B,e)]; w=[MZERO]*e
        for j in range(e):
            for k in range(e):
                r=g.mul(1<<j,1<<k); p=a[j].mul(b[k])
                for i in range(e):
                    if r>>i&1: w[i]=w[i].add(p)
        if C==NULL:
            ((C,st),)=I.call(I.p.func('mzd_slice_init'),[I.load(st,A.at(lay('mzd_slice_t','finite_field')),PTR),getdim(I,st,A,'nrows'),getdim(I,st,B,'ncols')],st)
        cs=sl(I,st,C,e)
        for i in range(e): putmat(I,st,cs[i],(getmat(I,st,cs[i],ins) if 'addmul' in name else MZERO).add(w[i]),ins)
        return [(C,st)]
    def sscal(I,st,args,ins,name):
        C,a,B=args; g=sfield(I,st,B,ins); e=g.e; v=cint(I,st,a); b=[getmat(I,st,x,ins) for x in sl(I,st,B,e)]
        if C==NULL or C==B: raise Undecided('scalar product without a separate target')
        cs=sl(I,st,C,e)
        for i in range(e):
            w=MZERO
            for j in range(e):
                if g.mul(v,1<<j)>>i&1: w=w.add(b[j])
            putmat(I,st,cs[i],w,ins)
        return [(C,st)]
    # bilinear maps: an exact polynomial product whose application overwrites (compiled) or accumulates
    def apply_blm(I,st,args,ins,name):
        X,A,B,f=args
        if not isinstance(f,Ptr) or 'blm' not in I.objs[f.obj].info: return None
        da,db,comp=I.objs[f.obj].info['blm']; I.check_alive(st,f,ins,'use')
        g=lambda P,n:[I.load(st,P.at(8*i),PTR) for i in range(n)]
        a=[getmat(I,st,x,ins) for x in g(A,da)]; b=[getmat(I,st,x,ins) for x in g(B,db)]; xs=g(X,da+db-1); w=[MZERO]*(da+db-1)
        for i in range(da):
            for j in range(db): w[i+j]=w[i+j].add(a[i].mul(b[j]))
        for x,y in zip(xs,w): putmat(I,st,x,y if comp else getmat(I,st,x,ins).add(y),ins)
        return [(UNDEF,st)]
    def blm_crt(I,st,args,ins,name):
        da,db,comp=(cint(I,st,args[i]) for i in(1,2,4))
        if args[0]!=NULL: raise Undecided('map with a field')
        return [(mk_blm(I,st,da,db,comp,lay,True),st)]
    def fl(fun):
        def f(I,st,args,ins,name):
            c=fconst(st.facts.norm(I.to_lin(args[0])))
            if c is None: raise Undecided(name+' of an unknown value')
            return [(S(('float',float(fun(c)))),st)]
        return f
    def crt(I,st,args,ins,name): return [(heap(I,st,I.new(st,'crt','zero',None),'mem'),st)]
    def ffree(I,st,args,ins,name):
        do_free(I,st,args[0],ins,'mem'); return [(UNDEF,st)]
    def bfree(I,st,args,ins,name):
        if isinstance(args[0],Ptr) and args[0].obj and 'blm' in I.objs[args[0].obj].info: return ffree(I,st,args,ins,name)
        return None
    return {**base,'mzd_cmp':cmp,'gf2e_init':ginit,'gf2e_free':ffree,'<ff.mul>':fmul,'<ff.inv>':finv,'gf2e_inv':finv,'mzed_init':zinit,'mzed_write_elem':zwrite(0),'mzed_add_elem':zwrite(1),'mzed_read_elem':zread,
     'mzed_free':ffree,'mzed_invert_newton_john':zinv,'mzd_slice_mul':smul,'mzd_slice_addmul':smul,'mzd_slice_mul_karatsuba':smul,'mzd_slice_mul_scalar':sscal,'_mzd_ptr_apply_blm':apply_blm,'blm_init_crt':blm_crt,'crt_init':crt,'log2':fl(math.log2),'ceil':fl(math.ceil),'floor':fl(math.floor),'llvm.ceil.f64':fl(math.ceil),'llvm.log2.f64':fl(math.log2),'llvm.floor.f64':fl(math.floor),'blm_free':bfree}
def mk_blm(I,st,da,db,comp,lay,own=False):
    p=I.new(st,'blm','blm',None); I.objs[p.obj].info['blm']=(da,db,bool(comp))
    for nm,r,c in(('F',9,da),('G',9,db),('H',da+db-1,9)): 
        m=mk_mat(I,st,lay,'map'+nm,L(r),L(c)); setf(I,st,p,lay,'blm_t',nm,m,8)
    return heap(I,st,p,'mem') if own else p
def machine(ctx):
    I=Interp(ctx.prog,{**BASE,**prims(ctx.lay)}); I.join_val=join_mat; I.lay=ctx.lay; I.bviol=[]
    st=State(); st.facts=st.facts.add_ge(S('m')-1).add_ge(S('l')-1).add_ge(S('n')-1)
    def bounds(I,st,obj,addr,size,ins):
        z=I.objs[obj].info.get('bytes')
        if z is None: return
        off=st.facts.norm(addr)
        if off.isc() and not(0<=off.c and off.c+size<=z): I.bviol.append((I.where(ins),f'access to bytes {off.c}..{off.c+size-1} of an array of {z} bytes'))
    I.on_store=lambda I,st,obj,addr,size,v,ins: bounds(I,st,obj,addr[1],size,ins)
    I.on_load=lambda I,st,p,ty,ins: bounds(I,st,p.obj,p.off,ty.size,ins)
    mal=I.prims['m4ri_mm_malloc']; cal=I.prims['calloc']
    def sized(h,calloc):
        def f(I,st,args,ins,name):
            r=h(I,st,args,ins,name)
            try: z=cint(I,st,args[0])*(cint(I,st,args[1]) if calloc else 1)
            except Undecided: z=None
            I.objs[r[0][0].obj].info['bytes']=z; return r
        return f
    for k in('m4ri_mm_malloc','malloc'): I.prims[k]=sized(mal,0)
    for k in('calloc','m4ri_mm_calloc'): I.prims[k]=sized(cal,1)
    return I,st
def mk_poly(I,st,lay,name,d,r,c,own=False):
    p=I.new(st,name,'poly',None,nm=name); x=I.new(st,name+'.x','ptrs',None); I.objs[x.obj].info['bytes']=8*d; ms=[]
    for i in range(d): m=mk_mat(I,st,lay,f'{name}{i}',r,c); I.put(st,x.obj,((),L(8*i)),8,m); ms.append(m)
    setf(I,st,p,lay,'mzd_poly_t','x',x,8)
    for f,v in(('nrows',r),('ncols',c),('depth',L(d))): setf(I,st,p,lay,'mzd_poly_t',f,v,4)
    if own: I.objs[p.obj].info['heap']='mem'; I.objs[x.obj].info['heap']='mem'; [I.objs[m.obj].info.update(heap='mzd') for m in ms]
    return p,ms
def coeffs(I,st,p,n=None):
    d=st.facts.norm(I.to_lin(getf(I,st,p,I.lay,'mzd_poly_t','depth',I32)))
    if not d.isc(): raise Undecided('depth')
    x=I.load(st,p.at(I.lay('mzd_poly_t','x')),PTR)
    return [I.load(st,x.at(8*i),PTR) for i in range(d.c if n is None else n)],x
def run(ctx,res,fn,I,args,st):
    F=ctx.prog.func(fn); loc=f'{os.path.basename(F.file)}:{fn}'
    try: out=I.run(fn,args,st)
    except Undecided:
        if not I.bviol: raise
        out=[]
    finally: res.absorb(I)
    for w,what in I.bviol[:1]: res.viol.append(Violation(w,'bounds',f'{fn}: {what}'))
    if not out and not res.viol:
        if I.dead: res.viol.append(Violation(loc,'returns',f'{fn}: stops the program on valid operands'))
        else: res.und.append('no returning path')
    return loc,out
def leaks(I,t,res,loc,keep=(),must=()):
    al=set();fr=[]
    for ev in t.events():
        if ev[0]=='alloc': al.add(ev[1])
        if ev[0]=='free': fr.append(ev[1])
        if ev[0] in('use-after-free','double-free'): res.viol.append(Violation(loc,'leak',f'{ev[0]} {ev[1:]}')); return
    for a in al|set(must):
        if a in keep and a in fr: res.viol.append(Violation(loc,'leak',f'{I.objs[a].name} is released but still needed')); return
        if a not in keep and a not in fr: res.viol.append(Violation(loc,'leak',f'{I.objs[a].name} is never released')); return
    for a in fr:
        if a not in al and a not in must: res.viol.append(Violation(loc,'leak',f'{I.objs[a].name} is released')); return
def owned(I,t,p):
    ms,x=coeffs(I,t,p); return {p.obj,x.obj}|{m.obj for m in ms}
def same(I,t,res,loc,name,ms):
    for i,m in enumerate(ms):
        res.n+=1
        if getmat(I,t,m)!=matom(f'{name}{i}'): res.viol.append(Violation(loc,'operands',f'coefficient {i} of the operand {name} is modified')); return
def header(I,t,res,loc,p,d,r,c):
    for f,v in(('nrows',r),('ncols',c),('depth',L(d))):
        x=t.facts.norm(I.to_lin(getf(I,t,p,I.lay,'mzd_poly_t',f,I32))); res.n+=1
        if not t.facts.eq0(x-v): res.viol.append(Violation(loc,'header',f'{f} is {x}, must be {v}')); return
def fits(I,t,res,loc,ms,r,c):
    for i,m in enumerate(ms):
        if not isinstance(m,Ptr) or m.obj==0 or not I.objs[m.obj].info.get('mat'): res.viol.append(Violation(loc,'content',f'coefficient {i} is missing')); return False
        a,b=dims_of(I,t,I.lay,m)
        if not(t.facts.eq0(a-r) and t.facts.eq0(b-c)): res.viol.append(Violation(loc,'header',f'coefficient {i} has dimensions {a} x {b}')); return False
    return True
def product(ctx,res,fn,da,db,target,comp=None,extra=0,same_ops=False):
    I,st=machine(ctx); m,l,n=S('m'),S('l'),S('n')
    if same_ops: l=n=m
    I.frozen={'A','B'}
    A,xa=mk_poly(I,st,ctx.lay,'A',da,m,l)
    B,xb=(A,xa) if same_ops else mk_poly(I,st,ctx.lay,'B',db,l,n)
    dc=da+db-1
    C,xc=mk_poly(I,st,ctx.lay,'C',dc+extra,m,n) if target else(NULL,[])
    args=[C,A,B]
    if comp is not None: args.append(mk_blm(I,st,da,db,comp,ctx.lay))
    loc,out=run(ctx,res,fn,I,args,st)
    for r,t in out:
        if res.viol: return
        if target and r!=C or not isinstance(r,Ptr) or r.obj==0: res.viol.append(Violation(loc,'content',f'{fn}: the product is not returned'+(' in the given target' if target else ''))); return
        ms,x=coeffs(I,t,r)
        if len(ms)<dc: res.viol.append(Violation(loc,'header',f'{fn}: the product of {da} and {db} coefficients has {len(ms)}')); return
        if not fits(I,t,res,loc,ms,m,n): return
        leaks(I,t,res,loc,set() if target else owned(I,t,r))
        for i,x in enumerate(ms):
            w=matom(f'C{i}') if target else MZERO; d=dict(w.d)
            for j in range(da):
                if 0<=i-j<db:
                    k=(f'A{j}',f'{"A" if same_ops else "B"}{i-j}'); d[k]=padd(d.get(k,ZERO),ONE)
            w=Mat(d); g=getmat(I,t,x); res.n+=1; z=g.add(w)
            if z.d and not in_ideal(t,z): mono,_=sorted(z.d.items(),key=str)[0]; res.viol.append(Violation(loc,'content',f'{fn}, {da} by {db} coefficients: coefficient {i} is wrong in the term {"*".join(map(str,mono)) or 1}')); return
        same(I,t,res,loc,'A',xa)
        if not same_ops: same(I,t,res,loc,'B',xb)
def add(ctx,res,fn,d,off,alias):
    I,st=machine(ctx); m,n=S('m'),S('n')
    A,xa=mk_poly(I,st,ctx.lay,'A',d,m,n); B,xb=mk_poly(I,st,ctx.lay,'B',d,m,n); C,xc=mk_poly(I,st,ctx.lay,'C',d+off+1,m,n) if alias==0 else (A,xa) if alias==1 else (B,xb)
    loc,out=run(ctx,res,fn,I,[C,A,B]+([] if fn=='mzd_poly_add' else [L(off)]),st)
    for r,t in out:
        if r!=C: res.viol.append(Violation(loc,'returns','the target is not returned')); return
        leaks(I,t,res,loc)
        for i,x in enumerate(xc):
            w=matom(f'A{i-off}').add(matom(f'B{i-off}')) if off<=i<d+off else matom(f'C{i}'); g=getmat(I,t,x); res.n+=1
            if g!=w: res.viol.append(Violation(loc,'content',f'{fn}, {d} coefficients: coefficient {i} is wrong')); return
        if alias!=1: same(I,t,res,loc,'A',xa)
        if alias!=2: same(I,t,res,loc,'B',xb)
def init(ctx,res,d):
    I,st=machine(ctx); m,n=S('m'),S('n'); fn='mzd_poly_init'
    loc,out=run(ctx,res,fn,I,[L(d),m,n],st)
    for r,t in out:
        if not isinstance(r,Ptr) or r.obj==0: res.viol.append(Violation(loc,'content','no polynomial is returned')); return
        header(I,t,res,loc,r,d+1,m,n); ms,_=coeffs(I,t,r)
        if not fits(I,t,res,loc,ms,m,n): return
        leaks(I,t,res,loc,owned(I,t,r))
        if len({x.obj for x in ms})<len(ms): res.viol.append(Violation(loc,'content','coefficients share a matrix')); return
        for x in ms:
            res.n+=1
            if getmat(I,t,x).d: res.viol.append(Violation(loc,'content','a new polynomial is not zero')); return
def free(ctx,res,d):
    I,st=machine(ctx); fn='mzd_poly_free'; A,xa=mk_poly(I,st,ctx.lay,'A',d,S('m'),S('n'),True); must=owned(I,st,A)
    loc,out=run(ctx,res,fn,I,[A],st)
    for r,t in out: res.n+=1; leaks(I,t,res,loc,(),must)
def adapt(ctx,res,old,new):
    I,st=machine(ctx); fn='_mzd_poly_adapt_depth'; m,n=S('m'),S('n'); A,xa=mk_poly(I,st,ctx.lay,'A',old,m,n,True); had=owned(I,st,A)
    loc,out=run(ctx,res,fn,I,[A,L(new)],st)
    for r,t in out:
        if res.viol: return
        if r!=A: res.viol.append(Violation(loc,'returns','the polynomial is not returned')); return
        header(I,t,res,loc,A,new,m,n); ms,_=coeffs(I,t,A)
        for w,what in I.bviol[:1]: res.viol.append(Violation(loc,'bounds',what)); return
        if not fits(I,t,res,loc,ms,m,n): return
        if len({x.obj for x in ms})<len(ms): res.viol.append(Violation(loc,'content','coefficients share a matrix')); return
        leaks(I,t,res,loc,owned(I,t,A),had)
        for i,x in enumerate(ms):
            res.n+=1
            if getmat(I,t,x)!=(matom(f'A{i}') if i<old else MZERO): res.viol.append(Violation(loc,'content',f'coefficient {i} is wrong when the depth goes from {old} to {new}')); return
def compare(ctx,res,da,db):
    I,st=machine(ctx); fn='mzd_poly_cmp'; m,n=S('m'),S('n'); A,xa=mk_poly(I,st,ctx.lay,'A',da,m,n); B,xb=mk_poly(I,st,ctx.lay,'B',db,m,n)
    loc,out=run(ctx,res,fn,I,[A,B],st)
    for r,t in out:
        r=t.facts.norm(I.to_lin(r)); res.n+=1
        if not r.isc(): raise Undecided('result of the comparison')
        if da!=db:
            if r.c==0 or (r.c<0)!=(da<db): res.viol.append(Violation(loc,'comparison',f'{r.c} for {da} and {db} coefficients')); return
            continue
        eq=all(t.known.get(('zp',matom(f'A{i}').add(matom(f'B{i}')))) is True for i in range(da))
        ne=any(t.known.get(('zp',matom(f'A{i}').add(matom(f'B{i}')))) is False for i in range(da))
        if r.c==0 and not eq: res.viol.append(Violation(loc,'comparison','equality is reported although a coefficient '+('differs' if ne else 'was not compared'))); return
        if r.c!=0 and not ne: res.viol.append(Violation(loc,'comparison','a difference is reported for equal polynomials')); return
        same(I,t,res,loc,'A',xa); same(I,t,res,loc,'B',xb)
def bits(I,st,p,rows):
    pass
def obligations(ctx):
    obs=[]; N=17 if ctx.thorough else 8
    P='product'
    for da in range(1,N):
        for db in range(1,N):
            if not ctx.thorough and da+db>11: continue
            for tg in(0,1):
                s=f'{da} by {db} coefficients, {"target" if tg else "new"}'
                obs.append(Ob(P,'naive '+s,product,('_mzd_poly_addmul_naive',da,db,tg),('_mzd_poly_addmul_naive',),da*db))
                for comp in(0,1): obs.append(Ob(P,f'bilinear map {"compiled " if comp else ""}'+s,product,('_mzd_poly_addmul_blm',da,db,tg,comp),('_mzd_poly_addmul_blm',),da*db))
                obs.append(Ob(P,'generated map '+s,product,('_mzd_poly_addmul_crt',da,db,tg),('_mzd_poly_addmul_crt',),da*db))
            obs.append(Ob(P,f'evaluation {da} by {db} coefficients',product,('_mzd_poly_addmul_ext1',da,db,1),('_mzd_poly_addmul_ext1',),da*db*4))
    for d in range(1,17):
        for tg in(0,1):
            for sm in(0,1): obs.append(Ob(P,f'karatsuba {d} coefficients, {"target" if tg else "new"}{" square" if sm else ""}',product,('_mzd_poly_addmul_karatsubs_balanced',d,d,tg,None,0,sm),('_mzd_poly_addmul_karatsubs_balanced',),d*d))
    for d in range(1,33):
        for al in(0,1,2):
            obs.append(Ob('sum',f'{d} coefficients, alias {al}',add,('mzd_poly_add',d,0,al),('mzd_poly_add',)))
        if d<9:
            for off in range(4): obs.append(Ob('sum',f'{d} coefficients, offset {off}',add,('_mzd_poly_add',d,off,0),('_mzd_poly_add',)))
    for d in range(0,20): obs.append(Ob('structure',f'init {d}',init,(d,),('mzd_poly_init',)))
    for d in range(1,20): obs.append(Ob('structure',f'free {d}',free,(d,),('mzd_poly_free',)))
    for a in range(1,10):
        for b in range(1,10): obs.append(Ob('structure',f'depth {a} to {b}',adapt,(a,b),('_mzd_poly_adapt_depth',)))
    for a in range(1,6):
        for b in range(1,6): obs.append(Ob('comparison',f'{a} and {b} coefficients',compare,(a,b),('mzd_poly_cmp',)))
    return obs
