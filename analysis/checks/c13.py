"""Bilinear maps.  Abstract interpretation over the domain of non-commutative polynomials (C03): the matrices a map (F, G, H) is applied to are formal
symbols of any size, the maps themselves are a fixed family of binary matrices (every unit map, dense, sparse and rectangular ones) that is
carried through the code as constants.  The result must be the polynomial sum_i H[k,i] * (sum F[i,a] A_a) * (sum G[i,b] B_b); compiled (straight line)
maps enter by the contract of m4ri's compiler and must be built from unchanged copies of the right matrices; ownership is checked on every path."""
from c23 import *
EXPLANATION=__doc__
RULES=['content: coefficient k of the result is the one the map defines','operands: operands and the matrices of the map keep their content','compile: each compiled map realises the matrix it stands for','leak: what is allocated is released or returned exactly once']
LEVEL='other'
def bprims(lay):
    P=prims(lay); base=mat_prims(lay)
    for k in('_mzd_ptr_apply_blm','blm_free','mzd_slice_mul','mzd_slice_addmul','mzd_slice_mul_karatsuba','mzd_slice_mul_scalar'): P.pop(k,None)
    def bits(I,st,p,ins):
        v=I.objs[p.obj].info.get('bits') if isinstance(p,Ptr) and p.obj else None
        if v is None: raise Undecided('unresolved map at '+I.where(ins))
        I.check_alive(st,p,ins,'use'); return v
    def rbit(I,st,args,ins,name):
        v=bits(I,st,args[0],ins); i,j=cint(I,st,args[1]),cint(I,st,args[2])
        if not(0<=i<len(v[0]) and 0<=j<v[1]): I.bviol.append((I.where(ins),f'bit ({i},{j}) of a {len(v[0])}x{v[1]} map is read')); raise Undecided('bit outside')
        return [(L(v[0][i]>>j&1),st)]
    def copy(I,st,args,ins,name):
        if isinstance(args[1],Ptr) and args[1].obj and 'bits' in I.objs[args[1].obj].info:
            if args[0]!=NULL: raise Undecided('copy of a map')
            v=bits(I,st,args[1],ins); p=mk_bits(I,st,lay,'copy of '+I.objs[args[1].obj].name,v[0],v[1]); I.objs[p.obj].info['copy']=True; return [(heap(I,st,p,'mzd'),st)]
        return base['mzd_copy'](I,st,args,ins,name)
    def equal(I,st,args,ins,name):
        if isinstance(args[1],Ptr) and args[1].obj and 'bits' in I.objs[args[1].obj].info:
            eq=bits(I,st,args[0],ins)==bits(I,st,args[1],ins); return [(L(int(eq==(name=='mzd_equal'))),st)]
        return base[name](I,st,args,ins,name)
    def compile_(I,st,args,ins,name):
        v=bits(I,st,args[0],ins)
        if not I.objs[args[0].obj].info.get('copy'): I.bviol.append((I.where(ins),'the compiler destroys its argument, which is not a copy')); raise Undecided('destroyed')
        p=I.new(st,'djb','djb',None); I.objs[p.obj].info['djb']=v; I.objs[args[0].obj].info['copy']=False; return [(heap(I,st,p,'mem'),st)]
    def djbfree(I,st,args,ins,name):
        if args[0]==NULL: I.bviol.append((I.where(ins),'a map that was not compiled is released as if it were')); raise Undecided('null')
        do_free(I,st,args[0],ins,'mem'); return [(UNDEF,st)]
    def apply(I,st,args,ins,name):
        z,W,V=args
        if not isinstance(z,Ptr) or z.obj==0 or 'djb' not in I.objs[z.obj].info: raise Undecided('unresolved compiled map at '+I.where(ins))
        I.check_alive(st,z,ins,'use'); rows,nc=I.objs[z.obj].info['djb']
        g=lambda P,i:I.load(st,P.at(8*i),PTR)
        src=[getmat(I,st,g(V,j),ins) if any(r>>j&1 for r in rows) else None for j in range(nc)]
        for i,r in enumerate(rows):
            if r:
                w=MZERO
                for j in range(nc):
                    if r>>j&1: w=w.add(src[j])
                putmat(I,st,g(W,i),w,ins)
        return [(UNDEF,st)]
    return {**P,'mzd_read_bit':rbit,'mzd_copy':copy,'mzd_equal':equal,'mzd_cmp':equal,'djb_compile':compile_,'djb_free':djbfree,'djb_apply_mzd_ptr':apply}
def mk_bits(I,st,lay,name,rows,nc):
    m=mk_mzd(I,st,lay,name,L(len(rows)),L(nc),data=I.new(st,name+'.data','mat',None)); I.objs[m.obj].info['bits']=(tuple(rows),nc); return m
def mk_map(I,st,lay,F,G,H,da,db,compiled,own=False):
    p=I.new(st,'blm','blm',None); ms=[]
    for nm,rows,c in(('F',F,da),('G',G,db),('H',H,len(F))):
        m=mk_bits(I,st,lay,'map '+nm,rows,c); setf(I,st,p,lay,'blm_t',nm,m,8); ms.append(m); d=NULL
        if compiled:
            d=I.new(st,'djb '+nm,'djb',None); I.objs[d.obj].info['djb']=(tuple(rows),c); ms.append(d)
            if nm=='G' and compiled==2: d=df
            if nm=='F': df=d
        setf(I,st,p,lay,'blm_t',nm.lower(),d,8)
    if own:
        I.objs[p.obj].info['heap']='mem'
        for m in ms: I.objs[m.obj].info['heap']='mem' if 'djb' in I.objs[m.obj].info else 'mzd'
    return p,ms
def bmachine(ctx):
    I,st=machine(ctx); I.prims.update(bprims(ctx.lay)); 
    mal=mat_prims(ctx.lay)['m4ri_mm_malloc']
    return I,st
def want(F,G,H,da,db,a,b):
    out=[]
    for r in H:
        w=MZERO
        for i in range(len(F)):
            if r>>i&1:
                x=MZERO; y=MZERO
                for j in range(da):
                    if F[i]>>j&1: x=x.add(matom(f'{a}{j}'))
                for j in range(db):
                    if G[i]>>j&1: y=y.add(matom(f'{b}{j}'))
                w=w.add(x.mul(y))
        out.append(w)
    return out
def family():
    import random
    rng=random.Random(11); out=[]
    for r,da,db,dc in((1,1,1,1),(1,2,3,2),(2,1,1,3),(3,2,2,3),(4,3,2,4),(6,3,3,5),(6,4,5,8),(9,4,4,7),(10,2,8,9)):
        for dens in(1,2,3): out.append(([rng.getrandbits(da) if dens!=3 else 1<<rng.randrange(da) for _ in range(r)],[rng.getrandbits(db) if dens!=3 else 1<<rng.randrange(db) for _ in range(r)],[rng.getrandbits(r)|(dens==2) for _ in range(dc)],da,db))
    out.append(([1,2,3],[1,2,3],[1,7,2],2,2)); return out
def check(I,t,res,loc,fn,xs,ws):
    for i,(x,w) in enumerate(zip(xs,ws)):
        g=getmat(I,t,x); res.n+=1; z=g.add(w)
        if z.d: mono,_=sorted(z.d.items(),key=str)[0]; res.viol.append(Violation(loc,'content',f'{fn}: coefficient {i} is wrong in the term {"*".join(map(str,mono)) or 1}')); return False
    return True
def arr(I,st,name,n,r,c,content=None):
    p=I.new(st,name,'ptrs',None); ms=[mk_mat(I,st,I.lay,f'{name}{i}',r,c,content) for i in range(n)]; I.objs[p.obj].info['bytes']=8*n
    for i,m in enumerate(ms): I.put(st,p.obj,((),L(8*i)),8,m)
    return p,ms
def apply_ptr(ctx,res,fn,F,G,H,da,db,compiled):
    I,st=bmachine(ctx); I.frozen={'A','B'}; m,l,n=S('m'),S('l'),S('n')
    A,xa=arr(I,st,'A',da,m,l); B,xb=arr(I,st,'B',db,l,n); X,xx=arr(I,st,'X',len(H),m,n,MZERO); f,_=mk_map(I,st,ctx.lay,F,G,H,da,db,compiled)
    loc,out=run(ctx,res,fn,I,[X,A,B,f],st)
    for r,t in out:
        if res.viol: return
        leaks(I,t,res,loc)
        if not check(I,t,res,loc,fn,xx,want(F,G,H,da,db,'A','B')): return
        same(I,t,res,loc,'A',xa); same(I,t,res,loc,'B',xb)
def apply_slice(ctx,res,fn,e,F,G,H,compiled,target,acc):
    I,st=bmachine(ctx); I.frozen={'A','B'}; m,l,n=S('m'),S('l'),S('n'); ff=mk_ff(I,st,ctx.lay,e)
    A=c03.mk_mslice(I,st,ctx.lay,'A',ff,e,m,l); B=c03.mk_mslice(I,st,ctx.lay,'B',ff,e,l,n); C=c03.mk_mslice(I,st,ctx.lay,'C',ff,e,m,n) if target else NULL
    f,_=mk_map(I,st,ctx.lay,F,G,H,e,e,compiled); xa,xb=c03.slices(I,st,A,e),c03.slices(I,st,B,e)
    loc,out=run(ctx,res,fn,I,[C,A,B,f],st)
    for r,t in out:
        if res.viol: return
        if not isinstance(r,Ptr) or r.obj==0 or target and r!=C: res.viol.append(Violation(loc,'content',f'{fn}: the product is not returned')); return
        xs=c03.slices(I,t,r,e); leaks(I,t,res,loc,set() if target else {r.obj}|{x.obj for x in xs})
        ws=want(F,G,H,e,e,'A','B')
        if acc: ws=[w.add(matom(f'C{i}')) for i,w in enumerate(ws)]
        if not check(I,t,res,loc,fn,xs,ws): return
        same(I,t,res,loc,'A',xa); same(I,t,res,loc,'B',xb)
def compile_map(ctx,res,F,G,H,da,db):
    I,st=bmachine(ctx); fn='_blm_djb_compile'; f,ms=mk_map(I,st,ctx.lay,F,G,H,da,db,0); loc,out=run(ctx,res,fn,I,[f],st)
    for r,t in out:
        if r!=f: res.viol.append(Violation(loc,'compile','the map is not returned')); return
        keep=set()
        for nm,rows,c in(('f',F,da),('g',G,db),('h',H,len(F))):
            d=I.load(t,f.at(ctx.lay('blm_t',nm)),PTR); res.n+=1
            if not isinstance(d,Ptr) or d.obj==0 or 'djb' not in I.objs[d.obj].info: res.viol.append(Violation(loc,'compile',f'the compiled map {nm} is missing')); return
            keep.add(d.obj)
            if I.objs[d.obj].info['djb']!=(tuple(rows),c): res.viol.append(Violation(loc,'compile',f'the compiled map {nm} realises another matrix')); return
        for nm,m in zip('FGH',ms):
            if I.load(t,f.at(ctx.lay('blm_t',nm)),PTR)!=m: res.viol.append(Violation(loc,'operands',f'the matrix {nm} is replaced')); return
        leaks(I,t,res,loc,keep)
def free_map(ctx,res,compiled):
    I,st=bmachine(ctx); fn='blm_free'; F=G=[1,2,3]; f,ms=mk_map(I,st,ctx.lay,F,G if compiled==2 else [1,3,2],[1,7,2],2,2,compiled,True)
    if compiled==2: ms=[m for i,m in enumerate(ms) if i!=3]
    loc,out=run(ctx,res,fn,I,[f],st)
    for r,t in out: res.n+=1; leaks(I,t,res,loc,(),{f.obj}|{m.obj for m in ms})
def run_program(ctx,res,prog,nt,ns):
    """a straight line program: (target, source, from source list?) executed from the last entry to the first; a target starts at zero"""
    I,st=bmachine(ctx); I.prims.pop('djb_apply_mzd_ptr',None); fn='djb_apply_mzd_ptr'; m,n=S('m'),S('n'); lay=ctx.lay
    W,xw=arr(I,st,'W',nt,m,n); V,xv=arr(I,st,'V',ns,m,n)
    z=I.new(st,'program','djb',None)
    for f,v in(('nrows',L(nt)),('ncols',L(ns)),('length',L(len(prog)))): setf(I,st,z,lay,'djb_t',f,v,4)
    for f,col in(('target',0),('source',1),('srctyp',2)):
        a=I.new(st,f,'ints',None,size=4*len(prog))
        for i,e in enumerate(prog): I.put(st,a.obj,((),L(4*i)),4,L(e[col] if col<2 else lay.o['djb_source_source' if e[2] else 'djb_source_target']))
        setf(I,st,z,lay,'djb_t',f,a,8)
    loc,out=run(ctx,res,fn,I,[z,W,V],st)
    val={}
    for t,s_,typ in reversed(prog):
        x=matom(f'V{s_}') if typ else val[s_]
        val[t]=val[t].add(x) if t in val else x
    for r,t in out:
        if res.viol: return
        leaks(I,t,res,loc)
        if not check(I,t,res,loc,fn,xw,[val.get(i,matom(f'W{i}')) for i in range(nt)]): return
        same(I,t,res,loc,'V',xv)
def programs():
    import itertools,random
    def valid(p):
        done=set()
        for t,s_,typ in reversed(p):
            if not typ and (s_ not in done or s_==t): return False
            done.add(t)
        return True
    ops=[(t,s_,typ) for t in range(2) for s_ in range(2) for typ in(0,1)]
    for n in range(0,4):
        for p in itertools.product(ops,repeat=n):
            if valid(p): yield list(p),2,2
    rng=random.Random(5); k=0
    while k<30:
        nt,ns=rng.choice(((3,5),(5,3),(4,4))); done=[]; p=[]
        for _ in range(rng.randrange(4,14)):
            t=rng.randrange(nt); c=[d for d in done if d!=t]; typ=0 if c and rng.random()<.5 else 1
            p.append((t,rng.randrange(ns) if typ else rng.choice(c),typ)); done.append(t)
        k+=1; yield p[::-1],nt,ns
def obligations(ctx):
    obs=[]
    for k,(F,G,H,da,db) in enumerate(family()):
        s=f'map {k} ({len(F)} products, {da} by {db} to {len(H)})'
        for fn,c in(('_mzd_ptr_apply_blm_mzd',0),('_mzd_ptr_apply_blm_djb',1),('_mzd_ptr_apply_blm',0),('_mzd_ptr_apply_blm',1)): obs.append(Ob('apply',f'{fn} {s} {"compiled" if c else ""}',apply_ptr,(fn,F,G,H,da,db,c),(fn,)))
        obs.append(Ob('compile',s,compile_map,(F,G,H,da,db),('_blm_djb_compile',)))
    import random
    rng=random.Random(3)
    for e in range(2,17):
        r=e+2; g=lambda n: [rng.getrandbits(n) for _ in range(r)]
        F,G,H=g(e),g(e),[rng.getrandbits(r)|1 for _ in range(e)]
        for c in(0,1):
            for fn,tg,acc in(('mzd_slice_mul_blm',0,0),('mzd_slice_mul_blm',1,0),('mzd_slice_addmul_blm',1,1)): obs.append(Ob('apply',f'{fn} degree {e} {"compiled " if c else ""}{"target" if tg else "new"}',apply_slice,(fn,e,F,G,H,c,tg,acc),(fn,)))
    for k,(p,nt,ns) in enumerate(programs()): obs.append(Ob('straight line program',f'{k}: '+(' '.join(f'W{t}+={"V" if y else "W"}{s_}' for t,s_,y in reversed(p)) or 'empty'),run_program,(p,nt,ns),('djb_apply_mzd_ptr',)))
    for c in(0,1,2): obs.append(Ob('release',f'map {("without compiled maps","compiled","compiled, F=G")[c]}',free_map,(c,),('blm_free',)))
    return obs
