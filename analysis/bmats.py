"""Block matrix content domain.  A storage is a matrix with symbolic dimensions whose content is kept as a grid of rectangles (symbolic
cut positions, ordered by proof), every rectangle holding a polynomial over non-commuting rectangle atoms  NAME[r0:r1,c0:c1].
Windows are views (storage, row offset, column offset).  Used for code that handles matrices through windows, sums and products."""
from model import *
CELL=((),ZL)
class Atm:
    """rectangle of a named matrix; name may be a string or ('inv',Atm)"""
    __slots__=('n','r0','r1','c0','c1','h')
    def __init__(s,n,r0,r1,c0,c1): s.n=n; s.r0=r0; s.r1=r1; s.c0=c0; s.c1=c1; s.h=hash((n,r0,r1,c0,c1))
    def __hash__(s): return s.h
    def key(s): return (s.n,s.r0,s.r1,s.c0,s.c1)
    def __eq__(s,o): return isinstance(o,Atm) and s.h==o.h and s.key()==o.key()
    def rows(s,a,b): return Atm(s.n,s.r0+a,s.r0+b,s.c0,s.c1)
    def cols(s,a,b): return Atm(s.n,s.r0,s.r1,s.c0+a,s.c0+b)
    def map(s,f): return Atm(s.n if isinstance(s.n,str) else ('inv',s.n[1].map(f))+s.n[2:],f(s.r0),f(s.r1),f(s.c0),f(s.c1))
    def __repr__(s): return f'{s.n if isinstance(s.n,str) else "inv(%r)"%(s.n[1],)}[{s.r0}:{s.r1},{s.c0}:{s.c1}]'
# a polynomial is a frozenset of monomials (tuples of Atm); () would be the identity and is not used
PZ=frozenset()
def padd_(p,q): return p^q
def pmul_(p,q):
    r=set()
    for x in p:
        for y in q: r^={x+y}
    return frozenset(r)
def prows(p,a,b): return frozenset_x((m[0].rows(a,b),)+m[1:] for m in p)
def pcols(p,a,b): return frozenset_x(m[:-1]+(m[-1].cols(a,b),) for m in p)
def frozenset_x(it):
    r=set()
    for m in it: r^={m}
    return frozenset(r)
def pshow(p,lim=4):
    l=sorted(map(lambda m:'*'.join(map(repr,m)),p))
    return ' + '.join(l[:lim])+(' + ... (%d terms)'%len(l) if len(l)>lim else '') or '0'
class Grid:
    __slots__=('rc','cc','v')
    def __init__(s,rc,cc,v): s.rc=tuple(rc); s.cc=tuple(cc); s.v=v     # v[i][j]
    def __eq__(s,o): return isinstance(o,Grid) and s.rc==o.rc and s.cc==o.cc and s.v==o.v
    def __ne__(s,o): return not s==o
    def __hash__(s): return hash((s.rc,s.cc))
    def sub(s,m): return s
class Order:
    """ordering of cut positions under the facts of a state"""
    def __init__(s,f): s.f=f
    def eq(s,a,b):
        d=s.f.norm(a-b); return d.isc() and d.c==0 or (not d.isc() and s.f.eq0(d))
    def le(s,a,b): return s.f.ge0(b-a)
def insert(o,cuts,x,what):
    """index of cut x in the sorted list, inserting it when new: (index, new list, inserted at or None)"""
    for i,c in enumerate(cuts):
        if o.eq(c,x): return i,cuts,None
    for i in range(len(cuts)-1):
        if o.le(cuts[i],x) and o.le(x,cuts[i+1]): return i+1,cuts[:i+1]+(x,)+cuts[i+1:],i
    raise Undecided(f'position {x} not ordered against {list(cuts)} ({what})')
def grid_cut(o,g,rows=(),cols=(),what=''):
    for x in rows:
        i,rc,at=insert(o,g.rc,x,what)
        if at is not None:
            a,b=g.rc[at],g.rc[at+1]
            top=tuple(prows(p,ZL,x-a) for p in g.v[at]); bot=tuple(prows(p,x-a,b-a) for p in g.v[at])
            g=Grid(rc,g.cc,g.v[:at]+(top,bot)+g.v[at+1:])
    for x in cols:
        i,cc,at=insert(o,g.cc,x,what)
        if at is not None:
            a,b=g.cc[at],g.cc[at+1]
            g=Grid(g.rc,cc,tuple(r[:at]+(pcols(r[at],ZL,x-a),pcols(r[at],x-a,b-a))+r[at+1:] for r in g.v))
    return g
def idx(o,cuts,x):
    for i,c in enumerate(cuts):
        if o.eq(c,x): return i
    raise Undecided('cut lost')
def canon_poly(st,p,reps=None):
    """coordinates equal under the facts get one representative; products over an empty range vanish"""
    f=st.facts; o=Order(f); reps={} if reps is None else reps
    def rep(x):
        x=f.norm(x)
        for y in reps.setdefault('l',[]):
            if o.eq(x,y): return y
        reps['l'].append(x); return x
    r=set()
    for m in p:
        m=tuple(a.map(rep) for a in m)
        if any(o.eq(m[i].c0,m[i].c1) for i in range(len(m)-1)): continue
        if tri_zero(o,m): continue
        r^={m}
    return frozenset(r)
TRI={}     # matrix name -> 'lower'|'upper': entries on the other side of the diagonal are zero
def tri_zero(o,m):
    for a in m:
        t=TRI.get(a.n)
        if t=='lower' and o.le(a.r1,a.c0): return True
        if t=='upper' and o.le(a.c1,a.r0): return True
    return False
def simplify(st,p,reps):
    """T * inv(T) = identity"""
    o=Order(st.facts); ch=True
    while ch:
        ch=False; r=set()
        for m in p:
            for i in range(len(m)-1):
                x,y=m[i],m[i+1]
                if isinstance(y.n,tuple) and y.n[0]=='inv' and y.n[1]==x and o.eq(y.c1-y.c0,x.r1-x.r0) and len(m)>2:
                    m=m[:i]+m[i+2:]; ch=True; break
                if isinstance(x.n,tuple) and x.n[0]=='inv' and x.n[1]==y and len(m)>2:
                    m=m[:i]+m[i+2:]; ch=True; break
            r^={m}
        p=frozenset(r)
    return p
def refine(st,p,reps):
    """split products at the cut positions that occur anywhere for the same matrix"""
    o=Order(st.facts)
    for _ in range(6):
        rows={}; cols={}
        for m in p:
            for a in m:
                rows.setdefault(a.n,[]); cols.setdefault(a.n,[])
                for x in(a.r0,a.r1):
                    if x not in rows[a.n]: rows[a.n].append(x)
                for x in(a.c0,a.c1):
                    if x not in cols[a.n]: cols[a.n].append(x)
        out=set(); ch=False
        for m in p:
            done=False
            for i in range(len(m)-1):
                x,y=m[i],m[i+1]
                cand=[c-x.c0 for c in cols[x.n]]+[r-y.r0 for r in rows[y.n]]
                w=x.c1-x.c0
                for d in cand:
                    d=st.facts.norm(d)
                    if o.eq(d,ZL) or o.eq(d,w): continue
                    if o.le(ZL,d) and o.le(d,w):
                        for a,b in((ZL,d),(d,w)): out^={m[:i]+(x.cols(a,b),y.rows(a,b))+m[i+2:]}
                        done=True; break
                if done: break
            if not done: out^={m}
            else: ch=True
        p=canon_poly(st,frozenset(out),reps)
        if not ch: break
    return p
def zero_poly(st,p):
    """True / False(definitely different) / None, residue"""
    reps={}
    p=canon_poly(st,p,reps); p=simplify(st,p,reps)
    if not p: return True,p
    p=refine(st,p,reps); p=simplify(st,p,reps); p=canon_poly(st,p,reps)
    if not p: return True,p
    # definite only when all positions of a matrix are totally ordered
    o=Order(st.facts)
    byname={}
    for m in p:
        for a in m:
            byname.setdefault((a.n,'r'),set()).update((a.r0,a.r1)); byname.setdefault((a.n,'c'),set()).update((a.c0,a.c1))
    for k,s_ in byname.items():
        l=list(s_)
        for i in range(len(l)):
            for j in range(i):
                if not(o.le(l[i],l[j]) or o.le(l[j],l[i])): return None,p
    # all dimensions can be positive at the same time
    f=st.facts
    for m in p:
        for a in m: f=f.add_ge(a.r1-a.r0-1).add_ge(a.c1-a.c0-1)
        break
    if f.infeasible(): return None,p
    return False,p
# ---------------------------------------------------------------- objects
def mk_store(I,st,name,rows,cols,content='atom'):
    def init(I,st,o,addr,ty):
        if addr!=CELL: return None
        p=frozenset([(Atm(name,ZL,rows,ZL,cols),)]) if content=='atom' else PZ
        return Grid((ZL,rows),(ZL,cols),((p,),))
    return I.new(st,name+'.data','bmat',init,nm=name,rows=rows,cols=cols)
def unit(I): return getattr(I,'bm_u',1)
def exdiv(x,u,ins,I):
    if u==1: return x
    if any(v%u for _,v in x.t) or x.c%u: raise Undecided(f'column position {x} is not a multiple of the entry width at {I.where(ins)}')
    return Lin(tuple((k,v//u) for k,v in x.t),x.c//u)
def mk_bmzd(I,st,lay,name,rows,bits,data,r0=ZL,c0=ZL,ins=None,window=False):
    """a matrix header over a storage (rows, bits: dimensions of the view)"""
    p=mk_mzd(I,st,lay,name,rows,bits,data=data)
    I.objs[p.obj].info.update(bm=True,vr0=r0,vc0=c0,vrows=rows,vcols=exdiv(bits,unit(I),ins,I),window=window)
    return p
class View:
    __slots__=('d','r0','r1','c0','c1')
    def __init__(s,d,r0,r1,c0,c1): s.d=d; s.r0=r0; s.r1=r1; s.c0=c0; s.c1=c1
    @property
    def nr(s): return s.r1-s.r0
    @property
    def nc(s): return s.c1-s.c0
def view(I,st,p,ins=None):
    if not isinstance(p,Ptr) or p.obj==0: raise null_use(p,st,'unresolved matrix at '+I.where(ins))
    o=I.objs[p.obj]
    I.check_alive(st,p,ins,'use')
    if o.kind in('mzed',) or o.info.get('heap')=='mem' or o.kind=='malloc':
        x=I.load(st,p.at(I.lay('mzed_t','x')),PTR); return view(I,st,x,ins)
    if not o.info.get('bm'): raise Undecided('matrix without block content at '+I.where(ins))
    i=o.info; n=st.facts.norm
    return View(i['data'],n(i['vr0']),n(i['vr0']+i['vrows']),n(i['vc0']),n(i['vc0']+i['vcols']))
def grid(I,st,d):
    g=I.get(st,d,CELL,8,I64)
    if not isinstance(g,Grid): raise Undecided('matrix content lost')
    return g
def region(I,st,v,rows=(),cols=(),what=''):
    """the view as (row cuts, column cuts, values) relative to its origin"""
    o=Order(st.facts); g=grid_cut(o,grid(I,st,v.d),(v.r0,v.r1)+tuple(rows),(v.c0,v.c1)+tuple(cols),what)
    i0,i1=idx(o,g.rc,v.r0),idx(o,g.rc,v.r1); j0,j1=idx(o,g.cc,v.c0),idx(o,g.cc,v.c1)
    n=st.facts.norm
    return Grid([n(x-v.r0) for x in g.rc[i0:i1+1]],[n(x-v.c0) for x in g.cc[j0:j1+1]],tuple(r[j0:j1] for r in g.v[i0:i1]))
def write(I,st,v,h,ins=None,acc=False):
    """replace (or add to) the view by grid h (relative coordinates)"""
    o=Order(st.facts); rows=[v.r0+x for x in h.rc]; cols=[v.c0+x for x in h.cc]
    if I.on_mat: I.on_mat(I,st,v,ins)
    g=grid_cut(o,grid(I,st,v.d),rows,cols,'store at '+I.where(ins))
    # h may be coarser than g inside the view
    i0,i1=idx(o,g.rc,v.r0),idx(o,g.rc,v.r1); j0,j1=idx(o,g.cc,v.c0),idx(o,g.cc,v.c1)
    n=st.facts.norm
    h=grid_cut(o,h,[n(x-v.r0) for x in g.rc[i0:i1+1]],[n(x-v.c0) for x in g.cc[j0:j1+1]],'store at '+I.where(ins))
    out=[list(r) for r in g.v]
    for i in range(i0,i1):
        for j in range(j0,j1):
            val=h.v[i-i0][j-j0]
            out[i][j]=canon_poly(st,padd_(out[i][j],val) if acc else val)
    I.put(st,v.d,CELL,8,Grid(g.rc,g.cc,tuple(map(tuple,out))))
def caller(I,ins): return I.where(ins)+' in '+' < '.join(reversed(I.stack[-3:]))
def same_dim(I,st,a,b,ins,what):
    d=st.facts.norm(a-b)
    if d.isc() and d.c==0 or st.facts.eq0(d): return True
    w=find(st,[d],lambda v:v[0]!=0)
    if w is not None:
        I.bmviol.append((I.where(ins),'dimensions',f'{what}: {a} and {b} differ, for example with {w or "any parameters"}')); raise Undecided(f'{what}: {a} and {b} differ at {I.where(ins)}')
    raise Undecided(f'{what}: {a} and {b} not shown equal at {I.where(ins)}')
def g_add(st,x,y):
    o=Order(st.facts)
    x=grid_cut(o,x,y.rc,y.cc,'sum'); y=grid_cut(o,y,x.rc,x.cc,'sum')
    return Grid(x.rc,x.cc,tuple(tuple(padd_(p,q) for p,q in zip(r,t)) for r,t in zip(x.v,y.v)))
def g_mul(st,x,y):
    o=Order(st.facts)
    x=grid_cut(o,x,(),y.rc,'product'); y=grid_cut(o,y,x.cc,(),'product')
    n=len(x.cc)-1
    v=[]
    for i in range(len(x.rc)-1):
        r=[]
        for j in range(len(y.cc)-1):
            p=PZ
            for k in range(n): p=padd_(p,pmul_(x.v[i][k],y.v[k][j]))
            r.append(canon_poly(st,p))
        v.append(tuple(r))
    return Grid(x.rc,y.cc,tuple(v))
def disjoint(st,u,v):
    if u.d!=v.d: return True
    o=Order(st.facts)
    return o.le(u.r1,v.r0) or o.le(v.r1,u.r0) or o.le(u.c1,v.c0) or o.le(v.c1,u.c0) or o.eq(u.r0,u.r1) or o.eq(u.c0,u.c1)
def nonempty(st,v):
    return not(Order(st.facts).eq(v.r0,v.r1) or Order(st.facts).eq(v.c0,v.c1))
def do_product(I,st,C,A,B,acc,ins,what):
    c,a,b=view(I,st,C,ins),view(I,st,A,ins),view(I,st,B,ins)
    same_dim(I,st,a.nc,b.nr,ins,what+': inner dimensions'); same_dim(I,st,c.nr,a.nr,ins,what+': rows of the result'); same_dim(I,st,c.nc,b.nc,ins,what+': columns of the result')
    for x in(a,b):
        if not disjoint(st,c,x):
            I.bmviol.append((I.where(ins),'aliasing',f'{what}: the target overlaps a factor')) if x.d==c.d and Order(st.facts).eq(x.r0,c.r0) and Order(st.facts).eq(x.c0,c.c0) else None
            raise Undecided(f'{what}: the target may overlap a factor at {I.where(ins)}')
    write(I,st,c,g_mul(st,region(I,st,a),region(I,st,b)),ins,acc)
def bm_prims(lay):
    """m4ri level primitives"""
    def p_init(I,st,args,ins,name):
        r,c=(st.facts.norm(I.to_lin(x)) for x in args)
        nm=f'new{I.nobj}@{I.where(ins)}'
        d=mk_store(I,st,nm,r,exdiv(c,unit(I),ins,I),'zero')
        p=mk_bmzd(I,st,lay,nm,r,c,d,ins=ins); I.objs[p.obj].info['fresh']=True
        return [(heap(I,st,p,'mzd'),st)]
    def p_window(I,st,args,ins,name):
        M=args[0]; r0,c0,r1,c1=(st.facts.norm(I.to_lin(x)) for x in args[1:5])
        v=view(I,st,M,ins); u=unit(I); f=st.facts
        if u>1 or getattr(I,'bm_align',False):
            k=st.facts.norm(c0*(1 if u>1 else 1))
            if not f.eq0(k-div_term(k,64)*64):
                x=find(st,[k,c1-c0,r1-r0],lambda v:v[0]%64!=0 and v[1]>0 and v[2]>0)
                if x is not None: I.bmviol.append((caller(I,ins),'alignment',f'the window starts at bit column {k}, which is not a multiple of 64, for example with {x}'))
                raise Undecided(f'window at bit column {k}, not shown to be a multiple of 64, at {I.where(ins)}')
        e0,e1=exdiv(c0,u,ins,I),exdiv(c1,u,ins,I)
        for a,b,w in((ZL,r0,'first row'),(r0,r1,'rows'),(r1,v.nr,'last row'),(ZL,e0,'first column'),(e0,e1,'columns'),(e1,v.nc,'last column')):
            if not f.ge0(b-a):
                x=find(st,[b-a],lambda v:v[0]<0)
                if x is not None: I.bmviol.append((caller(I,ins),'window range',f'{w} of the window: {b} < {a}, for example with {x}'))
                raise Undecided(f'window range at {I.where(ins)}: {a} <= {b} not shown')
        p=mk_bmzd(I,st,lay,f'win{I.nobj}@{I.where(ins)}',f.norm(r1-r0),f.norm(c1-c0),Ptr(v.d,(),ZL),v.r0+r0,v.c0+e0,ins,window=True)
        return [(heap(I,st,p,'window'),st)]
    def p_add(I,st,args,ins,name):
        C,A,B=args; a,b=view(I,st,A,ins),view(I,st,B,ins)
        same_dim(I,st,a.nr,b.nr,ins,'sum: rows'); same_dim(I,st,a.nc,b.nc,ins,'sum: columns')
        x=g_add(st,region(I,st,a),region(I,st,b))
        if C==NULL:
            (C,st),=p_init(I,st,[a.nr,a.nc*unit(I)],ins,name)
        c=view(I,st,C,ins); same_dim(I,st,c.nr,a.nr,ins,'sum: rows of the result'); same_dim(I,st,c.nc,a.nc,ins,'sum: columns of the result')
        for y in(a,b):
            if c.d==y.d and not disjoint(st,c,y) and not(Order(st.facts).eq(c.r0,y.r0) and Order(st.facts).eq(c.c0,y.c0)): raise Undecided('overlapping sum at '+I.where(ins))
        write(I,st,c,x,ins); return [(C,st)]
    def p_copy(I,st,args,ins,name):
        C,A=args; a=view(I,st,A,ins)
        if C==NULL: (C,st),=p_init(I,st,[a.nr,a.nc*unit(I)],ins,name)
        if C==A: return [(C,st)]
        c=view(I,st,C,ins)
        for x,y,w in((c.nr,a.nr,'rows'),(c.nc,a.nc,'columns')):
            if not Order(st.facts).eq(x,y):
                raise Undecided(f'copy between different sizes ({w}: {x}, {y}) at {I.where(ins)}')
        write(I,st,c,region(I,st,a),ins); return [(C,st)]
    def p_set(I,st,args,ins,name):
        v=args[1]
        if not(isinstance(v,Lin) and v.isc() and v.c&1==0): raise Undecided('identity block at '+I.where(ins))
        c=view(I,st,args[0],ins)
        write(I,st,c,Grid((ZL,c.nr),(ZL,c.nc),((PZ,),)),ins); return [(UNDEF,st)]
    def p_sub(I,st,args,ins,name):
        S_,M=args[:2]; r0,c0,r1,c1=(st.facts.norm(I.to_lin(x)) for x in args[2:6]); v=view(I,st,M,ins); u=unit(I)
        e0,e1=exdiv(c0,u,ins,I),exdiv(c1,u,ins,I)
        for a,b in((ZL,r0),(r0,r1),(r1,v.nr),(ZL,e0),(e0,e1),(e1,v.nc)):
            if not st.facts.ge0(b-a): raise Undecided(f'range of the submatrix at {I.where(ins)}: {a} <= {b} not shown')
        if S_==NULL: (S_,st),=p_init(I,st,[r1-r0,c1-c0],ins,name)
        s_=view(I,st,S_,ins); same_dim(I,st,s_.nr,r1-r0,ins,'submatrix: rows'); same_dim(I,st,s_.nc,e1-e0,ins,'submatrix: columns')
        write(I,st,s_,region(I,st,View(v.d,v.r0+r0,v.r0+r1,v.c0+e0,v.c0+e1)),ins); return [(S_,st)]
    def p_join(side):
        def f(I,st,args,ins,name):
            C,A,B=args; a,b=view(I,st,A,ins),view(I,st,B,ins)
            if side: same_dim(I,st,a.nr,b.nr,ins,'concatenation: rows'); nr,nc=a.nr,a.nc+b.nc
            else: same_dim(I,st,a.nc,b.nc,ins,'stack: columns'); nr,nc=a.nr+b.nr,a.nc
            if C==NULL: (C,st),=p_init(I,st,[nr,nc*unit(I)],ins,name)
            c=view(I,st,C,ins); same_dim(I,st,c.nr,nr,ins,'joined matrix: rows'); same_dim(I,st,c.nc,nc,ins,'joined matrix: columns')
            ga,gb=region(I,st,a),region(I,st,b)
            if side: w1,w2=View(c.d,c.r0,c.r1,c.c0,c.c0+a.nc),View(c.d,c.r0,c.r1,c.c0+a.nc,c.c1)
            else: w1,w2=View(c.d,c.r0,c.r0+a.nr,c.c0,c.c1),View(c.d,c.r0+a.nr,c.r1,c.c0,c.c1)
            write(I,st,w1,ga,ins); write(I,st,w2,gb,ins); return [(C,st)]
        return f
    d={'mzd_init':p_init,'mzd_init_window':p_window,'mzd_add':p_add,'_mzd_add':p_add,'mzd_sub':p_add,'_mzd_sub':p_add,'mzd_copy':p_copy,'mzd_set_ui':p_set,
       'mzd_submatrix':p_sub,'mzd_concat':p_join(1),'mzd_stack':p_join(0),
       'mzd_free':prim_mzd_free,'mzd_free_window':prim_mzd_free,
       'm4ri_mm_malloc':prim_malloc,'m4ri_mm_calloc':prim_calloc,'m4ri_mm_malloc_aligned':prim_malloc,'m4ri_mm_free':prim_free,'malloc':prim_malloc,'calloc':prim_calloc,'free':prim_free}
    return d
def contract(acc,what):
    def f(I,st,args,ins,name):
        do_product(I,st,args[0],args[1],args[2],acc,ins,f'{what} {name}'); return [(args[0],st)]
    return f
def alloc_contract(acc,what,lay):
    """public product: allocates the target when it is missing, clears or accumulates otherwise"""
    def f(I,st,args,ins,name):
        C,A,B=args[:3]
        if C==NULL:
            a,b=view(I,st,A,ins),view(I,st,B,ins)
            ff=I.load(st,A.at(lay('mzed_t','finite_field')),PTR)
            (C,st),=I.run('mzed_init',[ff,a.nr,b.nc],st)
            do_product(I,st,C,A,B,False,ins,f'{what} {name}')
        else: do_product(I,st,C,A,B,acc,ins,f'{what} {name}')
        return [(C,st)]
    return f
def mk_bmzed(I,st,lay,name,ff,e,w,nr,nc,content='atom'):
    d=mk_store(I,st,name,nr,nc,content)
    x=mk_bmzd(I,st,lay,name+'.x',nr,nc*w,d)
    return mk_mzed(I,st,lay,name,ff,e,w,nr,nc,x=x)
def check_grid(I,st,v,expect,fn,res,rule,what,Violation):
    """every rectangle of the view equals expect(r0,r1,c0,c1) (relative coordinates)"""
    g=region(I,st,v)
    for i in range(len(g.rc)-1):
        for j in range(len(g.cc)-1):
            r0,r1,c0,c1=g.rc[i],g.rc[i+1],g.cc[j],g.cc[j+1]
            o=Order(st.facts)
            if o.eq(r0,r1) or o.eq(c0,c1): continue
            d=padd_(g.v[i][j],expect(r0,r1,c0,c1))
            z,res_=zero_poly(st,d); res.n+=1
            if z is True: continue
            s2=st.fork(); s2.facts=st.facts.add_ge(r1-r0-1).add_ge(c1-c0-1)
            if s2.facts.infeasible(): continue
            w=differs(s2,res_)
            txt=f'{what}: rows {r0}..{r1}, columns {c0}..{c1}: the result differs from the expected value by {pshow(res_)}'
            if w is not None: res.viol.append(Violation(fn,rule,txt,w))
            else: res.und.append(txt[:280])
def prim_abs(I,st,args,ins,name):
    x=st.facts.norm(I.to_lin(args[0])); v=S(('abs',x)) if not x.isc() else L(abs(x.c)); st.facts=st.facts.add_ge(v); return [(v,st)]
def prim_sqrt(I,st,args,ins,name):
    c=fconst(I.to_lin(args[0]))
    return [(S(('float',c**.5)) if c is not None and c>=0 else S(('sqrt',I.to_lin(args[0]))),st)]
BASE.update({'sqrt':prim_sqrt,'abs':prim_abs,'labs':prim_abs})

# ---------------------------------------------------------------- concrete witnesses
import random
def ev_sym(k,m,sub):
    if k in m: return m[k]
    if k in sub:
        r=ev_lin(sub[k],m,sub); m[k]=r; return r
    key=Sym.keys[k]; r=None
    if isinstance(key,tuple):
        h=key[0]
        if h=='div': x=ev_lin(key[1],m,sub); r=None if x is None else x//key[2]
        elif h=='abs': x=ev_lin(key[1],m,sub); r=None if x is None else abs(x)
        elif h in('nnor','min','mul') and len(key)==3:
            x,y=ev_lin(key[1],m,sub),ev_lin(key[2],m,sub)
            if x is not None and y is not None: r=x|y if h=='nnor' else min(x,y) if h=='min' else x*y
    m[k]=r; return r
def ev_lin(e,m,sub):
    r=e.c
    for k,v in e.t:
        x=ev_sym(k,m,sub)
        if x is None: return None
        r+=v*x
    return r
CANDS=[0,1,2,3,4,5,7,8,9,15,16,17,31,32,33,48,63,64,65,66,96,100,127,128,129,130,160,191,192,193,200,255,256,257,300,320,511,512,513,600,1000,1024,1500,2048,2049]
KCLEAN=set()
def models(facts,extra,tries=6000,want=40,seed=1):
    """assignments of the free parameters that satisfy the facts"""
    syms=set()
    for g in list(facts.ge)+list(facts.ne)+[v for v in facts.sub.values()]+list(extra): syms|=set(deep_syms(g))
    free=[k for k in sorted(syms) if k not in facts.sub and (not isinstance(Sym.keys[k],tuple) or k in KCLEAN)]
    rnd=random.Random(seed); n=0
    for _ in range(tries):
        m={}
        for k in free: m[k]=rnd.choice(CANDS)
        # some parameters coincide
        if len(free)>1 and rnd.random()<.3: a,b=rnd.sample(free,2); m[a]=m[b]
        base=dict(m); ok=True
        for g in facts.ge:
            x=ev_lin(g,m,facts.sub)
            if x is None or x<0: ok=False; break
        if ok:
            for g in facts.ne:
                x=ev_lin(g,m,facts.sub)
                if x is None or x==0: ok=False; break
        if ok: yield base,m; n+=1
        if n>=want: return
def named(base): return ', '.join(f'{Sym.keys[k]}={v}' for k,v in sorted(base.items(),key=lambda t:str(Sym.keys[t[0]])))
def find(st,exprs,pred,**kw):
    """concrete parameters with pred(values of exprs); text or None"""
    for base,m in models(st.facts,exprs,**kw):
        vals=[ev_lin(st.facts.norm(e),m,st.facts.sub) for e in exprs]
        if None in vals: continue
        if pred(vals): return named(base)
    return None
def differs(st,p,r0=ZL,r1=None,c0=ZL,c1=None):
    """concrete parameters for which polynomial p (valid on a nonempty rectangle) is not zero; text or None"""
    ex=[]
    ats=set()
    for mo in p:
        for a in mo: ats.add(a)
    ats=sorted(ats,key=repr)
    for a in ats:
        ex+=[a.r0,a.r1,a.c0,a.c1]
        if isinstance(a.n,tuple): ex+=[a.n[1].r0,a.n[1].r1,a.n[1].c0,a.n[1].c1]
    for base,m in models(st.facts,ex):
        val={}; bad=False
        for a in ats:
            t=[ev_lin(st.facts.norm(x),m,st.facts.sub) for x in(a.r0,a.r1,a.c0,a.c1)]
            if None in t: bad=True; break
            nm=a.n
            if isinstance(nm,tuple):
                q=[ev_lin(st.facts.norm(x),m,st.facts.sub) for x in(nm[1].r0,nm[1].r1,nm[1].c0,nm[1].c1)]
                if None in q: bad=True; break
                nm=('inv',nm[1].n)+tuple(q)
            val[a]=(nm,)+tuple(t)
        if bad: return None
        if nonzero_at(frozenset_x(tuple(val[a] for a in mo) for mo in p)): return named(base)
    return None
def nonzero_at(p):
    def empty(m): return any(a[1]>=a[2] or a[3]>=a[4] for a in m)
    def tz(m): return any((TRI.get(a[0])=='lower' and a[2]<=a[3]) or (TRI.get(a[0])=='upper' and a[4]<=a[1]) for a in m)
    p=frozenset_x(m for m in p if not empty(m))
    def cancel(m):
        for i in range(len(m)-1):
            x,y=m[i],m[i+1]
            if isinstance(y[0],tuple) and y[0][1:]==x and y[1]==0 and y[2]==x[2]-x[1]:
                return None if len(m)==2 else cancel(m[:i]+m[i+2:])
        return m
    q=[cancel(m) for m in p]
    if None in q: return False
    p=frozenset_x(q)
    cols={};rows={}
    for m in p:
        for a in m: rows.setdefault(a[0],set()).update(a[1:3]); cols.setdefault(a[0],set()).update(a[3:5])
    for _ in range(4):
        out=set()
        for m in p:
            parts=[m]
            for i in range(len(m)-1):
                np=[]
                for q in parts:
                    x,y=q[i],q[i+1]
                    cuts=sorted({c-x[3] for c in cols[x[0]] if x[3]<c<x[4]}|{r-y[1] for r in rows[y[0]] if y[1]<r<y[2]})
                    pts=[0]+cuts+[x[4]-x[3]]
                    for a,b in zip(pts,pts[1:]):
                        np.append(q[:i]+((x[0],x[1],x[2],x[3]+a,x[3]+b),(y[0],y[1]+a,y[1]+b,y[3],y[4]))+q[i+2:])
                parts=np
            for q in parts: out^={q}
        out=frozenset(m for m in out if not tz(m))
        if out==p: break
        p=out
        for m in p:
            for a in m: rows.setdefault(a[0],set()).update(a[1:3]); cols.setdefault(a[0],set()).update(a[3:5])
    return bool(p)
# ---------------------------------------------------------------- bitsliced matrices as a whole
def slice_prims(lay):
    """conversion (property C02) and bitsliced multiplication (property C03) by contract: a bitsliced matrix is one block matrix"""
    def view_s(I,st,p,ins):
        if not isinstance(p,Ptr) or p.obj==0 or 'bms' not in I.objs[p.obj].info: raise null_use(p,st,'unresolved bitsliced matrix at '+I.where(ins))
        I.check_alive(st,p,ins,'use'); return view(I,st,I.objs[p.obj].info['bms'],ins)
    def new(I,st,ff,r,c,ins):
        nm=f'slice{I.nobj}@{I.where(ins)}'
        d=mk_store(I,st,nm,r,c,'zero'); x=mk_bmzd(I,st,lay,nm,r,c*unit(I),d,ins=ins)
        p=I.new(st,nm,'bslice',None); I.objs[p.obj].info.update(bms=x,ff=ff)
        setf(I,st,p,lay,'mzd_slice_t','finite_field',ff,8); setf(I,st,p,lay,'mzd_slice_t','nrows',r,4); setf(I,st,p,lay,'mzd_slice_t','ncols',c,4)
        o=I.objs[ff.obj] if isinstance(ff,Ptr) else None
        if o and 'degree' in o.info: setf(I,st,p,lay,'mzd_slice_t','depth',L(o.info['degree']),4)
        return heap(I,st,p,'slice')
    def s_init(I,st,args,ins,name):
        r,c=(st.facts.norm(I.to_lin(x)) for x in args[1:3]); return [(new(I,st,args[0],r,c,ins),st)]
    def to_slice(I,st,args,ins,name):
        A,Z=args; z=view(I,st,Z,ins)
        if A==NULL: A=new(I,st,I.load(st,Z.at(lay('mzed_t','finite_field')),PTR),z.nr,z.nc,ins)
        a=view_s(I,st,A,ins); same_dim(I,st,a.nr,z.nr,ins,'conversion: rows'); same_dim(I,st,a.nc,z.nc,ins,'conversion: columns')
        write(I,st,a,region(I,st,z),ins); return [(A,st)]
    def to_packed(I,st,args,ins,name):
        A,Z=args; z=view_s(I,st,Z,ins)
        if A==NULL: (A,st),=I.run('mzed_init',[I.load(st,Z.at(lay('mzd_slice_t','finite_field')),PTR),z.nr,z.nc],st)
        a=view(I,st,A,ins); same_dim(I,st,a.nr,z.nr,ins,'conversion: rows'); same_dim(I,st,a.nc,z.nc,ins,'conversion: columns')
        write(I,st,a,region(I,st,z),ins); return [(A,st)]
    def wrap(I,st,x,ff,v,kind):
        p=I.new(st,f'slice{I.nobj}','bslice',None); I.objs[p.obj].info.update(bms=x,ff=ff)
        setf(I,st,p,lay,'mzd_slice_t','finite_field',ff,8); setf(I,st,p,lay,'mzd_slice_t','nrows',st.facts.norm(v.nr),4); setf(I,st,p,lay,'mzd_slice_t','ncols',st.facts.norm(v.nc),4)
        o=I.objs[ff.obj] if isinstance(ff,Ptr) else None
        if o and 'degree' in o.info: setf(I,st,p,lay,'mzd_slice_t','depth',L(o.info['degree']),4)
        return heap(I,st,p,kind)
    bm=bm_prims(lay)
    def s_window(I,st,args,ins,name):
        A=args[0]; view_s(I,st,A,ins); u=unit(I)
        r0,c0,r1,c1=(st.facts.norm(I.to_lin(x)) for x in args[1:5])
        (x,st),=bm['mzd_init_window'](I,st,[I.objs[A.obj].info['bms'],r0,c0*u,r1,c1*u],ins,name)
        return [(wrap(I,st,x,I.objs[A.obj].info['ff'],view(I,st,x),'slice window'),st)]
    def s_sub(I,st,args,ins,name):
        T,A=args[:2]; view_s(I,st,A,ins); u=unit(I)
        if T!=NULL: view_s(I,st,T,ins)
        r0,c0,r1,c1=(st.facts.norm(I.to_lin(x)) for x in args[2:6])
        (x,st),=bm['mzd_submatrix'](I,st,[NULL if T==NULL else I.objs[T.obj].info['bms'],I.objs[A.obj].info['bms'],r0,c0*u,r1,c1*u],ins,name)
        return [(T if T!=NULL else wrap(I,st,x,I.objs[A.obj].info['ff'],view(I,st,x),'slice'),st)]
    def s_copy(I,st,args,ins,name):
        T,A=args; view_s(I,st,A,ins)
        if T!=NULL: view_s(I,st,T,ins)
        (x,st),=bm['mzd_copy'](I,st,[NULL if T==NULL else I.objs[T.obj].info['bms'],I.objs[A.obj].info['bms']],ins,name)
        return [(T if T!=NULL else wrap(I,st,x,I.objs[A.obj].info['ff'],view(I,st,x),'slice'),st)]
    def s_set(I,st,args,ins,name):
        view_s(I,st,args[0],ins); return bm['mzd_set_ui'](I,st,[I.objs[args[0].obj].info['bms'],args[1]],ins,name)
    def s_freew(I,st,args,ins,name):
        do_free(I,st,args[0],ins,'slice window')
        return bm['mzd_free_window'](I,st,[I.objs[args[0].obj].info['bms']],ins,name) if isinstance(args[0],Ptr) and args[0].obj and 'bms' in I.objs[args[0].obj].info else [(UNDEF,st)]
    def s_mul(acc,checked):
        def f(I,st,args,ins,name):
            C,A,B=args[:3]; a,b=view_s(I,st,A,ins),view_s(I,st,B,ins)
            same_dim(I,st,a.nc,b.nr,ins,'product: inner dimensions')
            if C==NULL: C=new(I,st,I.load(st,A.at(lay('mzd_slice_t','finite_field')),PTR),a.nr,b.nc,ins)
            c=view_s(I,st,C,ins); same_dim(I,st,c.nr,a.nr,ins,'product: rows'); same_dim(I,st,c.nc,b.nc,ins,'product: columns')
            for x in(a,b):
                if not disjoint(st,c,x): raise Undecided('aliased bitsliced product at '+I.where(ins))
            write(I,st,c,g_mul(st,region(I,st,a),region(I,st,b)),ins,acc); return [(C,st)]
        return f
    def s_free(I,st,args,ins,name):
        do_free(I,st,args[0],ins,'slice'); x=I.objs[args[0].obj].info.get('bms') if isinstance(args[0],Ptr) and args[0].obj else None
        if x is not None and 'heap' in I.objs[x.obj].info: do_free(I,st,x,ins,'plane')
        return [(UNDEF,st)]
    d={'mzd_slice_init_window':s_window,'mzd_slice_free_window':s_freew,'mzd_slice_submatrix':s_sub,'mzd_slice_copy':s_copy,'mzd_slice_set_ui':s_set,'mzed_slice':to_slice,'mzed_cling':to_packed,'mzd_slice_free':s_free,'mzd_slice_init':s_init}
    for n,a in(('_mzd_slice_addmul_karatsuba',1),('mzd_slice_addmul_karatsuba',1),('mzd_slice_mul_karatsuba',0),('_mzd_slice_addmul_naive',1),('mzd_slice_addmul_naive',1),('mzd_slice_mul_naive',0),
               ('mzd_slice_mul',0),('mzd_slice_addmul',1),('_mzd_slice_addmul_blm',1),('mzd_slice_mul_blm',0),('mzd_slice_addmul_blm',1)): d[n]=s_mul(bool(a),0)
    def blm(I,st,args,ins,name):
        if args[0]!=NULL: raise Undecided('bilinear map onto a given target at '+I.where(ins))
        return s_mul(False,0)(I,st,args,ins,name)
    d['_mzd_slice_mul_blm']=blm
    return d
# ---------------------------------------------------------------- accumulation by rows and elements
# ('acc', store, r0,r1,c0,c1, ((store,r0,r1,c0,c1),...)) : the rectangle of the store gets the product of the listed rectangles added
def el_word(d,r,c,e): return Word([atom(('el',d,r,c,b)) for b in range(e)]+[ZERO]*(64-e))
def el_of(w,e):
    """(store,row,col) of a word that is exactly one matrix element"""
    a=single(w.b[0])
    if a is None: return None
    k=Atom.keys[a]
    if not(isinstance(k,tuple) and k[0]=='el'): return None
    return k[1:4] if w==el_word(k[1],k[2],k[3],e) else None
def single(p):
    if len(p)!=1: return None
    m=next(iter(p))
    return m.bit_length()-1 if m and m&(m-1)==0 else None
def view_any(I,st,p,ins): return view(I,st,p,ins)
def in_range(I,st,v,r,c,ins,what):
    for a,b,t in((ZL,r,'row'),(r,v.nr-1,'row'))+(((ZL,c,'column'),(c,v.nc-1,'column')) if c is not None else ()):
        if not st.facts.ge0(b-a): soft(I,st,[b-a],lambda z:z[0]<0,caller(I,ins),'element range',f'{what}: {t} {r if t=="row" else c} outside the matrix')
def soft(I,st,ex,pred,where,rule,text):
    """an obligation that could not be proved: definite with a witness, otherwise open"""
    I.soft.append((st.fork(),ex,pred,where,rule,text))
def softs(I,res,Violation):
    for a,rule,txt in I.bmviol: res.viol.append(Violation(a,rule,txt))
    seen=set()
    KCLEAN.clear(); KCLEAN.update(I.kclean)
    for st,ex,pred,where,rule,text in I.soft:
        if text in seen: continue
        seen.add(text)
        if len(seen)>60: res.und.append('further open obligations'); break
        x=find(st,ex,pred)
        if x is not None: res.viol.append(Violation(where,rule,f'{text}, for example with {x}'))
        else: res.und.append(f'{text} not excluded ({where})')
    KCLEAN.clear()
def acc_prims(lay):
    def degree(I,st,p):
        return I.objs[I.load(st,p.at(lay('mzed_t','finite_field')),PTR).obj].info['degree']
    def readel(I,st,args,ins,name):
        A=args[0]; r,c=(st.facts.norm(I.to_lin(x)) for x in args[1:3]); v=view(I,st,A,ins)
        in_range(I,st,v,r,c,ins,'element read')
        return [(el_word(v.d,st.facts.norm(v.r0+r),st.facts.norm(v.c0+c),degree(I,st,A)),st)]
    def addel(I,st,args,ins,name):
        C=args[0]; r,c=(st.facts.norm(I.to_lin(x)) for x in args[1:3]); v=view(I,st,C,ins); e=degree(I,st,C)
        in_range(I,st,v,r,c,ins,'element update')
        x=st.norm(I.to_word(args[3],64,st)); r,c=v.r0+r,v.c0+c
        mono=prod_of(x,e)
        if mono is None: raise Undecided('the value added to an element is not a product of elements at '+I.where(ins))
        st.event('acc',v.d,r,r+1,c,c+1,tuple((d,a,a+1,b,b+1) for d,a,b in mono)); return [(UNDEF,st)]
    def prod_of(x,e):
        if x.iszero(): return None
        y=el_of(x,e)
        if y: return (y,)
        a=single(x.b[0])
        if a is None: return None
        k=Atom.keys[a]
        if not(isinstance(k,tuple) and k[0]=='ffmul'): return None
        if x!=Word([atom(('ffmul',k[1],k[2],k[3],i)) for i in range(e)]+[ZERO]*(64-e)): return None
        u,v=el_of(k[2],e),el_of(k[3],e)
        if not u or not v: return None
        return (u,v)
    # ---- tables of all multiples of one row
    def njt_init(I,st,args,ins,name):
        ff=args[0]; n=st.facts.norm(I.to_lin(args[1])); e=I.objs[ff.obj].info['degree']
        p=I.new(st,f'table{I.nobj}@{I.where(ins)}','njt',None); tid=p.obj
        T=mk_njrows(I,st,lay,tid,ff,e,n)
        def L_init(I,st,o,addr,ty):
            ix=addr[1]
            if len(ix.t)==1 and ix.c==0 and ix.t[0][1]==4:
                k=Sym.keys[ix.t[0][0]]
                if isinstance(k,tuple) and k[0]=='W': return S(('Lidx',tid,k[1]))
            return None
        Lp=I.new(st,f'table{tid}.L','lidx',L_init)
        I.put(st,p.obj,((),L(lay('njt_mzed_t','L'))),8,Lp); I.put(st,p.obj,((),L(lay('njt_mzed_t','T'))),8,T)
        I.objs[p.obj].info.update(ncols=n,e=e,ff=ff)
        q=I.new(st,f'table{tid}.content','njcell',None); I.objs[p.obj].info['cell']=q.obj
        I.put(st,q.obj,CELL,8,('empty',))
        return [(heap(I,st,p,'njt'),st)]
    def mk_njrows(I,st,lay,tid,ff,e,n):
        w=unit(I)
        dp=I.new(st,f'table{tid}.data','njrow',None,tid=tid)
        def rows(I,st,o,addr,ty):
            off=addr[1]
            if ty.k=='ptr' and off.c%8==0 and all(v%8==0 for _,v in off.t): return Ptr(dp.obj,(Lin(tuple((k,v//8) for k,v in off.t),off.c//8),),ZL)
            return None
        x=mk_mzd(I,st,lay,f'table{tid}.T.x',L(1<<e),n*w,data=dp)
        I.objs[I.objs[x.obj].info['rows']].init=rows
        I.objs[x.obj].info.update(njt=tid,vcols=n)
        return mk_mzed(I,st,lay,f'table{tid}.T',ff,e,w,L(1<<e),n,x=x)
    def make_table(I,st,args,ins,name):
        T,A=args[:2]; r,c=(st.facts.norm(I.to_lin(x)) for x in args[2:4]); v=view(I,st,A,ins)
        if T==NULL: (T,st),=njt_init(I,st,[I.load(st,A.at(lay('mzed_t','finite_field')),PTR),v.nc],ins,name)
        o=I.objs[T.obj]
        if o.kind!='njt': raise Undecided('unresolved table at '+I.where(ins))
        I.check_alive(st,T,ins,'use')
        in_range(I,st,v,r,None,ins,'row of the table')
        same_dim(I,st,o.info['ncols'],v.nc,ins,'table width')
        I.put(st,o.info['cell'],CELL,8,(v.d,st.facts.norm(v.r0+r),v.c0,v.c1,c)); return [(T,st)]
    def njt_free(I,st,args,ins,name):
        do_free(I,st,args[0],ins,'njt'); return [(UNDEF,st)]
    def table_row(I,st,tid,row,ins):
        """(element, table content) of row L[element] of a table"""
        I.check_alive(st,Ptr(tid,(),ZL),ins,'use')
        if len(row.t)!=1 or row.c or row.t[0][1]!=1: raise Undecided(f'table row {row} at {I.where(ins)}')
        k=Sym.keys[row.t[0][0]]
        if not(isinstance(k,tuple) and k[0]=='Lidx'): raise Undecided(f'table row {row} at {I.where(ins)}')
        if k[1]!=tid:
            I.bmviol.append((I.where(ins),'block-product','the row index belongs to another table')); raise Undecided('row index of another table at '+I.where(ins))
        e=I.objs[tid].info['e']
        w=k[2]; w=Word((tuple(w.b)+(ZERO,)*64)[:64])
        el=el_of(w,e)
        if el is None: raise Undecided('the table index is not a matrix element at '+I.where(ins))
        t=I.get(st,I.objs[tid].info['cell'],CELL,8,I64)
        if t==('empty',): 
            I.bmviol.append((I.where(ins),'block-product','the table is used before it is made')); raise Undecided('table used before it is made')
        if not(isinstance(t,tuple) and len(t)==5): raise Undecided('table content not resolved at '+I.where(ins))
        if getattr(I,'via',False): st.event('acc','via',tid)
        return el,t
    def emit(I,st,d,row,c0,c1,el,t,ins,startcol=ZL):
        sd,sr,b0,b1,c=t
        if not st.facts.eq0(st.facts.norm(c)): raise Undecided('partial table row at '+I.where(ins))
        same_dim(I,st,c1-c0,b1-b0,ins,'row addition: columns')
        st.event('acc',d,row,row+1,c0,c1,((el[0],el[1],el[1]+1,el[2],el[2]+1),(sd,sr,sr+1,b0,b1)))
    def combineN(n):
        def f(I,st,args,ins,name):
            m,t,wide=args; wide=st.facts.norm(I.to_lin(wide))
            srcs=[I.load(st,t.at(8*i),PTR) for i in range(n)] if n>1 else [t]
            return comb(I,st,m,srcs,wide,ins)
        return f
    def comb(I,st,m,srcs,wide,ins):
        if not isinstance(m,Ptr) or I.objs[m.obj].kind!='bmat': raise Undecided('row combination onto an unresolved row at '+I.where(ins))
        o=I.objs[m.obj]; row=m.sub[0]
        if m.off!=ZL: raise Undecided('row combination from an inner word at '+I.where(ins))
        cols=o.info['cols']
        need=ceil64(st.facts.norm(cols)*unit(I))
        d=st.facts.norm(wide-need)
        if not st.facts.eq0(d):
            x=find(st,[d,cols],lambda v:v[0]<0 and v[1]>0)
            if x is not None: I.bmviol.append((caller(I,ins),'block-product',f'only {wide} of {need} words of the row are combined, for example with {x}'))
            raise Undecided('width of the row combination at '+I.where(ins))
        for s_ in srcs:
            if not isinstance(s_,Ptr) or I.objs[s_.obj].kind!='njrow' or s_.off!=ZL: raise Undecided('row combination of an unresolved row at '+I.where(ins))
            el,t=table_row(I,st,I.objs[s_.obj].info['tid'],s_.sub[0],ins)
            emit(I,st,m.obj,row,ZL,cols,el,t,ins)
        return [(UNDEF,st)]
    def combine(I,st,args,ins,name):
        C,cr,cb,A,ar,ab,B,br,bb=args
        cr,cb,ar,ab,br,bb=(st.facts.norm(I.to_lin(x)) for x in(cr,cb,ar,ab,br,bb))
        if C!=A or not st.facts.eq0(st.facts.norm(cr-ar)): raise Undecided('three operand row combination at '+I.where(ins))
        if any(not st.facts.eq0(x) for x in(cb,ab,bb)): raise Undecided('row combination from an inner word at '+I.where(ins))
        v=view(I,st,C,ins); in_range(I,st,v,cr,None,ins,'row combination')
        bi=I.objs[B.obj].info
        if 'njt' not in bi: raise Undecided('row combination of an unresolved row at '+I.where(ins))
        el,t=table_row(I,st,bi['njt'],br,ins)
        emit(I,st,v.d,v.r0+cr,v.c0,v.c1,el,t,ins); return [(UNDEF,st)]
    d={'mzed_read_elem':readel,'mzed_add_elem':addel,'njt_mzed_init':njt_init,'mzed_make_table':make_table,'njt_mzed_free':njt_free,'mzd_combine':combine,
       '_mzd_combine':combineN(1)}
    for n in range(2,9): d[f'_mzd_combine_{n}']=combineN(n)
    return d
def links(a):
    _,d,r0,r1,c0,c1,mono=a
    return ((r0,r1,mono[0][1],mono[0][2]),)+tuple((x[3],x[4],y[1],y[2]) for x,y in zip(mono,mono[1:]))+((mono[-1][3],mono[-1][4],c0,c1),)
def unlinks(a,ls):
    mono=a[6]; m=[]
    for j,x in enumerate(mono): m.append((x[0],ls[j][2],ls[j][3],ls[j+1][0],ls[j+1][1]))
    return ('acc',a[1],ls[0][0],ls[0][1],ls[-1][2],ls[-1][3],tuple(m))
def merge_accs(accs,facts):
    """join accumulations whose ranges continue each other"""
    accs=list(accs); ch=True
    while ch:
        ch=False
        for i in range(len(accs)):
            for j in range(len(accs)):
                if i==j: continue
                a,b=accs[i],accs[j]
                if a[1]!=b[1] or [m[0] for m in a[6]]!=[m[0] for m in b[6]]: continue
                la,lb=links(a),links(b)
                df=[q for q in range(len(la)) if la[q]!=lb[q]]
                if len(df)!=1: continue
                q=df[0]; x,y=la[q],lb[q]
                if facts.norm(x[1]-y[0])==ZL and facts.norm(x[3]-y[2])==ZL:
                    accs[i]=unlinks(a,la[:q]+((x[0],y[1],x[2],y[3]),)+la[q+1:]); del accs[j]; ch=True; break
            if ch: break
    return accs
def sweep(acc,kid,lo,hi,facts):
    """union over iterations lo <= kid < hi of an accumulated rectangle"""
    _,d,r0,r1,c0,c1,mono=acc
    # interval links: (list of holders) target rows = rows of first factor, columns = columns of last, inner = cols/rows of neighbours
    iv=[[(r0,r1),(mono[0][1],mono[0][2])]]
    for x,y in zip(mono,mono[1:]): iv.append([(x[3],x[4]),(y[1],y[2])])
    iv.append([(mono[-1][3],mono[-1][4]),(c0,c1)])
    k=Lin(((kid,1),),0)
    def dep(e): return kid in deep_syms(e)
    ch=0; out=[]
    for pair in iv:
        np=[]
        ds=[dep(a) or dep(b) for a,b in pair]
        if not any(ds): out.append(pair); continue
        ch+=1
        for a,b in pair:
            nxt=a.sub({kid:k+1})
            d_=facts.norm(b-nxt)
            if not((d_.isc() and d_.c==0)): raise Undecided(f'the ranges {a}..{b} of a loop do not follow each other')
            np.append((a.sub({kid:lo}),a.sub({kid:hi})))
        out.append(np)
    if ch==0:
        return None
    if ch>1: raise Undecided('a loop moves two ranges of a product at once')
    (r0,r1),x=out[0]; rows=[x]; m=[]
    for j in range(len(mono)):
        ra=out[0][1] if j==0 else out[j][1]
        ca=out[-1][0] if j==len(mono)-1 else out[j+1][0]
        m.append((mono[j][0],ra[0],ra[1],ca[0],ca[1]))
    c0,c1=out[-1][1]
    return ('acc',d,r0,r1,c0,c1,tuple(m))
def summarise(evs,facts):
    """accumulations of a trace, loops closed"""
    out=[]
    for ev in evs:
        if ev[0]=='acc': out.append(ev)
        elif ev[0]=='loop':
            _,kid,lo,hi,alts=ev
            subs=[merge_accs(summarise(a,facts),facts) for a in alts]
            if not any(subs): continue
            if not subs[0] and hi==lo: continue
            if any(s!=subs[0] for s in subs): raise Undecided('iterations of a loop accumulate differently')
            n=facts.norm(hi-lo)
            for a in subs[0]:
                try: s=sweep(a,kid,lo,hi,facts)
                except Undecided:
                    if not(n.isc() and 0<=n.c<=64): raise
                    for i in range(n.c): out.append(vsubst(a,{kid:lo+i}))
                    continue
                if s is None:
                    # the same addition repeated: counts by parity
                    if n.isc():
                        if n.c&1: out.append(a)
                        continue
                    raise Undecided('an accumulation is repeated in a loop')
                out.append(s)
    return out
def flush(I,st):
    """apply the accumulated products of the trace to the stores"""
    for a in summarise(st.events(),st.facts):
        _,d,r0,r1,c0,c1,mono=a; n=st.facts.norm
        acc_=None
        for(q,a0,a1,b0,b1) in mono:
            if [l for l in st.mem[q].layers if l!={}]: raise Undecided('a factor of an accumulated product is modified')
            g=region(I,st,View(Ptr(q,(),ZL) if False else q,n(a0),n(a1),n(b0),n(b1)),what='factor')
            acc_=g if acc_ is None else g_mul(st,acc_,g)
        v=View(d,n(r0),n(r1),n(c0),n(c1))
        write(I,st,v,acc_,None,True)
