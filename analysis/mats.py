"""Whole matrix content domain: a matrix is a polynomial over non-commuting matrix symbols whose coefficients are GF(2) polynomials (ANF) of
scalar bits.  Used for code that handles matrices only through the m4ri primitives (slices, polynomials over matrices)."""
from model import *
class Mat:
    __slots__=('d','h')
    def __init__(s,d):
        s.d={k:v for k,v in d.items() if v}; s.h=hash(frozenset(s.d.items()))
    def __hash__(s): return s.h
    def __eq__(s,o): return isinstance(o,Mat) and s.d==o.d
    def __ne__(s,o): return not s==o
    def add(s,o):
        d=dict(s.d)
        for k,v in o.d.items():
            w=padd(d.get(k,ZERO),v)
            if w: d[k]=w
            else: d.pop(k,None)
        return Mat(d)
    def scale(s,c): return Mat({k:pmul(c,v) for k,v in s.d.items()})
    def mul(s,o):
        d={}
        for k,v in s.d.items():
            for l,w in o.d.items():
                if k==('I',): n=l
                elif l==('I',): n=k
                else: n=k+l
                d[n]=padd(d.get(n,ZERO),pmul(v,w))
        return Mat(d)
    def __repr__(s):
        def p(c): return '' if c==ONE else '(%s)*'%repr(c)[:60]
        return ' + '.join(p(v)+'*'.join(map(str,k)) for k,v in sorted(s.d.items(),key=str)[:12])+(' ...' if len(s.d)>12 else '') or '0'
MZERO=Mat({}); MONE=Mat({('I',):ONE})
def matom(n): return Mat({(n,):ONE})
CELL=((),ZL)
def mk_mat(I,st,lay,name,nrows,ncols,content=None,owned=True):
    def init(I,st,o,addr,ty):
        if addr!=CELL: return None
        return matom(name) if content is None else content
    data=I.new(st,name+'.data','mat',init,nm=name)
    p=mk_mzd(I,st,lay,name,nrows,ncols,data=data)
    I.objs[p.obj].info['mat']=True
    return p
def mk_mslice(I,st,lay,name,ff,e,nrows,ncols,depth=None):
    p=I.new(st,name,'slice',None,nm=name); xs=[]
    for i in range(16):
        x=NULL
        if i<(depth or e): x=mk_mat(I,st,lay,f'{name}{i}',nrows,ncols); xs.append(x.obj)
        I.put(st,p.obj,((),L(lay('mzd_slice_t','x')+8*i)),8,x)
    setf(I,st,p,lay,'mzd_slice_t','finite_field',ff,8)
    setf(I,st,p,lay,'mzd_slice_t','nrows',nrows,4); setf(I,st,p,lay,'mzd_slice_t','ncols',ncols,4); setf(I,st,p,lay,'mzd_slice_t','depth',L(depth or e),4)
    I.objs[p.obj].info.update(xs=xs)
    return p
def dataobj(I,p,ins=None,st=None):
    if not isinstance(p,Ptr) or p.obj==0 or I.objs[p.obj].kind!='mzd' or not I.objs[p.obj].info.get('mat'): raise null_use(p,st,'matrix primitive on an unresolved matrix at '+I.where(ins))
    return I.objs[p.obj].info['data']
def getmat(I,st,p,ins=None):
    I.check_alive(st,p,ins,'use')
    v=I.get(st,dataobj(I,p,ins,st),CELL,8,I64,ins)
    if not isinstance(v,Mat): raise Undecided('matrix content lost at '+I.where(ins))
    return v
def putmat(I,st,p,v,ins=None):
    I.check_alive(st,p,ins,'use')
    d=dataobj(I,p,ins,st)
    if I.on_mat: I.on_mat(I,st,p,ins)
    I.put(st,d,CELL,8,v)
def dims_of(I,st,lay,p):
    return (st.facts.norm(I.to_lin(getf(I,st,p,lay,'mzd_t','nrows',I32))),st.facts.norm(I.to_lin(getf(I,st,p,lay,'mzd_t','ncols',I32))))
def mat_prims(lay):
    def new(I,st,r,c,ins,content=MZERO):
        p=mk_mat(I,st,lay,f'new{I.nobj}@{I.where(ins)}',r,c,content)
        I.objs[p.obj].info['fresh']=True
        return heap(I,st,p,'mzd')
    def need(I,st,d,ins,what):
        """m4ri stops when dimensions do not fit"""
        d=st.facts.norm(d)
        if st.facts.eq0(d): return True
        if st.facts.ne0(d): st.event('die',I.where(ins),what); I.dead.append(st); return False
        st.facts=st.facts.add_eq(d); return not st.facts.infeasible()
    def p_init(I,st,args,ins,name):
        r,c=(st.facts.norm(I.to_lin(x)) for x in args); return [(new(I,st,r,c,ins),st)]
    def p_add(I,st,args,ins,name):
        C,A,B=args; a,b=getmat(I,st,A,ins),getmat(I,st,B,ins)
        ra,ca=dims_of(I,st,lay,A); rb,cb=dims_of(I,st,lay,B)
        if not(need(I,st,ra-rb,ins,'add') and need(I,st,ca-cb,ins,'add')): return []
        if C==NULL: C=new(I,st,ra,ca,ins)
        else:
            rc,cc=dims_of(I,st,lay,C)
            if name=='mzd_add' and not(need(I,st,rc-ra,ins,'add') and need(I,st,cc-ca,ins,'add')): return []
        putmat(I,st,C,a.add(b),ins); return [(C,st)]
    def p_mul(I,st,args,ins,name):
        C,A,B=args[:3]; a,b=getmat(I,st,A,ins),getmat(I,st,B,ins)
        ra,ca=dims_of(I,st,lay,A); rb,cb=dims_of(I,st,lay,B)
        if not need(I,st,ca-rb,ins,'mul'): return []
        acc='addmul' in name
        if C==NULL:
            if acc: raise Undecided('accumulation into NULL at '+I.where(ins))
            C=new(I,st,ra,cb,ins)
        else:
            rc,cc=dims_of(I,st,lay,C)
            if not(need(I,st,rc-ra,ins,'mul') and need(I,st,cc-cb,ins,'mul')): return []
        r=a.mul(b)
        if acc: r=getmat(I,st,C,ins).add(r)
        putmat(I,st,C,r,ins); return [(C,st)]
    def p_copy(I,st,args,ins,name):
        C,A=args; a=getmat(I,st,A,ins); ra,ca=dims_of(I,st,lay,A)
        if C==NULL: C=new(I,st,ra,ca,ins)
        elif C==A: return [(C,st)]
        else:
            rc,cc=dims_of(I,st,lay,C)
            if not(st.facts.eq0(st.facts.norm(rc-ra)) and st.facts.eq0(st.facts.norm(cc-ca))): raise Undecided('copy between different sizes at '+I.where(ins))
        putmat(I,st,C,a,ins); return [(C,st)]
    def p_set(I,st,args,ins,name):
        v=args[1]
        v=st.norm(I.to_word(v,32)) if not isinstance(v,Lin) or not v.isc() else v
        if isinstance(v,Lin): c=ONE if v.c&1 else ZERO
        else: c=v.b[0]
        putmat(I,st,args[0],MONE.scale(c),ins); return [(UNDEF,st)]
    def p_zero(I,st,args,ins,name):
        m=getmat(I,st,args[0],ins)
        if not m.d: return [(L(1),st)]
        if m==MONE: return [(L(0),st)]
        k=('zp',m)
        if k in st.known: return [(L(1 if st.known[k] else 0),st)]
        t=st.fork()
        st.known=dict(st.known); st.known[k]=True
        t.known=dict(t.known); t.known[k]=False
        return [(L(1),st),(L(0),t)]
    def p_cmp(I,st,args,ins,name):
        a,b=getmat(I,st,args[0],ins),getmat(I,st,args[1],ins)
        eq=name=='mzd_equal'
        if a==b: return [(L(1 if eq else 0),st)]
        k=('zp',a.add(b))
        if k in st.known: r=st.known[k]; return [(L(1) if r==eq else (ZL if eq else S(('cmp',a,b))),st)]
        t=st.fork()
        st.known=dict(st.known); st.known[k]=True
        t.known=dict(t.known); t.known[k]=False
        v=S(('cmp',a,b)); 
        if not eq:
            u=t.fork(); t.facts=t.facts.add_ge(v-1); u.facts=u.facts.add_ge(-v-1)
            return [(ZL,st),(v,t),(v,u)]
        return [(L(1),st),(ZL,t)]
    d={'mzd_init':p_init,'mzd_add':p_add,'_mzd_add':p_add,'mzd_sub':p_add,'_mzd_sub':p_add,'mzd_copy':p_copy,'mzd_set_ui':p_set,'mzd_is_zero':p_zero,'mzd_free':prim_mzd_free,'mzd_cmp':p_cmp,'mzd_equal':p_cmp,
       'm4ri_mm_malloc':prim_malloc,'m4ri_mm_calloc':prim_calloc,'m4ri_mm_malloc_aligned':prim_malloc,'m4ri_mm_free':prim_free,'malloc':prim_malloc,'calloc':prim_calloc,'free':prim_free}
    for n in('mzd_mul','_mzd_mul_even','mzd_mul_m4rm','_mzd_mul_m4rm','mzd_addmul','_mzd_addmul','_mzd_addmul_even','mzd_addmul_m4rm','mzd_mul_naive','mzd_addmul_naive'): d[n]=p_mul
    return d
def in_ideal(st,diff):
    """is diff a coefficient multiple of a matrix known to be zero in st?"""
    for k,v in st.known.items():
        if v is True and isinstance(k,tuple) and k[0]=='zp':
            P=k[1]
            m=next((m for m,c in P.d.items() if c==ONE),None)
            if m is None: continue
            c=diff.d.get(m)
            if c and P.scale(c)==diff: return True
    return False
def join_mat(I,a,b,x,y,gate):
    if not isinstance(x,Mat) or not isinstance(y,Mat): return None
    if gate is not None:
        c=gate[0] if gate[1] else pnot(gate[0])
        return y.add(x.add(y).scale(c))
    d=x.add(y)
    if in_ideal(a,d): return y
    if in_ideal(b,d): return x
    return None
