"""Abstract objects of the library (matrices, fields, ...) and models of the m4ri / libc primitives."""
from dom import *
from interp import *
import layout

class Lay:
    def __init__(s,repo):
        s.o=layout.load(repo)
    def __call__(s,t,f): return s.o[f'off__{t}__{f}']
    def size(s,t): return s.o['size__'+t]

def setf(I,st,p,lay,t,f,v,size):
    I.put(st,p.obj,((),p.off+lay(t,f)),size,v)
def getf(I,st,p,lay,t,f,ty):
    return I.load(st,p.at(lay(t,f)),ty)
I32=TYI(4); I64=TYI(8); PTR=TYP; I8=TYI(1)

def ceil64(n):
    return div_term(n+63,64)

def mk_data(I,st,name,width=None,ncols=None,lane=None,owned=True,zero=False,kind='data'):
    """word storage of a matrix: address ((row,),byte offset)"""
    rem=None
    if ncols is not None:
        n=st.facts.norm(ncols)
        q=div_term(n,64); r=n-q*64
        if r.isc(): rem=r.c
    def init(I,st,o,addr,ty):
        if ty.k!='int': return None
        if len(addr[0])!=1: return None
        off=addr[1]
        if zero or st.known.get(('zeroobj',o.id)): return ZL if ty.bits==64 else None
        if not(off.c%8==0 and all(v%8==0 for _,v in off.t)): return None
        if ty.bits!=64: return None
        j=Lin(tuple((k,v//8) for k,v in off.t),off.c//8)
        mask=(1<<64)-1
        if rem is not None and owned and width is not None and st.facts.eq0(j-(width-1)) and rem: mask=(1<<rem)-1
        bits=[]
        for b in range(64):
            if not mask>>b&1 or (lane and b%lane[0]>=lane[1]): bits.append(ZERO)
            else: bits.append(atom(('m',name,addr[0][0],j,b)))
        return Word(bits)
    return I.new(st,name+'.data',kind,init,nm=name,lane=lane)
def mk_rows(I,st,name,data,row0=ZL,off0=ZL,nrows=None):
    def init(I,st,o,addr,ty):
        off=addr[1]
        if ty.k=='ptr' and off.c%8==0 and all(v%8==0 for _,v in off.t):
            r=Lin(tuple((k,v//8) for k,v in off.t),off.c//8)
            return Ptr(data.obj,(r+row0,),off0)
        return None
    return I.new(st,name+'.rows','rows',init,data=data.obj)
def himask(ncols,st):
    n=st.facts.norm(ncols); q=div_term(n,64); r=n-q*64
    if r.isc():
        k=r.c or 64
        return L(sgn((1<<k)-1,64))
    return Word([atom(('hm',n,i)) for i in range(64)])
def mk_mzd(I,st,lay,name,nrows,ncols,lane=None,owned=True,data=None,row0=ZL,off0=ZL,flags=None,zero=False,kind='mzd',width=None):
    """kind: 'mzd'"""
    p=I.new(st,name,kind,None,nm=name)
    width=ceil64(ncols) if width is None else width
    if data is None: data=mk_data(I,st,name,width,ncols,lane,owned,zero); I.objs[data.obj].info['dims']=(nrows,width)
    rows=mk_rows(I,st,name,data,row0,off0,nrows)
    setf(I,st,p,lay,'mzd_t','nrows',nrows,4); setf(I,st,p,lay,'mzd_t','ncols',ncols,4)
    setf(I,st,p,lay,'mzd_t','width',width,4); setf(I,st,p,lay,'mzd_t','rowstride',S(('rowstride',name)),4)
    setf(I,st,p,lay,'mzd_t','row_offset',ZL,4); setf(I,st,p,lay,'mzd_t','offset_vector',ZL,4)
    setf(I,st,p,lay,'mzd_t','flags',flags if flags is not None else S(('flags',name)),1)
    setf(I,st,p,lay,'mzd_t','high_bitmask',himask(ncols,st),8)
    setf(I,st,p,lay,'mzd_t','rows',rows,8)
    I.objs[p.obj].info.update(rows=rows.obj,data=data.obj,row0=row0,off0=off0,nrows=nrows,ncols=ncols)
    return p
def mk_ff(I,st,lay,e,name='ff',table=None):
    """abstract field of degree e, symbolic minimal polynomial"""
    p=I.new(st,name,'gf2e',None,nm=name)
    setf(I,st,p,lay,'gf2e','degree',L(e),4)
    mp=Word([ONE]+[atom(('minpoly',name,i)) for i in range(1,e)]+[ONE]+[ZERO]*(63-e))
    setf(I,st,p,lay,'gf2e','minpoly',mp,8)
    def pg(I,st,o,addr,ty):
        if addr[1].isc() and addr[1].c%8==0 and ty.k=='int':
            i=addr[1].c//8
            if i<e: return wconst(1<<i)
            if i<2*e-1: return Word([atom(('pg',name,i,b)) for b in range(e)]+[ZERO]*(64-e))
        return None
    setf(I,st,p,lay,'gf2e','pow_gen',I.new(st,name+'.pow_gen','words',pg),8)
    def rd(I,st,o,addr,ty):
        # red[q] for a word valued index: uninterpreted words indexed by q
        if ty.k!='int': return None
        return Word([atom(('red',name,addr[1],b)) for b in range(64)])
    setf(I,st,p,lay,'gf2e','red',I.new(st,name+'.red','words',rd),8)
    setf(I,st,p,lay,'gf2e','_mul',I.new(st,name+'._mul','words',None) if (e<=8 if table is None else table) else NULL,8)
    setf(I,st,p,lay,'gf2e','inv',Fn('<ff.inv>',None),8)
    setf(I,st,p,lay,'gf2e','mul',Fn('<ff.mul>',None),8)
    I.objs[p.obj].info['degree']=e
    return p
def mk_mzed(I,st,lay,name,ff,e,w,nrows,ncols,x=None,**kw):
    p=I.new(st,name,'mzed',None,nm=name)
    if x is None: x=mk_mzd(I,st,lay,name+'.x',nrows,ncols*w,lane=(w,e),**kw)
    setf(I,st,p,lay,'mzed_t','x',x,8); setf(I,st,p,lay,'mzed_t','finite_field',ff,8)
    setf(I,st,p,lay,'mzed_t','nrows',nrows,4); setf(I,st,p,lay,'mzed_t','ncols',ncols,4); setf(I,st,p,lay,'mzed_t','w',L(w),4)
    I.objs[p.obj].info.update(x=x.obj)
    return p
def mk_slice(I,st,lay,name,ff,e,nrows,ncols,**kw):
    p=I.new(st,name,'slice',None,nm=name)
    xs=[]
    for i in range(16):
        if i<e:
            x=mk_mzd(I,st,lay,f'{name}.x{i}',nrows,ncols,**kw); xs.append(x.obj)
        else: x=NULL
        I.put(st,p.obj,((),L(lay('mzd_slice_t','x')+8*i)),8,x)
    setf(I,st,p,lay,'mzd_slice_t','finite_field',ff,8)
    setf(I,st,p,lay,'mzd_slice_t','nrows',nrows,4); setf(I,st,p,lay,'mzd_slice_t','ncols',ncols,4); setf(I,st,p,lay,'mzd_slice_t','depth',L(e),4)
    I.objs[p.obj].info.update(xs=xs)
    return p

def ffmul_word(e,name,a,b,n=64):
    """uninterpreted symmetric product of two field elements (bits as Words)"""
    if a.iszero() or b.iszero(): return wconst(0,n)
    ca,cb=a.const(),b.const()
    if ca==1: return b
    if cb==1: return a
    x,y=(a,b) if (tuple(sorted(map(sorted,map(list,a.b)))))<=(tuple(sorted(map(sorted,map(list,b.b))))) else (b,a)
    return Word([atom(('ffmul',name,x,y,i)) for i in range(e)]+[ZERO]*(n-e))
def prim_ffmul(I,st,args,ins,name):
    p,a,b=args
    if not isinstance(p,Ptr) or I.objs[p.obj].kind!='gf2e': return None
    o=I.objs[p.obj]; e=o.info['degree']
    a=st.norm(I.to_word(a,64,st)); b=st.norm(I.to_word(b,64,st))
    for w in(a,b):
        if any(w.b[e:]): st.event('ffmul-range',I.where(ins))
    r=ffmul_word(e,o.name,a,b)
    return [(I.wsimp(r),st)]
def prim_ffinv(I,st,args,ins,name):
    p,a=args; o=I.objs[p.obj]; e=o.info['degree']
    a=st.norm(I.to_word(a,64))
    return [(Word([atom(('ffinv',o.name,a,i)) for i in range(e)]+[ZERO]*(64-e)),st)]
def prim_die(I,st,args,ins,name):
    st.event('die',I.where(ins)); I.dead.append(st); return []
def no_return(I,st,args,ins,name):
    return []
BASE={'<ff.mul>':prim_ffmul,'<ff.inv>':prim_ffinv,'m4ri_die':prim_die}

# ------------------------------------------------------------------ heap and m4ri allocation
def heap(I,st,p,kind):
    I.objs[p.obj].info['heap']=kind
    st.event('alloc',p.obj)
    return p
def prim_malloc(I,st,args,ins,name):
    size=args[-1] if name!='posix_memalign' else args[2]
    p=I.new(st,f'{name}@{I.where(ins)}','malloc',None,size=size)
    return [(heap(I,st,p,'mem'),st)]
def prim_calloc(I,st,args,ins,name):
    p=I.new(st,f'{name}@{I.where(ins)}','zero',None,size=(args[0],args[1]))
    return [(heap(I,st,p,'mem'),st)]
def do_free(I,st,p,ins,what):
    if not isinstance(p,Ptr): raise Undecided('free of an unresolved pointer at '+I.where(ins))
    if p.obj==0: return
    o=I.objs[p.obj]
    if st.known.get(('freed',p.obj)): st.event('double-free',o.name,I.where(ins)); return
    st.known=dict(st.known); st.known[('freed',p.obj)]=True
    st.event('free',p.obj,I.where(ins))
def prim_free(I,st,args,ins,name):
    do_free(I,st,args[0],ins,'mem'); return [(UNDEF,st)]
def prim_mzd_free(I,st,args,ins,name):
    do_free(I,st,args[0],ins,'mzd'); return [(UNDEF,st)]
def mk_prims(lay,lane_of=None):
    """word level models of the m4ri constructors"""
    def prim_mzd_init(I,st,args,ins,name):
        r,c=(st.facts.norm(I.to_lin(x)) for x in args)
        p=mk_mzd(I,st,lay,f'new{I.nobj}@{I.where(ins)}',r,c,zero=True,flags=ZL)
        I.objs[p.obj].info['fresh']=True
        return [(heap(I,st,p,'mzd'),st)]
    def prim_is_zero(I,st,args,ins,name):
        p=args[0]; o=I.objs[p.obj]
        if o.kind!='mzd': return None
        d=o.info['data']
        if o.info['row0']!=ZL or o.info['off0']!=ZL or [l for l in st.mem[d].layers if l!={}]: raise Undecided('zero test of a modified or windowed matrix')
        k=('zeroobj',d)
        if k in st.known: return [(L(1 if st.known[k] else 0),st)]
        t=st.fork()
        st.known=dict(st.known); st.known[k]=True
        t.known=dict(t.known); t.known[k]=False
        return [(L(1),st),(L(0),t)]
    return {'mzd_init':prim_mzd_init,'mzd_is_zero':prim_is_zero,'mzd_free':prim_mzd_free,
            'm4ri_mm_malloc':prim_malloc,'m4ri_mm_calloc':prim_calloc,'m4ri_mm_malloc_aligned':prim_malloc,'m4ri_mm_free':prim_free,
            'malloc':prim_malloc,'calloc':prim_calloc,'free':prim_free}
