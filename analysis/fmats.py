"""Field matrices: entries are Laurent polynomials over GF(2) in the entries of the initial content; the content of a storage is its list of
operations (trace), read back at a generic (row, column).  Loops that carry a dependence are cut: at the head the content is replaced by an
arbitrary matrix about which only the loop invariant is known; the invariant is proved on entry and after a generic iteration."""
from emats import *
FZ=frozenset(); FONE=frozenset([()])
def key_str(a): return a[0]+'.'.join(map(str,a[1:]))
def mk_mono(d): return tuple(sorted(((a,e) for a,e in d.items() if e),key=lambda x:key_str(x[0])))
def fatom(a,e=1): return frozenset([((a,e),)])
def fmul(p,q):
    out=set()
    for m in p:
        for n in q:
            d=dict(m)
            for a,e in n: d[a]=d.get(a,0)+e
            out^={mk_mono(d)}
        if len(out)>4000: raise TooBig()
    return frozenset(out)
def fadd(p,q): return p^q
def enc(p): return tuple(sorted(p,key=lambda m:tuple((key_str(a),e) for a,e in m)))
def fshow(p,n=4):
    def f(a): return f'{a[1]}[{a[3]},{a[4]}]' if a[0]=='a' else f'{a[0]}{a[1]}'
    def mono(m): return '*'.join(f(a)+('' if e==1 else f'^{e}') for a,e in m) or '1'
    l=sorted(map(mono,p)); return (' + '.join(l[:n])+(f' + {len(l)-n} more' if len(l)>n else '')) or '0'
def pack(p):
    if not p: return ZL
    if p==FONE: return L(1)
    return S(('fel',enc(p)))
def unpack(I,st,x,ins=None):
    x=st.norm(x) if not isinstance(x,Lin) else st.facts.norm(x)
    if isinstance(x,Word):
        c=x.const()
        if c is None: raise Undecided('field element at '+I.where(ins))
        x=L(c)
    if x==ZL: return FZ
    if x==L(1): return FONE
    if len(x.t)==1 and x.c==0 and x.t[0][1]==1:
        k=Sym.keys[x.t[0][0]]
        if isinstance(k,tuple) and k[0]=='fel': return renorm(st,frozenset(k[1]))
    if x.isc(): return fatom(('const',x.c))
    raise Undecided(f'{x} is not a field element at {I.where(ins)}')
def zero_atoms(st):
    """entries known to be zero"""
    out=set()
    for q,v in st.facts.sub.items():
        k=Sym.keys[q]
        if v==ZL and isinstance(k,tuple) and k[0]=='fel' and len(k[1])==1 and len(k[1][0])==1: out.add(k[1][0][0][0])
    return out
def natom(st,a):
    return a[:3]+(st.facts.norm(a[3]),st.facts.norm(a[4])) if a[0]=='a' else a
def renorm(st,p,z=None):
    if not p or p==FONE: return p
    if z is None: z={natom(st,a) for a in zero_atoms(st)}
    out=set()
    for m in p:
        d={}
        for a,e in m:
            a=natom(st,a); d[a]=d.get(a,0)+e
        if any(a in z for a in d): continue
        out^={mk_mono(d)}
    return frozenset(out)
# ---------------------------------------------------------------- storage
class FV:
    __slots__=('sid','r0','c0','nr','nc')
    def __init__(s,*a): s.sid,s.r0,s.c0,s.nr,s.nc=a
    @property
    def rect(s): return (s.r0,s.r0+s.nr,s.c0,s.c0+s.nc)
    def __eq__(s,o): return isinstance(o,FV) and all(getattr(s,k)==getattr(o,k) for k in s.__slots__)
    def __hash__(s): return hash(tuple(getattr(s,k) for k in s.__slots__))
def mk_fstore(I,st,nm,rows,cols,zero=False):
    p=I.new(st,nm+'.store','fstore',None,nm=nm,rows=rows,cols=cols,zero=zero); return p.obj
def mk_fm(I,st,nm,ff,rows,cols,fmt='p',sid=None,r0=ZL,c0=ZL,zero=False,kind='heap'):
    """matrix header of the given format over a storage"""
    lay=I.lay; e=I.objs[ff.obj].info['degree']; w=w_of(e)
    if sid is None: sid=mk_fstore(I,st,nm,rows,cols,zero)
    v=FV(sid,r0,c0,rows,cols)
    p=I.new(st,nm,'mzed' if fmt=='p' else 'slice',None,nm=nm); I.objs[p.obj].info['fm']=v
    T='mzed_t' if fmt=='p' else 'mzd_slice_t'
    def plane(i):
        words=I.new(st,nm+'.words','emwords',None)
        x=mk_mzd(I,st,lay,f'{nm}.x{i}',rows,cols*w if fmt=='p' else cols,data=words); I.objs[x.obj].info.update(fm=v,plane=i if fmt!='p' else None,fmt=fmt,w=w,e=e); return x
    if fmt=='p': setf(I,st,p,lay,T,'x',plane(0),8); setf(I,st,p,lay,T,'w',L(w),4)
    else:
        for i in range(16): I.put(st,p.obj,((),L(lay(T,'x')+8*i)),8,plane(i) if i<e else NULL)
        setf(I,st,p,lay,T,'depth',L(e),4)
    setf(I,st,p,lay,T,'finite_field',ff,8); setf(I,st,p,lay,T,'nrows',rows,4); setf(I,st,p,lay,T,'ncols',cols,4)
    return p
def fview(I,st,p,ins=None):
    v=I.objs[p.obj].info.get('fm') if isinstance(p,Ptr) and p.obj else None
    if v is None: raise null_use(p,st,'unresolved matrix at '+I.where(ins))
    I.check_alive(st,p,ins,'use'); n=st.facts.norm
    return FV(v.sid,n(v.r0),n(v.c0),n(v.nr),n(v.nc))
def is_op(e,sid=None): return e[0]=='eop' and (sid is None or e[1]==sid)
def has_op(e,sid): return is_op(e,sid) and e[2][0] not in('frd','fz') or e[0]=='loop' and any(has_op(x,sid) for a in e[4] for x in a)
def fops(st,sid):
    out=[]
    for e in st.events():
        if e[0]=='eop' and e[1]==sid:
            if e[2][0] not in('frd','fz'): out.append(e[2])
        elif e[0]=='loop' and has_op(e,sid): out.append(floop(e,sid))
    return tuple(out)
def floop(e,sid):
    _,kid,lo,hi,alts=e
    if len(alts)!=1: raise Undecided('iterations of a loop operate differently')
    return ('loop',kid,lo,hi,tuple((x[2] if x[0]=='eop' else floop(x,sid)) for x in alts[0] if has_op(x,sid)))
def emit(I,st,sid,op,ins=None):
    I.sites.setdefault(sid,[]).append(I.where(ins)); st.event('eop',sid,op)
def inside_(st,conds):
    def go(i,s):
        if i==len(conds): yield True,s; return
        for ok,t in split2(s,conds[i]):
            if ok: yield from go(i+1,t)
            else: yield False,t
    yield from go(0,st)
# ---------------------------------------------------------------- knowledge about cut contents
class Zero:
    """entries of a rectangle are zero (except row excl)"""
    def __init__(s,r0,r1,c0,c1,excl=None): s.p=(r0,r1,c0,c1); s.excl=excl
    def cases(s,st,r,c):
        r0,r1,c0,c1=s.p
        for ok,t in inside_(st,[c-c0,c1-1-c,r-r0,r1-1-r]):
            if not ok: yield t,None; continue
            if s.excl is None: yield t,FZ; continue
            for sg,u in split(t,r-s.excl): yield u,None if sg==0 else FZ
    def generic(s,st):
        r,c=S(fresh('i')),S(fresh('j')); r0,r1,c0,c1=s.p; f=st.facts
        for g in(r-r0,r1-1-r,c-c0,c1-1-c): f=f.add_ge(g)
        if s.excl is not None: f=f.add_ne(r-s.excl)
        t=st.fork(); t.facts=f
        if not f.infeasible(): yield t,r,c,FZ
    def __repr__(s): return 'rows %s..%s, columns %s..%s are zero'%s.p+(f' (except row {s.excl})' if s.excl is not None else '')
class One:
    def __init__(s,r,c): s.r=r; s.c=c
    def cases(s,st,r,c):
        for sg,t in split(st,c-s.c):
            if sg: yield t,None; continue
            for sh,u in split(t,r-s.r): yield u,FONE if sh==0 else None
    def generic(s,st): yield st,s.r,s.c,FONE
    def __repr__(s): return f'entry ({s.r},{s.c}) is one'
class Ident:
    """rows r.., columns c.. of size k form the identity"""
    def __init__(s,r,c,k): s.r=r; s.c=c; s.k=k
    def cases(s,st,r,c):
        for ok,t in inside_(st,[c-s.c,s.c+s.k-1-c,r-s.r,s.r+s.k-1-r]):
            if not ok: yield t,None; continue
            for sg,u in split(t,(r-s.r)-(c-s.c)): yield u,FONE if sg==0 else FZ
    def generic(s,st):
        r,c=S(fresh('i')),S(fresh('j')); f=st.facts
        for g in(r-s.r,s.r+s.k-1-r,c-s.c,s.c+s.k-1-c): f=f.add_ge(g)
        if f.infeasible(): return
        for d in(0,1):
            t=st.fork(); t.facts=f.add_eq((r-s.r)-(c-s.c)) if d else f.add_ne((r-s.r)-(c-s.c))
            if not t.facts.infeasible(): yield t,r,c,FONE if d else FZ
    def __repr__(s): return f'rows {s.r}.., columns {s.c}.. hold the identity of size {s.k}'
def fbase(I,st,sid,ver,r,c):
    o=I.objs[sid]
    if ver==0:
        if o.info['zero']: yield st,FZ; return
        iv=o.info.get('values')
        if iv is not None:
            n=st.facts.norm; a,b=n(r),n(c)
            if not(a.isc() and b.isc()): raise Undecided('position')
            yield st,iv(a.c,b.c); return
    facts=I.fver.get(ver,())
    def go(i,t):
        if i==len(facts):
            n=t.facts.norm; a=('a',o.info['nm'],ver,n(r),n(c))
            if quant_zero(I,t,a): yield t,FZ
            else: yield t,renorm(t,fatom(a))
            return
        for u,x in facts[i].cases(t,r,c):
            if x is None: yield from go(i+1,u)
            else: yield u,x
    yield from go(0,st)
def quant_zero(I,st,a):
    """entry a is zero because a completed loop found it so"""
    f=st.facts
    for e in st.events():
        if e[0]=='loop':
            for z,dom in fz_of(e):
                if z[:3]!=a[:3]: continue
                if matches(f,[(z[3],a[3]),(z[4],a[4])],dom): return True
    return False
def fz_of(e,dom=()):
    _,kid,lo,hi,alts=e
    if len(alts)!=1: return
    d=dom+((kid,lo,hi),)
    for x in alts[0]:
        if x[0]=='eop' and x[2][0]=='fz': yield x[2][1],d
        elif x[0]=='loop': yield from fz_of(x,d)
def matches(f,eqs,dom):
    sub={}; todo=[k for k,_,_ in dom]; E=[f.norm(x)-f.norm(y) for x,y in eqs]; ch=True
    while ch and todo:
        ch=False
        for e in E:
            e=f.norm(e.sub(sub)); u=[v for v in todo if e.coef(v)]
            if len(u)==1 and abs(e.coef(u[0]))==1 and u[0] not in deep_syms(e-Lin(((u[0],e.coef(u[0])),),0)):
                v=u[0]; cf=e.coef(v); rest=e-Lin(((v,cf),),0); val=rest*(-1) if cf==1 else rest
                sub={k:x.sub({v:val}) for k,x in sub.items()}; sub[v]=val; todo.remove(v); ch=True
    for v in todo: sub[v]=S(fresh('any'))   # not determined: only fine when no equation uses it
    if any(any(e.coef(v) for e in E) for v in todo): return False
    if not all(f.eq0(f.norm(e.sub(sub))) for e in E): return False
    for k,lo,hi in dom:
        if k in todo:
            if not f.ge0(f.norm((hi-lo-1).sub(sub))): return False
            continue
        x=sub[k]
        if not(f.ge0(f.norm(x-lo.sub(sub))) and f.ge0(f.norm(hi.sub(sub)-1-x))): return False
    return True
# ---------------------------------------------------------------- reading
FLIM=60000
def fread(I,st,sid,ops,r,c):
    r,c=st.facts.norm(r),st.facts.norm(c); n=len(ops)
    if I.concrete and r.isc() and c.isc():
        # no case distinction happens at concrete positions
        rows,pend=dense(I,st,sid,ops)
        if not(0<=r.c<len(rows) and 0<=c.c<len(rows[0])): raise Undecided('position outside of the matrix')
        if (r.c,c.c) in pend: raise Undecided('some bits of an entry are cleared')
        yield st,renorm(st,rows[r.c][c.c]); return
    I.reads=getattr(I,'reads',0)+1
    if I.reads>FLIM and not I.concrete: raise Undecided('too many cases')
    yield from fread_(I,st,sid,ops,r,c)
NOPEND={}
def dense(I,st,sid,ops):
    """all entries after the operations; entries and positions are concrete"""
    n=len(ops); k=n; memo=I.memo
    while k and (sid,k,id(ops[k-1])) not in memo: k-=1
    if k: rows,pend=memo[(sid,k,id(ops[k-1]))][1]
    else:
        h=memo.get((sid,0))
        if h is None:
            o=I.objs[sid].info; m,q=o['rows'],o['cols']
            if not(m.isc() and q.isc()): raise Undecided('dimensions')
            iv=o.get('values') or (lambda i,j: fatom(('a',o['nm'],0,L(i),L(j))))
            h=memo[(sid,0)]=([[FZ if o['zero'] else iv(i,j) for j in range(q.c)] for i in range(m.c)],NOPEND)
        rows,pend=h
    if len(memo)>30000:
        b=memo.get((sid,0)); memo.clear(); memo[(sid,0)]=b if b else (rows,pend)
        if b is None: del memo[(sid,0)]
    for i in range(k,n):
        rows,pend=dense_op(I,st,sid,ops,i,rows,pend); memo[(sid,i+1,id(ops[i]))]=(ops[i],(rows,pend))
    return rows,pend
def ci(x):
    if not isinstance(x,Lin): return x
    if not x.isc(): raise Undecided('position')
    return x.c
def dense_op(I,st,sid,ops,i,rows,pend):
    op=ops[i]; k=op[0]; rows=list(rows); nr=len(rows); nc=len(rows[0]) if rows else 0
    def rng(a,b,n):
        a,b=ci(a),ci(b)
        if a<b and(a<0 or b>n): raise Undecided('operation outside of the matrix')
        return range(a,b)
    if pend and k!='pclr' and not(k=='el'): raise Undecided('some bits of an entry are cleared')
    if k=='el':
        r,c=ci(op[1]),ci(op[2]); x=list(rows[r]); x[c]=op[3] if op[4]=='set' else fadd(op[3],x[c]); rows[r]=x
        if (r,c) in pend:
            if op[4]!='set': raise Undecided('some bits of an entry are cleared')
            pend={q:v for q,v in pend.items() if q!=(r,c)}
    elif k=='rswap':
        a,b=ci(op[1]),ci(op[2]); cs=rng(op[3],op[4],nc)
        if len(cs)==nc: rows[a],rows[b]=rows[b],rows[a]
        elif a!=b:
            x,y=list(rows[a]),list(rows[b])
            for j in cs: x[j],y[j]=y[j],x[j]
            rows[a],rows[b]=x,y
    elif k=='cswap':
        a,b=ci(op[1]),ci(op[2])
        if a!=b:
            for r in rng(op[3],op[4],nr):
                if rows[r][a]!=rows[r][b]: x=list(rows[r]); x[a],x[b]=x[b],x[a]; rows[r]=x
    elif k=='scale':
        r=ci(op[1]); x=list(rows[r])
        for j in rng(op[3],op[4],nc):
            if x[j]: x[j]=fmul(op[2],x[j])
        rows[r]=x
    elif k=='axpy':
        _,r,p,src,c0,c1,skip=op; r=ci(r); s_=ci(src[1]); d=ci(src[2]); x=list(rows[r]); y=rows[s_]
        if isinstance(p,tuple): p=rows[ci(p[1])][ci(p[2])]
        if not(skip and s_==r):
            for j in rng(c0,c1,nc):
                if y[j+d]: x[j]=fadd(x[j],fmul(p,y[j+d]))
            rows[r]=x
    elif k=='proc':
        _,r0,r1,c0,tabs=op; c0=ci(c0); T=[]
        for row,n0,tc,dc in tabs: T.append((dense(I,st,sid,ops[:n0])[0][ci(row)],ci(tc),ci(dc)))
        for r in rng(r0,r1,nr):
            x=rows[r]; y=list(x)
            for q,(t,tc,dc) in enumerate(T):
                f=x[c0+q]
                if not f: continue
                for j in range(tc,nc):
                    if t[j+dc]: y[j]=fadd(y[j],fmul(f,t[j+dc]))
            rows[r]=y
    elif k in('set','add'):
        _,(r0,r1,c0,c1),src=op; get=dense_src(I,st,sid,rows,src); out=[]
        for r in rng(r0,r1,nr):
            x=list(rows[r])
            for j in rng(c0,c1,nc): v=get(r,j); x[j]=v if k=='set' else fadd(v,x[j])
            out.append((r,x))
        for r,x in out: rows[r]=x
    elif k=='mat':
        for a,y in enumerate(op[3]):
            x=list(rows[ci(op[1])+a]); x[ci(op[2]):ci(op[2])+len(y)]=y; rows[ci(op[1])+a]=x
    elif k=='pclr':
        _,pl,r,c0,c1,e=op; r=ci(r); x=None; pend=dict(pend)
        for j in rng(c0,c1,nc):
            if not rows[r][j]: continue
            q=pend.pop((r,j),frozenset())|{pl}
            if len(q)==e:
                if x is None: x=rows[r]=list(rows[r])
                x[j]=FZ
            else: pend[(r,j)]=q
    else: raise Undecided('operation '+k)
    return rows,pend
def dense_src(I,st,sid,rows,src):
    if src is None: return lambda r,j: FZ
    if src[0]=='id': a,b,p=ci(src[1]),ci(src[2]),src[3]; return lambda r,j: p if r-a==j-b else FZ
    if src[0]=='own': dr,dc=ci(src[1]),ci(src[2]); return lambda r,j: rows[r+dr][j+dc]
    if src[0]=='m':
        _,C,dr,dc=src; M,pend=dense(I,st,C.sid,C.ops); dr,dc=ci(dr),ci(dc)
        if pend: raise Undecided('some bits of an entry are cleared')
        return lambda r,j: M[r+dr][j+dc]
    if src[0]=='sum': f,g=dense_src(I,st,sid,rows,src[1]),dense_src(I,st,sid,rows,src[2]); return lambda r,j: fadd(f(r,j),g(r,j))
    raise Undecided('source')
def fread_(I,st,sid,ops,r,c):
    n=len(ops)
    if not n: yield from fbase(I,st,sid,0,r,c); return
    op=ops[-1]; rest=ops[:-1]; k=op[0]
    if k=='havoc':
        if len(op)==2: yield from fbase(I,st,sid,op[1],r,c)
        else:
            for ok,t in inside_(st,[r-op[2],op[3]-1-r]):
                if ok: yield from fbase(I,t,sid,op[1],r,c)
                else: yield from fread(I,t,sid,rest,r,c)
    elif k in('set','add'):
        _,rect,src=op; r0,r1,c0,c1=rect
        for ok,t in inside_(st,[r-r0,r1-1-r,c-c0,c1-1-c]):
            if not ok: yield from fread(I,t,sid,rest,r,c); continue
            for u,x in fsource(I,t,src,sid,rest,r,c):
                if k=='set': yield u,x
                else:
                    for v,y in fread(I,u,sid,rest,r,c): yield v,fadd(renorm(v,x),y)
    elif k=='el':
        _,i,j,p,mode=op
        for s1,t in split(st,r-i):
            if s1: yield from fread(I,t,sid,rest,r,c); continue
            for s2,u in splitc(t,c-j):
                if s2: yield from fread(I,u,sid,rest,r,c)
                elif mode=='set': yield u,renorm(u,p)
                else:
                    for v,y in fread(I,u,sid,rest,r,c): yield v,fadd(renorm(v,p),y)
    elif k=='rswap':
        _,a,b,c0,c1=op
        for ok,t in inside_(st,[c-c0,c1-1-c]):
            if not ok: yield from fread(I,t,sid,rest,r,c); continue
            for s1,u in split(t,r-a):
                if s1==0: yield from fread(I,u,sid,rest,b,c); continue
                for s2,v in split(u,r-b): yield from fread(I,v,sid,rest,a if s2==0 else r,c)
    elif k=='cswap':
        _,a,b,r0,r1=op
        for ok,t in inside_(st,[r-r0,r1-1-r]):
            if not ok: yield from fread(I,t,sid,rest,r,c); continue
            for s1,u in split(t,c-a):
                if s1==0: yield from fread(I,u,sid,rest,r,b); continue
                for s2,v in split(u,c-b): yield from fread(I,v,sid,rest,r,a if s2==0 else c)
    elif k=='scale':
        _,i,p,c0,c1=op
        for ok,t in inside_(st,[c-c0,c1-1-c]):
            if not ok: yield from fread(I,t,sid,rest,r,c); continue
            for s1,u in split(t,r-i):
                for v,y in fread(I,u,sid,rest,r,c): yield v,fmul(renorm(v,p),y) if s1==0 else y
    elif k=='axpy':
        _,i,p,src,c0,c1,skip=op
        for ok,t in inside_(st,[c-c0,c1-1-c]):
            if not ok: yield from fread(I,t,sid,rest,r,c); continue
            for s1,u in split(t,r-i):
                if s1: yield from fread(I,u,sid,rest,r,c); continue
                for s2,v in (split(u,i-src[1]) if skip else [(1,u)]):
                    for w,y in fread(I,v,sid,rest,r,c):
                        if s2==0: yield w,y; continue
                        for q,fc in factor(I,w,p,sid,rest):
                            if not fc: yield q,renorm(q,y); continue
                            for z,x in fread(I,q,sid,rest,src[1],c+src[2]): yield z,fadd(renorm(z,y),fmul(renorm(z,fc),x))
    elif k=='proc':
        _,r0,r1,c0,tabs=op
        for ok,t in inside_(st,[r-r0,r1-1-r]):
            if not ok: yield from fread(I,t,sid,rest,r,c); continue
            def go(i,u,acc):
                if i==len(tabs): yield u,acc; return
                row,n0,tc,dc=tabs[i]
                for ok2,v in split2(u,c-tc):
                    if not ok2: yield from go(i+1,v,acc); continue
                    for w,f in fread(I,v,sid,rest,r,c0+i):
                        if not f: yield from go(i+1,w,acc); continue
                        for z,x in fread(I,w,sid,rest[:n0],row,c+dc): yield from go(i+1,z,fadd(renorm(z,acc),fmul(renorm(z,f),x)))
            for u,y in fread(I,t,sid,rest,r,c): yield from go(0,u,y)
    elif k=='loop':
        _,kid,lo,hi,body=op; rows=[wrows(x) for x in body]
        w=None
        if all(x is not None and len(x)==1 for x in rows):
            w=rows[0][0]
            if any(x[0]!=w for x in rows): w=None
        if w is None or abs(w.coef(kid))!=1 or kid in deep_syms(w-Lin(((kid,w.coef(kid)),),0)): raise Undecided('loop of operations on several rows')
        cf=w.coef(kid); b=w-Lin(((kid,cf),),0); kk=(r-b)*cf
        for ok,t in inside_(st,[kk-lo,hi-1-kk]):
            if not ok: yield from fread(I,t,sid,rest,r,c)
            else: yield from fread(I,t,sid,rest+tuple(fsub(x,{kid:t.facts.norm(kk)}) for x in body),r,c)
    elif k=='mat':
        _,r0,c0,M=op; i,j=(st.facts.norm(x) for x in(r-r0,c-c0))
        if not(i.isc() and j.isc()): raise Undecided('position')
        if 0<=i.c<len(M) and 0<=j.c<len(M[0]): yield st,renorm(st,M[i.c][j.c])
        else: yield from fread(I,st,sid,rest,r,c)
    elif k=='pclr':
        # bits of the planes are cleared one plane after the other
        planes=set(); q=n
        while q and ops[q-1][0]=='pclr':
            o=ops[q-1]
            if st.facts.eq0(r-o[2]):
                if st.facts.ge0(c-o[3]) and st.facts.ge0(o[4]-1-c): planes.add(o[1])
                elif not(st.facts.ge0(o[3]-1-c) or st.facts.ge0(c-o[4])): raise Undecided('cleared bits')
            elif not st.facts.ne0(r-o[2]): raise Undecided('cleared bits')
            q-=1
        if len(planes)==op[5]: yield st,FZ; return
        for t,x in fread(I,st,sid,ops[:q],r,c):
            if planes and x: raise Undecided('some bits of an entry are cleared')
            yield t,x
    elif k=='rowmap':
        # unknown row permutation of a rectangle
        _,rect,name=op; r0,r1,c0,c1=rect
        for ok,t in inside_(st,[r-r0,r1-1-r,c-c0,c1-1-c]):
            if not ok: yield from fread(I,t,sid,rest,r,c); continue
            q=S((name,t.facts.norm(r-r0))); u=t.fork(); u.facts=u.facts.add_ge(q).add_ge(r1-r0-1-q); yield from fread(I,u,sid,rest,r0+q,c)
    else: raise Undecided('operation '+k)
def fsub(op,m): return subp(op,m)
def subp(v,m):
    if isinstance(v,frozenset):
        out=set()
        for mono in v:
            d={}
            for a,e in mono:
                a=subp(a,m); d[a]=d.get(a,0)+e
            out^={mk_mono(d)}
        return frozenset(out)
    if isinstance(v,Lin): return v.sub(m)
    if isinstance(v,tuple): return tuple(subp(x,m) for x in v)
    return v
def wrows(op):
    """rows an operation writes (None: several)"""
    k=op[0]
    if k in('scale','axpy','el'): return [op[1]]
    if k in('set','add'): return [op[1][0]] if op[1][1]-op[1][0]==L(1) else None
    if k=='rswap': return [op[1],op[2]]
    if k=='loop':
        out=[]
        for x in op[4]:
            r=wrows(x)
            if r is None or any(op[1] in deep_syms(y) for y in r): return None
            out+=[y for y in r if y not in out]
        return out
    return None
def fsource(I,st,src,sid,rest,r,c):
    if src is None: yield st,FZ
    elif src[0]=='id':
        for s,t in split(st,(r-src[1])-(c-src[2])): yield t,renorm(t,src[3]) if s==0 else FZ
    elif src[0]=='own': yield from fread(I,st,sid,rest,r+src[1],c+src[2])
    elif src[0]=='m':
        _,C,dr,dc=src; yield from fread(I,st,C.sid,C.ops,r+dr,c+dc)
    elif src[0]=='sum':
        for t,x in fsource(I,st,src[1],sid,rest,r,c):
            for u,y in fsource(I,t,src[2],sid,rest,r,c): yield u,fadd(renorm(u,x),y)
    else: raise Undecided('source')
def snap(I,st,v,to,ins=None):
    """source: the content of view v, shifted to view to"""
    if v.sid==to.sid: return ('own',v.r0-to.r0,v.c0-to.c0)
    if getattr(I,'nest',0): raise Undecided('copy between matrices in a loop at '+I.where(ins))
    return ('m',EM(v.sid,fops(st,v.sid)),v.r0-to.r0,v.c0-to.c0)
# ---------------------------------------------------------------- machine
class FInterp(Interp):
    concrete=False; inv_for=None
    def __init__(s,*a,**k):
        super().__init__(*a,**k); s.rowops=False; s.partial=[]; s.fver={}; s.memo={}; s.cuts=[]; s.cutlog=[]
    def run_loop(s,F,lp,st):
        if s.concrete: return super().run_loop(F,lp,st)
        s.inloop+=1
        try: return s.run_loop_(F,lp,st)
        finally: s.inloop-=1
    inloop=0
    def check_alive(s,st,p,ins,what):
        if st.known.get(('freed',p.obj)):
            s.fviol.append((s.where(ins),'release',f'{s.objs[p.obj].name} is used after its release',{})); raise Undecided('use after release')
        return super().check_alive(st,p,ins,what)
    def save(s): return [len(l) for l in(s.dead,s.soft,s.cutlog,s.noninv,s.partial,s.selfadd,s.fviol)]
    def restore(s,n):
        for l,k in zip((s.dead,s.soft,s.cutlog,s.noninv,s.partial,s.selfadd,s.fviol),n): del l[k:]
    def run_loop_(s,F,lp,st):
        invs=s.inv_for(F,lp) if s.inv_for else None
        if invs is None: return s.sym_loop(F,lp,st)
        if isinstance(invs,tuple):
            # summarise the loop where its iterations are independent
            sv=s.save(); nest=s.nest
            try: return s.sym_loop(F,lp,st.fork())
            except Undecided: s.restore(sv); s.nest=nest
            invs=invs[0]
        return s.cut_loop(F,lp,st,invs)
    # ---- summarised loops
    def trip(s,x,evs,kid):
        km={k:v for k,v in x.facts.sub.items() if k>kid and isinstance(Sym.keys[k],tuple) and Sym.keys[k][0]=='fresh' and Sym.keys[k][1]=='k'}
        return [vsub2(e,km) for e in evs] if km else evs
    def wrap_loop_events(s,x,mark,kid,k,tmpl):
        last=x.events(mark); x.ev=mark
        m=s.fmerge(tmpl,kid,k) if tmpl else ()
        if m:
            j=fresh('j'); jid=Sym.get(j); q={kid:Lin(((jid,1),),0)}
            x.event('loop',jid,ZL,k,(tuple(vsub2(e,q) for e in m),))
        for e in last: x.ev=(x.ev,e)
    def fmerge(s,tmpl,kid,k):
        alts=[]
        for x,evs,_ in tmpl:
            ops=[]; zs=set()
            for e in evs:
                if e[0]=='eop' and e[2][0]=='frd':
                    p=frozenset(Sym.keys[e[2][3].t[0][0]][1]) if isinstance(e[2][3],Lin) and e[2][3].t else None
                    if p is not None and x.facts.eq0(e[2][3]) and len(p)==1:
                        (mono,)=p
                        if len(mono)==1 and mono[0][0][0]=='a': zs.add(natom(x,mono[0][0]))
                    ops.append(e); continue
                if e[0]=='eop' and e[2][0]=='fz': zs.add(e[2][1]); continue
                if e[0]=='eop' and vanishes(x,e[2]): continue
                if e[0]=='loop' and not any(live(y) for a in e[4] for y in a):
                    ops.append(e); continue
                ops.append(e)
            alts.append((x,by_read(x,ops),zs))
        zs=set.intersection(*[a[2] for a in alts]) if alts else set()
        real=[[e for e in ops if live(e)] for _,ops,_ in alts]
        best=max(range(len(alts)),key=lambda i:len(real[i]))
        can=real[best]
        for i,(x,ops,_) in enumerate(alts):
            if i==best: continue
            mine={(e[1],x.facts.norm(e[2][1]),x.facts.norm(e[2][2])):e[2][3] for e in ops if e[0]=='eop' and e[2][0]=='frd'}
            def gone(e):
                if e[0]!='eop' or e[2][0]!='axpy': return False
                if vanishes_same(x,e[2]): return True
                f=e[2][2]
                if f and isinstance(f,tuple):
                    v=mine.get((e[1],x.facts.norm(f[1]),x.facts.norm(f[2]))); return v is not None and x.facts.eq0(v)
                return zero_factor(x,e[2])
            a=[norm_ev(x,e) for e in can if not gone(e)]; b=[norm_ev(x,e) for e in real[i]]
            if a!=b: raise Undecided('iterations of a loop operate differently')
        out=[]
        for e in can:
            if e[0]=='eop' and e[2][0]=='axpy' and len(alts)>1 and any(vanishes_same(x,e[2]) for i,(x,_,_) in enumerate(alts) if i!=best): e=('eop',e[1],e[2][:6]+(True,))
            out.append(e)
        # quantified zeros that come from inner loops common to all iterations
        inner=[e for e in alts[0][1] if e[0]=='loop' and not live(e)] if len(alts)==1 else []
        s.dependence(alts,out,kid,k)
        return tuple(out)+tuple(('eop',0,('fz',z)) for z in sorted(zs,key=str))+tuple(inner)
    def dependence(s,alts,can,kid,k):
        ws=[]
        for e in flat(can):
            r=wrows(e[2]) if e[2][0]!='loop' else None
            if e[2][0] in('havoc',): raise Undecided('dependence')
            if r is None: raise Undecided('a loop writes several rows at once')
            ws+=[(e[1],y,e[2]) for y in r]
        if not ws: return
        x=alts[0][0]; k2=S(fresh('kk')); both=[g for g in x.facts.ge if g.coef(kid) and all(a[0].facts.ge0(g) for a in alts)]
        cf={(sid,y.coef(kid),y-S_id(kid)*y.coef(kid)) for sid,y,_ in ws}
        for sid in {w[0] for w in ws}:
            if len({c for c in cf if c[0]==sid})!=1 or abs(next(c for c in cf if c[0]==sid)[1])<1: raise Undecided('dependence between the iterations of a loop')
        for y,ops,_ in alts:
            for e in flat(ops):
                if e[0]!='eop': continue
                op=e[2]; rd=[]
                if op[0]=='frd': rd=[(op[1],None)]
                elif op[0]=='axpy': rd=[(op[3][1],op)]
                elif op[0]=='rswap' : rd=[]
                elif op[0] in('scale','el','fz'): rd=[]
                elif op[0] in('set','add'):
                    rd=[(op[1][0]+op[2][1],None)] if op[2] and op[2][0]=='own' else []
                else: raise Undecided('dependence')
                for R,o in rd:
                    for sid,W,wo in ws:
                        if sid!=e[1]: continue
                        if y.facts.eq0(R-W): continue
                        W2=W.sub({kid:k2}); f=y.facts.add_ge(k2).add_ne(k2-Lin(((kid,1),),0)).add_eq(R-W2)
                        if f.infeasible(): continue
                        for g in both:
                            if not f.infeasible(): f=f.add_ge(g.sub({kid:k2}))
                        if f.infeasible(): continue
                        if wo[0]=='axpy' and y.facts.eq0(wo[3][1]-R) and kid not in deep_syms(R):
                            # the writer skips its own source row (checked where it is executed)
                            if any(vanishes_same(z,wo) for z,_,_ in alts) or wo[6]: continue
                        raise Undecided('dependence between the iterations of a loop')
    # ---- cut loops
    def cut_loop(s,F,lp,st,invs):
        hdr=F.blocks[lp.header]; phis=[I for I in hdr.instrs if I.op=='phi']; init={I.id:st.env[I.id] for I in phis}
        saved=s.exit_forks; s.exit_forks=None; fails=[]
        try:
            for inv in invs(s,F,lp,st,phis,init):
                sv=s.save()
                try: ex,prob=s.cut_try(F,lp,st,phis,init,inv)
                except Undecided as x: prob=[('undecided',str(x))]; ex=None
                if not prob: return ex
                fails.append((inv,prob)); s.restore(sv)
            inv,prob=min(fails,key=lambda f:len(f[1])) if fails else (None,[('undecided','no assignment of the loop variables')])
            raise Undecided(f'loop invariant in {F.name} ({hdr.instrs[0].line if hdr.instrs else "?"}): {prob[0]}'[:400])
        finally: s.exit_forks=saved
    def cut_try(s,F,lp,st,phis,init,inv):
        mods=set(); sids=set()
        for rnd in range(6):
            h=st.fork(); val={}
            for I in phis:
                v=init[I.id]
                if isinstance(v,Lin) and v.isc() and I.ty.k=='int' and I.id not in inv.ints and I.ty.bits>32: nv=S(fresh('v'))
                elif isinstance(v,Lin) or I.ty.k=='int': nv=S(fresh('v'))
                elif isinstance(v,Ptr): nv=Ptr(v.obj,v.sub,S(fresh('pv')))
                elif isinstance(v,Undef): nv=v
                else: raise Undecided('loop variable')
                h.env[I.id]=nv; val[I.id]=nv
            for o in mods:
                if o in h.mem: h.mem[o]=OS([('havoc','iteration')],h.sid,False,h.tok)
            h.tok=fresh('tok')
            ver={}
            for sid in sorted(sids|set(inv.sids)):
                ver[sid]=fresh('ver')[2]; h.event('eop',sid,('havoc',ver[sid])+(inv.rows if inv.rows else ()))
            inv.assume(s,h,val,ver)
            if h.facts.infeasible(): return [],[]
            mark=h.ev; base={o:len(x.layers) for o,x in h.mem.items()}
            exits,backs=s.region(F,lp,lp.header,[(None,h)],None)
            nm={o for _,x in backs for o in s.diff(x,base)}
            nsid={e[1] for _,x in backs for e in flat(x.events(mark)) if e[0]=='eop' and e[2][0] not in('frd','fz') and not isinstance(e[1],tuple)}
            if nm<=mods and nsid<=sids|set(inv.sids): break
            mods|=nm; sids|=nsid
        else: raise Undecided('loop effects do not stabilise')
        prob=inv.verify(s,st,init,'before the loop')
        if not prob:
            for frm,x in backs:
                nv={I.id:s.val(x,I.x[frm],F.mod) for I in phis}
                prob+=inv.verify(s,x,nv,'after an iteration')
                prob+=inv.step(s,x,h,val,nv,mark,ver) if hasattr(inv,'step') else []
        if not prob: s.cutlog.append((F.name,len(backs),str(inv)))
        return [(frm,to,x) for to,l in exits.items() for frm,x in l],prob
def fpoly(x):
    if x==ZL: return FZ
    if x==L(1): return FONE
    if isinstance(x,Lin) and len(x.t)==1 and x.c==0 and x.t[0][1]==1:
        k=Sym.keys[x.t[0][0]]
        if isinstance(k,tuple) and k[0]=='fel': return frozenset(k[1])
    return None
def by_read(x,ops):
    """factors that are the entry just read are named by its position"""
    out=[]; seen=[]
    for e in ops:
        if e[0]=='eop' and e[2][0]=='frd': seen.append((e[1],e[2]))
        elif e[0]=='eop' and e[2][0]=='axpy' and isinstance(e[2][2],frozenset):
            for sid,r in reversed(seen):
                p=fpoly(x.facts.norm(r[3]))
                if sid==e[1] and p and p!=FONE and renorm(x,p)==renorm(x,e[2][2]):
                    e=('eop',e[1],e[2][:2]+(('rd',r[1],r[2]),)+e[2][3:]); break
        out.append(e)
        if live(e): seen=[y for y in seen if e[0]=='eop' and y[0]!=e[1]]
    return out
def factor(I,st,p,sid,rest):
    if isinstance(p,tuple): yield from fread(I,st,sid,rest,p[1],p[2])
    else: yield st,renorm(st,p)
def _frame(s,x,mark,inv):
    out=[]; lo,hi=inv.rows
    def go(op,f,rng):
        if op[0]=='havoc' and len(op)==4: rs=[op[2],op[3]-1]
        elif op[0]=='proc': rs=[op[1],op[2]-1]
        elif op[0]=='loop':
            g=f.add_ge(S_id(op[1])-op[2]).add_ge(op[3]-1-S_id(op[1]))
            for y in op[4]: go(y,g,rng)
            return
        else: rs=wrows(op)
        if rs is None: out.append(('frame','writes several rows')); return
        for r in rs:
            if op[0] in('havoc','proc') and f.ge0(rs[0]-rs[1]-1): continue
            if not(f.ge0(r-lo) and f.ge0(hi-1-r)): out.append(('frame',f'row {f.norm(r)} is not proved inside {lo}..{hi}'))
    for e in x.events(mark):
        if e[0]=='eop' and not isinstance(e[1],tuple) and e[2][0] not in('frd','fz'): go(e[2],x.facts,None)
        elif e[0]=='loop' and live(e):
            for sid in {y[1] for y in flat([e]) if y[0]=='eop' and y[1]}: go(floop(e,sid),x.facts,None)
    return out
FInterp.frame=_frame
def S_id(k): return Lin(((k,1),),0)
def vsub2(v,m): return subp(v,m)
def live(e): return e[0]=='eop' and e[2][0] not in('frd','fz') or e[0]=='loop' and any(live(y) for a in e[4] for y in a) or e[0] not in('eop','loop')
def norm_ev(x,e):
    m=x.facts.sub; return vsub2(e,m)
def flat(evs):
    for e in evs:
        if e[0]=='loop':
            for a in e[4]: yield from flat(a)
        else: yield e
def zero_factor(x,op):
    p=op[2]; return isinstance(p,frozenset) and (not renorm(x,p) or x.facts.eq0(pack(renorm(x,p))))
def vanishes_same(x,op): return x.facts.eq0(op[1]-op[3][1]) and x.facts.eq0(op[3][2])
def vanishes(x,op):
    return op[0]=='axpy' and (zero_factor(x,op) or vanishes_same(x,op))
# ---------------------------------------------------------------- primitives
def f_prims(lay):
    n_=lambda I,st,x: st.facts.norm(I.to_lin(x))
    def V(nm,st,I,ins,conds):
        """the access must be possible"""
        for what,g in conds:
            g=st.facts.norm(g)
            if st.facts.ge0(g): continue
            if st.facts.ge0(-g-1): I.fviol.append((I.where(ins),'range',f'{nm}: {what}',witness(st.facts,[g])))
            raise Undecided(f'{nm}: {what} is not proved at {I.where(ins)}')
    def rng(I,st,v,r,c,ins,nm):
        V(nm,st,I,ins,[(f'row {r} of {v.nr}',r),(f'row {r} of {v.nr}',v.nr-1-r)]+([] if c is None else [(f'column {c} of {v.nc}',c),(f'column {c} of {v.nc}',v.nc-1-c)]))
    def readel(I,st,args,ins,name):
        v=fview(I,st,args[0],ins); r,c=n_(I,st,args[1]),n_(I,st,args[2]); rng(I,st,v,r,c,ins,name)
        out=[]
        for t,p in fread(I,st.fork(),v.sid,fops(st,v.sid),v.r0+r,v.c0+c):
            t=t.fork()
            if I.concrete and len(p)>1:
                # a fresh name for the value, so that its inverse is again a monomial
                a=('n',len(I.named)); I.named.append(p); p=fatom(a); emit(I,t,v.sid,('el',v.r0+r,v.c0+c,p,'set'),ins)
            x=t.facts.norm(pack(p)); t.event('eop',v.sid,('frd',t.facts.norm(v.r0+r),t.facts.norm(v.c0+c),x)); out.append((x,t))
        return out
    def writeel(mode):
        def f(I,st,args,ins,name):
            v=fview(I,st,args[0],ins); r,c=n_(I,st,args[1]),n_(I,st,args[2]); rng(I,st,v,r,c,ins,name)
            emit(I,st,v.sid,('el',v.r0+r,v.c0+c,unpack(I,st,args[3],ins),mode),ins); return [(UNDEF,st)]
        return f
    def scale(I,st,args,ins,name):
        v=fview(I,st,args[0],ins); r,c=n_(I,st,args[1]),n_(I,st,args[2]); rng(I,st,v,r,None,ins,name)
        x=args[3]; p=unpack(I,st,x,ins)
        fullrow(I,st,v,v.r0+r,c,ins)
        emit(I,st,v.sid,('scale',v.r0+r,p,v.c0+c,v.c0+v.nc),ins); invertible(I,st,v,p,ins); return [(UNDEF,st)]
    def fullrow(I,st,v,row,c,ins):
        """an operation that starts at column c acts on the whole row: the row is zero to the left"""
        if not I.rowops or st.facts.eq0(c): return
        t=st.fork(); j=S(fresh('j')); t.facts=t.facts.add_ge(j).add_ge(c-1-j)
        if t.facts.infeasible(): return
        for u,x in fread(I,t,v.sid,fops(t,v.sid),row,v.c0+j):
            if renorm(u,x) and not u.facts.infeasible(): I.partial.append(I.where(ins)); return
    def nonzero(st,p):
        if p==FONE: return True
        if len(p)!=1: return st.facts.ne0(pack(p))
        (m,)=p
        return all(e<0 or st.facts.ne0(pack(fatom(a))) for a,e in m)
    def invertible(I,st,v,p,ins):
        """the scaling of a row must be invertible"""
        if nonzero(st,p): return
        I.noninv.append(I.where(ins))
    def axpy(I,st,args,ins,name):
        A,ar,B,br=args[:4]; x=args[4] if name=='mzed_add_multiple_of_row' else L(1); c=n_(I,st,args[5] if name=='mzed_add_multiple_of_row' else args[4])
        u,v=fview(I,st,A,ins),fview(I,st,B,ins); ar,br=n_(I,st,ar),n_(I,st,br); rng(I,st,u,ar,None,ins,name); rng(I,st,v,br,None,ins,name)
        if u.sid!=v.sid: raise Undecided('row of another matrix at '+I.where(ins))
        d=u.r0+ar-v.r0-br; p=unpack(I,st,x,ins)
        if p: fullrow(I,st,v,v.r0+br,c,ins)
        emit(I,st,u.sid,('axpy',u.r0+ar,p,('own',v.r0+br,v.c0-u.c0),u.c0+c,u.c0+u.nc,False),ins)
        if st.facts.eq0(d):
            # (1+p) times the row
            I.noninv.append(I.where(ins)+': a multiple of a row is added to itself')
        elif not st.facts.ne0(d):
            t=st.fork(); t.facts=st.facts.add_eq(d)
            if not t.facts.infeasible() and not(not p): I.selfadd.append((I.where(ins),t.facts,d))
        return [(UNDEF,st)]
    def rswap(I,st,args,ins,name):
        v=fview(I,st,args[0],ins); a,b=n_(I,st,args[1]),n_(I,st,args[2]); rng(I,st,v,a,None,ins,name); rng(I,st,v,b,None,ins,name)
        emit(I,st,v.sid,('rswap',v.r0+a,v.r0+b,v.c0,v.c0+v.nc),ins); return [(UNDEF,st)]
    def cswap(I,st,args,ins,name):
        v=fview(I,st,args[0],ins); a,b=n_(I,st,args[1]),n_(I,st,args[2]); r0,r1=(n_(I,st,args[3]),n_(I,st,args[4])) if 'in_rows' in name else (ZL,v.nr)
        emit(I,st,v.sid,('cswap',v.c0+a,v.c0+b,v.r0+r0,v.r0+r1),ins); return [(UNDEF,st)]
    def new(I,st,r,c,ff,fmt,ins): return heap(I,st,mk_fm(I,st,f'new{I.nobj}@{I.where(ins)}',ff,r,c,fmt,zero=True),'mzed' if fmt=='p' else 'slice')
    def ffof(I,st,p,fmt): return I.load(st,p.at(lay('mzed_t' if fmt=='p' else 'mzd_slice_t','finite_field')),PTR)
    def init(fmt):
        def f(I,st,args,ins,name): return [(new(I,st,n_(I,st,args[1]),n_(I,st,args[2]),args[0],fmt,ins),st)]
        return f
    def window(fmt):
        def f(I,st,args,ins,name):
            v=fview(I,st,args[0],ins); r0,c0,r1,c1=(n_(I,st,x) for x in args[1:5])
            V(name,st,I,ins,[('first row',r0),('first column',c0),('last row',v.nr-r1),('last column',v.nc-c1),('row order',r1-r0),('column order',c1-c0)])
            p=mk_fm(I,st,f'win{I.nobj}@{I.where(ins)}',ffof(I,st,args[0],fmt),st.facts.norm(r1-r0),st.facts.norm(c1-c0),fmt,v.sid,st.facts.norm(v.r0+r0),st.facts.norm(v.c0+c0))
            return [(heap(I,st,p,'window'),st)]
        return f
    def free(I,st,args,ins,name):
        fview(I,st,args[0],ins) if args[0]!=NULL else None
        do_free(I,st,args[0],ins,name); return [(UNDEF,st)]
    def setui(fmt):
        def f(I,st,args,ins,name):
            v=fview(I,st,args[0],ins); p=unpack(I,st,I.to_lin(args[1]) if not isinstance(args[1],Word) else args[1],ins)
            emit(I,st,v.sid,('set',v.rect,('id',v.r0,v.c0,p) if p else None),ins); return [(UNDEF,st)]
        return f
    def copy(fmt):
        def f(I,st,args,ins,name):
            C,A=args; a=fview(I,st,A,ins)
            if C==NULL: C=new(I,st,a.nr,a.nc,ffof(I,st,A,fmt),fmt,ins)
            c=fview(I,st,C,ins); V(name,st,I,ins,[('rows',c.nr-a.nr),('rows',a.nr-c.nr),('columns',c.nc-a.nc),('columns',a.nc-c.nc)])
            emit(I,st,c.sid,('set',c.rect,snap(I,st,a,c,ins)),ins); return [(C,st)]
        return f
    def conv(to):
        def f(I,st,args,ins,name):
            C,A=args; a=fview(I,st,A,ins)
            if C==NULL: C=new(I,st,a.nr,a.nc,ffof(I,st,A,'s' if to=='p' else 'p'),to,ins)
            c=fview(I,st,C,ins); V(name,st,I,ins,[('rows',c.nr-a.nr),('rows',a.nr-c.nr),('columns',c.nc-a.nc),('columns',a.nc-c.nc)])
            emit(I,st,c.sid,('set',c.rect,snap(I,st,a,c,ins)),ins); return [(C,st)]
        return f
    def submatrix(fmt):
        def f(I,st,args,ins,name):
            C,A=args[:2]; v=fview(I,st,A,ins); r0,c0,r1,c1=(n_(I,st,x) for x in args[2:6])
            V(name,st,I,ins,[('first row',r0),('first column',c0),('last row',v.nr-r1),('last column',v.nc-c1),('row order',r1-r0),('column order',c1-c0)])
            a=FV(v.sid,v.r0+r0,v.c0+c0,st.facts.norm(r1-r0),st.facts.norm(c1-c0))
            if C==NULL: C=new(I,st,a.nr,a.nc,ffof(I,st,A,fmt),fmt,ins)
            c=fview(I,st,C,ins); V(name,st,I,ins,[('rows',c.nr-a.nr),('rows',a.nr-c.nr),('columns',c.nc-a.nc),('columns',a.nc-c.nc)])
            emit(I,st,c.sid,('set',c.rect,snap(I,st,a,c,ins)),ins); return [(C,st)]
        return f
    def concat(fmt):
        def f(I,st,args,ins,name):
            C,A,B=args; a,b=fview(I,st,A,ins),fview(I,st,B,ins); V(name,st,I,ins,[('rows',a.nr-b.nr),('rows',b.nr-a.nr)])
            if C==NULL: C=new(I,st,a.nr,st.facts.norm(a.nc+b.nc),ffof(I,st,A,fmt),fmt,ins)
            c=fview(I,st,C,ins); V(name,st,I,ins,[('rows',c.nr-a.nr),('rows',a.nr-c.nr),('columns',c.nc-a.nc-b.nc),('columns',a.nc+b.nc-c.nc)])
            l=FV(c.sid,c.r0,c.c0,a.nr,a.nc); r=FV(c.sid,c.r0,c.c0+a.nc,b.nr,b.nc)
            emit(I,st,c.sid,('set',l.rect,snap(I,st,a,l,ins)),ins); emit(I,st,c.sid,('set',r.rect,snap(I,st,b,r,ins)),ins); return [(C,st)]
        return f
    def ffinv(I,st,args,ins,name):
        p=unpack(I,st,args[1],ins)
        if p==FONE: return [(L(1),st)]
        if len(p)!=1: raise Undecided('inverse of a sum at '+I.where(ins))
        (m,)=p
        return [(pack(frozenset([tuple((a,-e) for a,e in m)])),st)]
    def ffmul(I,st,args,ins,name):
        return [(st.facts.norm(pack(fmul(unpack(I,st,args[1],ins),unpack(I,st,args[2],ins)))),st)]
    # ---- tables of multiples
    def tinit(I,st,args,ins,name):
        T=I.new(st,f'table{I.nobj}','njt',None); o=I.objs[T.obj]; e=I.objs[args[0].obj].info['degree']; w=w_of(e)
        x=mk_mzd(I,st,lay,'T.x',L(1<<e),n_(I,st,args[1])*w,data=I.new(st,'T.words','emwords',None)); I.objs[x.obj].info['njt']=T.obj
        TT=I.new(st,'T.T','mzed',None); setf(I,st,TT,lay,'mzed_t','x',x,8); setf(I,st,TT,lay,'mzed_t','ncols',n_(I,st,args[1]),4); setf(I,st,TT,lay,'mzed_t','nrows',L(1<<e),4)
        Lp=I.new(st,'T.L','njtl',None); I.objs[Lp.obj].info['njt']=T.obj
        setf(I,st,T,lay,'njt_mzed_t','T',TT,8); setf(I,st,T,lay,'njt_mzed_t','L',Lp,8); o.info.update(ncols=n_(I,st,args[1]),x=x,L=Lp)
        return [(heap(I,st,T,'njt'),st)]
    def mktab(I,st,args,ins,name):
        T,A,r,c=args
        if T==NULL: raise Undecided('table without object at '+I.where(ins))
        v=fview(I,st,A,ins); r,c=n_(I,st,r),n_(I,st,c); rng(I,st,v,r,None,ins,name); V(name,st,I,ins,[('start column',c),('start column',v.nc-1-c)])
        o=I.objs[T.obj]
        if not st.facts.eq0(o.info['ncols']-v.nc): raise Undecided('width of the table')
        I.check_alive(st,T,ins,'use')
        st.event('eop',('njt',T.obj),('tab',v.sid,L(len(fops(st,v.sid))),v.r0+r,v.c0+c,v.c0)); return [(T,st)]
    def proc(I,st,args,ins,name):
        M,r0,r1,bc,kb=args[:5]; tabs=args[5:]; i=I.objs[M.obj].info if isinstance(M,Ptr) else {}
        v=i.get('fm'); 
        if v is None or i.get('fmt')!='p': raise Undecided('unresolved matrix at '+I.where(ins))
        v=fview(I,st,M,ins); w=i['w']; r0,r1,bc,kb=(n_(I,st,x) for x in(r0,r1,bc,kb))
        N=len(tabs)//2
        def div(x):
            if x.c%w or any(q%w for _,q in x.t): raise Undecided('position inside an entry')
            return Lin(tuple((k,q//w) for k,q in x.t),x.c//w)
        c=div(bc)
        if not kb.isc(): raise Undecided('number of bits')
        if kb.c!=N*w: I.fviol.append((I.where(ins),'table use',f'{name}: {kb.c} bits are read for {N} entries of {w} bits',{})); raise Undecided('bits')
        T=[]
        for j in range(N):
            x,l=tabs[2*j],tabs[2*j+1]; a=I.objs[x.obj].info.get('njt'); b=I.objs[l.obj].info.get('njt')
            if a is None or b is None: raise Undecided('table at '+I.where(ins))
            if a!=b: I.fviol.append((I.where(ins),'table use',f'{name}: table {j} is used with the index array of another table',{})); raise Undecided('tables')
            ev=[e for e in st.events() if e[0]=='eop' and e[1]==('njt',a)]
            if not ev: I.fviol.append((I.where(ins),'table use',f'{name}: table {j} was never filled',{})); raise Undecided('tables')
            _,sid,n0,row,tc,vc0=ev[-1][2]
            if sid!=v.sid: raise Undecided('table of another matrix')
            if not st.facts.ge0(tc-v.c0-c):
                # the words before the first processed word are not added
                raise Undecided('the table starts before the processed columns')
            T.append((row,n0.c,tc,v.c0-vc0))
        V(name,st,I,ins,[('last column',v.nc-c-N),('first row',r0)])
        if not st.facts.ge0(v.nr-r1): V(name,st,I,ins,[('last row',v.nr-r1)])
        # own source rows must be outside
        for row,n0,tc,dc in T:
            rr=row-v.r0
            if not(st.facts.ge0(r0-1-rr) or st.facts.ge0(rr-r1)):
                t=st.fork(); t.facts=t.facts.add_ge(rr-r0).add_ge(r1-1-rr)
                if not t.facts.infeasible(): I.selfadd.append((I.where(ins),t.facts,rr))
        emit(I,st,v.sid,('proc',v.r0+r0,v.r0+r1,v.c0+c,tuple(T)),ins); return [(UNDEF,st)]
    def optk(I,st,args,ins,name):
        k=S(fresh('optk')); st.facts=st.facts.add_ge(k-1).add_ge(L(16)-k); return [(k,st)]
    def tfree(I,st,args,ins,name): do_free(I,st,args[0],ins,name); return [(UNDEF,st)]
    def cmp_(I,st,args,ins,name):
        q=S(fresh('cmp')); st.event('cmp',q,fview(I,st,args[0],ins),fview(I,st,args[1],ins),tuple(EM(x.sid,fops(st,x.sid)) for x in(fview(I,st,args[0],ins),fview(I,st,args[1],ins)))); return [(q,st)]
    d={'mzed_read_elem':readel,'mzed_write_elem':writeel('set'),'mzed_add_elem':writeel('add'),'mzed_rescale_row':scale,'mzed_add_multiple_of_row':axpy,'mzed_add_row':axpy,
     'mzed_row_swap':rswap,'mzd_row_swap':rswap,'mzed_col_swap':cswap,'mzed_col_swap_in_rows':cswap,'mzed_init':init('p'),'mzed_init_window':window('p'),'mzed_free':free,'mzed_free_window':free,
     'mzed_set_ui':setui('p'),'mzed_copy':copy('p'),'mzed_slice':conv('s'),'mzed_cling':conv('p'),'mzed_submatrix':submatrix('p'),'mzed_concat':concat('p'),'gf2e_inv':ffinv,'<ff.inv>':ffinv,'<ff.mul>':ffmul,
     'njt_mzed_init':tinit,'njt_mzed_free':tfree,'mzed_make_table':mktab,'m4ri_opt_k':optk,'mzed_cmp':cmp_,
     'mzd_slice_read_elem':readel,'mzd_slice_write_elem':writeel('set'),'mzd_slice_add_elem':writeel('add'),'mzd_slice_row_swap':rswap,'mzd_slice_col_swap':cswap,'mzd_slice_col_swap_in_rows':cswap,
     'mzd_slice_init':init('s'),'mzd_slice_init_window':window('s'),'mzd_slice_free':free,'mzd_slice_free_window':free,'mzd_slice_set_ui':setui('s'),'mzd_slice_copy':copy('s'),'mzd_slice_submatrix':submatrix('s'),'mzd_slice_concat':concat('s')}
    for k in('','2','3','4','5','6'): d['mzd_process_rows'+k]=proc
    return d
def fmachine(ctx,e,concrete=False,extra=None):
    I=FInterp(ctx.prog,{**BASE,**f_prims(ctx.lay)}); I.lay=ctx.lay; I.sites={}; I.fviol=[]; I.noninv=[]; I.selfadd=[]; I.named=[]; I.concrete=concrete
    I.unroll_max=100000 if concrete else 0
    if extra: I.prims.update(extra)
    def st_hook(I,st,oid,addr,size,v,ins):
        if I.objs[oid].kind in('emwords','fstore'): raise Undecided('direct access to the words of a matrix at '+I.where(ins))
    I.on_store=st_hook
    st=State(); ff=mk_ff(I,st,ctx.lay,e)
    return I,st,ff
