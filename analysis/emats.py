"""Element function domain: the content of a bit matrix storage is a list of operations over its initial content; it is read back at a generic
(row, bit column) by case analysis (symbolic positions, splits under affine facts), so two programs that build the same matrix by different
operations have the same meaning.  Matrices are views (storage, row offset, column offset) - windows alias their base."""
from rows import *
CELL=((),ZL)
class EM:
    """content: operations applied to the initial content of storage sid (oldest first)"""
    __slots__=('sid','ops','h')
    def __init__(s,sid,ops=()): s.sid=sid; s.ops=ops; s.h=hash((sid,ops))
    def __eq__(s,o): return isinstance(o,EM) and s.sid==o.sid and s.ops==o.ops
    def __ne__(s,o): return not s==o
    def __hash__(s): return s.h
    def sub(s,m): return s
    def __repr__(s): return f'EM({s.sid},{len(s.ops)} ops)'
def mk_estore(I,st,name,rows,bits,zero=False,lane=None):
    def init(I,st,o,addr,ty):
        return EM(o.id) if addr==CELL else None
    return I.new(st,name+'.store','estore',init,nm=name,rows=rows,bits=bits,zero=zero,lane=lane)
def mk_emzd(I,st,lay,name,rows,bits,store=None,r0=ZL,c0=ZL,zero=False,lane=None):
    if store is None: store=mk_estore(I,st,name,rows,bits,zero,lane)
    words=I.new(st,name+'.words','emwords',None)
    p=mk_mzd(I,st,lay,name,rows,bits,data=words)
    I.objs[p.obj].info.update(em=True,sid=store.obj,er0=r0,ec0=c0,erows=rows,ebits=bits)
    return p
class EV:  # hashable view
    __slots__=('sid','r0','c0','nr','nc')
    def __init__(s,sid,r0,c0,nr,nc): s.sid=sid; s.r0=r0; s.c0=c0; s.nr=nr; s.nc=nc
    @property
    def rect(s): return (s.r0,s.r0+s.nr,s.c0,s.c0+s.nc)
    def key(s): return (s.sid,s.r0,s.c0,s.nr,s.nc)
    def __eq__(s,o): return isinstance(o,EV) and s.key()==o.key()
    def __hash__(s): return hash(s.key())
def eview(I,st,p,ins=None):
    if not isinstance(p,Ptr) or p.obj==0 or not I.objs[p.obj].info.get('em'): raise null_use(p,st,'unresolved matrix at '+I.where(ins))
    I.check_alive(st,p,ins,'use')
    i=I.objs[p.obj].info; n=st.facts.norm
    return EV(i['sid'],n(i['er0']),n(i['ec0']),n(i['erows']),n(i['ebits']))
def content(I,st,sid,snapshot=True):
    """content according to the trace"""
    if getattr(I,'nest',0) and snapshot: I.loopreads.add(sid)
    ops=[]
    for e in st.events():
        if e[0]=='eop' and e[1]==sid: ops.append(e[2])
        elif e[0]=='loop' and has_eop(e,sid):
            if sid in I.loopreads: raise Undecided('a matrix is read and written in a loop')
            ops.append(loop_op(e,sid))
    return EM(sid,tuple(ops))
def loop_op(e,sid):
    _,kid,lo,hi,alts=e; subs=[]
    for a in alts:
        l=[]
        for x in a:
            if x[0]=='eop' and x[1]==sid: l.append(x[2])
            elif x[0]=='loop' and has_eop(x,sid): l.append(loop_op(x,sid))
        subs.append(tuple(l))
    if any(x!=subs[0] for x in subs): raise Undecided('iterations of a loop operate differently')
    return ('loop',kid,lo,hi,subs[0])
def op_rows(op):
    """the only row an operation touches, or None"""
    if op[0]=='rect': return op[1][0] if op[1][1]-op[1][0]==L(1) else None
    if op[0]=='bits': return op[1]
    if op[0]=='cswap': return op[3] if op[4]-op[3]==L(1) else None
    if op[0]=='loop':
        r=[op_rows(x) for x in op[4]]
        return r[0] if r and all(x is not None and x==r[0] for x in r) and op[1] not in deep_syms(r[0]) else None
    return None
def op_subst(op,m):
    return vsubst(op,m)
def read_loop(I,st,rest,op,r,c):
    _,kid,lo,hi,body=op
    lo,hi=st.facts.norm(lo),st.facts.norm(hi)
    for q in {*dict(lo.t),*dict(hi.t)}:
        # number of iterations of a loop that was judged inside another one: nothing is known about it here
        if isinstance(Sym.keys[q],tuple) and Sym.keys[q][:2]==('fresh','k') and not any(q in dict(x.t) for x in st.facts.ge): raise Undecided('trip count of an inner loop')
    one=Lin(((kid,1),),0); rows=[op_rows(x) for x in body]
    if rows and all(x is not None and x==rows[0] for x in rows) and dict(rows[0].t).get(kid)==1 and kid not in deep_syms(rows[0]-one):
        k=r-(rows[0]-one)
    elif all(x[0]=='bits' for x in body) and body and len({(x[2],x[3]) for x in body})==1:
        y,n=body[0][2],body[0][3]; cf=dict(y.t).get(kid,0)
        if cf<=0 or kid in deep_syms(y-one*cf) or n>cf: raise Undecided('loop of operations on overlapping columns')
        k=None; c=st.facts.norm(c)
        for j in range(n):
            d=st.facts.norm(c-(y-one*cf)-j)
            if d.c%cf==0 and all(v%cf==0 for _,v in d.t): k=Lin(tuple((q,v//cf) for q,v in d.t),d.c//cf); break
        if k is None:
            if n==cf: raise Undecided('column position in a loop')
            yield from read(I,st,rest,r,c); return
    else: raise Undecided('loop of operations that touch several rows')
    for ok,t in split2(st,k-lo):
        if not ok: yield from read(I,t,rest,r,c); continue
        for ok2,u in split2(t,hi-1-k):
            if not ok2: yield from read(I,u,rest,r,c)
            else: yield from read(I,u,EM(rest.sid,rest.ops+tuple(op_subst(x,{kid:k}) for x in body)),r,c)
def apply(I,st,sid,op,ins=None):
    I.sites.setdefault(sid,[]).append(I.where(ins)); st.event('eop',sid,op)
def has_eop(e,sid=None):
    return e[0]=='eop' and sid in(None,e[1]) or e[0]=='loop' and any(has_eop(x,sid) for a in e[4] for x in a)
# ---------------------------------------------------------------- reading
def inside(st,r,c,rect):
    r0,r1,c0,c1=rect
    conds=[r-r0,r1-1-r,c-c0,c1-1-c]
    def go(i,s):
        if i==len(conds): yield True,s; return
        for ok,t in split2(s,conds[i]):
            if ok: yield from go(i+1,t)
            else: yield False,t
    yield from go(0,st)
def base(I,st,sid,r,c):
    o=I.objs[sid]
    if o.info['zero']: return ZERO
    l=o.info['lane']; r,c=st.facts.norm(r),st.facts.norm(c)
    if l:
        w,e=l
        k=c.c%w if all(v%w==0 for _,v in c.t) else None
        if k is None: raise Undecided(f'column {c} has no fixed position in its entry')
        if k>=e: return ZERO
    return atom(('m',o.info['nm'],r,c))
LIM=6000
def read(I,st,m,r,c):
    """cases (state, bit) of content m at bit (r,c)"""
    if not m.ops: yield st,base(I,st,m.sid,r,c); return
    op=m.ops[-1]; rest=EM(m.sid,m.ops[:-1]); k=op[0]
    I.reads=getattr(I,'reads',0)+1
    if I.reads>LIM: raise Undecided('too many cases')
    if k=='rect':
        _,rect,mode,src=op
        for ok,t in inside(st,r,c,rect):
            if not ok: yield from read(I,t,rest,r,c); continue
            for u,x in source(I,t,src,r,c):
                if mode=='set': yield u,x
                else:
                    for v,y in read(I,u,rest,r,c): yield v,padd(x,y)
    elif k=='rswap':
        _,a,b,c0,c1=op
        for ok,t in inside(st,r,c,(r,r+1,c0,c1)):
            if not ok: yield from read(I,t,rest,r,c); continue
            for s1,u in split(t,r-a):
                if s1==0: yield from read(I,u,rest,b,c); continue
                for s2,v in split(u,r-b):
                    yield from read(I,v,rest,a if s2==0 else r,c)
    elif k=='cswap':
        _,a,b,r0,r1=op
        for s1,t in splitc(st,c-a):
            if s1==0:
                for ok,u in inside(t,r,c,(r0,r1,c,c+1)): yield from read(I,u,rest,r,b if ok else c)
                continue
            for s2,u in splitc(t,c-b):
                if s2:
                    yield from read(I,u,rest,r,c); continue
                for ok,v in inside(u,r,c,(r0,r1,c,c+1)): yield from read(I,v,rest,r,a if ok else c)
    elif k=='bits':
        _,rr,y,n,word,mode=op
        for s1,t in split(st,r-rr):
            if s1: yield from read(I,t,rest,r,c); continue
            yield from readbits(I,t,rest,r,c,y,n,word,mode,0)
    elif k=='eldiag':
        # entries on the diagonal of the view get the given word
        _,v,w,word=op; c=st.facts.norm(c-v.c0); b=c.c%w
        if any(x%w for _,x in c.t): raise Undecided('column position')
        g=Lin(tuple((q,x//w) for q,x in c.t),(c.c-b)//w)
        for ok,t in inside(st,r,c+v.c0,v.rect):
            if not ok: yield from read(I,t,rest,r,c+v.c0); continue
            for s,u in split(t,r-v.r0-g):
                if s: yield from read(I,u,rest,r,c+v.c0)
                else: yield u,word.b[b]
    elif k=='loop': yield from read_loop(I,st,rest,op,r,c)
    elif k=='perm':
        _,kind,P,v=op
        for ok,t in inside(st,r,c,v.rect):
            if not ok: yield from read(I,t,rest,r,c); continue
            n=t.facts.norm
            if kind.startswith('left'):
                q=S(('perm',kind,P,n(r-v.r0),n(v.nr)))
                u=t.fork(); u.facts=u.facts.add_ge(q).add_ge(v.nr-1-q); yield from read(I,u,rest,v.r0+q,c)
            else:
                q=S(('perm',kind,P,n(c-v.c0),n(v.nc))) if not kind.endswith('tri') else S(('perm',kind,P,n(c-v.c0),n(v.nc),n(r-v.r0)))
                u=t.fork(); u.facts=u.facts.add_ge(q).add_ge(v.nc-1-q); yield from read(I,u,rest,r,v.c0+q)
    elif k=='op':
        _,name,args,v=op
        for ok,t in inside(st,r,c,v.rect):
            if not ok: yield from read(I,t,rest,r,c); continue
            n=t.facts.norm
            if rest.ops: raise Undecided(f'{name} after other operations')
            yield t,atom(('op',name,tuple(map(n,args)),I.objs[m.sid].info['nm'],n(r-v.r0),n(c-v.c0)))
    else: raise Undecided('operation '+k)
def splitc(st,e):
    """like split, with a gcd test for equality"""
    e=st.facts.norm(e)
    if e.t:
        g=0
        from math import gcd
        for _,v in e.t: g=gcd(g,v)
        if e.c%g: yield 1,st; return
    z=st.fork(); 
    if st.facts.eq0(e): z.facts=st.facts.add_eq(e); yield 0,z; return
    if st.facts.ne0(e): yield 1,st; return
    z.facts=st.facts.add_eq(e)
    if not z.facts.infeasible(): yield 0,z
    u=st.fork(); u.facts=st.facts.add_ne(e) if hasattr(st.facts,'add_ne') else st.facts
    yield 1,u
def readbits(I,st,rest,r,c,y,n,word,mode,i):
    if i==n:
        yield from read(I,st,rest,r,c); return
    for s1,t in splitc(st,c-(y+i)):
        if s1: yield from readbits(I,t,rest,r,c,y,n,word,mode,i+1); continue
        b=word.b[i] if word is not None else ZERO
        if mode=='w': yield t,b
        elif mode=='clr': yield t,ZERO
        else:
            for u,x in read(I,t,rest,r,c): yield u,padd(x,b)
def source(I,st,src,r,c):
    if src is None: yield st,ZERO
    elif src[0]=='m':
        _,m,dr,dc=src; yield from read(I,st,m,r+dr,c+dc)
    elif src[0]=='diag':
        _,r0,c0,bit=src
        for s,t in split(st,(r-r0)-(c-c0)): yield t,bit if s==0 else ZERO
    elif src[0]=='sum':
        for t,x in source(I,st,src[1],r,c):
            for u,y in source(I,t,src[2],r,c): yield u,padd(x,y)
# ---------------------------------------------------------------- primitives
def em_prims(lay):
    n_=lambda I,st,x: st.facts.norm(I.to_lin(x))
    def new(I,st,r,c,ins):
        p=mk_emzd(I,st,lay,f'new{I.nobj}@{I.where(ins)}',r,c,zero=True); I.objs[p.obj].info['fresh']=True
        return heap(I,st,p,'mzd')
    def same(I,st,a,b,ins,what):
        d=st.facts.norm(a-b)
        if st.facts.eq0(d): return True
        if st.facts.ne0(d): st.event('die',I.where(ins),what); I.dead.append(st); return False
        t=st.fork(); t.facts=st.facts.add_ne(d) if hasattr(st.facts,'add_ne') else st.facts; t.event('die',I.where(ins),what); I.dead.append(t)
        st.facts=st.facts.add_eq(d); return not st.facts.infeasible()
    def atleast(I,st,a,b,ins,what):
        """a >= b, or the program stops"""
        d=st.facts.norm(a-b)
        t=st.fork(); t.facts=st.facts.add_ge(-d-1)
        if not t.facts.infeasible(): t.event('die',I.where(ins),what); I.dead.append(t)
        st.facts=st.facts.add_ge(d); return not st.facts.infeasible()
    def snap(I,st,v,to_r,to_c): return ('m',content(I,st,v.sid),v.r0-to_r,v.c0-to_c)
    def setrect(I,st,sid,rect,src,ins,mode='set'): apply(I,st,sid,('rect',rect,mode,src),ins)
    def inrow(I,st,v,ins,name,*rows):
        for r in rows: I.must(st,ins,f'{name}: row of {I.objs[v.sid].info["nm"]}',(r,v.nr-1-r))
    def incol(I,st,v,ins,name,*cols):
        for c in cols: I.must(st,ins,f'{name}: bit column of {I.objs[v.sid].info["nm"]}',(c,v.nc-1-c))
    def inrange(I,st,v,ins,name,r0,c0,r1,c1): I.must(st,ins,f'{name}: range of {I.objs[v.sid].info["nm"]}',(r0,c0,r1-r0,c1-c0,v.nr-r1,v.nc-c1))
    def p_init(I,st,args,ins,name):
        return [(new(I,st,n_(I,st,args[0]),n_(I,st,args[1]),ins),st)]
    def p_window(I,st,args,ins,name):
        v=eview(I,st,args[0],ins); r0,c0,r1,c1=(n_(I,st,x) for x in args[1:5])
        inrange(I,st,v,ins,name,r0,c0,r1,c1)
        p=mk_emzd(I,st,lay,f'win{I.nobj}@{I.where(ins)}',st.facts.norm(r1-r0),st.facts.norm(c1-c0),Ptr(v.sid,(),ZL),v.r0+r0,v.c0+c0)
        return [(heap(I,st,p,'window'),st)]
    def p_copy(I,st,args,ins,name):
        C,A=args; a=eview(I,st,A,ins)
        if C==A: return [(C,st)]
        if C==NULL: C=new(I,st,a.nr,a.nc,ins)
        c=eview(I,st,C,ins)
        # m4ri copies into targets that are at least as large
        if not(atleast(I,st,c.nr,a.nr,ins,'copy') and atleast(I,st,c.nc,a.nc,ins,'copy')): return []
        setrect(I,st,c.sid,(c.r0,c.r0+a.nr,c.c0,c.c0+a.nc),snap(I,st,a,c.r0,c.c0),ins); return [(C,st)]
    def p_add(I,st,args,ins,name):
        C,A,B=args; a,b=eview(I,st,A,ins),eview(I,st,B,ins)
        if not(same(I,st,a.nr,b.nr,ins,'add') and same(I,st,a.nc,b.nc,ins,'add')): return []
        if C==NULL: C=new(I,st,a.nr,a.nc,ins)
        c=eview(I,st,C,ins)
        if not(same(I,st,c.nr,a.nr,ins,'add') and same(I,st,c.nc,a.nc,ins,'add')): return []
        setrect(I,st,c.sid,c.rect,('sum',snap(I,st,a,c.r0,c.c0),snap(I,st,b,c.r0,c.c0)),ins); return [(C,st)]
    def p_join(side):
        def f(I,st,args,ins,name):
            C,A,B=args; a,b=eview(I,st,A,ins),eview(I,st,B,ins)
            if side:
                if not same(I,st,a.nr,b.nr,ins,'concat'): return []
                nr,nc=a.nr,a.nc+b.nc
            else:
                if not same(I,st,a.nc,b.nc,ins,'stack'): return []
                nr,nc=a.nr+b.nr,a.nc
            if C==NULL: C=new(I,st,nr,nc,ins)
            c=eview(I,st,C,ins)
            if not(same(I,st,c.nr,nr,ins,'join') and same(I,st,c.nc,nc,ins,'join')): return []
            sa=snap(I,st,a,c.r0,c.c0); 
            if side: sb=snap(I,st,b,c.r0,c.c0+a.nc); rb=(c.r0,c.r0+c.nr,c.c0+a.nc,c.c0+c.nc); ra=(c.r0,c.r0+c.nr,c.c0,c.c0+a.nc)
            else: sb=snap(I,st,b,c.r0+a.nr,c.c0); rb=(c.r0+a.nr,c.r0+c.nr,c.c0,c.c0+c.nc); ra=(c.r0,c.r0+a.nr,c.c0,c.c0+c.nc)
            setrect(I,st,c.sid,ra,sa,ins); setrect(I,st,c.sid,rb,sb,ins); return [(C,st)]
        return f
    def p_sub(I,st,args,ins,name):
        S_,M=args[:2]; v=eview(I,st,M,ins); r0,c0,r1,c1=(n_(I,st,x) for x in args[2:6]); inrange(I,st,v,ins,name,r0,c0,r1,c1)
        if S_==NULL: S_=new(I,st,st.facts.norm(r1-r0),st.facts.norm(c1-c0),ins)
        s=eview(I,st,S_,ins)
        # m4ri stops when the target is smaller than the range
        if not(same(I,st,s.nr,r1-r0,ins,'submatrix') and same(I,st,s.nc,c1-c0,ins,'submatrix')): return []
        setrect(I,st,s.sid,s.rect,('m',content(I,st,v.sid),v.r0+r0-s.r0,v.c0+c0-s.c0),ins); return [(S_,st)]
    def p_set(I,st,args,ins,name):
        v=eview(I,st,args[0],ins); w=st.norm(I.to_word(args[1],32,st)); b=w.b[0]
        setrect(I,st,v.sid,v.rect,('diag',v.r0,v.c0,b) if b else None,ins); return [(UNDEF,st)]
    def rowok(I,st,v,r,ins): pass
    def p_rswap(I,st,args,ins,name):
        v=eview(I,st,args[0],ins); a,b=(n_(I,st,x) for x in args[1:3]); inrow(I,st,v,ins,name,a,b)
        apply(I,st,v.sid,('rswap',v.r0+a,v.r0+b,v.c0,v.c0+v.nc),ins); return [(UNDEF,st)]
    def p_cswap(I,st,args,ins,name):
        v=eview(I,st,args[0],ins); a,b=(n_(I,st,x) for x in args[1:3])
        if name=='mzd_col_swap_in_rows': r0,r1=(n_(I,st,x) for x in args[3:5])
        else: r0,r1=ZL,v.nr
        incol(I,st,v,ins,name,a,b); I.must(st,ins,f'{name}: rows of {I.objs[v.sid].info["nm"]}',(r0,v.nr-r1))
        apply(I,st,v.sid,('cswap',v.c0+a,v.c0+b,v.r0+r0,v.r0+r1),ins); return [(UNDEF,st)]
    def p_rowadd(I,st,args,ins,name):
        v=eview(I,st,args[0],ins); s,d=(n_(I,st,x) for x in args[1:3]); off=ZL
        if name=='mzd_row_add_offset': s,d=d,s; off=n_(I,st,args[3])
        inrow(I,st,v,ins,name,s,d)
        setrect(I,st,v.sid,(v.r0+d,v.r0+d+1,v.c0+off,v.c0+v.nc),('m',content(I,st,v.sid),s-d,ZL),ins,'xor'); return [(UNDEF,st)]
    def p_copyrow(I,st,args,ins,name):
        B,i,A,j=args; b,a=eview(I,st,B,ins),eview(I,st,A,ins); i,j=n_(I,st,i),n_(I,st,j); inrow(I,st,b,ins,name,i); inrow(I,st,a,ins,name,j)
        setrect(I,st,b.sid,(b.r0+i,b.r0+i+1,b.c0,b.c0+a.nc),('m',content(I,st,a.sid),a.r0+j-b.r0-i,a.c0-b.c0),ins); return [(UNDEF,st)]
    def p_rowclear(I,st,args,ins,name):
        v=eview(I,st,args[0],ins); r,c=(n_(I,st,x) for x in args[1:3]); inrow(I,st,v,ins,name,r); I.must(st,ins,f'{name}: bit column of {I.objs[v.sid].info["nm"]}',(c,v.nc-c))
        setrect(I,st,v.sid,(v.r0+r,v.r0+r+1,v.c0+c,v.c0+v.nc),None,ins); return [(UNDEF,st)]
    def p_readbit(I,st,args,ins,name):
        v=eview(I,st,args[0],ins); r,c=(n_(I,st,x) for x in args[1:3]); n=1
        if name in('__mzd_read_bits','mzd_read_bits','mzd_read_bits_int'): n=n_(I,st,args[3]).c if n_(I,st,args[3]).isc() else None
        if n is None: raise Undecided('number of bits at '+I.where(ins))
        inrow(I,st,v,ins,name,r); incol(I,st,v,ins,name,c,c+n-1)
        size=32 if name in('mzd_read_bit','mzd_read_bits_int') else 64
        def go(st,i,acc):
            if i==n: return [(Word(acc+[ZERO]*(size-n)),st)]
            o=[]
            for t,x in read(I,st,content(I,st,v.sid),v.r0+r,v.c0+c+i): o+=go(t.fork(),i+1,acc+[x])
            return o
        return go(st,0,[])
    def p_bits(mode,masked):
        def f(I,st,args,ins,name):
            v=eview(I,st,args[0],ins); r,c=(n_(I,st,x) for x in args[1:3])
            if name=='mzd_write_bit': n=1; val=args[3]
            else:
                nn=n_(I,st,args[3])
                if not nn.isc(): raise Undecided('number of bits at '+I.where(ins))
                n=nn.c; val=args[4] if mode!='clr' else None
            w=None; inrow(I,st,v,ins,name,r); incol(I,st,v,ins,name,c,c+n-1)
            if val is not None:
                w=st.norm(I.to_word(val,64,st))
                if name=='mzd_write_bit':
                    # any non zero value is not a bit; the callers pass 0 or 1
                    if any(w.b[1:]): raise Undecided('bit value at '+I.where(ins))
                elif any(w.b[n:]):
                    I.emviol.append((I.where(ins),'element',f'the value written with {name} has more than {n} bit(s): bit {next(i for i in range(n,64) if w.b[i])} is {pstr(next(b for b in w.b[n:] if b),3)}'))
                    raise Undecided('value wider than its position')
            apply(I,st,v.sid,('bits',v.r0+r,v.c0+c,n,w,mode),ins); return [(UNDEF,st)]
        return f
    def tri(I,st,k,vals):
        """fork on a yes/no question with memory"""
        if k in st.known: return [(vals[0] if st.known[k] else vals[1],st)]
        t=st.fork(); st.known=dict(st.known); st.known[k]=True; t.known=dict(t.known); t.known[k]=False
        st.event('ask',k,True); t.event('ask',k,False)     # keeps the answers apart
        return [(vals[0],st),(vals[1],t)]
    def p_zero(I,st,args,ins,name):
        v=eview(I,st,args[0],ins); m=content(I,st,v.sid)
        if m.ops: raise Undecided('zero test of a modified matrix at '+I.where(ins))
        if I.objs[v.sid].info['zero']: return [(L(1),st)]
        return tri(I,st,('ez',)+v.key(),(L(1),ZL))
    def p_cmp(I,st,args,ins,name):
        a,b=eview(I,st,args[0],ins),eview(I,st,args[1],ins)
        if content(I,st,a.sid).ops or content(I,st,b.sid).ops: raise Undecided('comparison of modified matrices')
        if a.key()==b.key(): return [(L(1) if name=='mzd_equal' else ZL,st)]
        k=('eqm',)+tuple(sorted((a.key(),b.key()),key=str))
        if name=='mzd_equal': return tri(I,st,k,(L(1),ZL))
        out=[]
        for v,t in tri(I,st,k,(ZL,L(1))):
            if v==ZL: out.append((v,t)); continue
            u=t.fork(); out+=[(L(1),t),(L(-1),u)]
        return out
    def p_fzr(I,st,args,ins,name):
        v=eview(I,st,args[0],ins); m=content(I,st,v.sid)
        if m.ops: raise Undecided('modified matrix')
        q=S(('fzr',)+v.key()); st.facts=st.facts.add_ge(q).add_ge(v.nr-q); return [(q,st)]
    def p_perm(kind):
        def f(I,st,args,ins,name):
            v=eview(I,st,args[0],ins); P=args[1]
            if not isinstance(P,Ptr) or I.objs[P.obj].kind!='mzp': raise Undecided('unresolved permutation')
            n=I.objs[P.obj].info['length']; conc=I.objs[P.obj].info.get('vals')
            if conc is not None and kind!='right_trans_tri':
                lim=v.nr if kind.startswith('left') else v.nc
                if lim.isc():
                    ix=range(min(n.c,lim.c)) if kind in('left','right_trans') else range(min(n.c,lim.c)-1,-1,-1)
                    for i in ix:
                        if kind.startswith('left'): apply(I,st,v.sid,('rswap',v.r0+i,v.r0+conc[i],v.c0,v.c0+v.nc),ins)
                        else: apply(I,st,v.sid,('cswap',v.c0+i,v.c0+conc[i],v.r0,v.r0+v.nr),ins)
                    return [(UNDEF,st)]
            apply(I,st,v.sid,('perm',kind,P.obj,v),ins); return [(UNDEF,st)]
        return f
    def p_op(I,st,args,ins,name):
        v=eview(I,st,args[0],ins); apply(I,st,v.sid,('op',name,tuple(n_(I,st,x) for x in args[1:]),v),ins); return [(UNDEF,st)]
    def p_mfree(I,st,args,ins,name):
        do_free(I,st,args[0],ins,'mzd'); return [(UNDEF,st)]
    d={'mzd_init':p_init,'mzd_init_window':p_window,'mzd_free':p_mfree,'mzd_free_window':p_mfree,'mzd_copy':p_copy,'mzd_add':p_add,'_mzd_add':p_add,'mzd_sub':p_add,'_mzd_sub':p_add,
       'mzd_concat':p_join(1),'mzd_stack':p_join(0),'mzd_submatrix':p_sub,'mzd_set_ui':p_set,'mzd_row_swap':p_rswap,'mzd_col_swap':p_cswap,'mzd_col_swap_in_rows':p_cswap,
       'mzd_row_add':p_rowadd,'mzd_row_add_offset':p_rowadd,'mzd_copy_row':p_copyrow,'mzd_row_clear_offset':p_rowclear,'mzd_read_bit':p_readbit,'__mzd_read_bits':p_readbit,'mzd_read_bits':p_readbit,'mzd_read_bits_int':p_readbit,
       'mzd_write_bit':p_bits('w',1),'__mzd_xor_bits':p_bits('xor',0),'mzd_xor_bits':p_bits('xor',0),'__mzd_clear_bits':p_bits('clr',1),'mzd_clear_bits':p_bits('clr',1),
       'mzd_is_zero':p_zero,'mzd_cmp':p_cmp,'mzd_equal':p_cmp,'mzd_first_zero_row':p_fzr,'_mzd_compress_l':p_op,
       'm4ri_mm_malloc':prim_malloc,'m4ri_mm_calloc':prim_calloc,'m4ri_mm_malloc_aligned':prim_malloc,'m4ri_mm_free':prim_free,'malloc':prim_malloc,'calloc':prim_calloc,'free':prim_free}
    for k in('left','left_trans','right','right_trans','right_trans_tri'): d['mzd_apply_p_'+k]=p_perm(k)
    return d
def mk_mzp(I,st,lay,name,length,vals=None):
    p=I.new(st,name,'mzp',None,length=length,vals=vals)
    setf(I,st,p,lay,'mzp_t','length',length,4)
    def init(I,st,o,addr,ty):
        off=addr[1]
        if ty.k=='int' and off.c%4==0 and all(v%4==0 for _,v in off.t):
            i=Lin(tuple((k,v//4) for k,v in off.t),off.c//4)
            return vals[i.c] if vals is not None and i.isc() and 0<=i.c<len(vals) else S(('P',name,i))
        return None
    setf(I,st,p,lay,'mzp_t','values',I.new(st,name+'.values','pvals',init),8)
    return p
def mk_emzed(I,st,lay,name,ff,e,rows,cols,x=None,win=True):
    """packed matrix, a window of a larger storage"""
    w=w_of(e)
    if x is None:
        if win:
            R,Cc=S('base_rows_'+name),S('base_cols_'+name); r0,c0=S('row0_'+name),S('col0_'+name)
            st.facts=st.facts.add_ge(r0).add_ge(c0).add_ge(R-r0-rows).add_ge(Cc-c0-cols)
        else: R,Cc,r0,c0=rows,cols,ZL,ZL
        d=mk_estore(I,st,name,R,Cc*w,lane=(w,e)); x=mk_emzd(I,st,lay,name+'.x',rows,cols*w,d,r0,c0*w)
    p=I.new(st,name,'mzed',None,nm=name)
    setf(I,st,p,lay,'mzed_t','x',x,8); setf(I,st,p,lay,'mzed_t','finite_field',ff,8)
    setf(I,st,p,lay,'mzed_t','nrows',rows,4); setf(I,st,p,lay,'mzed_t','ncols',cols,4); setf(I,st,p,lay,'mzed_t','w',L(w),4)
    I.objs[p.obj].info.update(x=x.obj)
    return p
def mk_eslice(I,st,lay,name,ff,e,rows,cols,win=True,depth=None):
    p=I.new(st,name,'slice',None,nm=name)
    if win:
        R,Cc=S('base_rows_'+name),S('base_cols_'+name); r0,c0=S('row0_'+name),S('col0_'+name)
        st.facts=st.facts.add_ge(r0).add_ge(c0).add_ge(R-r0-rows).add_ge(Cc-c0-cols)
    else: R,Cc,r0,c0=rows,cols,ZL,ZL
    for i in range(16):
        x=NULL
        if i<(depth or e):
            d=mk_estore(I,st,f'{name}{i}',R,Cc); x=mk_emzd(I,st,lay,f'{name}{i}.x',rows,cols,d,r0,c0)
        I.put(st,p.obj,((),L(lay('mzd_slice_t','x')+8*i)),8,x)
    setf(I,st,p,lay,'mzd_slice_t','finite_field',ff,8)
    setf(I,st,p,lay,'mzd_slice_t','nrows',rows,4); setf(I,st,p,lay,'mzd_slice_t','ncols',cols,4); setf(I,st,p,lay,'mzd_slice_t','depth',L(depth or e),4)
    return p
def emachine(ctx,e,extra=None):
    I=Interp(ctx.prog,{**BASE,**em_prims(ctx.lay)}); I.lay=ctx.lay; I.emviol=[]; I.sites={}; I.loopreads=set(); I.unroll_max=40
    if extra: I.prims.update(extra)
    def st_hook(I,st,oid,addr,size,v,ins):
        if I.objs[oid].kind in('emwords','estore'): raise Undecided('direct access to the words of a matrix at '+I.where(ins))
    I.on_store=st_hook
    st=State(); ff=mk_ff(I,st,ctx.lay,e)
    return I,st,ff
def planes(I,st,p,fmt,n):
    """the matrix headers of a matrix (packed: one, bitsliced: n)"""
    if fmt=='p': return [I.load(st,p.at(I.lay('mzed_t','x')),PTR)]
    return [I.load(st,p.at(I.lay('mzd_slice_t','x')+8*i),PTR) for i in range(n)]
def compare(I,res,t,sid,spec,w,where,rule,what,Violation):
    """final content of storage sid at a generic bit against spec(state,row,col)->cases"""
    o=I.objs[sid]; u=t.fork(); rho=S(fresh('rho')); g=S(fresh('omega'))
    nb=u.facts.norm(o.info['bits'])
    for b in range(w):
        v=u.fork(); c=g*w+b
        v.facts=v.facts.add_ge(rho).add_ge(o.info['rows']-1-rho).add_ge(g).add_ge(nb-1-c)
        if v.facts.infeasible(): continue
        I.reads=0
        for x,got in read(I,v,content(I,v,sid),rho,c):
            for y,want in spec(x,rho,c):
                if y.facts.infeasible(): continue
                res.n+=1
                p=y.norm(Word([got])); q=y.norm(Word([want]))
                p=resub(y,p); q=resub(y,q)
                if p==q or gated_equal(I,y,p,q): continue
                txt=f'{what}: bit ({y.facts.norm(rho)},{y.facts.norm(c)}) of {o.info["nm"]} is {pstr(p.b[0],3)}, must be {pstr(q.b[0],3)}; operations at {", ".join(sorted(set(I.sites.get(sid,())))[:4]) or "no site"}'
                if os.environ.get("EMDBG"): print(y.facts)
                wit=separate(y,p.b[0]^q.b[0],[rho,g]) if not(word_opaque(p) or word_opaque(q)) else None
                if wit is not None: res.viol.append(Violation(where,rule,txt,wit)); return False
                res.und.append(txt[:280]); return False
    return True
def separate(st,d,extra):
    """parameters for which the polynomial d is not zero: atoms that could coincide are held apart"""
    f=st.facts; at=[Atom.keys[a] for a in patoms(d)]
    def uninterpreted(e): return any(isinstance(Sym.keys[k],tuple) and Sym.keys[k][0] in('perm','fzr') for k in deep_syms(e))
    def diffs(x,y):
        if isinstance(x,Lin) and isinstance(y,Lin): return [x-y]
        if isinstance(x,tuple) and isinstance(y,tuple) and len(x)==len(y): return [e for a,b in zip(x,y) for e in diffs(a,b)]
        return []
    def onep(e):
        # one image of a permutation that the caller may choose freely
        ps=[k for k in deep_syms(e) if isinstance(Sym.keys[k],tuple) and Sym.keys[k][0] in('perm','fzr')]
        if len(ps)==2:
            # the images of one position under a permutation and its inverse: different for some permutation of three positions
            x,y=(Sym.keys[q] for q in ps); cf=dict(e.t)
            asc=lambda k: k in('left','right_trans')
            return x[0]==y[0]=='perm' and x[2:]==y[2:] and x[1]!=y[1] and all(k in('left','left_trans','right','right_trans') for k in(x[1],y[1])) and asc(x[1])!=asc(y[1]) and sorted((cf.get(ps[0],0),cf.get(ps[1],0)))==[-1,1]
        return len(ps)==1 and Sym.keys[ps[0]][0]=='perm' and abs(dict(e.t).get(ps[0],0))==1
    t=st.fork()
    for i in range(len(at)):
        for j in range(i):
            t.facts=f
            if not may_equal(t,at[i],at[j]): continue
            c=[f.norm(e) for e in diffs(at[i],at[j])]; c=[e for e in c if not f.eq0(e) and not uninterpreted(e)]
            if not c: c=[e for e in map(f.norm,diffs(at[i],at[j])) if onep(e) and not f.eq0(e)]
            if not c: return None
            f=f.add_ne(c[0])
            ps=[k for k in deep_syms(c[0]) if isinstance(Sym.keys[k],tuple) and Sym.keys[k][0]=='perm']
            if len(ps)==2: f=f.add_ge(Sym.keys[ps[0]][4]-3)
            if f.infeasible(): return None
    return witness(f,extra,perms=True)
def unchanged(I,res,t,p,fmt,n,where,what,Violation,w):
    for x in planes(I,t,p,fmt,n):
        v=eview(I,t,x); m=content(I,t,v.sid)
        if m.ops: compare(I,res,t,v.sid,lambda s,r,c: [(s,base(I,s,v.sid,r,c))],w,where,'operands',what+': operand',Violation)
        else: res.n+=1
