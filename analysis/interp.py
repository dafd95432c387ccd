"""Abstract interpreter over the LLVM IR of the library.

Abstract state = memory (objects with abstract cells) x affine facts x boolean facts x effect log.
Control flow: blocks are visited in reverse post order, states are joined at confluence points (equal
states, or word-valued differences gated on one bit), loops are either propagated as constants (decided
trip count) or summarised: induction variables are put in closed form (init+step*k), the other loop
carried values are widened, and the writes of the generic iteration k become a quantified effect."""
from dom import *
import sys
sys.setrecursionlimit(20000)

class Undecided(Exception):
    """the analysis gives up on this obligation (never reported as a violation)"""
class NullUse(Undecided):
    """the null pointer is used on a feasible path outside of loops that are summarised"""
    def __init__(s,what,wit): super().__init__(what); s.wit=wit
def null_use(p,st,what):
    """p is not the matrix / memory that is needed here"""
    if isinstance(p,Ptr) and p.obj==0 and p.off.isc() and st is not None and not st.facts.infeasible():
        from content import witness
        w=witness(st.facts,[])
        if w is not None: return NullUse(what+': the pointer is NULL',w)
    return Undecided(what)
class Ptr:
    __slots__=('obj','sub','off')
    def __init__(s,obj,sub,off): s.obj=obj; s.sub=sub; s.off=off
    def __eq__(s,o): return isinstance(o,Ptr) and (s.obj,s.sub,s.off)==(o.obj,o.sub,o.off)
    def __hash__(s): return hash((s.obj,s.sub,s.off))
    def __repr__(s): return f'&o{s.obj}{s.sub or ""}+{s.off}'
    def at(s,d): return Ptr(s.obj,s.sub,s.off+d)
NULL=Ptr(0,(),ZL)
class Fn:
    __slots__=('name','mod')
    def __init__(s,n,m): s.name=n; s.mod=m
    def __eq__(s,o): return isinstance(o,Fn) and s.name==o.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return '@'+s.name
class Undef:
    def __repr__(s): return 'undef'
UNDEF=Undef()
class Cond:
    __slots__=('k','a','neg')
    def __init__(s,k,a,neg=False): s.k=k; s.a=a; s.neg=neg
    def __eq__(s,o): return isinstance(o,Cond) and (s.k,s.neg,s.a)==(o.k,o.neg,o.a)
    def __hash__(s): return hash((s.k,s.neg,s.a))
    def inv(s): return Cond(s.k,s.a,not s.neg)
    def __repr__(s): return ('!' if s.neg else '')+f'{s.k}:{s.a}'
TRUE=Cond('const',True); FALSE=Cond('const',True,True)

def vsubst(v,m):
    if isinstance(v,(Lin,)): return v.sub(m)
    if isinstance(v,Word): return v.subst(m)
    if isinstance(v,Ptr): return Ptr(v.obj,vsubst(v.sub,m),v.off.sub(m))
    if isinstance(v,Cond): return Cond(v.k,vsubst(v.a,m),v.neg)
    if isinstance(v,tuple): return tuple(vsubst(x,m) for x in v)
    if isinstance(v,frozenset) and v:
        mp={}
        for a in patoms(v):
            k=Atom.keys[a]; nk,ch=subst_val(k,m) if isinstance(k,tuple) else (k,False)
            if ch: mp[a]=katom(nk)
        return pmap(v,mp) if mp else v
    return v

class Obj:
    """static description of an abstract memory object"""
    def __init__(s,id,name,kind,init=None,**kw):
        s.id=id; s.name=name; s.kind=kind; s.init=init; s.info=kw
    def __repr__(s): return f'<{s.id}:{s.name}:{s.kind}>'
class OS:
    """dynamic content: list of layers (oldest first).  layer = dict addr->(size,val) | ('q',ksym,lo,hi,[alts]) | ('havoc',why)"""
    __slots__=('layers','own','const','tok')
    def __init__(s,layers,own,const=True,tok=None): s.layers=layers; s.own=own; s.const=const; s.tok=tok
    def copy(s,own): 
        L=list(s.layers)
        if L and isinstance(L[-1],dict): L[-1]=dict(L[-1])
        return OS(L,own,s.const,s.tok)
    def same(s,o):
        return s is o or s.layers==o.layers
_sid=[0]
class State:
    __slots__=('mem','facts','zero','known','bits','ev','env','sid','nev','tag','tok')
    def __init__(s):
        s.mem={}; s.facts=Facts(); s.zero={}; s.known={}; s.bits=(); s.ev=None; s.env={}; s.nev=0; s.tag=None; s.tok=None
        _sid[0]+=1; s.sid=_sid[0]
    def fork(s):
        t=State.__new__(State); t.mem=dict(s.mem); t.facts=s.facts; t.zero=s.zero; t.known=s.known; t.bits=s.bits
        t.ev=s.ev; t.env=dict(s.env); t.nev=s.nev; t.tag=s.tag; t.tok=s.tok
        _sid[0]+=2; t.sid=_sid[0]; s.sid=_sid[0]-1    # both lose ownership of shared contents
        return t
    def event(s,*e): s.ev=(s.ev,e); s.nev+=1
    def events(s,since=None):
        out=[]; e=s.ev
        while e is not since and e is not None: out.append(e[1]); e=e[0]
        out.reverse(); return out
    def norm(s,v):
        """normalise a value by the known facts"""
        if isinstance(v,Lin): return s.facts.norm(v)
        if isinstance(v,Word):
            if s.facts.sub: v=v.subst(s.facts.sub)
            if s.zero:
                hit={a:s.zero[a] for a in v.atoms() if a in s.zero}
                if hit: v=v.map_atoms(hit)
            return v
        if isinstance(v,Ptr): return Ptr(v.obj,s.norm(v.sub),s.facts.norm(v.off))
        if isinstance(v,tuple): return tuple(s.norm(x) for x in v)
        return v

class Loop:
    __slots__=('header','blocks','parent','subs')

def cfg_of(F):
    if F.cfg is not None: return F.cfg
    n=len(F.blocks); seen=[False]*n; order=[]
    stack=[(0,iter(F.blocks[0].succs))]; seen[0]=True
    while stack:
        b,it=stack[-1]
        for t in it:
            if not seen[t]: seen[t]=True; stack.append((t,iter(F.blocks[t].succs))); break
        else: order.append(b); stack.pop()
    rpo=order[::-1]; num={b:i for i,b in enumerate(rpo)}
    # dominators
    idom={0:0}; ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            ps=[p for p in F.blocks[b].preds if p in idom]
            x=ps[0]
            for p in ps[1:]:
                y=p
                while x!=y:
                    while num[x]>num[y]: x=idom[x]
                    while num[y]>num[x]: y=idom[y]
            if idom.get(b)!=x: idom[b]=x; ch=True
    def dom(a,b):
        while True:
            if a==b: return True
            if b==0: return False
            b=idom[b]
    loops={}; irreducible=False
    for b in rpo:
        for t in F.blocks[b].succs:
            if num[t]<=num[b]:
                if not dom(t,b): irreducible=True; continue
                L=loops.get(t)
                if L is None: L=Loop(); L.header=t; L.blocks={t}; L.subs=[]; L.parent=None; loops[t]=L
                work=[b]
                while work:
                    x=work.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); work+=[p for p in F.blocks[x].preds if p in num]
    for t,L in loops.items(): L.subs=[x for x in loops if x!=t and x in L.blocks]
    # liveness of registers
    use=[set() for _ in range(n)]; deff=[set() for _ in range(n)]; phiuse=[dict() for _ in range(n)]
    for B in F.blocks:
        d=deff[B.i]; u=use[B.i]
        for I in B.instrs:
            if I.op=='phi':
                d.add(I.id)
                for p,v in I.x.items():
                    if v[0]=='v': phiuse[p].setdefault(B.i,set()).add(v[1])
                continue
            ops=list(I.ops or [])
            if I.op=='call': ops.append(I.x)
            for o in ops: collect_uses(o,u,d)
            d.add(I.id)
    live=[set() for _ in range(n)]; ch=True
    while ch:
        ch=False
        for b in order:
            out=set()
            for t in F.blocks[b].succs: out|=live[t]
            for t,s in phiuse[b].items(): out|=s
            li=use[b]|(out-deff[b])
            if li!=live[b]: live[b]=li; ch=True
    F.cfg=(rpo,num,idom,loops,live,irreducible)
    return F.cfg
def collect_uses(o,u,d):
    if o[0]=='v':
        if o[1] not in d: u.add(o[1])

MASK={}
def sgn(v,bits):
    v&=(1<<bits)-1
    return v-(1<<bits) if bits>1 and v>>(bits-1) else v

class Interp:
    def __init__(s,prog,prims=None,maxstates=4000,unroll=70000,verbose=False,stepcap=3000000):
        s.p=prog; s.prims=dict(prims or {}); s.objs={0:Obj(0,'null','null')}; s.nobj=1; s.globals={}
        s.vargs=[]; s.dead=[]; s.verbose=verbose; s.unroll=unroll; s.maxstates=maxstates; s.steps=0; s.stepcap=stepcap
        s.visited=set(); s.inlined=set(); s.depth=0; s.stack=[]; s.calls=0; s.ext=set(); s.noinline=set(); s.undef_uses=[]; s.uninit=[]
        s.max_depth=60; s.soft=[]; s.acc=[]; s.kclean=set(); s.symloops=0
    # ---------------------------------------------------------- objects
    def new(s,st,name,kind,init=None,**kw):
        o=Obj(s.nobj,name,kind,init,**kw); s.nobj+=1; s.objs[o.id]=o
        st.mem[o.id]=OS([],st.sid,True,st.tok)
        return Ptr(o.id,(),ZL)
    def os(s,st,oid):
        x=st.mem.get(oid)
        if x is None: x=st.mem[oid]=OS([],st.sid,True,st.tok)
        return x
    def osw(s,st,oid):
        x=s.os(st,oid)
        if x.own!=st.sid: x=st.mem[oid]=x.copy(st.sid)
        if x.tok!=st.tok:
            x.tok=st.tok
            if x.layers: x.layers.append({})
        return x
    def global_ptr(s,st,mod,name):
        g=mod.globals.get(name)
        if g is not None and g['decl'] and name in s.p.gdefs: mod=s.p.gdefs[name]['mod']; g=s.p.gdefs[name]
        key=(mod.src if g and g['linkage'] in(8,9) else '',name)
        if key not in s.globals:
            o=Obj(s.nobj,'@'+name,'global',None,const=bool(g and g['const']));
            if g is not None and not g['decl']: o.info['size']=g['ty'].size
            s.nobj+=1; s.objs[o.id]=o; s.globals[key]=o.id
            o.info['gname']=name
            if g is not None and not g['decl']:
                cells={}
                o.info['init']=mod.init(name); o.info['mod']=mod
        return Ptr(s.globals[key],(),ZL)
    def global_cells(s,o):
        c=o.info.get('cells')
        if c is None:
            c=o.info['cells']={}
            def fill(v,off):
                if v[0]=='agg':
                    t=v[2]
                    for i,x in enumerate(v[1]):
                        fill(x, off+(t.bits[i] if t.k=='struct' else i*t.elem.size))
                else: c[off]=v
            if o.info.get('init') is not None: fill(o.info['init'],0)
        return c
    # ---------------------------------------------------------- memory
    def same_addr(s,st,a,b): return a==b
    def rel(s,st,a,asz,b,bsz):
        """'eq' / 'ne' / None"""
        if a==b: return 'eq'
        f=st.facts
        (sa,oa),(sb,ob)=a,b
        d=oa-ob
        if d.isc():
            if d.c>=bsz or -d.c>=asz: return 'ne'
        if sa!=sb:
            if len(sa)!=len(sb): return None
            for x,y in zip(sa,sb):
                if isinstance(x,Lin) and isinstance(y,Lin):
                    if x!=y and f.ne0(x-y): return 'ne'
                elif x!=y: return 'ne'
        if not d.isc():
            if f.ge0(d-bsz) or f.ge0(-d-asz): return 'ne'
            if d.t and all(v%8==0 for _,v in d.t) and d.c%8==0 and asz<=8 and bsz<=8 and f.ne0(d): return 'ne'
        if (not d.isc() and f.eq0(d)) or (d.isc() and d.c==0):
            if all((x==y) or (isinstance(x,Lin) and isinstance(y,Lin) and f.eq0(x-y)) for x,y in zip(sa,sb)): return 'eq'
        return None
    def store(s,st,p,v,size,ins=None):
        if not isinstance(p,Ptr): 
            st.event('wild-store',p,s.where(ins)); raise Undecided(f'store through unresolved pointer {p} at {s.where(ins)}')
        if p.obj==0: st.event('null-store',s.where(ins)); raise null_use(p,st,'store through NULL at '+s.where(ins))
        o=s.objs[p.obj]
        s.check_alive(st,p,ins,'store')
        addr=(st.norm(p.sub),st.facts.norm(p.off))
        if s.on_store: s.on_store(s,st,p.obj,addr,size,v,ins)
        if s.bounds: s.inside(st,p.obj,addr[0],addr[1],size,ins,'write')
        if o.kind in s.ABSTRACT: s.word_write(st,p.obj,addr,size,v,ins)
        s.put(st,p.obj,addr,size,v)
    on_store=None
    ABSTRACT=('bmat','mat','emwords')   # matrices whose content is one abstract value: a store to their words is outside the abstraction
    frozen=()                           # names of those no call may change
    hard=[]                             # definite findings, independent of how the run ends
    def word_write(s,st,oid,addr,size,v,ins):
        if isinstance(v,Word) and size==8 and st.norm(v)==s.get(st,oid,addr,size,TYI(8)): return
        n=s.objs[oid].name.split('.')[0].rstrip('0123456789')
        if n in s.frozen and st.facts.infeasible() is not True: s.hard.append((s.where(ins)+' in '+' < '.join(reversed(s.stack[-3:])),'operands',f'the words of the operand {s.objs[oid].name.split(".")[0]} are overwritten'))
        raise Undecided(f'words of the matrix {s.objs[oid].name} are written directly at {s.where(ins)}')
    bounds=False      # collect the conditions under which accesses are inside their object
    def must(s,st,ins,what,conds):
        if s.bounds: s.acc.append((s.where(ins),what,tuple(conds),st.facts))
    def inside(s,st,oid,sub,off,size,ins,what):
        o=s.objs[oid]; d=o.info.get('dims')
        if d is None:
            z=o.info.get('size')
            if sub or z is None or not isinstance(off,Lin): return
            if isinstance(z,tuple):
                if not all(isinstance(x,Lin) for x in z) or not any(x.isc() for x in z): return
                a,b=z if z[1].isc() else z[::-1]; z=a*b.c
            elif isinstance(z,int): z=L(z)
            if not isinstance(z,Lin): return
            s.acc.append((s.where(ins),f'{what} of {o.name}',(off,z-size-off),st.facts)); return
        if len(sub)!=1 or not isinstance(sub[0],Lin): return
        s.acc.append((s.where(ins),f'{what} of {s.objs[oid].info.get("nm","a matrix")}',(sub[0],d[0]-1-sub[0],off,d[1]*8-size-off),st.facts))
    unroll_max=1<<30
    keep_loop=None
    def put(s,st,oid,addr,size,v):
        x=s.osw(st,oid)
        top=x.layers[-1] if x.layers else None
        if not isinstance(top,dict): top={}; x.layers.append(top)
        if addr in top: top[addr]=(size,v); return
        if not addr[0] and addr[1].isc():
            if x.const:
                # constant addresses only: overlap by size
                top[addr]=(size,v); return
        else: x.const=False
        for a,(sz,_) in list(top.items()):
            r=s.rel(st,addr,size,a,sz)
            if r=='ne': continue
            if r=='eq': top[a]=(size,v); return
            x.layers.append({addr:(size,v)}); return
        top[addr]=(size,v)
    def load(s,st,p,ty,ins=None):
        if not isinstance(p,Ptr): raise Undecided(f'load through unresolved pointer {p} at {s.where(ins)}')
        if p.obj==0: st.event('null-load',s.where(ins)); raise null_use(p,st,'load through NULL at '+s.where(ins))
        if s.on_load: s.on_load(s,st,p,ty,ins)
        if s.bounds: s.inside(st,p.obj,p.sub,p.off,ty.size,ins,'read')
        s.check_alive(st,p,ins,'load')
        addr=(st.norm(p.sub),st.facts.norm(p.off))
        return s.get(st,p.obj,addr,ty.size,ty,ins)
    def get(s,st,oid,addr,size,ty,ins=None):
        x=s.os(st,oid)
        for layer in reversed(x.layers):
            if isinstance(layer,dict):
                h=layer.get(addr)
                if h is not None:
                    if h[0]==size: return h[1]
                    return s.resize(st,h[1],h[0],size,oid,addr)
                if x.const and not addr[0] and addr[1].isc():
                    continue
                for a,(sz,v) in layer.items():
                    r=s.rel(st,addr,size,a,sz)
                    if r=='ne': continue
                    if r=='eq': return v if sz==size else s.resize(st,v,sz,size,oid,addr)
                    return s.opaque_read(st,oid,addr,ty)
            elif layer[0]=='q':
                r=s.qread(st,layer,addr,size)
                if r is None: continue
                if r[0]=='hit': return r[1]
                return s.opaque_read(st,oid,addr,ty)
            else:
                return s.opaque_read(st,oid,addr,ty)
        return s.initial(st,oid,addr,ty)
    def resize(s,st,v,sz,size,oid,addr):
        if size<sz:
            if isinstance(v,Word): return v.trunc(size*8)
            if isinstance(v,Lin) and v.isc(): return L(sgn(v.c,size*8))
        return S(fresh('part'))
    def qread(s,st,layer,addr,size):
        """single answer version of the quantified read (no case split allowed)"""
        r=s.q_cases(st,layer,addr,size,split=False)
        if len(r)==1:
            o,x,_=r[0]
            if o=='miss': return None
            if o=='hit': return ('hit',x)
        return ('und',)
    def leaves(s,ents,quants):
        for ent in ents:
            if ent[0]=='q':
                _,ks,lo,hi,alts=ent
                q=quants+[(ks,lo,hi)]
                if len(alts)==1: yield from s.leaves(alts[0],q)
                else:
                    alls=[list(s.leaves(al,q)) for al in alts]
                    if alls and all(x==alls[0] for x in alls): yield from alls[0]
                    else: yield ('und',quants,alls)
            elif ent[0] in('op','havoc'): yield ('und',quants,ent)
            else: yield ('leaf',quants,ent)
    def q_cases(s,st,layer,addr,size,split=True):
        """case analysis of reading addr through a quantified layer: list of ('miss'|'hit'|'und', value, state)"""
        lv=list(s.leaves([layer],[]))
        out=[]
        def go(st,i):
            while i>=0:
                if lv[i][0]=='und':
                    if s.und_disjoint(st,lv[i],addr,size): i-=1; continue
                    out.append(('und',None,st)); return
                rs=s.unify(st,lv[i],addr,size,split)
                if rs=='und': out.append(('und',None,st)); return
                nxt=None
                for o,v,t,ks in rs:
                    if o=='miss':
                        if len(rs)==1: nxt=True
                        else: go(t,i-1)
                    else:
                        # a later iteration of another entry must not overwrite this one
                        bad=False
                        for j in range(len(lv)):
                            if j==i or not ks: continue
                            if lv[j][0]=='und': bad=not s.und_disjoint(t,lv[j],addr,size); continue
                            r2=s.unify(t.fork(),lv[j],addr,size,True)
                            if r2=='und': bad=True; break
                            for o2,v2,t2,k2 in r2:
                                if o2=='hit' and (not k2 or j>i or not t2.facts.ge0(ks[0]-k2[0])):
                                    f=t2.facts.add_ge(k2[0]-ks[0]-1) if k2 else t2.facts
                                    if j>i or not f.infeasible():
                                        if not(j>i and s.sameval(t2,v2,v)): bad=True
                        out.append(('und',None,t) if bad else ('hit',v,t))
                if nxt is None: return
                i-=1
            out.append(('miss',None,st))
        go(st,len(lv)-1)
        return out
    def sameval(s,st,a,b):
        return st.norm(a)==st.norm(b)
    def und_disjoint(s,st,leaf,addr,size): return False
    def unify(s,st,leaf,addr,size,split):
        """where can the quantified write `leaf` meet addr?  list of (outcome,value,state,[k..])"""
        _,quants,(a,sz,v)=leaf
        if len(a[0])!=len(addr[0]): return 'und'
        eqs=[]
        for x,y in list(zip(a[0],addr[0]))+[(a[1],addr[1])]:
            if isinstance(x,Lin) and isinstance(y,Lin): eqs.append((x,y))
            elif x!=y: return [('miss',None,st,None)]
        todo=[q[0] for q in quants]
        res=[]
        def rec(st,m,eqs,todo,depth=0):
            # choose an equation determining one bound variable
            f=st.facts
            pend=[]
            for x,y in eqs:
                x=f.norm(x.sub(m)); ds=deep_syms(x)
                un=[k for k in todo if k in ds]
                if not un:
                    d=f.norm(y-x)
                    if d.isc():
                        if d.c!=0: res.append(('miss',None,st,None)); return True
                        continue
                    if f.eq0(d): continue
                    if s.disj(f,d,sz,size): res.append(('miss',None,st,None)); return True
                pend.append((x,y,un))
            for idx,(x,y,un) in enumerate(pend):
                if len(un)!=1: continue
                kq=un[0]; c=x.coef(kq)
                rest=x-Lin(((kq,c),),0)
                if not c or kq in deep_syms(rest): continue
                d=f.norm(y-rest)
                if c<0: c,d=-c,-d
                pe=[p[:2] for i,p in enumerate(pend) if i!=idx]
                bad=[(q,w%c) for q,w in d.t if w%c]
                if not bad:
                    if d.c%c:
                        res.append(('miss',None,st,None)); return True
                    k=Lin(tuple((q,w//c) for q,w in d.t),d.c//c)
                    m2=dict((q,z.sub({kq:k})) for q,z in m.items()); m2[kq]=k
                    return rec(st,m2,pe,[q for q in todo if q!=kq],depth)
                # residue split:  d = c*t + r
                dom=gcd_of([w for _,w in d.t]+[c])
                if d.c%dom: res.append(('miss',None,st,None)); return True
                if not split or depth>3: return False
                # quick range elimination
                for r in range(0,c):
                    if (d.c-r)%dom: continue
                    t=st.fork(); tv=S(fresh('t'))
                    e=d-(tv*c+r)
                    t.facts=t.facts.add_eq(e)
                    if t.facts.infeasible(): continue
                    if r: res.append(('miss',None,t,None))
                    else:
                        m2=dict((q,z.sub({kq:tv})) for q,z in m.items()); m2[kq]=tv
                        if not rec(t,m2,[(p[0],p[1]) for p in pe],[q for q in todo if q!=kq],depth+1): return False
                return True
            if any(un for _,_,un in pend): return False
            # only ground equations remain: split on their truth
            if pend:
                if not split: return False
                cur=st
                for x,y,_ in pend:
                    d=y-x
                    for e in (d-1,-d-1):
                        t=cur.fork(); t.facts=t.facts.add_ge(e)
                        if not t.facts.infeasible(): res.append(('miss',None,t,None))
                    cur=cur.fork(); cur.facts=cur.facts.add_eq(d)
                    if cur.facts.infeasible(): return True
                return rec(cur,m,[],todo,depth+1)
            # variables not determined by the address: the last iteration wins
            cur=st; m=dict(m); ks=[]
            for kq,lo,hi in quants:
                lo,hi=cur.facts.norm(lo.sub(m)),cur.facts.norm(hi.sub(m))
                if kq in m:
                    k=cur.facts.norm(m[kq]); m[kq]=k
                else:
                    k=hi-1; m[kq]=k
                for e in (k-lo,hi-1-k):
                    if cur.facts.ge0(e): continue
                    if cur.facts.ge0(-e-1): res.append(('miss',None,cur,None)); return True
                    if not split: return False
                    t=cur.fork(); t.facts=t.facts.add_ge(-e-1)
                    if not t.facts.infeasible(): res.append(('miss',None,t,None))
                    cur=cur.fork(); cur.facts=cur.facts.add_ge(e)
                    if cur.facts.infeasible(): return True
                ks.append(k)
            val=v
            for kq,_,_ in quants: val=vsubst(val,{kq:m[kq]})
            if sz!=size:
                if isinstance(val,Word) and size<sz: val=val.trunc(size*8)
                else: return False
            res.append(('hit',val,cur,ks)); return True
        ok=rec(st,{},eqs,todo)
        return res if ok else 'und'
    def disj(s,f,d,sz,size):
        """are two accesses at distance d (of sizes sz and size) disjoint?"""
        if f.ge0(d-sz) or f.ge0(-d-size): return True
        if d.t and all(v%8==0 for _,v in d.t) and d.c%8==0 and sz<=8 and size<=8 and f.ne0(d): return True
        return sz==0
    def get_cases(s,st,oid,addr,size,ty,ins=None):
        """read with case splits on undecided addresses: list of (value,state)"""
        out=[]; st0=st; addr0=addr; inits=[0]
        def go(st,li,addr):
            x=s.os(st,oid)
            while li>=0:
                layer=x.layers[li]
                if isinstance(layer,dict):
                    h=layer.get(addr)
                    if h is not None:
                        out.append((h[1] if h[0]==size else s.resize(st,h[1],h[0],size,oid,addr),st)); return
                    if x.const and not addr[0] and addr[1].isc(): li-=1; continue
                    cur=st
                    for a,(sz,v) in layer.items():
                        r=s.rel(cur,addr,size,a,sz)
                        if r=='ne': continue
                        if r=='eq': out.append((v if sz==size else s.resize(cur,v,sz,size,oid,addr),cur)); return
                        if sz!=size or size!=8 or len(a[0])!=len(addr[0]): out.append((s.opaque_read(cur,oid,addr,ty),cur)); return
                        for x1,y1 in list(zip(a[0],addr[0]))+[(a[1],addr[1])]:
                            if x1==y1: continue
                            if not(isinstance(x1,Lin) and isinstance(y1,Lin)): out.append((s.opaque_read(cur,oid,addr,ty),cur)); return
                            d=y1-x1
                            if cur.facts.eq0(d): continue
                            for e in (d-1,-d-1):
                                t=cur.fork(); t.facts=t.facts.add_ge(e)
                                if not t.facts.infeasible(): go(t,li,s.naddr(t,addr))
                            cur=cur.fork(); cur.facts=cur.facts.add_eq(d)
                            if cur.facts.infeasible(): return
                        out.append((v,cur)); return
                    st=cur; li-=1; continue
                if layer[0]=='q':
                    rs=s.q_cases(st,layer,addr,size)
                    if len(rs)==1 and rs[0][0]=='miss': st=rs[0][2]; addr=s.naddr(st,addr); li-=1; continue
                    for o,v,t in rs:
                        if o=='hit': out.append((v,t))
                        elif o=='und': out.append((s.opaque_read(t,oid,addr,ty),t))
                        else: go(t,li-1,s.naddr(t,addr))
                    return
                out.append((s.opaque_read(st,oid,addr,ty),st)); return
            inits[0]+=1
            out.append((None,st,addr))
        go(st,len(s.os(st,oid).layers)-1,addr)
        if inits[0]==len(out) and out: return [(s.initial(st0,oid,addr0,ty),st0)]
        return [x if len(x)==2 else (s.initial(x[1],oid,x[2],ty),x[1]) for x in out]
    def naddr(s,st,addr): return (st.norm(addr[0]),st.facts.norm(addr[1]))
    def load_cases(s,st,p,ty,ins=None):
        if not isinstance(p,Ptr) or p.obj==0 or not s.os(st,p.obj).layers: return [(s.load(st,p,ty,ins),st)]
        x=s.os(st,p.obj)
        if x.const and not p.sub and p.off.isc(): return [(s.load(st,p,ty,ins),st)]
        s.check_alive(st,p,ins,'load')
        if s.on_load: s.on_load(s,st,p,ty,ins)
        if s.bounds: s.inside(st,p.obj,p.sub,p.off,ty.size,ins,'read')
        return s.get_cases(st,p.obj,(st.norm(p.sub),st.facts.norm(p.off)),ty.size,ty,ins)
    on_load=None
    def opaque_read(s,st,oid,addr,ty):
        x=s.os(st,oid)
        key=('rd',oid,fresh('v')[2])+tuple(addr)
        return s.symval(ty,key)
    def symval(s,ty,key,word=None):
        if ty.k=='int' and ty.bits==64: return Word([atom(key+(i,)) for i in range(64)])
        if ty.k=='int' and ty.bits==1: return Cond('opq',key)
        if ty.k in('int','float'): return S(key)
        if ty.k=='ptr': return S(key)
        return UNDEF
    def initial(s,st,oid,addr,ty):
        o=s.objs[oid]
        if o.kind=='global':
            if not addr[0] and addr[1].isc():
                c=s.global_cells(o).get(addr[1].c)
                if c is not None: return s.const_val(st,c,o.info.get('mod'))
            h=o.info.get('symread')
            if h: return h(s,st,o,addr,ty)
            return s.symval(ty,('g',o.name)+tuple(addr))
        if o.init is not None:
            r=o.init(s,st,o,addr,ty)
            if r is not None: return r
        if o.kind=='zero':
            return s.zero_of(ty)
        if o.kind in('alloca','malloc'):
            s.uninit.append((o.name,addr)); return s.symval(ty,('uninit',o.name,fresh('u')[2])+tuple(addr))
        return s.symval(ty,('init',o.name)+tuple(addr))
    def zero_of(s,ty):
        if ty.k=='ptr': return NULL
        if ty.k=='int' and ty.bits==1: return FALSE
        return ZL
    def check_alive(s,st,p,ins,what):
        o=s.objs[p.obj]
        if st.known.get(('freed',p.obj)):
            st.event('use-after-free',o,what,s.where(ins))
    def where(s,ins):
        if ins is None: return '?'
        return f'{ins.fn.file}:{ins.line}({ins.fn.name})'
    # ---------------------------------------------------------- values
    def const_val(s,st,o,mod):
        k=o[0]
        if k=='c':
            if o[2]==1: return TRUE if o[1] else FALSE
            return L(o[1])
        if k=='null': return NULL
        if k=='fn': return Fn(o[1],mod)
        if k=='g': return s.global_ptr(st,mod,o[1])
        if k=='f': return S(('float',o[1]))
        if k=='ce':
            _,op,ops,x,t=o
            if op=='gep': return s.gep(st,[s.const_val(st,y,mod) for y in ops],x)
            if op in('bitcast','inttoptr','ptrtoint'): return s.const_val(st,ops[0],mod)
        return UNDEF
    def val(s,st,o,mod):
        if o[0]=='v': return st.env[o[1]]
        return s.const_val(st,o,mod)
    def small(s,st,v):
        """number of bits a nonnegative integer is known to fit in (at most 16), else None"""
        f=st.facts; key=('small',v); r=f._memo.get(key,0)
        if r!=0: return r
        r=None
        if f.ge0(v) and f.ge0(65535-v):
            r=16
            while r>1 and f.ge0((1<<(r-1))-1-v): r-=1
        f._memo[key]=r
        return r
    def bitlike(s,st,v): return v.isc() or s.small(st,v) is not None or (st.facts.ge0(v+1) and st.facts.ge0(-v))
    def to_word(s,v,n,st=None):
        if isinstance(v,Word): return v if v.n==n else (v.trunc(n) if v.n>n else v.zext(n))
        if isinstance(v,Lin):
            if v.isc(): return wconst(v.c,n)
            if st is not None and st.facts.ge0(v+1) and st.facts.ge0(-v) and s.small(st,v) is None: return Word([s.to_word(-v,1,st).b[0]]*n)
            if len(v.t)==1 and v.c==0 and v.t[0][1]==1 and isinstance(Sym.keys[v.t[0][0]],tuple) and Sym.keys[v.t[0][0]][0]=='W':
                return s.to_word(Sym.keys[v.t[0][0]][1],n)
            for k,c in v.t:
                key=Sym.keys[k]
                if not(isinstance(key,tuple) and key[0]=='div' and len(key)==3): continue
                if len(v.t)==1 and v.c==0 and c==1 and key[2]&(key[2]-1)==0:
                    return s.to_word(key[1],n+key[2].bit_length()-1,st).lshr(key[2].bit_length()-1).trunc(n) if n+key[2].bit_length()<=80 else Word([atom(('lbit',v,i)) for i in range(n)])
                if c<0 and (-c)&(-c-1)==0:
                    a=v-Lin(((k,c),),0)
                    if div_term(a,-c)==Lin(((k,1),),0): return s.to_word(a,n,st).and_(wconst(-c-1,n))
            sh=0
            while all(c%2==0 for _,c in v.t) and v.c%2==0: v=Lin(tuple((k,c//2) for k,c in v.t),v.c//2); sh+=1
            lim=s.small(st,v) if st is not None else None
            if st is not None: v=st.facts.norm(v)
            if lim is not None: return Word([atom(('lbit',v,i)) for i in range(lim)]+[ZERO]*(n-lim)).shl(sh)
            if sh: return Word([atom(('lbit',v,i)) for i in range(n)]).shl(sh)
            return Word([atom(('lbit',v,i)) for i in range(n)])
        if isinstance(v,Cond):
            p=s.cond_poly(v)
            return Word([p]+[ZERO]*(n-1))
        if isinstance(v,Undef): return Word([atom(('undef',i)) for i in range(n)])
        raise Undecided('word of %r'%(v,))
    def cond_poly(s,c):
        if c.k=='const': return ONE if not c.neg else ZERO
        if c.k=='bit': return pnot(c.a) if c.neg else c.a
        p=atom(('cond',c.k,c.a)); return pnot(p) if c.neg else p
    def to_lin(s,v):
        if isinstance(v,Lin): return v
        if isinstance(v,Word):
            c=v.const()
            if c is not None: return L(sgn(c,v.n))
            return S(('W',v))
        if isinstance(v,Cond):
            if v.k=='const': return L(0 if v.neg else 1)
            return S(('b2i',v.k,v.a,v.neg))
        return S(fresh('x'))
    def wsimp(s,w):
        c=w.const()
        return L(sgn(c,w.n)) if c is not None else w
    def binop(s,st,op,a,b,n):
        if isinstance(a,Undef) or isinstance(b,Undef): return S(fresh('undef'))
        if n==1:
            A,B=(x if isinstance(x,Cond) else (TRUE if s.to_lin(x).c else FALSE) for x in (a,b))
            if op in('and','or'):
                if A.k=='const': return (B if (not A.neg)==(op=='and') else A)
                if B.k=='const': return (A if (not B.neg)==(op=='and') else B)
            if op=='xor':
                if B.k=='const': return A if B.neg else A.inv()
                if A.k=='const': return B if A.neg else B.inv()
            pa,pb=s.cond_poly(A),s.cond_poly(B)
            r=padd(pa,pb) if op=='xor' else pmul(pa,pb) if op=='and' else padd(padd(pa,pb),pmul(pa,pb))
            return s.bitcond(r)
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if op=='sub' and isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj==b.obj: return a.off-b.off
            return S(('ptrop',op,repr(a),repr(b)))
        if isinstance(a,Cond): a=s.to_word(a,n)
        if isinstance(b,Cond): b=s.to_word(b,n)
        aw,bw=isinstance(a,Word),isinstance(b,Word)
        if not aw and not bw:
            if a.isc() and b.isc():
                x,y=a.c,b.c; M=(1<<n)-1
                if op=='add': return L(sgn(x+y,n))
                if op=='sub': return L(sgn(x-y,n))
                if op=='mul': return L(sgn(x*y,n))
                if op=='and': return L(sgn(x&y,n))
                if op=='or': return L(sgn(x|y,n))
                if op=='xor': return L(sgn(x^y,n))
                if op=='shl': return L(sgn(x<<(y&M),n)) if 0<=y<n else S(fresh('poison'))
                if op=='lshr': return L(sgn((x&M)>>y,n)) if 0<=y<n else S(fresh('poison'))
                if op=='ashr': return L(x>>y) if 0<=y<n else S(fresh('poison'))
                if y&M==0: return S(fresh('div0'))
                if op=='udiv': return L(sgn((x&M)//(y&M),n))
                if op=='urem': return L(sgn((x&M)%(y&M),n))
                if op=='sdiv': q=abs(x)//abs(y); return L(q if (x<0)==(y<0) else -q)
                if op=='srem': q=abs(x)//abs(y); q=q if (x<0)==(y<0) else -q; return L(x-q*y)
            if op=='add': return a+b
            if op=='sub': return a-b
            if op=='mul':
                if b.isc(): return a*b.c
                if a.isc(): return b*a.c
                a,b=st.facts.norm(a),st.facts.norm(b)
                if b.isc(): return a*b.c
                if a.isc(): return b*a.c
                x,y=sorted((a,b),key=lambda z:(z.t,z.c)); return S(('mul',x,y))
            if op=='shl' and b.isc() and 0<=b.c<n and not (a.isc()): return a*(1<<b.c)
            if op in('sdiv','udiv','ashr','lshr') and b.isc():
                k=b.c if op in('sdiv','udiv') else (1<<b.c if 0<=b.c<n else 0)
                if k>0:
                    a=st.facts.norm(a)
                    if st.facts.ge0(a): return s.divt(st,a,k)
                    return S((op,a,k))
            if op in('srem','urem') and b.isc() and b.c>0:
                a=st.facts.norm(a)
                if st.facts.ge0(a): return a-s.divt(st,a,b.c)*b.c
                return S((op,a,b.c))
            if op=='and' and b.isc() and b.c>=0 and (b.c&(b.c+1))==0 and st.facts.ge0(a):
                a=st.facts.norm(a); return a-s.divt(st,a,b.c+1)*(b.c+1)
            if op=='and' and b.isc() and b.c<0 and ((-b.c)&(-b.c-1))==0 and st.facts.ge0(a):
                return s.divt(st,st.facts.norm(a),-b.c)*(-b.c)
            if op in('or','xor') and b.isc() and b.c==0: return a
            if op in('or','xor') and a.isc() and a.c==0: return b
            if op in ('sdiv','udiv','srem','urem'): return S((op,st.facts.norm(a),st.facts.norm(b)))
            if op in('shl','lshr','ashr'):
                if a.isc() and a.c==0: return ZL
                return S((op,st.facts.norm(a),st.facts.norm(b),n))
            if op=='and' and (a.isc() or b.isc()):
                c=(a.c if a.isc() else b.c)&((1<<n)-1)
                if c&(c-1)==0 or (op=='and' and s.small(st,b if a.isc() else a) is not None):
                    return s.wsimp(s.to_word(a,n,st).and_(s.to_word(b,n,st)))
            if op=='xor' and (a.isc() and a.c==-1 or b.isc() and b.c==-1):
                v=st.facts.norm(b if a.isc() else a)
                if st.facts.ge0(v+1) and st.facts.ge0(-v): return -v-1
            if op in('and','or','xor') and s.bitlike(st,a) and s.bitlike(st,b):
                return s.wsimp(getattr(s.to_word(a,n,st),op if op=='xor' else op+'_')(s.to_word(b,n,st)))
            x,y=(a,b) if (a.t,a.c)<=(b.t,b.c) else (b,a)
            if op=='or' and st.facts.ge0(a) and st.facts.ge0(b): return S(('nnor',x,y))
            return S((op,x,y,n))
        # word domain
        try:
            if op in('shl','lshr','ashr'):
                if isinstance(b,Word):
                    c=b.const()
                    b=L(c) if c is not None else b
                if isinstance(b,Lin): b=st.facts.norm(b)
                if isinstance(b,Lin) and b.isc() and aw:
                    if not 0<=b.c<n: return S(fresh('poison'))
                    return s.wsimp({'shl':a.shl,'lshr':a.lshr,'ashr':a.ashr}[op](b.c))
                return S((op,a,b,n))
            A=s.to_word(a,n,st); B=s.to_word(b,n,st)
            if op=='xor': return s.wsimp(A.xor(B))
            if op=='and': return s.wsimp(A.and_(B))
            if op=='or': return s.wsimp(A.or_(B))
            if op=='add': return s.wsimp(A.add(B))
            if op=='sub': return s.wsimp(A.sub(B))
            if op=='mul':
                for x,y in((A,B),(B,A)):
                    c=y.const()
                    if c is not None:
                        r=wconst(0,n)
                        for i in range(n):
                            if c>>i&1: r=r.add(x.shl(i))
                        return s.wsimp(r)
                for x,y in((A,B),(B,A)):
                    if all(not q for q in y.b[1:]):
                        return s.wsimp(Word(pmul(y.b[0],q) for q in x.b))
            if op in('sdiv','srem') and A.b[n-1]==ZERO and B.b[n-1]==ZERO: op='u'+op[1:]
            if op in('udiv','urem'):
                c=B.const()
                if c and c&(c-1)==0:
                    k=c.bit_length()-1
                    return s.wsimp(A.lshr(k) if op=='udiv' else A.and_(wconst(c-1,n)))
                if c and op=='urem':
                    k=(c-1).bit_length(); return Word([atom(('lbit',S((op,A,c)),i)) for i in range(k)]+[ZERO]*(n-k))
        except TooBig:
            return S(fresh('toobig'))
        return S((op,a,b,n))
    def divt(s,st,a,k):
        """floor(a/k) for a>=0, simplified by facts"""
        r=div_term(a,k)
        # try to decide remainder terms exactly: floor((sum)/k) when 0<=rem<k is provable
        for sid,v in r.t:
            key=Sym.keys[sid]
            if isinstance(key,tuple) and key[0]=='div' and key[2]==k:
                rem=key[1]
                if st.facts.ge0(rem) and st.facts.ge0(L(k-1)-rem): return r-S(key)
                # provably a constant quotient
                for q in (1,2,-1):
                    if st.facts.ge0(rem-q*k) and st.facts.ge0(L(q*k+k-1)-rem): return r-S(key)+q
        return r
    def bitcond(s,p):
        if not p: return FALSE
        if p==ONE: return TRUE
        if len(p)==1:
            (m,)=p
            at=mono_atoms(m)
            if len(at)==1:
                k=Atom.keys[at[0]]
                if isinstance(k,tuple) and k[0]=='cond': return Cond(k[1],k[2])
        if 0 in p and len(p)==2:
            m=[x for x in p if x][0]; at=mono_atoms(m)
            if len(at)==1:
                k=Atom.keys[at[0]]
                if isinstance(k,tuple) and k[0]=='cond': return Cond(k[1],k[2],True)
        return Cond('bit',p)
    def icmp(s,st,pred,a,b,n):
        if isinstance(a,Undef) or isinstance(b,Undef): return Cond('opq',fresh('undef'))
        if isinstance(a,(Ptr,Fn)) or isinstance(b,(Ptr,Fn)):
            if isinstance(a,Ptr) and isinstance(b,Ptr):
                if a.obj!=b.obj: r=False
                else:
                    d=a.off-b.off
                    if a.sub==b.sub and d.isc():
                        r={'eq':d.c==0,'ne':d.c==0,'ult':d.c<0,'ugt':d.c>0,'ule':d.c<=0,'uge':d.c>=0}.get(pred)
                        if pred not in('eq','ne'): return TRUE if r else FALSE
                    elif a.sub==b.sub: return s.icmp(st,pred.replace('u','s') if pred[0]=='u' else pred,a.off,b.off,64)
                    else: return Cond('opq',('ptrcmp',pred,repr(a),repr(b)))
                if pred in('eq','ne'): return (TRUE if r else FALSE) if pred=='eq' else (FALSE if r else TRUE)
                return Cond('opq',('ptrcmp',pred,repr(a),repr(b)))
            if isinstance(a,Fn) or isinstance(b,Fn):
                x,y=(a,b) if isinstance(a,Fn) else (b,a)
                if isinstance(y,Ptr) or isinstance(y,Fn):
                    e=(x==y); return TRUE if e==(pred=='eq') else FALSE
            # symbolic pointer compared with something
            x,y=(a,b) if not isinstance(a,Ptr) else (b,a)
            return Cond('opq',('peq',x if isinstance(x,Lin) else repr(x),repr(y)),pred=='ne')
        if isinstance(a,Cond) or isinstance(b,Cond):
            if isinstance(a,Cond) and not isinstance(b,Cond):
                bl=s.to_lin(b)
                if bl.isc() and pred in('eq','ne'):
                    if bl.c==0: return a if pred=='ne' else a.inv()
                    if abs(bl.c)==1: return a if pred=='eq' else a.inv()
                    return FALSE if pred=='eq' else TRUE
            if n==1 and isinstance(a,Cond) and isinstance(b,Cond):
                r=padd(s.cond_poly(a),s.cond_poly(b)); return s.bitcond(r if pred=='ne' else pnot(r))
            a=s.to_word(a,n) if isinstance(a,Cond) else a; b=s.to_word(b,n) if isinstance(b,Cond) else b
        if isinstance(a,Word) or isinstance(b,Word):
            a=st.norm(a); b=st.norm(b)
            if isinstance(a,Lin) and a.isc(): a=wconst(a.c,n)
            if isinstance(b,Lin) and b.isc(): b=wconst(b.c,n)
            if isinstance(a,Word) and isinstance(b,Word):
                if pred in('eq','ne'):
                    w=a.xor(b)
                    if any(p==ONE for p in w.b): return FALSE if pred=='eq' else TRUE
                    nz=[p for p in w.b if p]
                    if not nz: return TRUE if pred=='eq' else FALSE
                    if len(set(nz))==1: return s.bitcond(nz[0] if pred=='ne' else pnot(nz[0]))
                    return Cond('wz',w,pred=='ne')
                ca,cb=a.const(),b.const()
                if ca is not None and cb is not None:
                    M=1<<n
                    if pred[0]=='s': ca,cb=sgn(ca,n),sgn(cb,n)
                    r={'lt':ca<cb,'le':ca<=cb,'gt':ca>cb,'ge':ca>=cb}[pred[1:]]
                    return TRUE if r else FALSE
                # unsigned bounds of a against constant
                if pred[0]=='u':
                    amin,amax=wrange(a); bmin,bmax=wrange(b)
                    lt={'ult':(amax<bmin,amin>=bmax),'ule':(amax<=bmin,amin>bmax),'ugt':(amin>bmax,amax<=bmin),'uge':(amin>=bmax,amax<bmin)}[pred]
                    if lt[0]: return TRUE
                    if lt[1]: return FALSE
                    # a >= 2^k  <=> some high bit set
                    cb=b.const()
                    if cb is not None:
                        if pred in('ult','uge') and cb>0 and cb&(cb-1)==0:
                            hi=a.lshr(cb.bit_length()-1); return s.icmp(st,'eq' if pred=='ult' else 'ne',hi,ZL,n)
                        if pred in('ugt','ule') and (cb+1)&cb==0:
                            hi=a.lshr((cb+1).bit_length()-1); return s.icmp(st,'ne' if pred=='ugt' else 'eq',hi,ZL,n)
                return Cond('opq',('wcmp',pred,a,b))
            a=s.to_lin(a); b=s.to_lin(b)
        a=st.facts.norm(a); b=st.facts.norm(b)
        d=a-b
        if d.isc() and a.isc() and b.isc() and pred[0]=='u':
            x,y=a.c&((1<<n)-1),b.c&((1<<n)-1)
            r={'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y}[pred[1:]]
            return TRUE if r else FALSE
        if pred=='eq': 
            if d.isc(): return TRUE if d.c==0 else FALSE
            return Cond('eq',canon(d))
        if pred=='ne': 
            if d.isc(): return TRUE if d.c!=0 else FALSE
            return Cond('eq',canon(d),True)
        p=pred[1:]
        if pred[0]=='u' and not(st.facts.ge0(a) and st.facts.ge0(b)):
            # unsigned comparison of possibly negative values
            if p in('lt','ge') and st.facts.ge0(b):
                return Cond('opq',('ucmp',a,b),p=='ge')
            return Cond('opq',('ucmpx',pred,a,b))
        if p=='ge': c,neg=d,False
        elif p=='lt': c,neg=d,True
        elif p=='gt': c,neg=-d,True
        else: c,neg=-d,False
        if c.isc(): return TRUE if (c.c>=0)!=neg else FALSE
        return Cond('ge',c,neg)
    def decide(s,st,c):
        if c.k=='const': return not c.neg
        r=None
        if c.k=='ge':
            if st.facts.ge0(c.a): r=True
            elif st.facts.ge0(-c.a-1): r=False
        elif c.k=='eq':
            if st.facts.eq0(c.a): r=True
            elif st.facts.ne0(c.a): r=False
            else: 
                r=st.known.get(('eq',c.a))
        elif c.k=='bit':
            p=s.normp(st,c.a)
            if not p: r=False
            elif p==ONE: r=True
            else: r=st.known.get(('bit',p))
        elif c.k=='wz':
            w=st.norm(c.a)
            if w.iszero(): r=True
            elif any(p==ONE for p in w.b): r=False
            else: r=st.known.get(('wz',w))
            if r is None and any(st.known.get(('bit',p)) for p in w.b if p): r=False
        else: r=st.known.get((c.k,c.a))
        if r is None: return None
        return r!=c.neg
    def normp(s,st,p):
        if st.zero:
            hit={a:st.zero[a] for a in patoms(p) if a in st.zero}
            if hit: p=pmap(p,hit)
        return p
    def assume(s,st,c,truth):
        """refine st (in place) with cond c having the given truth; False when contradictory"""
        t=truth!=c.neg
        if c.k=='const': return t
        if c.k=='ge':
            st.facts=st.facts.add_ge(c.a if t else -c.a-1)
            return not st.facts.infeasible()
        if c.k=='eq':
            st.facts=st.facts.add_eq(c.a) if t else st.facts.add_ne(c.a)
            return not st.facts.infeasible()
        if c.k=='bit':
            p=s.normp(st,c.a)
            return s.assume_zero(st,pnot(p) if t else p)
        if c.k=='wz':
            w=st.norm(c.a)
            st.known=dict(st.known); st.known[('wz',w)]=t
            if t:
                for p in w.b:
                    p=s.normp(st,p)
                    if p and not s.assume_zero(st,p): return False
            return True
        st.known=dict(st.known); st.known[(c.k,c.a)]=t
        return True
    def assume_zero(s,st,p):
        if not p: return True
        if p==ONE: return False
        # find linear single-atom monomial not occurring elsewhere
        st.known=dict(st.known); st.known[('bit',p)]=False; st.known[('bit',pnot(p))]=True
        for m in sorted(p):
            if m and m&(m-1)==0:
                if not any((x&m) and x!=m for x in p):
                    a=m.bit_length()-1
                    rest=frozenset(x for x in p if x!=m)
                    z={k:(pmap(v,{a:rest}) if any(x&m for x in v) else v) for k,v in st.zero.items()}
                    z[a]=rest; st.zero=z
                    return True
        if len(p)==1:
            return True
        return True
    # ---------------------------------------------------------- gep
    def gep(s,st,ops,ty):
        p=ops[0]
        if isinstance(p,Undef): return S(fresh('undefptr'))
        off=ZL; t=ty; first=True
        for ix in ops[1:]:
            ix=s.to_lin(ix)
            if first: off=off+s.mulsz(ix,t.size); first=False
            elif t.k=='struct':
                off=off+t.bits[ix.c]; t=t.elem[ix.c]
            else:
                t=t.elem; off=off+s.mulsz(ix,t.size)
        if isinstance(p,Ptr): 
            if p.obj==0 and off.isc() and off.c==0: return p
            return Ptr(p.obj,p.sub,p.off+off)
        if isinstance(p,Lin): return S(('gep',p,off))
        return S(fresh('gep'))
    def mulsz(s,ix,n): return ix*n
    # ---------------------------------------------------------- execution
    audit=None
    def run(s,fname,args,st):
        F=s.p.func(fname)
        if F is None: raise KeyError(fname)
        if s.audit is None or s.depth: return s.call(F,args,st)
        out=s.call(F,args,st); s.audit.append((s,fname,args,out)); return out
    def call(s,F,args,st):
        s.calls+=1; s.visited.add(F.name); s.vargs.append(args[len(F.params):])
        if s.depth>s.max_depth: raise Undecided('inlining depth exceeded at '+F.name)
        saved=st.env; st.env={}
        for p,a in zip(F.params,args): st.env[p]=a
        s.depth+=1; s.stack.append(F.name)
        try:
            rpo,num,idom,loops,live,irr=cfg_of(F)
            exits,_=s.region(F,None,0,[(None,st)],None)
            out=[]
            for (r,t) in exits.get('ret',[]):
                t.env=saved if len(exits.get('ret'))==1 else dict(saved)
                out.append((r,t))
        finally: s.depth-=1; s.stack.pop(); s.vargs.pop()
        return s.merge_returns(out)
    def merge_returns(s,out):
        if len(out)<2: return out
        res=[]
        for r,t in out:
            for i,(r2,t2) in enumerate(res):
                v=s.try_merge(t2,t,[(r2,r)],None)
                if v is not None: res[i]=(v[0],t2); break
            else: res.append((r,t))
        return res
    def veq(s,a,b):
        if a is b: return True
        if type(a)!=type(b): return False
        if isinstance(a,Undef): return True
        return a==b
    def try_merge(s,a,b,vals,live):
        """join b into a (in place) when they agree up to facts, or differ only in words gated by the last
        branch bit.  vals: list of (va,vb).  Returns merged vals or None."""
        gate=None
        if a.bits!=b.bits:
            if len(a.bits)==len(b.bits) and a.bits[:-1]==b.bits[:-1] and a.bits[-1][0]==b.bits[-1][0] and a.bits[-1][1]!=b.bits[-1][1]:
                gate=a.bits[-1]
            else:
                return None
        if a.nev!=b.nev: return None
        if a.ev is not b.ev and a.events()!=b.events():
            return None
        def j(x,y):
            if s.veq(x,y): return x
            if s.join_val is not None:
                r=s.join_val(s,a,b,x,y,gate)
                if r is not None: return r
            if isinstance(x,Word) or isinstance(y,Word):
                if gate is None or isinstance(x,(Ptr,Fn,Undef)) or isinstance(y,(Ptr,Fn,Undef)): raise NoMerge
                n=x.n if isinstance(x,Word) else y.n
                x=s.to_word(x,n); y=s.to_word(y,n)
                try: return s.wsimp(ite(gate[0],x,y) if gate[1] else ite(gate[0],y,x))
                except TooBig: raise NoMerge
            if gate is not None and isinstance(x,Lin) and isinstance(y,Lin) and x.isc() and y.isc():
                x=wconst(x.c,64); y=wconst(y.c,64)
                return ite(gate[0],x,y) if gate[1] else ite(gate[0],y,x)
            raise NoMerge
        try:
            out=[j(x,y) for x,y in vals]
            env={}
            if live is not None:
                for k in live:
                    if k in a.env or k in b.env:
                        if k not in a.env or k not in b.env: continue
                        env[k]=j(a.env[k],b.env[k])
            mem={}
            for o in set(a.mem)|set(b.mem):
                x=a.mem.get(o); y=b.mem.get(o)
                if x is y: continue
                lx=[l for l in x.layers if l!={}] if x is not None else []
                ly=[l for l in y.layers if l!={}] if y is not None else []
                if lx==ly: continue
                ob=s.objs[o]
                if ob.kind=='alloca' and ob.info.get('fn') not in s.stack: continue
                n=0
                while n<len(lx) and n<len(ly) and (lx[n] is ly[n] or lx[n]==ly[n]): n+=1
                rx,ry=lx[n:],ly[n:]
                cx=x.const if x is not None else True; cy=y.const if y is not None else True
                if not all(isinstance(l,dict) for l in rx+ry): raise NoMerge
                if not (cx and cy):
                    if len(rx)>1 or len(ry)>1: raise NoMerge
                    kx=list(rx[0]) if rx else []; ky=list(ry[0]) if ry else []
                    for k1 in kx:
                        for k2 in ky:
                            if k1!=k2:
                                r=s.rel(a,k1,rx[0][k1][0],k2,ry[0][k2][0])
                                if r!='ne': raise NoMerge
                keys={}
                for l in rx+ry:
                    for k,(sz,_) in l.items():
                        if keys.setdefault(k,sz)!=sz: raise NoMerge
                nl={}
                for k,sz in keys.items():
                    va=s.get(a,o,k,sz,s.tyof(rx+ry,k,sz)); vb=s.get(b,o,k,sz,s.tyof(rx+ry,k,sz))
                    nl[k]=(sz,j(va,vb))
                mem[o]=OS(lx[:n]+[nl],a.sid,cx and cy,a.tok)
        except NoMerge: return None
        a.env.update(env); a.mem.update(mem)
        a.facts=a.facts.intersect(b.facts)
        if a.zero!=b.zero: a.zero={k:v for k,v in a.zero.items() if b.zero.get(k)==v}
        if a.known!=b.known: a.known={k:v for k,v in a.known.items() if b.known.get(k)==v}
        if gate is not None: a.bits=a.bits[:-1]
        return out
    def tyof(s,layers,k,sz):
        for l in layers:
            if k in l and isinstance(l[k][1],(Ptr,Fn)): return TYP
        return TYI(sz)
    def edge(s,F,frm,to,st):
        """evaluate the phis of `to` for the edge frm->to"""
        B=F.blocks[to]; new=[]
        for I in B.instrs:
            if I.op!='phi': break
            new.append((I.id,s.val(st,I.x[frm],F.mod)))
        for k,v in new: st.env[k]=v
    def region(s,F,loop,entry,states,ctx):
        """run the sub-CFG (a loop body or the whole function) once, in RPO.
        states: list of (frm,st) at entry, phis already evaluated.
        returns (exits: key->list of (frm_or_val,st), backs: list of (frm,st))"""
        rpo,num,idom,loops,live,irr=cfg_of(F)
        if irr: raise Undecided('irreducible control flow in '+F.name)
        blocks=loop.blocks if loop else None
        pend={entry:[st for _,st in states]}
        exits={}; backs=[]
        import heapq
        heap=[num[entry]]; inq={entry}
        def goto(frm,to,st):
            if loop is not None and to==loop.header:
                backs.append((frm,st)); return
            if blocks is not None and to not in blocks:
                exits.setdefault(to,[]).append((frm,st)); return
            if to in loops:      # inner loop header: phis handled by run_loop
                s.edge(F,frm,to,st)
            else: s.edge(F,frm,to,st)
            lst=pend.setdefault(to,[])
            for o in lst:
                if s.try_merge(o,st,[],live_at(F,to,live)) is not None: return
            lst.append(st)
            if to not in inq: inq.add(to); heapq.heappush(heap,num[to])
        while heap:
            b=rpo[heapq.heappop(heap)]; inq.discard(b)
            sts=pend.pop(b,[])
            if len(sts)>s.maxstates: raise Undecided(f'too many states in {F.name} block {b}')
            for st in sts:
                if b in loops and not (loop is not None and b==loop.header):
                    for (frm,to,st2) in s.run_loop(F,loops[b],st): 
                        if to=='ret': exits.setdefault('ret',[]).append((frm,st2))
                        else: goto2(s,F,frm,to,st2,loop,blocks,exits,backs,pend,inq,heap,num,live,loops,heapq)
                    continue
                s.block(F,b,st,goto,exits)
        return exits,backs
    def block(s,F,b,st,goto,exits):
        work=[(0,st)]
        instrs=F.blocks[b].instrs
        while work:
            i,st=work.pop()
            while i<len(instrs):
                I=instrs[i]; op=I.op
                s.steps+=1
                if s.steps>s.stepcap: raise Undecided('step budget exceeded in '+F.name)
                if op=='phi': i+=1; continue
                if op=='br':
                    if not I.ops: goto(b,F.blocks[b].succs[0],st); break
                    c=s.val(st,I.ops[0],F.mod)
                    s.branch(F,b,st,c,F.blocks[b].succs,goto,I); break
                if op=='switch':
                    s.switch(F,b,st,I,goto); break
                if op=='ret':
                    r=s.val(st,I.ops[0],F.mod) if I.ops else None
                    exits.setdefault('ret',[]).append((r,st)); break
                if op=='unreachable': break
                if op=='call':
                    rs=s.docall(F,I,st)
                    if not rs: break
                    if len(rs)==1:
                        r,st=rs[0]; st.env[I.id]=r; i+=1; continue
                    for r,t in rs: t.env[I.id]=r; work.append((i+1,t))
                    break
                if op=='select':
                    c=s.val(st,I.ops[0],F.mod); d=s.decide(st,c) if isinstance(c,Cond) else None
                    x,y=s.val(st,I.ops[1],F.mod),s.val(st,I.ops[2],F.mod)
                    if d is not None: st.env[I.id]=x if d else y
                    elif s.veq(x,y): st.env[I.id]=x
                    else:
                        t=st.fork()
                        if s.assume(t,c,False): t.env[I.id]=y; work.append((i+1,t))
                        if not s.assume(st,c,True): break
                        st.env[I.id]=x
                    i+=1; continue
                if op=='load':
                    rs=s.load_cases(st,s.val(st,I.ops[0],F.mod),I.ty,I)
                    if len(rs)==1: r,st=rs[0]; st.env[I.id]=r; i+=1; continue
                    for r,t in rs: t.env[I.id]=r; work.append((i+1,t))
                    break
                st.env[I.id]=s.simple(F,I,st)
                i+=1
    def branch(s,F,b,st,c,succs,goto,I):
        if succs[0]==succs[1]: goto(b,succs[0],st); return
        if not isinstance(c,Cond):
            c=s.icmp(st,'ne',c,ZL,1) if not isinstance(c,Undef) else Cond('opq',fresh('undef'))
        d=s.decide(st,c)
        lp=s.exit_forks
        if d is not None:
            # a symbolic bound on a counted loop: do not start unrolling what cannot be finished
            if lp is not None and lp.counted and F is lp.F and b==lp.lp.header and c.k in('ge','eq') and isinstance(c.a,Lin) and not c.a.isc() and not st.facts.norm(c.a).isc(): raise AbortUnroll(lp)
            goto(b,succs[0] if d else succs[1],st); return
        s.nfork=getattr(s,'nfork',0)+1
        lp=s.exit_forks
        if lp is not None and F is lp.F and c.k in('ge','eq') and b in lp.lp.blocks and any(x not in lp.lp.blocks for x in succs) and cfg_exit_of(F,lp.lp,b):
            raise AbortUnroll(lp)
        t=st.fork()
        if c.k=='bit':
            st.bits=st.bits+((c.a,not c.neg),); t.bits=t.bits+((c.a,c.neg),)
            # facts learned on a gated bit stay local: do not substitute (keeps states mergeable)
        # gates are only meaningful when both sides survive
        a=s.assume(st,c,True); e=s.assume(t,c,False)
        if c.k=='bit' and not(a and e):
            st.bits=st.bits[:-1]; t.bits=t.bits[:-1]
        if a: goto(b,succs[0],st)
        if e: goto(b,succs[1],t)
    exit_forks=None; join_val=None; on_mat=None
    def switch(s,F,b,st,I,goto):
        v=s.val(st,I.ops[0],F.mod); dflt,cases=I.x
        n=s_bits(I)
        if isinstance(v,Cond): v=s.to_lin(v)
        rest=st
        for cv,t in cases:
            c=s.icmp(rest,'eq',v,L(cv),64 if isinstance(v,Word) and v.n==64 else (v.n if isinstance(v,Word) else 32))
            d=s.decide(rest,c)
            if d is True: goto(b,t,rest); return
            if d is False: continue
            x=rest.fork()
            if s.assume(x,c,True): goto(b,t,x)
            if not s.assume(rest,c,False): return
        goto(b,dflt,rest)
    def simple(s,F,I,st):
        op=I.op; mod=F.mod
        if op=='load': return s.load(st,s.val(st,I.ops[0],mod),I.ty,I)
        if op=='store':
            s.store(st,s.val(st,I.ops[1],mod),s.val(st,I.ops[0],mod),I.x.size,I); return None
        if op=='gep': return s.gep(st,[s.val(st,o,mod) for o in I.ops],I.x)
        if op=='alloca':
            return s.new(st,f'local:{F.name}','alloca',None,size=I.x.size,fn=F.name)
        if op in('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'):
            return s.binop(st,op,s.val(st,I.ops[0],mod),s.val(st,I.ops[1],mod),I.ty.bits)
        if op=='icmp':
            a,b=s.val(st,I.ops[0],mod),s.val(st,I.ops[1],mod)
            n=64
            for o,v in zip(I.ops,(a,b)):
                if o[0]=='c': n=o[2]
            for v in (a,b):
                if isinstance(v,Word): n=v.n
            return s.icmp(st,I.x,a,b,n)
        if op in('zext','sext','trunc'):
            v=s.val(st,I.ops[0],mod); n=I.ty.bits; m=I.x.bits
            if isinstance(v,Cond):
                if op=='trunc': return v
                if v.k=='const': return L(0 if v.neg else (1 if op=='zext' else -1))
                if v.k=='bit':
                    p=s.cond_poly(v); return Word([p]+[ZERO if op=='zext' else p]*(n-1))
                return v
            if isinstance(v,Word):
                if v.n<n and op!='trunc': return v.zext(n) if op=='zext' else v.sext(n)
                if op=='trunc':
                    if n==1: return s.bitcond(v.b[0])
                    return s.wsimp(v.trunc(n))
                return v
            if isinstance(v,Lin):
                if v.isc():
                    if n==1: return TRUE if v.c&1 else FALSE
                    if op=='zext': return L(v.c&((1<<m)-1)) if v.c<0 else v
                    return L(sgn(v.c,n)) if op=='trunc' else v
                if op=='trunc' and n<32: return S(('trunc',v,n))
                return v
            return v
        if op in('fadd','fsub','fmul','fdiv','sitofp','uitofp','fptosi','fptoui','fneg','fpext','fptrunc'):
            a=[s.val(st,o,mod) for o in I.ops]
            return s.fop(st,op,[s.to_lin(x) if not isinstance(x,Undef) else S(fresh('u')) for x in a])
        if op=='fcmp':
            a=[s.to_lin(s.val(st,o,mod)) for o in I.ops]
            return Cond('opq',('fcmp',I.x,a[0],a[1]))
        if op in('bitcast','ptrtoint','inttoptr','freeze','addrspacecast'):
            return s.val(st,I.ops[0],mod)
        return UNDEF
    def fop(s,st,op,a):
        c=[fconst(st.facts.norm(x)) for x in a]
        if None not in c:
            if op in('fptosi','fptoui'): return L(int(c[0]))
            if op in('sitofp','uitofp','fpext','fptrunc'): return S(('float',float(c[0])))
            if op in('fadd','fsub','fmul'): return S(('float',{'fadd':c[0]+c[1],'fsub':c[0]-c[1],'fmul':c[0]*c[1]}[op]))
            if op=='fdiv' and c[1]: return S(('float',c[0]/c[1]))
        return S((op,)+tuple(st.facts.norm(x) for x in a))
    # ---------------------------------------------------------- calls
    def docall(s,F,I,st):
        callee=s.val(st,I.x,F.mod) if I.x[0]!='md' else None
        args=[s.val(st,o,F.mod) if o[0]!='md' else None for o in I.ops]
        return s.invoke(callee,args,st,I,F)
    def invoke(s,callee,args,st,I,F):
        if not isinstance(callee,Fn):
            h=s.prims.get('<indirect>')
            if h:
                r=h(s,st,args,I,callee)
                if r is not None: return r
            raise Undecided(f'indirect call through {callee} at {s.where(I)}')
        name=callee.name
        if name.startswith('llvm.va_'): return s.va(name,args,st)
        base=name.split('.')[0] if not name.startswith('llvm') else name
        h=s.prims.get(name)
        if h is not None:
            r=h(s,st,args,I,name)
            if r is not None: return r
        G=s.p.resolve(callee.mod or F.mod,name)
        if G is None:
            s.ext.add(name)
            h=s.prims.get('<extern>')
            r=h(s,st,args,I,name) if h else None
            if r is not None: return r
            raise Undecided(f'no model for external function {name} at {s.where(I)}')
        if s.stack.count(name)>=getattr(s,'maxrec',3):
            raise Undecided(f'recursion through {name} without contract')
        return s.call(G,args,st)
    def va(s,name,args,st):
        p=args[0]
        if name.startswith('llvm.va_start'):
            o=s.new(st,'varargs','varargs',None)
            for i,v in enumerate(s.vargs[-1]): s.put(st,o.obj,((),L(8*i)),8 if isinstance(v,(Ptr,Word)) else 4,v)
            s.put(st,p.obj,(p.sub,p.off),4,L(48)); s.put(st,p.obj,(p.sub,p.off+4),4,L(304))
            s.put(st,p.obj,(p.sub,p.off+8),8,o); s.put(st,p.obj,(p.sub,p.off+16),8,NULL)
        elif name.startswith('llvm.va_copy'):
            q=args[1]
            for k,z,t in((0,4,TYI(4)),(4,4,TYI(4)),(8,8,TYP),(16,8,TYP)): s.put(st,p.obj,(p.sub,p.off+k),z,s.load(st,q.at(k),t))
        return [(UNDEF,st)]
    # ---------------------------------------------------------- loops
    def run_loop(s,F,lp,st):
        """returns list of (frm,to,state) leaving the loop; phis of header already evaluated in st.env"""
        r=s.try_unroll(F,lp,st.fork()) if s.unroll and not(s.keep_loop and s.keep_loop(F,lp)) else None
        if r is not None: return r
        return s.sym_loop(F,lp,st)
    def try_unroll(s,F,lp,st):
        out=[]; cur=[st]; n=0
        saved=s.exit_forks
        nd=len(s.dead); ns=len(s.soft); na=len(s.acc); dep=s.depth; stk=len(s.stack)
        phis=[I for I in F.blocks[lp.header].instrs if I.op=='phi']
        log=UnrollLog(F,lp,s.static_steps(F,lp,phis,{I.id:st.env[I.id] for I in phis},True) is not None)
        try:
            while cur:
                n+=1
                if n>s.unroll_max: raise AbortUnroll(log)
                if n>s.unroll: raise Undecided('unroll bound in '+F.name)
                s.exit_forks=log
                exits,backs=s.region(F,lp,lp.header,[(None,x) for x in cur],None)
                for to,lst in exits.items():
                    for frm,x in lst: out.append((frm,to,x))
                cur=[]
                for frm,x in backs:
                    s.edge(F,frm,lp.header,x)
                    for o in cur:
                        if s.try_merge(o,x,[],live_at(F,lp.header,cfg_of(F)[4])) is not None: break
                    else: cur.append(x)
                if len(cur)>s.maxstates: raise Undecided('state explosion in loop of '+F.name)
        except AbortUnroll as e:
            if e.log is not log: raise
            del s.dead[nd:]; del s.soft[ns:]; del s.acc[na:]; s.depth=dep; del s.stack[stk:]
            return None
        finally: s.exit_forks=saved
        return out
    def static_steps(s,F,lp,phis,init,some=False):
        """induction variables visible in the text: phi + loop invariant constant; only a first guess, always re-checked"""
        out={}
        defs={I.id:I for b in lp.blocks for I in F.blocks[b].instrs if I.id is not None}
        for I in phis:
            bv={I.x[p] for p in F.blocks[lp.header].preds if p in lp.blocks}
            if len(bv)!=1:
                if some: continue
                return None
            o=next(iter(bv))
            if o[0]!='v' or I.ty.k!='int' or not isinstance(init[I.id],Lin):
                if some: continue
                return None
            if o[1]==I.id: out[I.id]=('inv',); continue
            J=defs.get(o[1])
            if J is None or J.op not in('add','sub'):
                if some: continue
                return None
            x,y=J.ops
            if J.op=='add' and y==('v',I.id): x,y=y,x
            if x!=('v',I.id) or y[0]!='c':
                if some: continue
                return None
            out[I.id]=('step',Lin((),y[1] if J.op=='add' else -y[1]))
        if some and not any(v[0]=='step' for v in out.values()): return None
        return out
    def sym_loop(s,F,lp,st,depth=0):
        s.symloops+=1; sym0=len(Sym.keys); obj0=s.nobj
        hdr=F.blocks[lp.header]
        phis=[I for I in hdr.instrs if I.op=='phi']
        init={I.id:st.env[I.id] for I in phis}
        saved=s.exit_forks; s.exit_forks=None; s.nest+=1
        try:
            ksym=fresh('k'); kid=Sym.get(ksym); k=Lin(((kid,1),),0)
            if all(t in lp.blocks for b in lp.blocks if b!=lp.header for t in F.blocks[b].succs): s.kclean.add(kid)
            steps={}          # phi id -> ('inv',) | ('step',Lin) | ('var',)
            cellinfo={}       # (obj,addr) -> ('step',Lin)|('var',size)
            tmpl=None; talpha=None; first=0
            g=s.static_steps(F,lp,phis,init)
            if g is not None: steps=g; first=1
            for rnd in range(first,9):
                nd=len(s.dead); ns=len(s.soft); na=len(s.acc); mark0=len(Sym.keys); omark=s.nobj
                if rnd==8: tmpl=s.force_havoc(tmpl); cellinfo={}
                h=st.fork(); h.facts=h.facts.add_ge(k)
                probe={}
                for I in phis:
                    v=init[I.id]; c=steps.get(I.id)
                    if c is None or c[0]=='var':
                        if isinstance(v,Word): nv=Word([atom((('fresh','phi',fresh()[2]),i)) for i in range(v.n)])
                        elif isinstance(v,Ptr): nv=Ptr(v.obj,v.sub,S(fresh('po'))) if c is None or len(c)<2 else S(fresh('pv'))
                        elif isinstance(v,Cond): nv=Cond('opq',fresh('pc'))
                        elif isinstance(v,Undef): nv=v
                        else:
                            nv=S(fresh('p'))
                            if I.ty.k=='int' and I.ty.bits==64 and not isinstance(v,Lin): nv=Word([atom((('fresh','phi',fresh()[2]),i)) for i in range(64)])
                    elif c[0]=='inv': nv=v
                    else:
                        nv = Ptr(v.obj,v.sub,v.off+s.kmul(c[1],k)) if isinstance(v,Ptr) else v+s.kmul(c[1],k)
                    h.env[I.id]=nv; probe[I.id]=nv
                # memory at the head of iteration k
                cprobe={}
                if tmpl is not None:
                    s.apply_template(h,tmpl,kid,ZL,k,cellinfo,cprobe,st)
                    # an object created by an iteration stands for one object per iteration: its content is unknown
                    for o in {o for t in tmpl for o in t[0].mem if o>=obj0}: h.mem[o]=OS([('havoc','iteration')],h.sid,False,h.tok)
                mark=h.ev
                h.tok=fresh('tok')
                base={o:len(x.layers) for o,x in h.mem.items()}
                s.head_hook(F,lp,h,k)
                exits,backs=s.region(F,lp,lp.header,[(None,h)],None)
                nsteps={}
                for I in phis:
                    res=None
                    for frm,x in backs:
                        v=s.val(x,I.x[frm],F.mod); p=probe[I.id]
                        if s.veq(v,p): r=('inv',)
                        elif isinstance(v,Lin) and isinstance(p,Lin) and s.invariant(v-p,probe,kid): r=('step',v-p)
                        elif isinstance(v,Ptr) and isinstance(p,Ptr) and v.obj==p.obj and v.sub==p.sub and s.invariant(v.off-p.off,probe,kid): r=('step',v.off-p.off)
                        elif isinstance(v,Ptr) and isinstance(p,Ptr) and v.obj==p.obj: r=('var',)
                        else: r=('var',1)
                        if res is None: res=r
                        elif res!=r: res=('var',) if len(res)==1 or len(r)==1 else ('var',1)
                    if res is None: res=('inv',)
                    old=steps.get(I.id)
                    if old is not None and old!=('inv',) and old!=res and not(old[0]=='step' and res[0]=='step'): res=('var',1) if not isinstance(init[I.id],Ptr) else ('var',)
                    if old is not None and old[0]=='var': res=old if len(old)>=len(res) else res
                    if old is not None and old[0]=='inv' and res[0]=='inv': pass
                    if old is not None and old[0]=='step':
                        # probe was closed form: expect v == p+step
                        pass
                    nsteps[I.id]=res
                if len(backs)>1 and depth<3:
                    # iterations that differ only by a loop-invariant condition: fork the loop on it up front
                    e=s.invariant_split(st,[x for _,x in backs],sym0)
                    if e is not None:
                        del s.dead[nd:]; del s.soft[ns:]; del s.acc[na:]; out=[]
                        for c in (e,-e-1):
                            t=st.fork(); t.facts=t.facts.add_ge(c)
                            if not t.facts.infeasible(): out+=s.sym_loop(F,lp,t,depth+1)
                        return out
                # writes
                ntmpl=[]
                for frm,x in backs:
                    ntmpl.append((x,s.trip(x,x.events(mark),kid),s.diff(x,base)))
                ncell=s.cells_of(ntmpl,kid,cprobe,probe,cellinfo)
                calpha=[s.obj_alpha(s.alpha(t[2],mark0),omark) for t in ntmpl]
                stable = nsteps==steps and tmpl is not None and talpha==calpha and ncell==cellinfo
                if rnd==8 and backs:
                    if nsteps!=steps or not all(o in tmpl[0][2] or o not in st.mem for t in ntmpl for o in t[2]): raise Undecided('loop effects do not stabilise in '+F.name)
                    break
                if rnd==0 and backs and nsteps:
                    # only the induction variables are learned from the first, unconstrained round
                    steps=nsteps; tmpl=None; cellinfo={}
                    del s.dead[nd:]; del s.soft[ns:]; del s.acc[na:]
                    continue
                if DBG: print('  rnd',rnd,F.name,hdr.instrs[0].line,'steps',nsteps==steps,'cells',ncell==cellinfo,'tm',talpha==calpha,len(backs))
                steps=nsteps; tmpl=ntmpl; cellinfo=ncell; talpha=calpha
                if not backs: break
                if stable and rnd>=1: break
                del s.dead[nd:]; del s.soft[ns:]; del s.acc[na:]
            # ---- leave the loop
            if s.back_hook is not None: s.back_hook(F,lp,h,kid,k,backs,st)
            out=[]
            for to,lst in exits.items():
                for frm,x in lst:
                    s.wrap_loop_events(x,mark,kid,k,tmpl); x.tok=st.tok
                    if frm==lp.header and to!='ret':
                        for y in s.close(F,lp,x,kid,k,st,steps,init): out.append((frm,to,y))
                    else:
                        for g in s.prev_facts(backs,kid,sym0,st): x.facts=x.facts.add_ge(g.sub({kid:k-1}))
                        if not x.facts.infeasible(): out.append((frm,to,x))
            return out
        finally: s.exit_forks=saved; s.nest-=1
    def head_hook(s,F,lp,h,k): pass
    back_hook=None; nest=0
    hyp=frozenset()
    def invariant_split(s,st,xs,sym0):
        for x in xs:
            for e in x.facts.ge:
                if not e.t or max(deep_syms(e))>=sym0: continue
                if st.facts.ge0(e) or st.facts.ge0(-e-1): continue
                if any(y is not x and y.facts.ge0(-e-1) for y in xs): return e
        return None
    def kmul(s,c,k): return k*c.c if c.isc() else S(('mul',)+tuple(sorted((c,k),key=lambda z:(z.t,z.c))))
    def invariant(s,e,probe,kid):
        ds=deep_syms(e)
        if kid in ds: return False
        for v in probe.values():
            if isinstance(v,Lin) and any(q in ds for q in v.syms() if isinstance(Sym.keys[q],tuple) and Sym.keys[q][0]=='fresh' and Sym.keys[q][1]=='p'): return False
        return not any(isinstance(Sym.keys[q],tuple) and Sym.keys[q][0]=='fresh' and Sym.keys[q][1] in('p','po','pv') for q in ds)
    def cells_of(s,tmpl,kid,cprobe,probe,old):
        """classify loop-written cells whose address does not depend on the iteration"""
        out={}
        for x,evs,diff in tmpl:
            last={}
            for o,layers in diff.items():
                for l in layers:
                    if not isinstance(l,dict): continue
                    for addr,(size,v) in l.items():
                        if kid in deep_syms(addr[1]) or kid in deep_syms(addr[0]): continue
                        if s.loopvar(addr): continue
                        last[(o,addr)]=(size,v)
            for key,(size,v) in last.items():
                pv=cprobe.get(key)
                r=('var',size)
                if pv is not None:
                    if s.veq(v,pv): r=('inv',size)
                    elif isinstance(v,Lin) and isinstance(pv,Lin) and s.invariant(v-pv,probe,kid): r=('step',size,v-pv)
                    if old.get(key,(None,))[0]=='step' and not(isinstance(v,Lin) and r[0]=='step' and r[2]==old[key][2]): r=('var',size)
                    if old.get(key,(None,))[0]=='var' and r[0]!='step': r=('var',size)
                if key in out and out[key]!=r: r=('var',size)
                out[key]=r
        return out
    def force_havoc(s,tmpl):
        """last resort: everything the loop was seen to write is unknown at the head of an iteration"""
        return [(x,evs,{o:[('havoc','unstable')] for y,e2,d in tmpl for o in d}) for x,evs,diff in tmpl]
    def alpha(s,diff,mark):
        """the write template with the symbols created in this round renamed canonically"""
        new=set()
        def col(e):
            if isinstance(e,dict):
                for a,(sz,v) in e.items(): grab(a); grab(v)
            elif e[0]=='q':
                new.add(e[1]); grab(e[2]); grab(e[3])
                for alt in e[4]:
                    for z in alt: col(z)
            else: grab(e)
        def grab(v):
            for k in deep_syms(v if not isinstance(v,Ptr) else (v.sub,v.off)):
                if k>=mark: new.add(k)
        for o,ls in diff.items():
            for l in ls: col(l)
        new={k for k in new if k>=mark and isinstance(Sym.keys[k],tuple) and Sym.keys[k][0]=='fresh'}
        if not new: return diff
        m={}; num={}
        for n,k in enumerate(sorted(new)):
            c=Sym.get(('fresh',Sym.keys[k][1],'canon%d'%n)); m[k]=Lin(((c,1),),0); num[k]=c
        def ren(e):
            if isinstance(e,dict): return {vsubst(a,m):(sz,vsubst(v,m)) for a,(sz,v) in e.items()}
            if e[0]=='q': return ('q',num.get(e[1],e[1]),vsubst(e[2],m),vsubst(e[3],m),[[ren(z) for z in alt] for alt in e[4]])
            if e[0] in('op','havoc'): return vsubst(e,m) if e[0]=='op' else e
            return (vsubst(e[0],m),e[1],vsubst(e[2],m))
        return {o:[ren(l) for l in ls] for o,ls in diff.items()}
    def obj_alpha(s,diff,omark):
        """objects created by the iteration are named by their order of appearance"""
        num={}
        def v_(v):
            if isinstance(v,Ptr) and v.obj>=omark: return Ptr(('new',num.setdefault(v.obj,len(num))),v.sub,v.off)
            return v
        def ren(e):
            if isinstance(e,dict): return {a:(sz,v_(v)) for a,(sz,v) in e.items()}
            if e[0]=='q': return ('q',e[1],e[2],e[3],[[ren(z) for z in alt] for alt in e[4]])
            if e[0] in('op','havoc'): return e
            return (e[0],e[1],v_(e[2]))
        return {o:[ren(l) for l in ls] for o,ls in diff.items()}
    def trip(s,x,evs,kid):
        km={k:v for k,v in x.facts.sub.items() if k>kid and isinstance(Sym.keys[k],tuple) and Sym.keys[k][0]=='fresh' and Sym.keys[k][1]=='k'}
        if not any(e[0] in('acc','loop') for e in evs): return evs
        for q,v in x.facts.sub.items():
            if q in km: continue
            for y,c in v.t:
                ky=Sym.keys[y]
                if c in(1,-1) and y>kid and y not in km and isinstance(ky,tuple) and ky[0]=='fresh' and ky[1]=='k':
                    km[y]=(Lin(((q,1),),0)-Lin(tuple(t for t in v.t if t[0]!=y),v.c))*c; break
        return [vsubst(e,km) if e[0] in('acc','loop') else e for e in evs] if km else evs
    def diff(s,x,base):
        out={}
        # inner trip counts are only known through the facts of this iteration: write them out
        km={k:v for k,v in x.facts.sub.items() if isinstance(Sym.keys[k],tuple) and Sym.keys[k][0]=='fresh' and Sym.keys[k][1]=='k'}
        for o,y in x.mem.items():
            n=base.get(o)
            if n is None: continue
            l=[z for z in y.layers[n:] if z!={}]
            if l: out[o]=[s.lay_subst(z,km) for z in l] if km else l
        return out
    def lay_subst(s,l,m):
        if isinstance(l,dict): return {vsubst(a,m):(sz,vsubst(v,m)) for a,(sz,v) in l.items()}
        return lsubst(l,m) if l[0]=='q' else l
    def loopvar(s,addr):
        ds=deep_syms(addr[1])|deep_syms(addr[0])
        return any(isinstance(Sym.keys[q],tuple) and Sym.keys[q][0]=='fresh' and Sym.keys[q][1] in('p','po','pv') for q in ds)
    def apply_template(s,h,tmpl,kid,lo,hi,cellinfo,cprobe,st0):
        """memory at the head of a generic iteration: the effects of iterations lo..hi-1"""
        byobj={}
        for x,evs,diff in tmpl:
            for o in diff: byobj.setdefault(o,[])
        for o in byobj:
            for x,evs,diff in tmpl: byobj[o].append(diff.get(o,[]))
        for o,alts in byobj.items():
            if o not in st0.mem or o in s.hyp and s.nest==1: continue            # allocated inside the body / content supplied by hypothesis
            osx=s.osw(h,o)
            fixed={}; qa=[]; odd=False
            for layers in alts:
                ent=[]
                for l in layers:
                    if isinstance(l,dict):
                        for addr,(size,v) in l.items():
                            if (o,addr) in cellinfo: fixed[addr]=cellinfo[(o,addr)]
                            elif s.loopvar(addr): odd=True
                            else: ent.append((addr,size,v))
                    elif l[0]=='havoc': odd=True
                    else: ent.append(l)
                if ent not in qa: qa.append(ent)
            if odd:
                osx.layers.append(('havoc','loop')); osx.const=False
            elif any(qa):
                # quantify with a bound variable distinct from the current iteration counter
                kk=fresh('j'); jid=Sym.get(kk); m={kid:Lin(((jid,1),),0)}
                osx.layers.append(('q',jid,lo,hi,[[lsubst(e,m) for e in ent] for ent in qa])); osx.const=False
            for addr,ci in fixed.items():
                old=s.get(st0,o,addr,ci[1],TYI(ci[1]))
                if ci[0]=='inv': continue
                if ci[0]=='step' and isinstance(old,Lin): v=old+s.kmul(ci[2],hi)
                else:
                    v=s.fresh_like(old,ci[1])
                cprobe[(o,addr)]=v
                s.put(h,o,addr,ci[1],v)
            for addr,ci in fixed.items():
                if ci[0]=='inv':
                    cprobe[(o,addr)]=s.get(h,o,addr,ci[1],TYI(ci[1]))
    def fresh_like(s,v,size):
        if isinstance(v,Word): return Word([atom((('fresh','cell',fresh()[2]),i)) for i in range(v.n)])
        if isinstance(v,Ptr) or isinstance(v,Fn): return S(fresh('pv'))
        return S(fresh('p'))
    def wrap_loop_events(s,x,mark,kid,k,tmpl):
        """insert a loop summary event before the events of the (partial) last iteration"""
        last=x.events(mark)
        alts=[t[1] for t in tmpl]
        x.ev=mark
        # number of events stays comparable
        if any(alts):
            j=fresh('j'); jid=Sym.get(j); m={kid:Lin(((jid,1),),0)}
            x.event('loop',jid,ZL,k,tuple(tuple(vsubst(e,m) if e[0] in('acc','loop','eop') else e for e in a) for a in alts))
        for e in last: x.ev=(x.ev,e)
    def prev_facts(s,backs,kid,sym0,st):
        """facts every completed iteration establishes about its number that also hold for an imaginary iteration -1"""
        if not backs: return []
        out=[]
        for g in backs[0][1].facts.ge:
            if not g.coef(kid) or any(q!=kid and q>=sym0 for q in deep_syms(g)): continue
            if kid in deep_syms(g-Lin(((kid,g.coef(kid)),),0)): continue
            if any(not y.facts.ge0(g) for _,y in backs[1:]): continue
            if st.facts.ge0(g.sub({kid:L(-1)})): out.append(g)
        return out
    def close(s,F,lp,x,kid,k,st,steps,init):
        """exit through the header condition: relate k with the trip count"""
        br=F.blocks[lp.header].instrs[-1]
        c=x.env.get(br.ops[0][1]) if br.op=='br' and br.ops and br.ops[0][0]=='v' else None
        if not isinstance(c,Cond) or c.k not in('ge','eq'): return [x]
        stay_true = F.blocks[lp.header].succs[0] in lp.blocks
        neg=c.neg if stay_true else not c.neg
        g=c.a
        if c.k=='ge':
            g = -g-1 if neg else g            # stay  <=> g>=0
        else:
            # stay while i != n   (leave at equality)
            if not neg: return [x]
            g0=g
            cf=g.coef(kid)
            if cf==0: return [x]
            g = g if cf<0 else -g
            g = g-1  if abs(cf)==1 else g-1
        cf=g.coef(kid)
        if cf>=0 or kid in deep_syms(g-Lin(((kid,cf),),0)): return [x]
        sstep=-cf
        g0=g.sub({kid:ZL})
        outs=[]
        if sstep==1:
            if st.facts.ge0(g0+1):
                x.facts=x.facts.add_eq(k-(g0+1)); return [x] if not x.facts.infeasible() else []
            y=x.fork()
            x.facts=x.facts.add_eq(k-(g0+1)).add_ge(g0)
            y.facts=y.facts.add_eq(k).add_ge(-g0-1)
            return [z for z in (x,y) if not z.facts.infeasible()]
        g0=st.facts.norm(g0)
        q=div_term(g0+sstep,sstep)          # trip count = floor(g0/step)+1 when the first test can succeed
        if st.facts.ge0(g0+sstep):
            x.facts=x.facts.add_eq(k-q); return [x] if not x.facts.infeasible() else []
        y=x.fork()
        x.facts=x.facts.add_ge(g0).add_eq(k-q)
        y.facts=y.facts.add_eq(k).add_ge(-g0-1)
        return [z for z in (x,y) if not z.facts.infeasible()]
def fconst(x):
    if x.isc(): return x.c
    if len(x.t)==1 and x.c==0 and x.t[0][1]==1:
        k=Sym.keys[x.t[0][0]]
        if isinstance(k,tuple) and k[0]=='float': return k[1]
    return None
class NoMerge(Exception): pass
def gcd_of(l):
    from math import gcd
    g=0
    for x in l: g=gcd(g,abs(x))
    return g
def lsubst(e,m):
    if e[0]=='q': return ('q',e[1],vsubst(e[2],m),vsubst(e[3],m),[[lsubst(x,m) for x in alt] for alt in e[4]])
    if e[0]=='op': return vsubst(e,m)
    return (vsubst(e[0],m),e[1],vsubst(e[2],m))
class _P: k='ptr'; size=8; bits=None
TYP=_P()
class TYI:
    def __init__(s,size): s.k='int'; s.bits=size*8; s.size=size
def s_bits(I): return 32
def s_ne_div(d,c,size):
    return False
def canon(d):
    """sign-canonical equality expression"""
    if d.t and d.t[0][1]<0: return -d
    return d
def wrange(w):
    lo=hi=0
    for i,p in enumerate(w.b):
        if p==ONE: lo|=1<<i; hi|=1<<i
        elif p: hi|=1<<i
    return lo,hi
_live={}
def live_at(F,b,live):
    """registers live on entry plus the phis of b"""
    key=(id(F),b); r=_live.get(key)
    if r is None:
        r=set(live[b])
        for I in F.blocks[b].instrs:
            if I.op!='phi': break
            r.add(I.id)
        _live[key]=r
    return r
DBG=False
class UnrollLog:
    __slots__=('F','lp','counted')
    def __init__(s,F,lp,counted=False): s.F=F; s.lp=lp; s.counted=counted
class AbortUnroll(BaseException):
    def __init__(s,log): s.log=log
def cfg_exit_of(F,lp,b):
    """does an undecided integer exit test in block b leave the trip count undecided?"""
    if b==lp.header: return True
    return all(t in lp.blocks for t in F.blocks[lp.header].succs)
def goto2(s,F,frm,to,st,loop,blocks,exits,backs,pend,inq,heap,num,live,loops,heapq):
    if loop is not None and to==loop.header:
        backs.append((frm,st)); return
    if blocks is not None and to not in blocks:
        exits.setdefault(to,[]).append((frm,st)); return
    s.edge(F,frm,to,st)
    lst=pend.setdefault(to,[])
    for o in lst:
        if s.try_merge(o,st,[],live_at(F,to,live)) is not None: return
    lst.append(st)
    if to not in inq: inq.add(to); heapq.heappush(heap,num[to])
