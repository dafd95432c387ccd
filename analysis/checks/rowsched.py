"""schedules of row operations: row r *= 1/t, row r += t * row k (directly or through a table of multiples).
Symbolic: affine loop nests, coverage and dependences decided for all sizes.  Concrete sizes: exact evaluation over Laurent polynomials in the
elements of the triangular matrix (definite differences only)."""
from rows import *
from bmats import *
def inv_word(x,e): return Word([atom(('ffinv',x,i)) for i in range(e)]+[ZERO]*(64-e))
def inv_of(w,e):
    """element whose inverse the word is"""
    a=single(w.b[0])
    if a is None: return None
    k=Atom.keys[a]
    if not(isinstance(k,tuple) and k[0]=='ffinv') or w!=inv_word(k[1],e): return None
    return el_of(k[1],e)
def sched_prims(lay,slice_view):
    d=dict(acc_prims(lay)); mt=d['mzed_make_table']
    def degree(I,st,p): return I.objs[I.load(st,p.at(lay('mzed_t','finite_field')),PTR).obj].info['degree']
    def make_table(I,st,args,ins,name):
        v=view(I,st,args[1],ins); r=st.facts.norm(I.to_lin(args[2])); c=st.facts.norm(I.to_lin(args[3]))
        if not st.facts.eq0(c): part(I,st,c,v,ins)
        for T,st2 in mt(I,st,args,ins,name): st2.event('acc','tb',T.obj,v.d,st2.facts.norm(v.r0+r)); yield T,st2
    def part(I,st,c,v,ins):
        x=find(st,[c,v.nc-c],lambda z:z[0]>0 and z[1]>=0)
        if x is not None: I.bmviol.append((caller(I,ins),'schedule',f'the row operation starts at column {c}, for example with {x}'))
        raise Undecided('row operation on a part of the row at '+I.where(ins))
    def rescale(I,st,args,ins,name):
        A=args[0]; r,c=(st.facts.norm(I.to_lin(x)) for x in args[1:3]); v=view(I,st,A,ins); e=degree(I,st,A)
        in_range(I,st,v,r,None,ins,'rescaled row')
        if not st.facts.eq0(c): part(I,st,c,v,ins)
        x=st.norm(I.to_word(args[3],64,st)); el=inv_of(x,e)
        if el is None:
            y=el_of(x,e)
            if y is not None: st.event('acc','mu',v.d,v.r0+r,y,I.where(ins)); return [(UNDEF,st)]
            raise Undecided('the factor of a rescaled row is not an inverse of an element at '+I.where(ins))
        st.event('acc','sc',v.d,v.r0+r,el,I.where(ins)); return [(UNDEF,st)]
    def amr(I,st,args,ins,name):
        A,B=args[0],args[2]; ar,br,c=(st.facts.norm(I.to_lin(x)) for x in(args[1],args[3],args[5])); u,v=view(I,st,A,ins),view(I,st,B,ins); e=degree(I,st,A)
        in_range(I,st,u,ar,None,ins,'row addition'); in_range(I,st,v,br,None,ins,'row addition')
        if not st.facts.eq0(c): part(I,st,c,v,ins)
        same_dim(I,st,u.nc,v.nc,ins,'row addition: columns')
        x=st.norm(I.to_word(args[4],64,st)); el=el_of(x,e)
        if el is None:
            if x.const()==1: st.event('acc','one',u.d,u.r0+ar,v.d,v.r0+br,I.where(ins)); return [(UNDEF,st)]
            raise Undecided('the factor of an added row is not an element at '+I.where(ins))
        st.event('acc',u.d,u.r0+ar,u.r0+ar+1,u.c0,u.c1,((el[0],el[1],el[1]+1,el[2],el[2]+1),(v.d,v.r0+br,v.r0+br+1,v.c0,v.c1))); return [(UNDEF,st)]
    def ffinv(I,st,args,ins,name):
        ff=args[0]; e=I.objs[ff.obj].info['degree']; x=st.norm(I.to_word(args[1],64,st))
        return [(inv_word(x,e),st)]
    def s_read(I,st,args,ins,name):
        A=args[0]; r,c=(st.facts.norm(I.to_lin(x)) for x in args[1:3]); v=slice_view(I,st,A,ins)
        in_range(I,st,v,r,c,ins,'element read')
        ff=I.load(st,A.at(lay('mzd_slice_t','finite_field')),PTR)
        return [(el_word(v.d,st.facts.norm(v.r0+r),st.facts.norm(v.c0+c),I.objs[ff.obj].info['degree']),st)]
    sp=slice_prims(lay)
    def conv(nm,dv,sv):
        def f(I,st,args,ins,name):
            for r,st2 in sp[nm](I,st,args,ins,name):
                st2.event('acc','cv',dv(I,st2,r,ins).d,sv(I,st2,args[1],ins).d,I.where(ins)); yield r,st2
        return f
    d.update({'mzed_make_table':lambda *a:list(make_table(*a)),'mzed_rescale_row':rescale,'mzed_add_multiple_of_row':amr,'gf2e_inv':ffinv,'mzd_slice_read_elem':s_read})
    d.update({k:v for k,v in sp.items() if k in('mzd_slice_free','mzd_slice_init','mzd_slice_init_window','mzd_slice_free_window')})
    cl,sc=conv('mzed_cling',view,slice_view),conv('mzed_slice',slice_view,view)
    d['mzed_cling']=lambda *a:list(cl(*a)); d['mzed_slice']=lambda *a:list(sc(*a))
    return d
# ---------------------------------------------------------------- concrete
def mono_mul(m,sym,k):
    d=dict(m); d[sym]=d.get(sym,0)+k
    if not d[sym]: del d[sym]
    return frozenset(d.items())
def pscale(p,sym,k): return frozenset(mono_mul(m,sym,k) for m in p)
def evaluate_rows(evs,f,n,dB,dT):
    """rows of store dB after the events (concrete positions); None when something is not concrete"""
    val={}; tabs={}; via=None; alias={}
    def src(x): return alias.get(x,x)
    def get(d,r): return val.get((d,r),frozenset([frozenset([(('b',d,r),1)])]))
    def c(e):
        e=f.norm(e)
        if not e.isc(): raise Undecided('position not concrete')
        return e.c
    def sym(el):
        return ('t',src(el[0]),c(el[1]),c(el[2]))
    for ev in evs:
        if ev[0]=='loop': raise Undecided('loop not unrolled')
        if ev[0]!='acc': continue
        k=ev[1]
        if k=='via': via=ev[2]; continue
        if k=='tb': tabs[ev[2]]=get(ev[3],c(ev[4]))
        elif k=='sc':
            r=c(ev[3]); val[ev[2],r]=pscale(get(ev[2],r),sym(ev[4]),-1)
        elif k=='mu':
            r=c(ev[3]); val[ev[2],r]=pscale(get(ev[2],r),sym(ev[4]),1)
        elif k=='one':
            r=c(ev[3]); val[ev[2],r]=get(ev[2],r)^get(ev[4],c(ev[5]))
        elif k=='cv':
            d,s=ev[2],ev[3]
            if any(q[0]==s for q in val) or (s,'id') in val: 
                for r in range(n): val[d,r]=get(s,r)
            else:
                for r in range(n): val[d,r]=get(s,r)
            alias[d]=src(s) if not any(q[0]==s and v!=frozenset([frozenset([(('b',src(s),q[1]),1)])]) for q,v in val.items()) else d
        else:
            _,d,r0,r1,c0,c1,mono=ev; r=c(r0)
            el,s=mono
            x=tabs[via] if via is not None else get(s[0],c(s[1]))
            val[d,r]=get(d,r)^pscale(x,sym((el[0],el[1],el[3])),1)
        via=None
    return [get(dB,r) for r in range(n)],[get(dT,r) for r in range(n)]
def wanted_rows(n,lower,dB,dT):
    X={}
    for i in(range(n) if lower else range(n-1,-1,-1)):
        p=frozenset([frozenset([(('b',dB,i),1)])])
        for k in(range(i) if lower else range(i+1,n)): p=p^pscale(X[k],('t',dT,i,k),1)
        X[i]=pscale(p,('t',dT,i,i),-1)
    return [X[i] for i in range(n)]
# ---------------------------------------------------------------- symbolic
class Pat:
    def __init__(s,ev,path): s.ev=ev; s.path=path     # path: ((pos,kid,lo,hi),...,(pos,))
    def kids(s): return [p[1] for p in s.path if len(p)>1]
    def inst(s):
        """copy with fresh loop variables: (event, path, domain facts list)"""
        m={}; path=[]; dom=[]
        for p in s.path:
            if len(p)==1: path.append(p); continue
            q=S(fresh('it')); lo,hi=p[2].sub(m),p[3].sub(m); m[p[1]]=q
            path.append((p[0],q)); dom+=[q-lo,hi-1-q]
        return vsubst(s.ev,m) if m else s.ev,path,dom
def patterns(evs,facts,path=()):
    out=[]; pos=0; via=None
    for ev in evs:
        if ev[0]=='loop':
            _,kid,lo,hi,alts=ev
            alts=[a for a in alts]
            ps=[[x for x in patterns(a,facts,path+((pos,kid,lo,hi),))] for a in alts]
            if any([(x.ev,x.path) for x in q]!=[(x.ev,x.path) for x in ps[0]] for q in ps): raise Undecided('iterations of a loop differ')
            out+=ps[0]
        elif ev[0]=='acc': out.append(Pat(ev,path+((pos,),)))
        pos+=1
    return out
def before(f,a,b):
    """is instance path a before path b under the facts?"""
    if f.infeasible(): return True
    for x,y in zip(a,b):
        if x[0]!=y[0]: return x[0]<y[0]
        if len(x)==1: return False
        d=f.norm(y[1]-x[1])
        if f.ge0(d-1): return True
        if d==ZL or f.eq0(d): continue
        g=f.add_ge(-d-1)
        if not g.infeasible(): return False
        return before(f.add_eq(d),a[[*map(id,a)].index(id(x))+1:],b[[*map(id,b)].index(id(y))+1:])
    return False
def solve(f,eqs,syms):
    """facts with the given equations, the loop variables eliminated"""
    for e in eqs: f=f.add_eq(f.norm(e))
    return f
def prove(evs,facts,n,m,lower,dB,dT):
    """[] when the schedule is forward/backward substitution for every n, else reasons"""
    ps=patterns(evs,facts); alias={}
    work=dB; steps=[]; und=[]
    rows=[p for p in ps if p.ev[1]!='via']
    cv=[p for p in rows if p.ev[1]=='cv']; ops=[p for p in rows if p.ev[1]!='cv']
    for p in cv:
        if len(p.path)!=1: return ['conversion inside a loop']
    if cv:
        ins_=[p for p in cv if p.ev[3]==dB]; out=[p for p in cv if p.ev[2]==dB]; tri=[p for p in cv if p.ev[3]==dT]
        if len(ins_)!=1 or len(out)!=1 or len(cv)!=2+len(tri): return ['conversions']
        work=ins_[0].ev[2]
        if out[0].ev[3]!=work: return ['conversions']
        for p in tri: alias[p.ev[2]]=dT
        lo=max(p.path[0][0] for p in ins_+tri); hi=out[0].path[0][0]
        if any(not lo<p.path[0][0]<hi for p in ops): return ['row operations outside the conversions']
    T=lambda d: alias.get(d,d)
    sc=[p for p in ops if p.ev[1]=='sc']; tb=[p for p in ops if p.ev[1]=='tb']; ax=[p for p in ops if isinstance(p.ev[1],int)]
    if len(sc)+len(tb)+len(ax)!=len(ops): return ['other row operations']
    if len(sc)!=1 or len(ax)!=1: 
        if facts.eq0(facts.norm(n)) and not ops: return []
        return [f'{len(sc)} scaling and {len(ax)} elimination patterns']
    sc,ax=sc[0],ax[0]
    # scaling: every row once, by its own diagonal element
    ev,path,dom=sc.inst(); f=facts
    for d in dom: f=f.add_ge(d)
    if ev[2]!=work or T(ev[4][0])!=dT: return ['scaling of another matrix']
    if not(f.eq0(f.norm(ev[4][1]-ev[3])) and f.eq0(f.norm(ev[4][2]-ev[3])) and f.ge0(ev[3]) and f.ge0(n-1-ev[3])): return ['scaling factor or row']
    if not inject(f,dom,[ev[3]],path): return ['rows scaled more than once']
    r=S(fresh('r')); g=facts.add_ge(r).add_ge(n-1-r)
    if not covers(g,sc,lambda e:[e[3]-r]): return ['some row is not scaled']
    # elimination
    ev,path,dom=ax.inst(); f=facts
    for d in dom: f=f.add_ge(d)
    _,d_,r0,r1,c0,c1,(el,s_)=ev; dst,src=f.norm(r0),f.norm(s_[1])
    if d_!=work or s_[0]!=work or T(el[0])!=dT: return ['elimination of another matrix']
    if not(f.eq0(f.norm(el[1]-dst)) and f.eq0(f.norm(el[3]-src))): return [f'factor [{el[1]},{el[3]}] for target {dst}, source {src}']
    if not(f.ge0(src) and f.ge0(dst) and f.ge0(n-1-src) and f.ge0(n-1-dst) and f.ge0((dst-src if lower else src-dst)-1)): return ['elimination pair outside the triangle']
    if not(f.eq0(f.norm(c0)) and f.eq0(f.norm(c1-m))): return ['columns']
    if not inject(f,dom,[dst,src],path): return ['pairs eliminated more than once']
    r,k=S(fresh('r')),S(fresh('k_'))
    g=facts.add_ge(r).add_ge(k).add_ge(n-1-r).add_ge(n-1-k).add_ge((r-k if lower else k-r)-1)
    def pair(e): return [e[2]-r,e[6][1][1]-k]
    if not covers(g,ax,pair): return ['some pair is not eliminated']
    # order
    a,pa,da=ax.inst(); h=g
    for e in da: h=h.add_ge(e)
    h=solve(h,pair(a),None)
    for p,row,first in((sc,k,True),(sc,r,False)):
        e,pp,dd=p.inst(); q=h
        for z in dd: q=q.add_ge(z)
        q=solve(q,[e[3]-row],None)
        if not(before(q,pp,pa) if first else before(q,pa,pp)): return ['a row is used before it is finished' if first else 'a row is scaled before it is complete']
    for p in tb:
        e,pp,dd=p.inst(); s_,ps_,ds=sc.inst(); q=facts
        for z in dd+ds: q=q.add_ge(z)
        if e[3]!=work: return ['table of another matrix']
        q=solve(q,[e[4]-s_[3]],None)
        if not before(q,ps_,pp): return ['a table is made before its row is finished']
        # between the table and its use the row stays: all writes to row k happen before its scaling (shown above)
    return []
def inject(f,dom,exprs,path):
    """different iterations give different values: the loop variables are determined by the expressions"""
    vs=[next(iter(p[1].syms())) for p in path if len(p)>1]
    det=set(); ch=True
    eqs=[f.norm(e) for e in exprs]
    while ch:
        ch=False
        for e in eqs:
            u=[v for v in vs if e.coef(v) and v not in det]
            if len(u)==1: det.add(u[0]); ch=True
    # triangular elimination may need a combination of two expressions
    if len(det)<len(vs) and len(eqs)==2 and len(vs)==2:
        a,b=eqs; D=a.coef(vs[0])*b.coef(vs[1])-a.coef(vs[1])*b.coef(vs[0])
        return D!=0
    return len(det)==len(vs)
def covers(g,p,eqs):
    """some iteration satisfies the equations: unimodular substitution, the domain then follows from the facts"""
    ev,path,dom=p.inst(); vs=[next(iter(q[1].syms())) for q in path if len(q)>1]
    sub={}; E=[g.norm(e) for e in eqs(ev)]
    todo=list(vs); ch=True
    while ch and todo:
        ch=False
        for i,e in enumerate(E):
            e=e.sub(sub) if sub else e
            u=[v for v in todo if e.coef(v)]
            if len(u)==1 and abs(e.coef(u[0]))==1:
                v=u[0]; c=e.coef(v); rest=e-Lin(((v,c),),0)
                val=rest*(-1) if c==1 else rest
                sub={a:b.sub({v:val}) for a,b in sub.items()}; sub[v]=val; todo.remove(v); ch=True
        if not ch and len(todo)==2 and len(E)==2:
            a,b=(e.sub(sub) if sub else e for e in E); a0=todo[0]
            if abs(a.coef(a0))==1:
                c=a.coef(a0); rest=a-Lin(((a0,c),),0); sub[a0]=rest*(-1) if c==1 else rest; todo.remove(a0); ch=True
    if todo: return False
    for e in E:
        if not g.eq0(g.norm(e.sub(sub))): return False
    return all(g.ge0(g.norm(d.sub(sub))) for d in dom)
