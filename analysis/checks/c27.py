"""Recursion ends.  The recursive functions are the cycles of the call graph.  Each one is interpreted over headers only (matrices are their symbolic
dimensions, windows get the dimensions their bounds say, every other effect is forgotten), and at every call that leads back into the cycle the dimensions
handed on are compared with those received: none may grow and one must shrink, on every path.  A function of a cycle that only passes its
problem on (same dimensions) is allowed when it leads to one that shrinks it."""
from rows import *
import effects,itertools,re
EXPLANATION=__doc__
RULES=['shrink: a recursive call gets a problem with no larger and one strictly smaller dimension']
LEVEL='other'
def graph(ctx):
    g=getattr(ctx,'_c27g',None)
    if g is None:
        g=effects.Graph(ctx.prog); succ={}
        for k,e in g.edges.items():
            succ.setdefault(k[1],set()).update(t[1] for t in e if t)
        reach={}
        for f in succ:
            seen=set(); todo=list(succ[f])
            while todo:
                x=todo.pop()
                if x in seen: continue
                seen.add(x); todo+=list(succ.get(x,()))
            reach[f]=seen
        ctx._c27ext={n for x in g.ext.values() for n in x}; ctx._c27g=(succ,reach); g=ctx._c27g
    return g
def cycles(ctx):
    succ,reach=graph(ctx)
    return sorted({f:frozenset(x for x in reach[f] if f in reach.get(x,())) for f in reach if f in reach[f]}.items())
HDR='hdr'
def mkh(I,st,lay,kind,nr,nc,ff,name,parent=None):
    p=I.new(st,f'{name}{I.nobj}',HDR,None); I.objs[p.obj].info['dims']=(kind,nr,nc)
    w=I.c27w
    if kind in('mzed','slice'):
        ty='mzed_t' if kind=='mzed' else 'mzd_slice_t'
        setf(I,st,p,lay,ty,'nrows',nr,4); setf(I,st,p,lay,ty,'ncols',nc,4); setf(I,st,p,lay,ty,'finite_field',ff,8)
        if kind=='mzed': setf(I,st,p,lay,ty,'w',L(w),4); setf(I,st,p,lay,ty,'x',mkh(I,st,lay,'mzd',nr,nc*w,ff,name+'.x'),8)
        else:
            e=I.objs[ff.obj].info['degree']; setf(I,st,p,lay,ty,'depth',L(e),4)
            for i in range(16): I.put(st,p.obj,((),L(lay(ty,'x')+8*i)),8,mkh(I,st,lay,'mzd',nr,nc,ff,f'{name}.x{i}') if i<e else NULL)
    elif kind=='mzd':
        for f,v in(('nrows',nr),('ncols',nc)): setf(I,st,p,lay,'mzd_t',f,v,4)
    return p
def dims(I,p): return I.objs[p.obj].info['dims'] if isinstance(p,Ptr) and p.obj and 'dims' in I.objs[p.obj].info else None
def header_prims(I,ctx,inl):
    lay=ctx.lay
    def win(kind):
        def f(I,st,args,ins,name):
            r0,c0,r1,c1=(st.facts.norm(I.to_lin(x)) for x in args[1:5]); return [(mkh(I,st,lay,kind,st.facts.norm(r1-r0),st.facts.norm(c1-c0),I.c27ff,'win'),st)]
        return f
    def init(kind):
        def f(I,st,args,ins,name):
            r,c=(st.facts.norm(I.to_lin(x)) for x in args[-2:]); return [(mkh(I,st,lay,kind,r,c,I.c27ff,'new'),st)]
        return f
    def like(I,st,args,ins,name):
        """result: the given target, or a new matrix"""
        if isinstance(args[0],Ptr) and args[0]!=NULL: return [(args[0],st)]
        ds=[dims(I,x) for x in args[1:] if isinstance(x,Ptr)]
        ds=[d for d in ds if d]
        if not ds: raise Undecided(f'result of {name} at {I.where(ins)}')
        kind='slice' if 'slice' in name and 'cling' not in name else 'mzed'
        nr,nc=ds[0][1],ds[-1][2]
        return [(mkh(I,st,lay,kind,nr,nc,I.c27ff,'res'),st)]
    def rank(I,st,args,ins,name):
        ds=[dims(I,x) for x in args if isinstance(x,Ptr)]; ds=[d for d in ds if d]; r=S(fresh('rank'))
        st.facts=st.facts.add_ge(r)
        if ds: st.facts=st.facts.add_ge(ds[0][1]-r).add_ge(ds[0][2]-r)
        return [(r,st)]
    pr={}
    for k,n in(('mzed','mzed'),('slice','mzd_slice'),('mzd','mzd')): pr[n+'_init_window']=win(k); pr[n+'_init']=init(k)
    pr['mzd_init_window_const']=win('mzd')
    def pwin(I,st,args,ins,name):
        p=I.new(st,f'perm{I.nobj}','mem',None); b,e_=(I.to_lin(x) for x in args[-2:]) if len(args)>1 else (ZL,I.to_lin(args[0]))
        setf(I,st,p,lay,'mzp_t','length',st.facts.norm(e_-b),4); setf(I,st,p,lay,'mzp_t','values',I.new(st,f'perm.values{I.nobj}','mem',None),8); return [(p,st)]
    pr['mzp_init_window']=pr['mzp_init']=pwin
    succ,reach=graph(ctx); names=set(succ)|{y for e in succ.values() for y in e}
    for m in ctx.prog.mods: names|=set(m.funcs)
    names|=ctx._c27ext
    for n in names:
        if n in pr or n in inl or n.startswith('llvm.'): continue
        F=ctx.prog.func(n)
        rt=F.ret if F is not None else None
        if 'ple' in n.split('_') or 'pluq' in n.split('_') or 'echelonize' in n: pr[n]=rank; continue
        if re.match(r'^_?(mzed|mzd_slice|mzd)_(mul|addmul|copy|add|cling|slice|submatrix)|^_?mzed_(cling|slice)',n): pr[n]=like; continue
        if n in('abs','labs','m4ri_die') or n in BASE: continue
        pr[n]=other
    return pr
def p_abs(I,st,args,ins,name):
    x=st.facts.norm(I.to_lin(args[0])); out=[]
    for y,f in((x,st.facts.add_ge(x)),(ZL-x,st.facts.add_ge(ZL-x-1))):
        if f.infeasible(): continue
        t=st.fork(); t.facts=f; out.append((y,t))
    return out
def other(I,st,args,ins,name):
    t=getattr(ins,'ty',None)
    k=getattr(t,'k',None)
    if k=='void' or k is None: return [(UNDEF,st)]
    return [(I.symval(t,('call',name,fresh('c')[2])),st)]
def run_rec(ctx,res,fn,e,cyc,sizes=None):
    r=Res()
    for zero in itertools.product((0,1),repeat=3 if 'mul' in fn else 2):
        try: one(ctx,r,fn,e,cyc,None,zero)
        except Undecided as x: r.und.append(str(x)[:300])
        if r.viol: break
    if r.und and not r.viol:
        for d in SAMPLES:
            q=Res()
            try: one(ctx,q,fn,e,cyc,d)
            except Undecided: pass
            r.viol+=q.viol; r.fn|=q.fn
            if q.viol: break
    res.n+=r.n; res.viol+=r.viol; res.und+=r.und; res.fn|=r.fn
SAMPLES=[(1,1,1,64),(64,64,64,64),(65,65,65,64),(100,130,100,64),(128,128,128,64),(129,200,129,0),(1,129,1,0),(512,513,512,512),(1000,600,1000,512),(130,1,130,1),(65,65,65,1),(63,127,63,1),(128,0,0,0),(0,128,0,0),(128,0,0,1),(0,256,128,0),(128,0,128,0),(256,64,256,0),(130,130,0,64)]
SHAPES={'trsm':lambda n,m,k:[(n,n),(n,m)],'mul':lambda n,m,k:[(n,m),(n,k),(k,m)],'ple':lambda n,m,k:[(n,m)]}
def perm(I,st,lay,n):
    p=I.new(st,f'perm{I.nobj}','mem',None); setf(I,st,p,lay,'mzp_t','length',n,4); setf(I,st,p,lay,'mzp_t','values',I.new(st,f'perm.values{I.nobj}','mem',None),8); return p
def one(ctx,res,fn,e,cyc,sample,zero=()):
    lay=ctx.lay; F=ctx.prog.func(fn); where=F.file+':'+fn; succ,reach=graph(ctx)
    # small helpers of the same file are followed, so are pure ones (no pointer arguments)
    inl=set()
    todo=[fn]
    while todo:
        x=todo.pop()
        for y in succ.get(x,()):
            G=ctx.prog.func(y)
            if G is None or y in inl or y in cyc: continue
            ptrs=[t for t in G.pty if getattr(t,'k','')=='ptr']
            if not ptrs or (G.linkage in(8,9) and G.file==F.file and not re.match(r'^_?(mzed|mzd|gf2|m4r|mzp|blm|mzd_slice)_',y)) or cyc&reach.get(y,set()): inl.add(y); todo.append(y)
    I=Interp(ctx.prog,{}); I.lay=lay; I.c27w=w_of(e); I.unroll_max=40
    st=State(); ff=mk_ff(I,st,lay,e); I.c27ff=ff; I.objs[ff.obj].info['degree']=e
    pr=header_prims(I,ctx,inl)
    def rec(I,st,args,ins,name):
        st.event('again',name,tuple(dims(I,x) if isinstance(x,Ptr) else None for x in args),I.where(ins))
        return (rank if name.split('_')[-1] in('ple','pluq') else like_)(I,st,args,ins,name)
    rank=pr.get('mzed_ple_newton_john') or pr.get('_mzed_ple'); 
    def like_(I,st,args,ins,name):
        if args and isinstance(args[0],Ptr) and args[0]!=NULL: return [(args[0],st)]
        d=[dims(I,x) for x in args if isinstance(x,Ptr)]; d=[x for x in d if x]
        return [(mkh(I,st,lay,kind,d[0][1],d[-1][2],ff,'res') if d else UNDEF,st)]
    if rank is None: rank=like_
    for c in cyc: pr[c]=rec
    I.prims={**BASE,**pr,'abs':p_abs,'labs':p_abs}
    kind='slice' if 'slice' in fn else 'mzed'; shape='trsm' if 'trsm' in fn else 'mul' if 'mul' in fn else 'ple' if 'ple' in fn or 'pluq' in fn else None
    if shape is None: raise Undecided('recursive function of another kind')
    if sample is None:
        a,b,c=(ZL if i<len(zero) and zero[i] else S(x) for i,x in enumerate('mnk')); cut=S('cutoff')
        for x in(a,b,c):
            if not x.isc(): st.facts=st.facts.add_ge(x-1)
        st.facts=st.facts.add_ge(cut)
    else: a,b,c,cut=map(L,sample)
    sh=SHAPES[shape](a,b,c); args=[]; k=0; own=[]
    for i,t in enumerate(F.pty):
        if getattr(t,'k','')=='ptr' and k<len(sh):
            args.append(mkh(I,st,lay,kind,*sh[k],ff,'arg')); own.append((i,sh[k])); k+=1
        elif getattr(t,'k','')=='ptr': args.append(perm(I,st,lay,sh[0][i%2 if shape=='ple' and len(args)>1 else 0]))
        else: args.append(cut)
    out=I.call(F,args,st)
    res.absorb(I)
    if not out: raise Undecided('no returning path')
    for x in out:
        t=x[1]
        for ev in t.events():
            if ev[0]!='again': continue
            _,name,ds,at=ev; res.n+=1; less=False; opn=None
            own_=[(i,d) for i,d in own if i<len(ds) and ds[i] is not None]   # a target that is still to be created has no dimensions
            if len(own_)<max(1,len(own)-1): raise Undecided('a recursive call on another kind of operand at '+at)
            cmps=[(ds[i][1+q],d[q]) for i,d in own_ for q in(0,1)]
            def proves(e_):
                u=t.facts.add_ge(e_); return u.infeasible()
            le=all(t.facts.norm(y-x_).isc() and t.facts.norm(y-x_).c>=0 or proves(x_-y-1) for x_,y in cmps)
            lt=any(t.facts.norm(y-x_).isc() and t.facts.norm(y-x_).c>0 or proves(x_-y) for x_,y in cmps)
            if le and (lt or name!=fn): continue   # passing the problem on is judged by the cycles
            same=[t.facts.norm(y-x_) for x_,y in cmps]
            u=t.facts
            grow=None
            if all(z.isc() and z.c==0 for z in same): grow='the same dimensions'
            elif any(z.isc() and z.c<0 for z in same): grow='a larger dimension'
            w=witness(t.facts,[z for z in same if not z.isc()])
            if grow and w is not None: res.viol.append(Violation(at,'shrink',f'{fn} calls {name} on {grow}; on the path {t.facts}'[:500],w)); return
            raise Undecided(f'{fn} calls {name} at {at}: {", ".join(f"{x_} of {y}" for x_,y in cmps)}')
def obligations(ctx):
    obs=[]
    for fn,cyc in cycles(ctx):
        for e in(2,3,8,16) if not ctx.thorough else range(2,17): obs.append(Ob('recursion',f'{fn} degree {e}',run_rec,(fn,e,cyc),(fn,)))
    obs.append(Ob('recursion','cycles of the call graph',run_graph,(),('_mzed_mul_strassen',)))
    return obs
def run_graph(ctx,res):
    succ,reach=graph(ctx)
    # a cycle without a self call of a splitting function would only be made of functions that pass their problem on
    for fn,cyc in cycles(ctx):
        res.n+=1
        rest={x for x in cyc if x not in succ.get(x,())}
        for x in rest:
            seen=set(); todo=[y for y in succ[x] if y in rest]
            while todo:
                y=todo.pop()
                if y==x: res.viol.append(Violation(ctx.prog.func(x).file+':'+x,'shrink',f'{x} and {sorted(seen|{y})} call each other without making the problem smaller')); return
                if y in seen: continue
                seen.add(y); todo+=[z for z in succ[y] if z in rest]
