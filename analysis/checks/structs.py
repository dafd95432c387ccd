"""cases for structural operations on packed ('p') and bitsliced ('s') matrices"""
from emats import *
class Case:
    """machine with helper constructors for one format"""
    def __init__(s,ctx,res,fmt,e,fn,concrete=None):
        s.ctx=ctx; s.res=res; s.fmt=fmt; s.e=e; s.fn=fn
        s.I,s.st,s.ff=emachine(ctx,e); s.w=w_of(e) if fmt=='p' else 1; s.n=1 if fmt=='p' else e
        s.ops={}; s.mats=[]
    def dim(s,name,lo=0):
        x=S(name); s.st.facts=s.st.facts.add_ge(x-lo); return x
    def index(s,name,hi):
        x=S(name); s.st.facts=s.st.facts.add_ge(x).add_ge(hi-1-x); return x
    def mat(s,name,r,c,win=True):
        f=mk_emzed if s.fmt=='p' else mk_eslice
        p=f(s.I,s.st,s.ctx.lay,name,s.ff,s.e,r,c,win=win); s.mats.append(p); return p
    def views(s,p,st=None):
        return [eview(s.I,st or s.st,x) for x in planes(s.I,st or s.st,p,s.fmt,s.n)]
    @property
    def where(s):
        F=s.ctx.prog.func(s.fn); return F.file+':'+s.fn
    def run(s,args):
        try: out=s.I.run(s.fn,args,s.st)
        finally:
            s.res.absorb(s.I)
            for a,r,t in s.I.emviol: s.res.viol.append(Violation(a,r,t))
        return out
    def judge(s,t,p,spec,rule,what):
        """spec(plane index, view) -> operations"""
        for i,v in enumerate(s.views(p,t)):
            m=EM(v.sid,tuple(spec(i,v)))
            if not compare(s.I,s.res,t,v.sid,lambda y,r,c,m=m: read(s.I,y,m,r,c),s.w,s.where,rule,f'{what}{"" if s.fmt=="p" else f", slice {i}"}',Violation): return False
        return True
    def same(s,t,p,what):
        unchanged(s.I,s.res,t,p,s.fmt,s.n,s.where,what,Violation,s.w)
    def field(s,t,p,f,ty=I32):
        return s.I.load(t,p.at(s.ctx.lay('mzed_t' if s.fmt=='p' else 'mzd_slice_t',f)),ty)
    def fresh_header(s,t,r,nr,nc,rule='header'):
        """a new matrix: sizes, field, storage shape"""
        I=s.I; ok=True
        def eq(x,y,nm):
            nonlocal ok
            x=t.facts.norm(I.to_lin(x)); y=t.facts.norm(y); s.res.n+=1
            if t.facts.eq0(x-y): return
            ok=False
            u=t.fork()
            if t.facts.ne0(x-y): s.res.viol.append(Violation(s.where,rule,f'{s.fn}: the new matrix has {nm} {x}, must be {y}',witness(t.facts,[x-y])))
            else:
                u.facts=u.facts.add_ne(x-y); wit=witness(u.facts,[x-y])
                if wit is not None and not val_opaque(x): s.res.viol.append(Violation(s.where,rule,f'{s.fn}: the new matrix has {nm} {x}, must be {y}',wit))
                else: s.res.und.append(f'{nm} {x} against {y}')
        if not isinstance(r,Ptr) or r.obj==0: s.res.viol.append(Violation(s.where,rule,f'{s.fn} returns no matrix')); return False
        eq(s.field(t,r,'nrows'),nr,'row count'); eq(s.field(t,r,'ncols'),nc,'column count')
        if s.field(t,r,'finite_field',PTR)!=s.ff: s.res.viol.append(Violation(s.where,rule,f'{s.fn}: the new matrix has another field')); ok=False
        if s.fmt=='p': eq(s.field(t,r,'w'),L(s.w),'entry width')
        else: eq(s.field(t,r,'depth'),L(s.e),'depth')
        for v in s.views(r,t): eq(v.nr,nr,'stored rows'); eq(v.nc,nc*s.w,'stored columns')
        return ok
    def heap_ok(s,t,keep=()):
        """allocations that neither are returned nor freed"""
        al=[];fr=[]
        for ev in t.events():
            if ev[0]=='alloc': al.append(ev[1])
            if ev[0]=='free': fr.append(ev[1])
            if ev[0] in('use-after-free','double-free'): s.res.viol.append(Violation(s.where,'leak',f'{ev[0]} {ev[1:]}'))
        for a in al:
            if a not in fr and a not in keep: s.res.viol.append(Violation(s.where,'leak',f'{s.I.objs[a].name} is never released'))
        for a in fr:
            if a in keep: s.res.viol.append(Violation(s.where,'leak',f'{s.I.objs[a].name} is released but returned'))
    def owned(s,t,r):
        return [r.obj]+[x.obj for x in planes(s.I,t,r,s.fmt,s.n)]
    def none(s,out):
        if not out: s.res.viol.append(Violation(s.where,'returns',f'{s.fn}: stops the program on valid operands')) if s.I.dead else s.res.und.append('no returning path')
    def died(s):
        """valid operands must not stop the program"""
        for t in s.I.dead:
            if not t.facts.infeasible():
                s.res.viol.append(Violation(s.where,'returns',f'{s.fn}: stops the program on valid operands ({[e for e in t.events() if e[0]=="die"][-1:]})',witness(t.facts,[]))); return
def pre(fmt): return 'mzed' if fmt=='p' else 'mzd_slice'
# ---------------------------------------------------------------- swaps and row operations
def run_swap(ctx,res,fmt,e,kind):
    fn={'row':'row_swap','col':'col_swap','colr':'col_swap_in_rows','radd':'row_add'}[kind]; K=Case(ctx,res,fmt,e,f'{pre(fmt)}_{fn}')
    m,n=K.dim('m',1),K.dim('n',1); A=K.mat('A',m,n); w=K.w
    if kind in('row','radd'): a,b=K.index('a',m),K.index('b',m); args=[A,a,b]
    else: a,b=K.index('a',n),K.index('b',n); args=[A,a,b]
    if kind=='colr':
        r0=S('r0'); r1=S('r1'); K.st.facts=K.st.facts.add_ge(r0).add_ge(r1-r0).add_ge(m-r1); args+=[r0,r1]
    if kind=='radd': K.st.facts=K.st.facts.add_ne(a-b)
    out=K.run(args); K.none(out)
    def spec(i,v):
        if kind=='row': return [('rswap',v.r0+a,v.r0+b,v.c0,v.c0+v.nc)]
        if kind=='radd': return [('rect',(v.r0+b,v.r0+b+1,v.c0,v.c0+v.nc),'xor',('m',EM(v.sid),a-b,ZL))]
        p,q=(v.r0,v.r0+v.nr) if kind=='col' else (v.r0+r0,v.r0+r1)
        return [('cswap',v.c0+a*w+j,v.c0+b*w+j,p,q) for j in range(w)]
    for r,t in out: K.judge(t,A,spec,'content',K.fn); K.heap_ok(t)
    K.died()
def run_copyrow(ctx,res,fmt,e,alias):
    K=Case(ctx,res,fmt,e,f'{pre(fmt)}_copy_row'); m,n,k=K.dim('m',1),K.dim('n',1),K.dim('k',1)
    B=K.mat('B',m,n); A=B if alias else K.mat('A',k,n)
    i,j=K.index('i',m),K.index('j',m if alias else k)
    out=K.run([B,i,A,j]); K.none(out)
    for r,t in out:
        va=K.views(A,t)
        K.judge(t,B,lambda x,v: [('rect',(v.r0+i,v.r0+i+1,v.c0,v.c0+v.nc),'set',('m',EM(va[x].sid),va[x].r0+j-v.r0-i,va[x].c0-v.c0))],'content',K.fn)
        if not alias: K.same(t,A,K.fn)
def run_perm_prim(ctx,res,fmt,e,kind):
    """every slice gets the permutation itself"""
    K=Case(ctx,res,fmt,e,f'{pre(fmt)}_apply_p_{kind}'); m,n=K.dim('m',1),K.dim('n',1); A=K.mat('A',m,n)
    P=mk_mzp(K.I,K.st,ctx.lay,'P',K.dim('len',0))
    out=K.run([A,P]); K.none(out)
    for r,t in out: K.judge(t,A,lambda i,v: [('perm',kind,P.obj,v)],'content',K.fn)
def run_compress(ctx,res,fmt,e):
    K=Case(ctx,res,fmt,e,'_mzd_slice_compress_l'); m,n=K.dim('m',1),K.dim('n',1); A=K.mat('A',m,n); r1,n1,r2=K.dim('r1'),K.dim('n1'),K.dim('r2')
    out=K.run([A,r1,n1,r2]); K.none(out)
    for r,t in out: K.judge(t,A,lambda i,v: [('op','_mzd_compress_l',(r1,n1,r2),v)],'content',K.fn)
def run_perm_loop(ctx,res,fmt,e,kind):
    """permutation of columns by a loop of column swaps: symbolic schedule, then small sizes"""
    r=Res()
    try: perm_sym(ctx,r,fmt,e,kind)
    except(Undecided,TooBig) as x: r.und.append(str(x)[:300])
    if r.und and not r.viol:
        for L_,N in((1,1),(2,2),(1,3),(3,2),(3,3),(2,4)):
            q=Res()
            try: perm_conc(ctx,q,fmt,e,kind,L_,N)
            except(Undecided,TooBig) as x: pass
            r.viol+=q.viol; r.fn|=q.fn
            if q.viol: break
    res.n+=r.n; res.viol+=r.viol; res.und+=r.und; res.fn|=r.fn
def perm_sym(ctx,res,fmt,e,kind):
    K=Case(ctx,res,fmt,e,f'{pre(fmt)}_apply_p_{kind}'); m,n=K.dim('m',1),K.dim('n',1); A=K.mat('A',m,n); w=K.w
    ln=K.dim('len',0); P=mk_mzp(K.I,K.st,ctx.lay,'P',ln)
    out=K.run([A,P]); K.none(out)
    for r,t in out:
        f=t.facts; v=K.views(A,t)[0]
        plain=[x for x in t.events() if x[0]=='eop']
        if [x[2] for x in plain]==[('perm',kind,P.obj,v)]: res.n+=1; continue
        if plain: raise Undecided('swaps outside the loop')
        lps=[x for x in t.events() if x[0]=='loop' and has_eop(x)]
        # number of swaps: min(length, columns)
        cnt=None
        if f.ge0(n-ln): cnt=ln
        elif f.ge0(ln-n): cnt=n
        else: raise Undecided('order of length and columns')
        res.n+=1
        if not lps:
            if not f.eq0(cnt): raise Undecided('no swap loop on a path')
            continue
        if len(lps)!=1: raise Undecided('several swap loops')
        _,kid,lo,hi,alts=lps[0]; k=Lin(((kid,1),),0)
        idx=k-lo if kind=='right_trans' else cnt-1-(k-lo)
        if not f.eq0(f.norm(hi-lo-cnt)): raise Undecided(f'{hi}-{lo} swaps, must be {cnt}')
        for a in alts:
            got=set()
            for x in a:
                if x[0]=='loop' and has_eop(x): raise Undecided('nested loop of swaps')
                if x[0]!='eop': continue
                op=x[2]
                if op[0]!='cswap' or not f.eq0(f.norm(op[3]-v.r0)) or not f.eq0(f.norm(op[4]-v.r0-v.nr)): raise Undecided('other operation in the loop')
                got.add((f.norm(op[1]-v.c0),f.norm(op[2]-v.c0)))
            val=S(('P','P',f.norm(idx)))
            want={(f.norm(idx*w+j),f.norm(val*w+j)) for j in range(w)}
            if got!=want and {(b,a_) for a_,b in got}!=want: raise Undecided(f'swaps {sorted(got,key=str)[:2]} in an iteration, must be {sorted(want,key=str)[:2]}')
def perm_conc(ctx,res,fmt,e,kind,ln,nc):
    K=Case(ctx,res,fmt,e,f'{pre(fmt)}_apply_p_{kind}'); m,n=L(2),L(nc); A=K.mat('A',m,n,win=False); w=K.w
    # transpositions i <-> v_i, v_i >= i
    import itertools
    vals=[S(f'v{i}') for i in range(ln)]
    for i,v in enumerate(vals): K.st.facts=K.st.facts.add_ge(v-i).add_ge(max(nc,i+1)-1-v)
    P=mk_mzp(K.I,K.st,ctx.lay,'P',L(ln),vals)
    out=K.run([A,P]); cnt=min(ln,nc); order=range(cnt) if kind=='right_trans' else range(cnt-1,-1,-1)
    for r,t in out:
        K.judge(t,A,lambda i,v: [('cswap',v.c0+k*w+j,v.c0+vals[k]*w+j,v.r0,v.r0+v.nr) for k in order for j in range(w)],'content',f'{K.fn}, {ln} transpositions, {nc} columns')
def ob16(ctx):
    obs=[]; T=ctx.thorough
    pe=(2,3,4,5,8,9,16) if not T else range(2,17)
    se=(2,3,4,8,16) if not T else range(2,17)
    for fmt,degs in(('p',pe),('s',se)):
        for e in degs:
            for kind,fn in(('row','row_swap'),('col','col_swap'),('colr','col_swap_in_rows'),('radd','row_add')):
                obs.append(Ob('swap or row operation',f'{pre(fmt)}_{fn} degree {e}',run_swap,(fmt,e,kind),(f'{pre(fmt)}_{fn}',)))
            for al in(0,1): obs.append(Ob('swap or row operation',f'{pre(fmt)}_copy_row degree {e}{" same matrix" if al else ""}',run_copyrow,(fmt,e,al),(f'{pre(fmt)}_copy_row',)))
            for kind in('left','left_trans','right','right_trans')+(('right_trans_tri',) if fmt=='s' else ()):
                loop=fmt=='p' and kind.startswith('right')
                obs.append(Ob('permutation',f'{pre(fmt)}_apply_p_{kind} degree {e}',run_perm_loop if loop else run_perm_prim,(fmt,e,kind),(f'{pre(fmt)}_apply_p_{kind}',)))
            if fmt=='s': obs.append(Ob('permutation',f'_mzd_slice_compress_l degree {e}',run_compress,(fmt,e),('_mzd_slice_compress_l',)))
    return obs
# ---------------------------------------------------------------- construction
def run_init(ctx,res,fmt,e):
    K=Case(ctx,res,fmt,e,f'{pre(fmt)}_init'); m,n=K.dim('m'),K.dim('n')
    out=K.run([K.ff,m,n]); K.none(out)
    for r,t in out:
        if K.fresh_header(t,r,m,n): K.judge(t,r,lambda i,v: [],'content',K.fn); K.heap_ok(t,K.owned(t,r))
        zeros(K,t,r)
def zeros(K,t,r):
    for v in K.views(r,t):
        if not K.I.objs[v.sid].info['zero']: K.res.viol.append(Violation(K.where,'content',f'{K.fn}: the storage of the new matrix belongs to another matrix'))
def run_free(ctx,res,fmt,e,window,depth=None):
    K=Case(ctx,res,fmt,e,f'{pre(fmt)}_free'+('_window' if window else ''))
    A=K.mat('A',K.dim('m'),K.dim('n')) if depth is None else mk_eslice(K.I,K.st,ctx.lay,'A',K.ff,e,K.dim('m'),K.dim('n'),depth=depth)
    ids=[A.obj]+[x.obj for x in planes(K.I,K.st,A,fmt,depth or K.n)]
    for i in ids: K.I.objs[i].info['heap']='mem' if i==A.obj else 'mzd'
    out=K.run([A]); K.none(out)
    for r,t in out:
        fr=[ev[1] for ev in t.events() if ev[0]=='free']
        res.n+=1
        for i in ids:
            if fr.count(i)!=1: res.viol.append(Violation(K.where,'leak',f'{K.fn}: {K.I.objs[i].name} is released {fr.count(i)} times'))
        for i in fr:
            if i not in ids: res.viol.append(Violation(K.where,'leak',f'{K.fn}: {K.I.objs[i].name} is released'))
        K.heap_ok(t)
def run_window(ctx,res,fmt,e):
    K=Case(ctx,res,fmt,e,f'{pre(fmt)}_init_window'); m,n=K.dim('m'),K.dim('n'); A=K.mat('A',m,n); w=K.w
    r0,c0,r1,c1=(S(x) for x in('lowr','lowc','highr','highc'))
    K.st.facts=K.st.facts.add_ge(r0).add_ge(r1-r0).add_ge(m-r1).add_ge(c0).add_ge(c1-c0).add_ge(n-c1)
    out=K.run([A,r0,c0,r1,c1]); K.none(out)
    for r,t in out:
        if K.fresh_header(t,r,r1-r0,c1-c0):
            for i,(v,a) in enumerate(zip(K.views(r,t),K.views(A,t))):
                res.n+=1
                if v.sid!=a.sid: res.viol.append(Violation(K.where,'window',f'{K.fn}: the window does not share the storage of its base (slice {i})')); break
                for x,y,nm in((v.r0,a.r0+r0,'first row'),(v.c0,a.c0+c0*w,'first column')):
                    d=t.facts.norm(x-y)
                    if t.facts.eq0(d): continue
                    u=t.fork(); u.facts=u.facts.add_ne(d); wit=witness(u.facts,[d])
                    (res.viol.append(Violation(K.where,'window',f'{K.fn}: {nm} of the window is {x}, must be {y}',wit)) if wit is not None else res.und.append(f'{nm} {x} against {y}'))
        K.heap_ok(t,K.owned(t,r)); K.same(t,A,K.fn)
def rectset(v,r0,nr,c0,nc,a,ar,ac):
    """view v, rows r0.., columns c0.. := view a from (ar,ac)"""
    return ('rect',(v.r0+r0,v.r0+r0+nr,v.c0+c0,v.c0+c0+nc),'set',('m',EM(a.sid),a.r0+ar-v.r0-r0,a.c0+ac-v.c0-c0))
def result(K,t,r,T,nr,nc):
    """the result matrix: the given target, or a new matrix"""
    if T==NULL:
        if not K.fresh_header(t,r,nr,nc): return False
        zeros(K,t,r); K.heap_ok(t,K.owned(t,r)); return True
    if r!=T: K.res.viol.append(Violation(K.where,'returns',f'{K.fn} does not return its target')); return False
    K.heap_ok(t); return True
def run_copy(ctx,res,fmt,e,target):
    K=Case(ctx,res,fmt,e,f'{pre(fmt)}_copy'); m,n=K.dim('m'),K.dim('n'); A=K.mat('A',m,n)
    T=A if target==2 else K.mat('B',m,n) if target else NULL
    out=K.run([T,A]); K.none(out); K.died()
    for r,t in out:
        if result(K,t,r,T,m,n):
            if target==2: K.same(t,A,K.fn)
            else:
                va=K.views(A,t); K.judge(t,r,lambda i,v: [rectset(v,ZL,m,ZL,n*K.w,va[i],ZL,ZL)],'content',K.fn); K.same(t,A,K.fn)
def run_join(ctx,res,fmt,e,side,target):
    K=Case(ctx,res,fmt,e,f'{pre(fmt)}_'+('concat' if side else 'stack')); m,n,k=K.dim('m'),K.dim('n'),K.dim('k'); w=K.w
    A=K.mat('A',m,n); B=K.mat('B',m,k) if side else K.mat('B',k,n); R=(m,n+k) if side else (m+k,n)
    T=K.mat('C',*R) if target else NULL
    out=K.run([T,A,B]); K.none(out); K.died()
    for r,t in out:
        if result(K,t,r,T,*R):
            va,vb=K.views(A,t),K.views(B,t)
            K.judge(t,r,lambda i,v: [rectset(v,ZL,m,ZL,n*w,va[i],ZL,ZL)]+[rectset(v,ZL,m,n*w,k*w,vb[i],ZL,ZL) if side else rectset(v,m,k,ZL,n*w,vb[i],ZL,ZL)],'content',K.fn)
            K.same(t,A,K.fn); K.same(t,B,K.fn)
def run_sub(ctx,res,fmt,e,target):
    K=Case(ctx,res,fmt,e,f'{pre(fmt)}_submatrix'); m,n=K.dim('m'),K.dim('n'); A=K.mat('A',m,n); w=K.w
    r0,c0,r1,c1=(S(x) for x in('lowr','lowc','highr','highc'))
    K.st.facts=K.st.facts.add_ge(r0).add_ge(r1-r0).add_ge(m-r1).add_ge(c0).add_ge(c1-c0).add_ge(n-c1)
    T=K.mat('S',r1-r0,c1-c0) if target else NULL
    out=K.run([T,A,r0,c0,r1,c1]); K.none(out); K.died()
    for r,t in out:
        if result(K,t,r,T,r1-r0,c1-c0):
            va=K.views(A,t); K.judge(t,r,lambda i,v: [rectset(v,ZL,r1-r0,ZL,(c1-c0)*w,va[i],r0,c0*w)],'content',K.fn); K.same(t,A,K.fn)
def run_add(ctx,res,fmt,e,und,target):
    """target: 0 new, 1 other, 2 first operand, 3 second operand, 4 A+A"""
    K=Case(ctx,res,fmt,e,f'{"_" if und else ""}{pre(fmt)}_add'); m,n=K.dim('m'),K.dim('n'); A=K.mat('A',m,n)
    B=A if target==4 else K.mat('B',m,n); T=NULL if target==0 else A if target==2 else B if target==3 else K.mat('C',m,n)
    out=K.run([T,A,B]); K.none(out); K.died()
    for r,t in out:
        if result(K,t,r,T,m,n):
            va,vb=K.views(A,t),K.views(B,t)
            K.judge(t,r,lambda i,v: [('rect',v.rect,'set',('sum',('m',EM(va[i].sid),va[i].r0-v.r0,va[i].c0-v.c0),('m',EM(vb[i].sid),vb[i].r0-v.r0,vb[i].c0-v.c0)))],'content',K.fn)
            if target!=2: K.same(t,A,K.fn)
            if target!=3 and target!=4: K.same(t,B,K.fn)
def run_adapt(ctx,res,fmt,e,old,new):
    K=Case(ctx,res,fmt,e,'_mzd_slice_adapt_depth'); m,n=K.dim('m'),K.dim('n')
    A=mk_eslice(K.I,K.st,ctx.lay,'A',K.ff,e,m,n,depth=old)
    before=planes(K.I,K.st,A,'s',16)
    for x in before:
        if x!=NULL: K.I.objs[x.obj].info['heap']='mzd'
    out=K.run([A,L(new)]); K.none(out)
    for r,t in out:
        res.n+=1; after=planes(K.I,t,A,'s',16); fr=[ev[1] for ev in t.events() if ev[0]=='free']
        d=t.facts.norm(K.I.to_lin(K.field(t,A,'depth')))
        if d!=L(new): res.viol.append(Violation(K.where,'header',f'depth {d} after a change to {new}'))
        if r!=A: res.viol.append(Violation(K.where,'returns','the argument is not returned'))
        for i in range(16):
            if i<min(old,new):
                if after[i]!=before[i]: res.viol.append(Violation(K.where,'content',f'slice {i} is replaced when the depth goes from {old} to {new}')); break
            elif i<new:
                if not isinstance(after[i],Ptr) or after[i].obj==0 or not K.I.objs[after[i].obj].info.get('em'): res.viol.append(Violation(K.where,'content',f'slice {i} is missing after the depth goes from {old} to {new}')); break
                v=eview(K.I,t,after[i])
                if not K.I.objs[v.sid].info['zero'] or content(K.I,t,v.sid).ops or not(t.facts.eq0(v.nr-m) and t.facts.eq0(v.nc-n)): res.viol.append(Violation(K.where,'content',f'slice {i} is not a new zero slice')); break
            elif i<old:
                if fr.count(before[i].obj)!=1: res.viol.append(Violation(K.where,'leak',f'slice {i} is released {fr.count(before[i].obj)} times when the depth goes from {old} to {new}')); break
                if after[i]!=NULL: res.viol.append(Violation(K.where,'leak',f'slice {i} keeps a stale pointer when the depth goes from {old} to {new}')); break
        for i in range(min(old,new)): K.judge_plane=None
        for x in before[:min(old,new)]:
            if content(K.I,t,eview(K.I,t,x).sid).ops: res.viol.append(Violation(K.where,'content','a kept slice is modified'))
def ob17(ctx):
    obs=[]; T=ctx.thorough
    for fmt,degs in(('p',(2,3,4,5,8,9,16) if not T else range(2,17)),('s',(2,3,4,8,16) if not T else range(2,17))):
        for e in degs:
            P=pre(fmt); g='construction'
            obs.append(Ob(g,f'{P}_init degree {e}',run_init,(fmt,e),(P+'_init',)))
            for wd in(0,1): obs.append(Ob('release',f'{P}_free{"_window" if wd else ""} degree {e}',run_free,(fmt,e,wd),(P+'_free'+('_window' if wd else ''),)))
            if fmt=='s' and e<16: obs.append(Ob('release',f'{P}_free degree {e} depth {min(16,2*e-1)}',run_free,(fmt,e,0,min(16,2*e-1)),(P+'_free',)))
            obs.append(Ob('window',f'{P}_init_window degree {e}',run_window,(fmt,e),(P+'_init_window',)))
            for tg in(0,1,2) if fmt=='p' else (0,1): obs.append(Ob(g,f'{P}_copy degree {e} target {tg}',run_copy,(fmt,e,tg),(P+'_copy',)))
            for tg in(0,1):
                for sd in(0,1): obs.append(Ob(g,f'{P}_{"concat" if sd else "stack"} degree {e} target {tg}',run_join,(fmt,e,sd,tg),(P+('_concat' if sd else '_stack'),)))
                obs.append(Ob(g,f'{P}_submatrix degree {e} target {tg}',run_sub,(fmt,e,tg),(P+'_submatrix',)))
            for und in(0,1):
                for tg in range(und,5): obs.append(Ob('addition',f'{"_" if und else ""}{P}_add degree {e} target {tg}',run_add,(fmt,e,und,tg),(('_' if und else '')+P+'_add',)))
            if fmt=='s':
                for old,new in{(e,e),(e,min(16,2*e-1)),(min(16,2*e-1),e),(min(16,e+1),e)}: obs.append(Ob(g,f'_mzd_slice_adapt_depth degree {e} {old} to {new}',run_adapt,(fmt,e,old,new),('_mzd_slice_adapt_depth',)))
    return obs
# ---------------------------------------------------------------- elements
def run_elem_words(ctx,res,e,kind,sc,rem):
    """packed element access on the machine words of the matrix"""
    w=w_of(e); per=64//w; fn='mzed_'+kind+'_elem'
    I=Interp(ctx.prog,{**BASE,**mk_prims(ctx.lay)}); st=State(); ff=mk_ff(I,st,ctx.lay,e)
    q,Q=S('q'),S('Q'); col=q*per+sc; nc=Q*per+rem; nr=S('m'); row=S('r')
    st.facts=st.facts.add_ge(q).add_ge(Q).add_ge(nc-col-1).add_ge(Q-q-(1 if sc>=rem else 0)).add_ge(row).add_ge(nr-1-row)
    A=mk_mzed(I,st,ctx.lay,'A',ff,e,w,nr,nc,owned=False); x=field_elem('x',e); sites=track_sites(I); d=data_of(I,A)
    out=I.run(fn,[A,row,col]+([] if kind=='read' else [x]),st); res.absorb(I); F=ctx.prog.func(fn); where=F.file+':'+fn
    if not out: res.und.append('no returning path')
    def expect(t,r,om):
        a=mat_word('A.x',r,om,w,e); xx=t.norm(x)
        for s1,u in split(t,r-row):
            if s1 or kind=='read': yield u,a; continue
            for s2,v in split(u,om-q):
                if s2: yield v,a; continue
                yield v,lane_word(a,w,[sc],lambda l: xx if kind=='write' else elem(a,w,l).xor(xx))
    for r,t in out:
        if kind=='read':
            got=t.norm(I.to_word(r,64)); want=t.norm(elem(mat_word('A.x',row,q,w,e),w,sc)); res.n+=1
            got=resub(t,got); want=resub(t,want)
            if got!=want and not gated_equal(I,t,got,want):
                txt=f'{fn} degree {e}, column = {sc} mod {per}: returns {diffstr(got,want)}'
                wit=witness(t.facts,[row,col])
                if not word_opaque(got) and distinct(t,got,want) and wit is not None: res.viol.append(Violation(where,'element',txt,wit))
                else: res.und.append(txt[:260])
        n,bad=check_words(I,t,d,nr,ceil64(nc*w),expect,f'{fn} degree {e} column = {sc} mod {per}'); res.n+=n
        report(res,I,fn,ctx,bad,'element',sites.get(d,()))
def run_elem_slice(ctx,res,e,kind):
    K=Case(ctx,res,'s',e,f'mzd_slice_{kind}_elem'); m,n=K.dim('m',1),K.dim('n',1); A=K.mat('A',m,n); r,c=K.index('r',m),K.index('c',n); x=field_elem('x',e)
    out=K.run([A,r,c]+([] if kind=='read' else [x])); K.none(out)
    for ret,t in out:
        vs=K.views(A,t)
        if kind=='read':
            got=t.norm(K.I.to_word(ret,64)); want=Word([base(K.I,t,v.sid,v.r0+r,v.c0+c) for v in vs]+[ZERO]*(64-e)); res.n+=1
            want=t.norm(want)
            if got!=want:
                wit=separate(t,next(a^b for a,b in zip(got.b,want.b) if a!=b),[r,c]) if not word_opaque(got) else None
                txt=f'{K.fn} degree {e}: returns {diffstr(got,want)}'
                if wit is not None: res.viol.append(Violation(K.where,'element',txt,wit))
                else: res.und.append(txt[:250])
            K.same(t,A,K.fn)
        else:
            K.judge(t,A,lambda i,v:[('bits',v.r0+r,v.c0+c,1,Word([x.b[i]]+[ZERO]*63),'w' if kind=='write' else 'xor')],'element',K.fn)
def run_set_ui(ctx,res,fmt,e,value):
    """value: None symbolic, else a constant"""
    K=Case(ctx,res,fmt,e,pre(fmt)+'_set_ui'); m,n=K.dim('m'),K.dim('n'); A=K.mat('A',m,n); w=K.w
    x=field_elem('x',e) if value is None else wconst(value)
    out=K.run([A,x if value is None else L(value)]); K.none(out)
    for ret,t in out:
        xx=t.norm(x)
        def spec(i,v):
            if fmt=='s': return [('rect',v.rect,'set',('diag',v.r0,v.c0,xx.b[i]))]
            kid=Sym.get(fresh('k')); k=Lin(((kid,1),),0); ops=[('rect',v.rect,'set',None)]
            return ops+[('eldiag',v,w,xx)]
        K.judge(t,A,spec,'element',K.fn)
# ---------------------------------------------------------------- tests
def run_iszero(ctx,res,fmt,e):
    K=Case(ctx,res,fmt,e,pre(fmt)+'_is_zero'); m,n=K.dim('m'),K.dim('n'); A=K.mat('A',m,n)
    ks=[('ez',)+v.key() for v in K.views(A)]
    out=K.run([A]); K.none(out)
    for ret,t in out: K.same(t,A,K.fn); verdict(K,t,ret,ks,True,'is zero')
def verdict(K,t,ret,ks,one,what):
    """ret == 1 (one) / 0 iff all questions are answered yes"""
    r=t.facts.norm(K.I.to_lin(ret)); kn=[t.known.get(k) for k in ks]; K.res.n+=1
    if not r.isc(): K.res.und.append(f'{K.fn} returns {r}'); return
    yes=(r.c!=0)==one
    no=[i for i,x in enumerate(kn) if x is False]; un=[i for i,x in enumerate(kn) if x is None]
    part=lambda l: 'slice '+', '.join(map(str,l)) if K.fmt=='s' else 'the matrix'
    if yes and no: K.res.viol.append(Violation(K.where,'test',f'{K.fn} degree {K.e} answers yes ({r}) although {part(no)} says no'))
    elif yes and un: K.res.viol.append(Violation(K.where,'test',f'{K.fn} degree {K.e} answers yes ({r}) without looking at {part(un)}'))
    elif not yes and not no:
        if un: K.res.und.append('negative answer without a negative part')
        else: K.res.viol.append(Violation(K.where,'test',f'{K.fn} degree {K.e} answers no ({r}) although every part says yes'))
def run_cmp(ctx,res,fmt,e,how):
    """how: 0 same shape and field, 1 same matrix, 2 other field (bitsliced)"""
    K=Case(ctx,res,fmt,e,pre(fmt)+'_cmp'); m,n=K.dim('m'),K.dim('n'); A=K.mat('A',m,n); ff=K.ff
    if how==2: K.ff=mk_ff(K.I,K.st,ctx.lay,e,'other field')
    B=A if how==1 else K.mat('B',m,n)
    ks=[('eqm',)+tuple(sorted((a.key(),b.key()),key=str)) for a,b in zip(K.views(A),K.views(B))]
    out=K.run([A,B]); K.none(out)
    for ret,t in out:
        K.same(t,A,K.fn); K.same(t,B,K.fn)
        if how==0: verdict(K,t,ret,ks,False,'equal')
        else:
            r=t.facts.norm(K.I.to_lin(ret)); res.n+=1
            if not r.isc(): res.und.append(f'{K.fn} returns {r}')
            elif (r.c==0)!=(how==1): res.viol.append(Violation(K.where,'test',f'{K.fn} returns {r} for '+('a matrix and itself' if how==1 else 'matrices over different fields')))
def run_fzr(ctx,res,e):
    K=Case(ctx,res,'p',e,'mzed_first_zero_row'); A=K.mat('A',K.dim('m'),K.dim('n')); v=K.views(A)[0]
    out=K.run([A]); K.none(out)
    for ret,t in out:
        r=t.facts.norm(K.I.to_lin(ret)); q=S(('fzr',)+v.key()); res.n+=1
        if not t.facts.eq0(r-q):
            if all(not isinstance(Sym.keys[k],tuple) or Sym.keys[k][0]=='fzr' for k in r.syms()): res.viol.append(Violation(K.where,'test',f'{K.fn} returns {r} where the first zero row is {q}'))
            else: res.und.append(f'{K.fn} returns {r}')
        K.same(t,A,K.fn)
def ob15(ctx):
    obs=[]; T=ctx.thorough
    for e in (2,3,4,5,8,9,16) if not T else range(2,17):
        per=64//w_of(e)
        for kind in('read','add','write'):
            for sc in range(per):
                for rem in range(per) if T else sorted({0,1%per,(sc+1)%per,sc}):
                    obs.append(Ob('packed element',f'mzed_{kind}_elem degree {e} column {sc} of {rem}',run_elem_words,(e,kind,sc,rem),(f'mzed_{kind}_elem',)))
        obs.append(Ob('constant matrix',f'mzed_set_ui degree {e}',run_set_ui,('p',e,None),('mzed_set_ui',)))
        for v in(0,1): obs.append(Ob('constant matrix',f'mzed_set_ui degree {e} value {v}',run_set_ui,('p',e,v),('mzed_set_ui',)))
        obs.append(Ob('test',f'mzed_is_zero degree {e}',run_iszero,('p',e),('mzed_is_zero',))); obs.append(Ob('test',f'mzed_first_zero_row degree {e}',run_fzr,(e,),('mzed_first_zero_row',)))
        for h in(0,1): obs.append(Ob('test',f'mzed_cmp degree {e} {h}',run_cmp,('p',e,h),('mzed_cmp',)))
    for e in range(2,17):
        for kind in('read','add','write'): obs.append(Ob('bitsliced element',f'mzd_slice_{kind}_elem degree {e}',run_elem_slice,(e,kind),(f'mzd_slice_{kind}_elem',)))
        for v in(None,0,1): obs.append(Ob('constant matrix',f'mzd_slice_set_ui degree {e} value {v}',run_set_ui,('s',e,v),('mzd_slice_set_ui',)))
        obs.append(Ob('test',f'mzd_slice_is_zero degree {e}',run_iszero,('s',e),('mzd_slice_is_zero',)))
        for h in(0,1,2): 
            if h or e<6: obs.append(Ob('test',f'mzd_slice_cmp degree {e} {h}',run_cmp,('s',e,h),('mzd_slice_cmp',)))
    return obs
