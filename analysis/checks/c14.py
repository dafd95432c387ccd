"""The field arithmetic is compared with its definition as polynomials over the bits of the operands and of the
minimal polynomial: carry-less products (exact ANF), division with remainder for every pair of degrees, the
tables of reduced powers, of reductors and of products built by the constructor (loops over a symbolic counter,
the reductor index is shown to be a unitriangular and hence bijective function of the counter), the product
front ends, the table of 16 bit multiples, the width of a packed entry, and the inverse by an inductive relation
between the loop variables of the extended Euclidean algorithm."""
from driver import *
from rows import *
BUDGET=300
DBG=False
def word(name,n): return Word([atom((name,i)) for i in range(n)]+[ZERO]*(64-n))
def exact(name,deg): return Word([atom((name,i)) for i in range(deg)]+[ONE]+[ZERO]*(63-deg))
def clmul(a,b,n=64):
    r=[ZERO]*n
    for i in range(64):
        if a.b[i]:
            for j in range(64):
                if b.b[j] and i+j<n: r[i+j]=padd(r[i+j],pmul(a.b[i],b.b[j]))
    return Word(r)
def bad(res,where,rule,txt): res.viol.append(Violation(where,rule,txt))
def cmpw(res,where,rule,what,got,want,st=None):
    res.n+=1
    if st is not None: got,want=st.norm(got),st.norm(want)
    if got!=want: bad(res,where,rule,f'{what}: {diffstr(got,want)}')
def run_mul(ctx,res,d):
    I=Interp(ctx.prog,{**BASE}); st=State(); a,b=word('a',d),word('b',d)
    out=I.run('gf2x_mul',[a,b,L(d)],st); res.absorb(I)
    if not out: bad(res,'gf2x.h:gf2x_mul','product',f'no result for degree bound {d}')
    for r,t in out: cmpw(res,'gf2x.h:gf2x_mul','product',f'degree bound {d}: the product of two polynomials',I.to_word(r,64),clmul(a,b),t)
def run_div(ctx,res,fn,da,db):
    I=Interp(ctx.prog,{**BASE}); st=State(); b=exact('b',db)
    a=exact('a',da) if da>=0 else wconst(0)
    p=I.new(st,'rem','words',None)
    out=I.run(fn,[a,b]+([p] if fn=='gf2x_divmod' else []),st); res.absorb(I)
    w='gf2x.h:'+fn
    if not out: bad(res,w,'division',f'no result for degrees {da}, {db}')
    for r,t in out:
        v=I.to_word(r,64)
        if fn=='gf2x_divmod':
            m=I.to_word(I.load(t,p,I64),64)
            cmpw(res,w,'division',f'degrees {da}, {db}: quotient * divisor + remainder',clmul(v,b).xor(m),a,t)
            res.n+=1
            if any(st.norm(m).b[db:]): bad(res,w,'division',f'degrees {da}, {db}: the remainder is not smaller than the divisor')
        elif fn=='gf2x_mod':
            # a - result must be a multiple of b of degree < 64: divide the difference by b
            res.n+=1
            if any(v.b[db:]): bad(res,w,'division',f'degrees {da}, {db}: the remainder is not smaller than the divisor'); continue
            d=v.xor(a)
            for i in range(63-db,-1,-1):
                c=d.b[i+db]
                if c: d=d.xor(Word(pmul(c,x) for x in b.shl(i).b))
            cmpw(res,w,'division',f'degrees {da}, {db}: dividend minus remainder modulo the divisor',d,wconst(0))
        else:
            d=clmul(v,b).xor(a); res.n+=1
            if any(d.b[db:]): bad(res,w,'division',f'degrees {da}, {db}: quotient * divisor differs from the dividend in a position that is not below the divisor')
def run_deg(ctx,res,d):
    I=Interp(ctx.prog,{**BASE}); st=State(); a=exact('a',d) if d<64 else None
    out=I.run('gf2x_deg',[a],st); res.absorb(I)
    for r,t in out:
        res.n+=1
        if not(isinstance(r,Lin) and r==L(d)): bad(res,'gf2x.h:gf2x_deg','degree',f'the degree of a polynomial with leading term x^{d} is reported as {r}')
def run_w(ctx,res,e):
    I=Interp(ctx.prog,{**BASE}); st=State(); ff=mk_ff(I,st,ctx.lay,e)
    out=I.run('gf2e_degree_to_w',[ff],st); res.absorb(I)
    if not out: bad(res,'gf2e.h:gf2e_degree_to_w','width',f'no width for degree {e}')
    for r,t in out:
        res.n+=1
        if r!=L(w_of(e)): bad(res,'gf2e.h:gf2e_degree_to_w','width',f'degree {e} is stored in {r} bits, must be {w_of(e)}')
# ---- constructor
def minpoly(e): return Word([atom(('mp',i)) for i in range(e)]+[ONE]+[ZERO]*(63-e))
def red_word(q,e):
    """the multiple of the minimal polynomial with high part q (a word): q*x^e + sum q_s * (x^(e+s) mod m)"""
    b=[ZERO]*64
    for s_ in range(e):
        if not q.b[s_]: continue
        for t in range(e): b[t]=padd(b[t],pmul(q.b[s_],atom(('rp',s_,t))))
    for s_ in range(64-e): b[e+s_]=padd(b[e+s_],q.b[s_])
    return Word(b)
def reduce_word(p,e):
    """p mod m for a product p of two elements"""
    q=p.lshr(e)
    return p.xor(red_word(q,e))
def ff_prod(a,b,e): return reduce_word(clmul(a,b),e)
def lay_flat(layers):
    for l in layers:
        if l=={}: continue
        if isinstance(l,dict):
            for a,(sz,v) in l.items(): yield ('one',a,sz,v)
        elif l[0]=='q': yield l
        else: yield ('odd',l)
def run_init(ctx,res,e):
    fn='gf2e_init'; W='gf2e.c:'+fn
    m=minpoly(e); red={}; rows={}
    prims={**BASE,**mk_prims(ctx.lay)}
    # reads of the reductor table by a word valued index: the table as it must be
    I=Interp(ctx.prog,prims); I.unroll_max=40; st=State()
    lay=ctx.lay
    def redinit(I,st,o,addr,ty):
        if ty.k!='int' or ty.bits!=64: return None
        off=addr[1]
        if len(off.t)==1 and off.c==0 and off.t[0][1]==8:
            k=Sym.keys[off.t[0][0]]
            if isinstance(k,tuple) and k[0]=='W': return red_word(k[1],e)
        return None
    # a table written at word valued indices cannot be read back by address; the reductor table is checked on its
    # own and replaced by its specification where the product table uses it
    lc=I.load_cases
    def load_cases(st,p,ty,ins=None):
        if isinstance(p,Ptr) and st.known.get(('redobj',p.obj)) and ty.k=='int' and ty.bits==64:
            v=None
            if st.known.get(('stage2',)):
                off=st.norm(p.off)
                if off.isc() and off.c%8==0: v=I.wsimp(red_word(wconst(off.c//8),e))
                else: v=redinit(I,st,None,((),off),ty)
            return [(v if v is not None else S(fresh('rdval')),st)]
        return lc(st,p,ty,ins)
    I.load_cases=load_cases
    def onst(I,st,oid,addr,size,v,ins):
        if size!=8 or not isinstance(v,Ptr) or v.obj==0 or not addr[1].isc() or I.objs[oid].kind!='zero': return
        if addr[1].c==lay('gf2e','red') and I.objs[oid].info.get('bytes')==(L(1),L(lay.size('gf2e'))): st.known=dict(st.known); st.known[('redobj',v.obj)]=True
        if addr[1].c==lay('gf2e','_mul') and I.objs[oid].info.get('bytes')==(L(1),L(lay.size('gf2e'))): st.known=dict(st.known); st.known[('stage2',)]=True
    I.on_store=onst
    oc=prims['m4ri_mm_calloc']
    def calloc(I,st,args,ins,name):
        out=oc(I,st,args,ins,name)
        for p,t in out: I.objs[p.obj].info['bytes']=(t.norm(args[0]),t.norm(args[1]))
        return out
    I.prims={**prims,'m4ri_mm_calloc':calloc}
    backs=[]
    I.back_hook=lambda F,lp,h,kid,k,bs,st0: backs.append((F.name,lp,kid,k,bs,st0))
    out=I.run(fn,[m],st); res.absorb(I)
    if not out: bad(res,W,'constructor',f'degree {e}: the constructor does not return'); return
    for ff,t in out:
        g=lambda f,ty: getf(I,t,ff,lay,'gf2e',f,ty)
        res.n+=1
        if not isinstance(ff,Ptr): res.und.append('field object not resolved'); return
        d=g('degree',I32)
        dl=t.norm(d)
        if isinstance(dl,Word): dl=I.to_lin(I.wsimp(dl))
        if dl!=L(e):
            if dl.isc(): bad(res,W,'degree',f'the degree of a minimal polynomial with leading term x^{e} is recorded as {dl}'); return
            res.und.append('degree not resolved'); return
        cmpw(res,W,'minimal polynomial',f'degree {e}: recorded minimal polynomial',I.to_word(g('minpoly',I64),64),m,t)
        # powers
        pg=g('pow_gen',PTR); rp={}
        for i in range(2*e-1):
            v=I.to_word(I.load(t,pg.at(L(8*i)),I64),64)
            if any(isinstance(Atom.keys[a],tuple) and Atom.keys[a][0]!='mp' for a in v.atoms()):
                if any(Atom.keys[a][0] in('undef','m') for a in v.atoms()): bad(res,W,'powers',f'degree {e}: entry {i} of the table of powers is not written')
                else: res.und.append(f'entry {i} of the table of powers not resolved: {v}')
                return
            want=wconst(1<<i) if i<e else xmod(rp[i-1],m,e)
            rp[i]=want
            cmpw(res,W,'powers',f'degree {e}: x^{i} reduced by the minimal polynomial',v,want,t)
        # reductors
        rd=g('red',PTR)
        check_red(I,res,W,e,m,t,rd)
        # product tables
        mt=g('_mul',PTR)
        if e<=8:
            if not isinstance(mt,Ptr) or mt.obj==0: bad(res,W,'product table',f'degree {e}: no product table'); continue
            check_mul(I,res,W,e,m,t,mt,backs)
        elif not(isinstance(mt,Ptr) and mt.obj==0):
            z=I.load(t,ff.at(lay('gf2e','_mul')),PTR); res.und.append(f'product table of degree {e}: {z}')
        mf=g('mul',PTR); iv=g('inv',PTR); res.n+=1
        if not isinstance(mf,Fn) or not isinstance(iv,Fn): res.und.append('operation pointers not resolved'); continue
        check_front(ctx,res,mf.name,e,table=e<=8); 
        check_front(ctx,res,'gf2e_mul',e,table=e<=8)
        check_inv_front(ctx,res,iv.name,e)
def xmod(v,m,e):
    """x*v mod m"""
    w=v.shl(1); c=w.b[e]
    return w.xor(Word(pmul(c,x) for x in m.b))
def check_red(I,res,W,e,m,t,rd):
    if not isinstance(rd,Ptr): res.und.append('reductor table not resolved'); return
    o=I.objs[rd.obj]
    lays=[x for x in lay_flat(t.mem[rd.obj].layers)]
    if o.kind!='zero': res.und.append('the reductor table is not cleared storage'); return
    conc=[x for x in lays if x[0]=='one']; qs=[x for x in lays if x[0]=='q']
    if len(qs)!=1 or conc or len(lays)!=1:
        if conc and not qs: return check_red_conc(I,res,W,e,m,t,rd,lays)
        res.und.append('the reductor table is not filled by a single loop'); return
    _,jid,lo,hi,alts=qs[0]
    if len(alts)!=1 or len(alts[0])!=1 or isinstance(alts[0][0],tuple) and alts[0][0][0] in('q','op','havoc'): res.und.append('more than one store to the reductor table per round'); return
    (sub,off),sz,v=alts[0][0]
    lo,hi=t.norm(lo),t.norm(hi)
    v=I.to_word(v,64) if not isinstance(v,Word) else v
    if not(len(off.t)==1 and off.t[0][1]==8 and off.c==0): res.und.append('store position in the reductor table'); return
    k=Sym.keys[off.t[0][0]]
    idx=k[1] if isinstance(k,tuple) and k[0]=='W' else None
    if idx is None: res.und.append('store position in the reductor table is not a word'); return
    # which counter bits does the value depend on
    cnt=None
    for a in set(v.atoms())|set(idx.atoms()):
        kk=Atom.keys[a]
        if kk[0]=='lbit':
            if cnt is None: cnt=kk[1]
            elif cnt!=kk[1]: res.und.append('two counters in the reductor loop'); return
        elif kk[0]!='mp': res.und.append(f'unexpected term {kk} in the reductor loop'); return
    if cnt is None: bad(res,W,'reductors',f'degree {e}: the entries of the reductor table do not depend on the counter'); return
    cw=Word([atom(('lbit',cnt,i)) for i in range(e)]+[ZERO]*(64-e))
    # the value must be linear in the counter bits, a multiple of m, its index its own high part
    cmpw(res,W,'reductors',f'degree {e}: index of an entry of the reductor table (must be the part of the entry above x^{e})',idx,v.lshr(e))
    cmpw(res,W,'reductors',f'degree {e}: an entry of the reductor table (must be the multiple of the minimal polynomial given by the counter)',v,clmul(cw,m))
    # index map is unitriangular by construction of clmul with leading coefficient one; every counter 1..2^e-1 occurs
    res.n+=1
    c=cnt.coef(jid); r=cnt-Lin(((jid,c),),0)
    if c!=1 or not r.isc() or not lo.isc() or not hi.isc(): res.und.append(f'range of the reductor loop {lo}..{hi}, counter {cnt}'); return
    first,last=lo.c+r.c,hi.c-1+r.c
    if first>1 or last<(1<<e)-1: bad(res,W,'reductors',f'degree {e}: the reductor table is filled for multipliers {first}..{last} only, {(1<<e)-1} are needed')
def check_red_conc(I,res,W,e,m,t,rd,lays):
    seen=set(); z={Atom.get(('mp',i)):ZERO for i in range(e)}
    for x in lays:
        if x[0]!='one': res.und.append('reductor table'); return
        off=x[1][1]; v=I.to_word(x[3],64)
        if any(c%8 for _,c in off.t) or off.c%8: res.und.append('store position in the reductor table'); return
        idx=I.to_word(Lin(tuple((k,c//8) for k,c in off.t),off.c//8),64)
        if any(Atom.keys[a][0]!='mp' for a in set(v.atoms())|set(idx.atoms())): res.und.append(f'entry of the reductor table: {v}'); return
        i=v.map_atoms(z).lshr(e).const()
        if i is None: res.und.append('multiplier'); return
        seen.add(i)
        cmpw(res,W,'reductors',f'degree {e}: index of an entry of the reductor table (must be the part of the entry above x^{e})',idx,v.lshr(e))
        cmpw(res,W,'reductors',f'degree {e}: entry for the multiple {i} of the minimal polynomial',v,clmul(wconst(i),m))
    res.n+=1; miss=[i for i in range(1,1<<e) if i not in seen]
    if miss: bad(res,W,'reductors',f'degree {e}: no reductor is entered for the multiples {miss[:4]} of the minimal polynomial')
def check_front(ctx,res,fn,e,table):
    I=Interp(ctx.prog,{**BASE}); st=State(); ff=mk_ff(I,st,ctx.lay,e,table=table)
    a,b=word('a',e),word('b',e)
    mo=getf(I,st,ff,ctx.lay,'gf2e','_mul',PTR); ro=getf(I,st,ff,ctx.lay,'gf2e','red',PTR)
    def windex(off):
        if len(off.t)==1 and off.c==0 and off.t[0][1]==8:
            k=Sym.keys[off.t[0][0]]
            if isinstance(k,tuple) and k[0]=='W': return k[1]
    if table:
        rows={}
        def mi(I,st,o,addr,ty):
            w=windex(addr[1])
            if w is None or ty.k!='ptr': return None
            if w not in rows:
                def ri(I,st,o2,addr2,ty2,w=w):
                    u=windex(addr2[1])
                    return ff_prod(w,u,e) if u is not None and ty2.k=='int' and ty2.bits==64 else None
                rows[w]=I.new(st,'mulrow','words',ri)
            return rows[w]
        I.objs[mo.obj].init=mi
    def ri(I,st,o,addr,ty):
        w=windex(addr[1]); return red_word(w,e) if w is not None and ty.k=='int' and ty.bits==64 else None
    I.objs[ro.obj].init=ri
    setf(I,st,ff,ctx.lay,'gf2e','minpoly',minpoly(e),8)
    F=ctx.prog.func(fn); out=I.run(fn,[ff,a,b],st); res.absorb(I)
    W=f'{F.file}:{fn}'
    if not out: bad(res,W,'product',f'degree {e}: no result')
    for r,t in out:
        g=I.to_word(r,64)
        odd=[Atom.keys[x] for x in g.atoms() if Atom.keys[x][0] not in('a','b','rp')]
        if odd: res.und.append(f'{fn} degree {e}: unresolved {odd[:2]}'); continue
        cmpw(res,W,'product',f'degree {e}: product of two field elements',g,ff_prod(a,b,e),t)
def check_mul(I,res,W,e,m,t,mt,backs):
    c=S(('col',)); r=S(('row',))
    u=t.fork(); n=1<<e
    for v in(c,r): u.facts=u.facts.add_ge(v).add_ge(n-1-v)
    cases=I.load_cases(u,mt.at(r*8),PTR)
    for p,x in cases:
        rr=x.norm(r)
        if not isinstance(p,Ptr) or p.obj==0:
            if isinstance(p,Ptr) or isinstance(p,Lin) and p.isc(): bad(res,W,'product table',f'degree {e}: row {rr} of the product table is missing'); continue
            res.und.append(f'row {rr} of the product table: {p}'); continue
        # content of this row: as built by the iteration that allocated it
        site=I.objs[p.obj].name
        loc=[(o,b) for fnm,lp,kid,k,bs,st0 in backs for _,b in bs for o in b.mem if I.objs[o].name==site and o not in st0.mem and any(isinstance(l[3],Ptr) and l[3].obj==o for l in lay_flat(b.mem[mt.obj].layers) if l[0]=='one')]
        if len(loc)>1: loc=loc[-1:]
        if loc:
            o,b=loc[-1]
            # the row stored by this iteration
            pos=None
            for l in lay_flat(b.mem[mt.obj].layers):
                if l[0]=='one' and isinstance(l[3],Ptr) and l[3].obj==o: pos=l[1][1]
            if pos is None or any(v%8 for _,v in pos.t) or pos.c%8: res.und.append('position of a row in the product table'); continue
            ridx=Lin(tuple((q,v//8) for q,v in pos.t),pos.c//8)
            y=b.fork()
            y.facts=y.facts.add_ge(c).add_ge(n-1-c)
            check_row(I,res,W,e,y,Ptr(o,(),ZL),ridx,c,n)
        elif p.obj not in x.mem or all(isinstance(l,dict) for l in x.mem[p.obj].layers): check_row(I,res,W,e,x,p,rr,c,n)
        else: res.und.append(f'content of row {rr}')
def opaque_bits(w):
    for x in w.atoms():
        k=Atom.keys[x]
        if k[0]=='lbit':
            for q in deep_syms(k[1]):
                z=Sym.keys[q]
                if isinstance(z,tuple) and z[0] not in('row','col','idx','fresh','div'): return z
        elif k[0] not in('rp','ffmul','a'): return k
    return None
def check_row(I,res,W,e,y,p,ridx,c,n):
    if y.facts.infeasible(): return
    for v,z in I.load_cases(y,Ptr(p.obj,p.sub,c*8),I64):
        if z.facts.infeasible(): continue
        got=z.norm(I.to_word(v,64,z)); a=I.to_word(z.norm(ridx),64,z); b=I.to_word(z.norm(c),64,z)
        want=z.norm(ff_prod(a,b,e))
        odd=opaque_bits(got); res.n+=1
        if odd: res.und.append(f'degree {e}: unresolved entry of the product table {odd}'); continue
        if got!=want: bad(res,W,'product table',f'degree {e}: entry (row {z.norm(ridx)}, column {z.norm(c)}) of the product table: {diffstr(got,want)}')
def check_inv_front(ctx,res,fn,e):
    I=Interp(ctx.prog,{**BASE}); st=State(); ff=mk_ff(I,st,ctx.lay,e); got=[]
    setf(I,st,ff,ctx.lay,'gf2e','minpoly',minpoly(e),8)
    def inv(I,st,args,ins,name):
        got.append([st.norm(x) for x in args]); return [(S(('theinverse',)),st)]
    I.prims={**I.prims,'gf2x_invmod':inv}
    F=ctx.prog.func(fn); out=I.run(fn,[ff,word('a',e)],st); res.absorb(I)
    W=f'{F.file}:{fn}'
    for r,t in out:
        if len(got)!=1 or r!=S(('theinverse',)): res.und.append(f'{fn} does not return the result of one inversion'); continue
        a,b,d=got[0]; res.n+=1
        cmpw(res,W,'inverse',f'degree {e}: argument of the inversion',I.to_word(a,64),word('a',e)); cmpw(res,W,'inverse',f'degree {e}: modulus of the inversion',I.to_word(b,64),minpoly(e))
        if d.isc() and d.c<e: bad(res,W,'inverse',f'degree {e}: products inside the inversion are truncated to {d} bits')
def run_t16(ctx,res,e):
    fn='gf2e_t16_init'; W='gf2e.h:'+fn; w=w_of(e)
    I=Interp(ctx.prog,{**BASE,**mk_prims(ctx.lay)}); I.unroll_max=40; st=State(); ff=mk_ff(I,st,ctx.lay,e)
    def mul(I,st,args,ins,name): return prim_ffmul(I,st,args,ins,name)
    I.prims={**I.prims,'gf2e_mul':mul}
    a=word('a',e); out=I.run(fn,[ff,a],st); res.absorb(I)
    if not out: bad(res,W,'table of multiples','no result')
    for p,t in out:
        if not isinstance(p,Ptr): res.und.append('table'); continue
        r=S(('idx',)); u=t.fork(); u.facts=u.facts.add_ge(r).add_ge(65535-r)
        for v,x in I.load_cases(u,p.at(r*8),I64):
            if x.facts.infeasible(): continue
            i=I.to_word(x.norm(r),64,x); got=I.to_word(v,64,x); b=[ZERO]*64
            for l in range(16//w):
                lane=Word([i.b[l*w+q] for q in range(w)]+[ZERO]*(64-w))
                pr=ffmul_word(e,'ff',a,x.norm(lane))
                for q in range(e): b[l*w+q]=pr.b[q]
            if opaque_bits(x.norm(got)): res.und.append('unresolved entry'); continue
            cmpw(res,W,'table of multiples',f'degree {e}, index {x.norm(r)}',x.norm(got),x.norm(Word(b)))
# ---- inverse: relations between the loop variables
def run_invmod(ctx,res):
    fn='gf2x_invmod'; W='gf2x.h:'+fn
    A,M,D=S(('A',)),S(('M',)),S(('D',))
    trunc=[]
    def pdiv(I,st,args,ins,name):
        x,y,rem=args
        if not isinstance(x,Lin) or not isinstance(y,Lin) or not isinstance(rem,Ptr): return None
        I.store(st,rem,S(('rmod',x,y)),8,ins); return [(S(('rdiv',x,y)),st)]
    def pdm(op):
        return lambda I,st,args,ins,name: [(S((op,args[0],args[1])),st)] if all(isinstance(x,Lin) for x in args) else None
    def pmul_(I,st,args,ins,name):
        if not all(isinstance(x,Lin) for x in args): return None
        trunc.append((I.where(ins),st.norm(args[2]))); return [(S(('rmul',args[0],args[1])),st)]
    def pdeg(I,st,args,ins,name): return [(S(('rdeg',args[0])),st)]
    I=Interp(ctx.prog,{**BASE,'gf2x_divmod':pdiv,'gf2x_div':pdm('rdiv'),'gf2x_mod':pdm('rmod'),'gf2x_mul':pmul_,'gf2x_deg':pdeg}); I.unroll_max=2; st=State()
    loops=[]
    I.back_hook=lambda F,lp,h,kid,k,bs,st0: loops.append((F,lp,bs,st0)) if F.name==fn else None
    out=I.run(fn,[A,M,D],st); res.absorb(I)
    def poly(v):
        """polynomial over GF(2): frozenset of sorted tuples of generators"""
        if not isinstance(v,Lin): raise Undecided('not a polynomial: %r'%(v,))
        if v.isc():
            if v.c not in(0,1): raise Undecided('constant')
            return frozenset([()]) if v.c else frozenset()
        if len(v.t)!=1 or v.c or v.t[0][1]!=1: raise Undecided(f'integer arithmetic on polynomials: {v}')
        k=Sym.keys[v.t[0][0]]
        if isinstance(k,tuple):
            if k[0]=='xor': return poly(k[1])^poly(k[2])
            if k[0]=='rmul': return mul(poly(k[1]),poly(k[2]))
            if k[0]=='rmod': return poly(k[1])^mul(poly(S(('rdiv',k[1],k[2]))),poly(k[2]))
            if k[0] not in('A','M','rdiv','fresh','D'): raise Undecided(f'operation {k[0]} on polynomials')
        return frozenset([(v.t[0][0],)])
    def mul(p,q):
        r=set()
        for x in p:
            for y in q: r^={tuple(sorted(x+y))}
        return frozenset(r)
    if len(loops)!=1: res.und.append(f'{len(loops)} loops in the inversion'); return
    F,lp,bs,st0=loops[0]
    phis=[p for p in F.blocks[lp.header].instrs if p.op=='phi']
    nxt={}; init={}
    for frm,x in bs:
        for p in phis:
            cur=x.env.get(p.id)
            if not isinstance(cur,Lin): continue
            nxt.setdefault(p.id,[]).append((cur,I.val(x,p.x[frm],F.mod))); init[p.id]=st0.env.get(p.id)
    if len(bs)!=1: res.und.append('several paths through the loop body'); return
    ids=[i for i in nxt if isinstance(nxt[i][0][1],Lin) and isinstance(init[i],Lin) and not nxt[i][0][0].isc() and len(nxt[i][0][0].t)==1]
    cur={i:poly(nxt[i][0][0]) for i in ids}
    try: new={i:poly(nxt[i][0][1]) for i in ids}; ini={i:poly(init[i]) for i in ids}
    except Undecided as e: res.und.append(str(e)); return
    gA=poly(A); gM=poly(M); mM=next(iter(gM))[0]; mA=next(iter(gA))[0]
    modM=lambda p: frozenset(t for t in p if mM not in t)
    # the Euclidean pair: p' = q, q' = p mod q
    pair=[]
    for i in ids:
        for j in ids:
            if i!=j and new[i]==cur[j] and len(cur[i])==len(cur[j])==1:
                si,sj=nxt[i][0][0],nxt[j][0][0]
                if nxt[j][0][1]==S(('rmod',si,sj)) and {ini[i],ini[j]}=={gA,gM}: pair.append((i,j))
    if len(pair)!=1: res.und.append('the Euclidean pair was not recognised'); return
    P,Q=pair[0]
    rel={(u,v) for u in ids for v in ids if modM(mul(ini[u],gA)^ini[v])==frozenset()}
    quos={x for p in new.values() for t in p for x in t if isinstance(Sym.keys[x],tuple) and Sym.keys[x][0]=='rdiv'}
    def member(p,gens):
        piv={}
        for g in gens:
            g=modM(g)
            for t in sorted(piv,reverse=True):
                if t in g: g=g^piv[t]
            if g: piv[max(g)]=g
        # reduce with the pivots until none applies
        p=modM(p)
        for t in sorted(piv,reverse=True):
            if t in p: p=p^piv[t]
        return not p
    while True:
        gens=[mul(frozenset([m]),mul(cur[u],gA)^cur[v]) for u,v in rel for m in [()]+[(q,) for q in quos]]
        if DBG: print(rel)
        drop={(u,v) for u,v in rel if not member(mul(new[u],gA)^new[v],gens)}
        if not drop: break
        rel-=drop
    res.n+=1
    names={i:f'loop variable {n}' for n,i in enumerate(ids)}
    for r,t in out:
        if not isinstance(r,Lin): res.und.append('result'); continue
        pr=poly(r); qv=nxt[Q][0][0]; pv=nxt[P][0][0]
        z=t.norm(qv)
        one=None
        if z==ZL or t.facts.eq0(qv): one=P
        elif t.facts.eq0(qv-1): one=Q
        if one is None: res.und.append('remainder on leaving the loop'); continue
        res.n+=1
        u=[i for i in ids if cur[i]==pr]
        if not u:
            res.und.append('the result is not a loop variable'); continue
        if not any((x,one) in rel for x in u):
            bad(res,W,'inverse','on leaving the loop the last nonzero remainder is 1, but the value returned times the argument is not shown to be this remainder modulo the modulus: the update of the cofactor does not preserve  cofactor * argument = remainder (mod modulus)')
    for wh,d in trunc:
        res.n+=1
        x=d-D
        if x.isc() and x.c<0: bad(res,W,'inverse',f'product truncated to {d} bits at {wh}, the cofactors need D bits')
        elif not x.isc(): res.und.append(f'degree bound {d} of a product')
def run_tables(ctx,res,d):
    """the published lists of irreducible polynomials"""
    I=Interp(ctx.prog,{**BASE}); st=State()
    g=ctx.prog.gdefs['irreducible_polynomials']['mod']
    p=I.load(st,I.global_ptr(st,g,'irreducible_polynomials').at(L(8*d)),PTR)
    if not isinstance(p,Ptr) or p.obj==0: bad(res,'gf2e.c:irreducible_polynomials','list',f'no list for degree {d}'); return
    n=I.load(st,p,I64); W=f'gf2e.c:irreducible_polynomials[{d}]'
    want=necklaces(d)
    res.n+=1
    if n!=L(want): bad(res,W,'list',f'{n} entries announced, there are {want} irreducible polynomials of degree {d}'); return
    seen=set(); cells=I.global_cells(I.objs[p.obj])
    for i in range(1,want+1):
        v=I.load(st,p.at(L(8*i)),I64); res.n+=1
        c=v.c if isinstance(v,Lin) and v.isc() else None
        if c is None: res.und.append('entry'); return
        if c in seen: bad(res,W,'list',f'{hex(c)} occurs twice')
        seen.add(c)
        if c.bit_length()!=d+1 or not irreducible(c,d): bad(res,W,'list',f'entry {i}, {hex(c)}, is not irreducible of degree {d}')
def necklaces(n):
    def mu(k):
        r=1; p=2
        while k>1:
            if k%p==0:
                k//=p; r=-r
                if k%p==0: return 0
            p+=1
        return r
    return sum(mu(n//d)*2**d for d in range(1,n+1) if n%d==0)//n
def irreducible(f,n):
    def sq(x):
        r=0; i=0
        while x:
            if x&1: r|=1<<2*i
            x>>=1; i+=1
        return mod(r)
    def mod(r):
        while r.bit_length()>n: r^=f<<(r.bit_length()-1-n)
        return r
    def gcd_(a,b):
        while b:
            while a.bit_length()>=b.bit_length() and a: a^=b<<(a.bit_length()-b.bit_length())
            a,b=b,a
        return a
    x=mod(2); y=x
    ps=[p for p in range(2,n+1) if n%p==0 and all(p%q for q in range(2,p))]
    for i in range(1,n+1):
        y=sq(y)
        if i<n and i in[n//p for p in ps] and gcd_(f,y^x).bit_length()!=1: return False
    return y==x
def obligations(ctx):
    obs=[]
    for d in range(1,33): obs.append(Ob('polynomial product',f'degree bound {d}',run_mul,(d,),('gf2x_mul',)))
    for d in range(0,64): obs.append(Ob('polynomial degree',f'{d}',run_deg,(d,),('gf2x_deg',)))
    for da in range(-1,17):
        for db in range(0,17):
            obs.append(Ob('polynomial division',f'degrees {da} {db}',run_div,('gf2x_divmod',da,db),('gf2x_divmod',)))
            for f in('gf2x_div','gf2x_mod'):
                if ctx.prog.func(f): obs.append(Ob('polynomial division',f'{f} degrees {da} {db}',run_div,(f,da,db)))
    for e in range(2,17):
        obs.append(Ob('field constructor',f'degree {e}',run_init,(e,),('gf2e_init',),cost=e*10))
        obs.append(Ob('packed width',f'degree {e}',run_w,(e,),('gf2e_degree_to_w',)))
        obs.append(Ob('table of multiples',f'degree {e}',run_t16,(e,),('gf2e_t16_init',)))
    for d in range(1,17): obs.append(Ob('list of polynomials',f'degree {d}',run_tables,(d,),()))
    obs.append(Ob('inverse','extended Euclid',run_invmod,(),('gf2x_invmod',)))
    return obs
