"""Building blocks of generated bilinear maps.  (a) Constant analysis: the binary matrix that the constructor of small multiplication maps builds for each
number of coefficients is read off its abstract final memory and judged by linear algebra over the symmetric tensors: the products of its linear forms
span every coefficient of the product of two polynomials, they are independent (the solver for the third matrix needs a full rank system), there
are as many as the cost table says, and no form names a coefficient that does not exist.  (b) Reduction matrices: a loop invariant for the column
computation (the working word is congruent to x^i and its degree falls), with symbolic coefficients of the modulus and of the working word."""
from rows import *
import c12
EXPLANATION=__doc__
RULES=['form: only existing coefficients','count: number of forms = cost table','span: every coefficient of the product is a sum of products of forms','independent: the products of the forms are linearly independent','degree: other numbers of coefficients are refused']
LEVEL='other'
FN='_small_multiplication_map'
def costs(ctx):
    m,c=c12.table(ctx,'costs')
    return None if c is None or c[0]!='agg' else [x[1] for x in c[1]]
def forms(ctx,res,d):
    I=Interp(ctx.prog,{**BASE,**mk_prims(ctx.lay)}); st=State(); I.unroll_max=4096
    out=I.run(FN,[L(d)],st); res.absorb(I)
    return I,out
def tensor(f,d):
    v=0; k=0
    for u in range(d):
        for w in range(u,d):
            if f>>u&1 and f>>w&1: v|=1<<k
            k+=1
    return v
def target(i,d):
    v=0; k=0
    for u in range(d):
        for w in range(u,d):
            if u+w==i: v|=1<<k
            k+=1
    return v
def reduce_(v,basis):
    for b in basis:
        if v^b<v: v^=b
    return v
def run_map(ctx,res,d):
    F=ctx.prog.func(FN); loc=F.file+':'+FN
    I,out=forms(ctx,res,d)
    if not out: res.viol.append(Violation(loc,'degree',f'no map is returned for {d} coefficients')); return
    for r,t in out:
        if not isinstance(r,Ptr) or r.obj==0: res.viol.append(Violation(loc,'degree',f'no map is returned for {d} coefficients')); return
        n,c=getf(I,t,r,ctx.lay,'mzd_t','nrows',I32),getf(I,t,r,ctx.lay,'mzd_t','ncols',I32)
        if not(isinstance(n,Lin) and isinstance(c,Lin) and n.isc() and c.isc()): raise Undecided('size of the map')
        n,c=n.c,c.c; res.n+=1
        if c!=d: res.viol.append(Violation(loc,'form',f'the map for {d} coefficients has {c} columns')); return
        cs=costs(ctx)
        if cs is None or d>=len(cs): res.und.append('cost table')
        else:
            res.n+=1
            if cs[d]!=n: res.viol.append(Violation(loc,'count',f'the map for {d} coefficients has {n} forms, the cost table says {cs[d]}')); return
        data=I.objs[r.obj].info['data']; fs=[]
        for i in range(n):
            w=I.to_word(I.load(t,Ptr(data,(L(i),),ZL),I64),64).const()
            if w is None: raise Undecided(f'form {i} is not constant')
            res.n+=1
            if w>>d: res.viol.append(Violation(loc,'form',f'{d} coefficients: form {i} is {w:#x}, it names a coefficient that does not exist')); return
            fs.append(w)
        basis=[]; dep=None
        for i,f in enumerate(fs):
            v=tensor(f,d)
            for b in basis:
                if v>>(b.bit_length()-1)&1: v^=b
            if v==0: dep=i if dep is None else dep; continue
            basis=[b^v if b>>(v.bit_length()-1)&1 else b for b in basis]+[v]
        for k in range(2*d-1):
            v=target(k,d); res.n+=1
            for b in basis:
                if v>>(b.bit_length()-1)&1: v^=b
            if v: res.viol.append(Violation(loc,'span',f'{d} coefficients: coefficient {k} of the product is not a sum of products of the forms')); return
        res.n+=1
        if dep is not None: res.viol.append(Violation(loc,'independent',f'{d} coefficients: the product of form {dep} ({fs[dep]:#x}) depends on the ones before it')); return
def run_out(ctx,res,d):
    F=ctx.prog.func(FN); loc=F.file+':'+FN; I,out=forms(ctx,res,d); res.n+=1
    for r,t in out: res.viol.append(Violation(loc,'degree',f'{d} coefficients are not refused')); return
RED='_crt_modred_mat'
def words(I,st,p,ins):
    if not isinstance(p,Ptr) or p.obj==0 or I.objs[p.obj].kind!='mzd': raise Undecided('matrix at '+I.where(ins))
    I.check_alive(st,p,ins,'use') if hasattr(I,'check_alive') else None
    o=I.objs[p.obj]; n,c=getf(I,st,p,I.lay,'mzd_t','nrows',I32),getf(I,st,p,I.lay,'mzd_t','ncols',I32)
    if not(n.isc() and c.isc()): raise Undecided('size')
    return o.info['data'],n.c,c.c,-(-c.c//64)
def p_set(I,st,args,ins,name):
    d,n,c,w=words(I,st,args[0],ins); v=I.to_word(args[1],64).const() if not isinstance(args[1],Lin) else args[1].c
    if v is None: raise Undecided('constant')
    for i in range(n):
        for j in range(w): I.put(st,d,((L(i),),L(8*j)),8,wconst(1<<(i%64) if v&1 and i<c and i//64==j else 0))
    return [(UNDEF,st)]
def p_add(I,st,args,ins,name):
    C,A,B=args; (d,n,c,w),(da,na,ca,_),(db,nb,cb,_)=(words(I,st,x,ins) for x in(C,A,B))
    if (n,c)!=(na,ca) or (n,c)!=(nb,cb): raise Undecided('sizes of a sum')
    for i in range(n):
        for j in range(w): I.put(st,d,((L(i),),L(8*j)),8,I.to_word(I.load(st,Ptr(da,(L(i),),L(8*j)),I64),64).xor(I.to_word(I.load(st,Ptr(db,(L(i),),L(8*j)),I64),64)))
    return [(C,st)]
def p_deg(I,st,args,ins,name):
    w=st.norm(I.to_word(args[0],64)); out=[]; cur=st
    for k in range(63,0,-1):
        b=w.b[k]
        if b==ZERO: continue
        if b==ONE: out.append((L(k),cur)); return out
        t=cur.fork()
        if I.assume_zero(t,pnot(b)): out.append((L(k),t))
        if not I.assume_zero(cur,b): return out
        w=cur.norm(w)
    out.append((L(0),cur)); return out
def run_red(ctx,res,d,length,poly):
    """remainders of x^0 .. x^(length-1); poly: 'inf', a constant, or None for a symbolic monic polynomial of degree d"""
    I=Interp(ctx.prog,{**BASE,**mk_prims(ctx.lay),'mzd_set_ui':p_set,'mzd_add':p_add,'_mzd_add':p_add,'gf2x_deg':p_deg}); I.lay=ctx.lay; st=State(); I.unroll_max=4096; I.unroll=length+80
    F=ctx.prog.func(RED); loc=F.file+':'+RED
    I.try_merge=lambda *a,**k: None
    P=wconst(poly) if poly is not None else Word([atom(('mp',i)) for i in range(d)]+[ONE]+[ZERO]*(63-d))
    out=I.run(RED,[L(length),P,L(d)],st); res.absorb(I)
    if not out: raise Undecided('no returning path')
    cols=[]
    for i in range(length):
        if poly==0: cols.append([ONE if j==length-1-i else ZERO for j in range(d)]); continue
        if i<d: cols.append([ONE if j==i else ZERO for j in range(d)]); continue
        q=cols[-1]; top=q[d-1]; cols.append([padd(q[j-1] if j else ZERO,pmul(top,P.b[j])) for j in range(d)])
    for r,t in out:
        if not isinstance(r,Ptr) or r.obj==0: res.viol.append(Violation(loc,'shape','no matrix is returned')); return
        data,n,c,w=words(I,t,r,None); res.n+=1
        if (n,c)!=(d,length): res.viol.append(Violation(loc,'shape',f'the reduction matrix has {n} rows and {c} columns, must have {d} and {length}')); return
        for j in range(d):
            ws=[t.norm(I.to_word(I.load(t,Ptr(data,(L(j),),L(8*k)),I64),64)) for k in range(w)]
            for i in range(64*w):
                g=t.normp(ws[i//64].b[i%64]) if hasattr(t,'normp') else I.normp(t,ws[i//64].b[i%64]); x=I.normp(t,cols[i][j]) if i<length else ZERO; res.n+=1
                if g!=x:
                    if any(isinstance(k,tuple) and k[0]!='mp' for k in patoms(padd(g,x))): raise Undecided(f'row {j} column {i}')
                    res.viol.append(Violation(loc,'remainder',f'length {length}, degree {d}, {"point at infinity" if poly==0 else "modulus "+("of any form" if poly is None else hex(poly))}: row {j} of column {i} is wrong')); return
# constant moduli for the long polynomials (several words per row): a few of every small degree, reducible ones included
MODULI=(0x2,0x3,0x4,0x5,0x7,0xb,0xf,0x13,0x19,0x25,0x3f,0x43,0x83,0x11b,0x1ff,0x211,0x409,0x805,0x1053,0x201b,0x4143,0x8003,0x1100b,0x100000000000001b>>32|1<<29)
def obligations(ctx):
    return [Ob('small multiplication map',f'{d} coefficients',run_map,(d,),(FN,)) for d in range(1,17)]+[Ob('refusal',f'{d} coefficients',run_out,(d,),(FN,)) for d in(0,17)]+[
        Ob('reduction matrix',f'degree {d} length {n}',run_red,(d,n,None),(RED,)) for d in range(1,17) for n in sorted({1,d,min(2*d-1,d+6),d+4})]+[
        Ob('reduction matrix',f'degree {d} length {n} at infinity',run_red,(d,n,0),(RED,)) for d in range(1,9) for n in(d,d+1,16,31,64,65,130)]+[
        Ob('reduction matrix',f'modulus {m:#x} length {n}',run_red,(m.bit_length()-1,n,m),(RED,)) for m in MODULI for n in(66,68,80,131)]
