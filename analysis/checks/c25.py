"""Generation of bilinear maps from a list of moduli.  (a) The assembly of the two evaluation maps is interpreted abstractly for lists of moduli (the lists the
library chooses itself for all lengths up to 16, and lists with powers and points at infinity): the small maps and the reduction matrices enter by their
contract (C22) as formal objects, the row ranges they are multiplied into are recorded, and judged: every row belongs to exactly one modulus, both maps use
the same modulus in the same rows, the moduli are pairwise coprime and have the requested degrees.  (b) The solving step is interpreted with symbolic
evaluation maps; the rank decisions, the row permutation and the inverse of the chosen system are free (any rank history, any formal inverse), and
the third map must be the one the chosen equations define."""
from rows import *
import c12,c22,math,itertools
from c22 import costs,p_set,words
from interp import fconst
EXPLANATION=__doc__
RULES=['rows: every row of both maps belongs to exactly one modulus, with as many rows as the cost table says','same modulus: both maps use the same modulus in the same rows','coprime: moduli are pairwise coprime and have the requested degree','list: the chosen list covers the length of the product exactly with available moduli',
 'solve: the third map is the one defined by the chosen equations (inverse of the system, reduced modulo the minimal polynomial for a field)','choice: every equation is a product of one row of each map, rank and permutation decisions are followed','operands: the evaluation maps keep their content']
LEVEL='other'
FIN='_blm_finish_polymult'; GEN='blm_init_crt'; LST='crt_init'
def cint(I,st,x,what='value'):
    x=st.norm(x) if isinstance(x,Word) else st.facts.norm(x) if isinstance(x,Lin) else x
    c=x.const() if isinstance(x,Word) else x.c if isinstance(x,Lin) and x.isc() else None
    if c is None: raise Undecided(what+' is not a constant')
    return c
def fl(fun):
    def f(I,st,args,ins,name):
        c=fconst(st.facts.norm(I.to_lin(args[0])))
        if c is None: raise Undecided(name+' of an unknown value')
        return [(S(('float',float(fun(c)))),st)]
    return f
FL={'ceil':fl(math.ceil),'llvm.ceil.f64':fl(math.ceil),'floor':fl(math.floor),'llvm.floor.f64':fl(math.floor)}
def irr(ctx):
    r=getattr(ctx,'_irr',None)
    if r is None:
        r=[0]
        for d in range(1,17):
            n=0
            for k in range(1,d+1):
                if d%k==0: n+=MU[k]*(1<<(d//k))
            r.append(n//d)
        ctx._irr=r
    return r
MU={1:1,2:-1,3:-1,4:0,5:-1,6:1,7:-1,8:0,9:0,10:1,11:-1,12:0,13:-1,14:1,15:1,16:0}
def listof(ctx,res,a,b):
    I=Interp(ctx.prog,{**BASE,**mk_prims(ctx.lay),**FL}); I.lay=ctx.lay; st=State(); I.unroll_max=4096
    out=I.run(LST,[L(a),L(b)],st); res.absorb(I); ls=[]
    for r,t in out:
        if not isinstance(r,Ptr) or r.obj==0: raise Undecided('no list')
        ls.append([sgn(cint(I,t,I.load(t,r.at(4*i),I32),f'entry {i} of the list'),32) for i in range(17)])
    if not ls: raise Undecided('no returning path')
    return I,ls
def run_list(ctx,res,a,b):
    F=ctx.prog.func(LST); loc=F.file+':'+LST
    I,ls=listof(ctx,res,a,b); q=irr(ctx); cs=costs(ctx)
    if cs is None: raise Undecided('cost table')
    for p in ls:
        tot=p[0]+sum(d*p[d] for d in range(1,17)); res.n+=3
        if any(x<0 for x in p) or p[0]>8 or any(p[d]>q[d] for d in range(1,17)): res.viol.append(Violation(loc,'list',f'lengths {a} and {b}: the list {p} names moduli that do not exist')); return
        if any(p) and tot!=a+b-1: res.viol.append(Violation(loc,'list',f'lengths {a} and {b}: the moduli {p} have total degree {tot}, the product has {a+b-1} coefficients')); return
        if not any(p) and a==b and a>1: res.viol.append(Violation(loc,'list',f'lengths {a} and {b}: no list is chosen')); return
        if any(p) and sum(cs[d]*p[d] for d in range(1,17))+cs[p[0]]>=a*b: res.viol.append(Violation(loc,'list',f'lengths {a} and {b}: the list {p} needs no fewer products than the naive one')); return
# ------------------------------------------------------------------ assembly of F and G
def pdeg(x): return x.bit_length()-1
def pmod(a,b):
    while a and pdeg(a)>=pdeg(b): a^=b<<(pdeg(a)-pdeg(b))
    return a
def gcd(a,b):
    while b: a,b=b,pmod(a,b)
    return a
def run_gen(ctx,res,p,a,b,djb,field):
    lay=ctx.lay; F=ctx.prog.func(GEN); loc=F.file+':'+GEN
    base=mk_prims(lay)
    def formal(I,st,n,c,tag,ins):
        q=mk_mzd(I,st,lay,f'{tag[0]}{I.nobj}@{I.where(ins)}',L(n),L(c),flags=ZL); I.objs[q.obj].info['tag']=tag
        return heap(I,st,q,'mzd')
    cs=costs(ctx)
    if cs is None: raise Undecided('cost table')
    def small(I,st,args,ins,name):
        d=cint(I,st,args[0],'degree')
        if not 1<=d<=16: st.event('die',I.where(ins),'degree'); I.dead.append(st); return []
        return [(formal(I,st,cs[d],d,('small',d),ins),st)]
    def red(I,st,args,ins,name):
        n,m,d=(cint(I,st,x,w) for x,w in zip(args,('length','modulus','degree')))
        if m and pdeg(m)!=d: raise Bad(f'reduction modulo {m:#x}, which has degree {pdeg(m)}, is asked for degree {d}')
        return [(formal(I,st,d,n,('mod',m,d,n),ins),st)]
    def win(I,st,args,ins,name):
        A=args[0]; r0,c0,r1,c1=(cint(I,st,x,'window bound') for x in args[1:5]); o=I.objs[A.obj]; I.check_alive(st,A,ins,'use') if hasattr(I,'check_alive') else None
        n,c=o.info['nrows'].c,o.info['ncols'].c
        if c0 or c1!=c or not 0<=r0<=r1<=n: raise Bad(f'window of rows {r0} to {r1}, columns {c0} to {c1} of a {n}x{c} matrix')
        w=I.new(st,f'win{I.nobj}@{I.where(ins)}','mzd',None); I.objs[w.obj].info.update(win=(A.obj,r0,r1),nrows=L(r1-r0),ncols=L(c))
        return [(heap(I,st,w,'mzd'),st)]
    def mul(I,st,args,ins,name):
        C,A,B=args[:3]
        for x in args[:3]:
            if x==NULL or not isinstance(x,Ptr): raise Undecided('product at '+I.where(ins))
            if st.known.get(('freed',x.obj)): raise Bad('a released matrix is multiplied at '+I.where(ins))
        ta,tb=I.objs[A.obj].info.get('tag'),I.objs[B.obj].info.get('tag')
        w=I.objs[C.obj].info.get('win')
        if ta is None or tb is None or ta[0]!='small' or tb[0]!='mod': raise Undecided('product at '+I.where(ins))
        if w is None: w=(C.obj,0,I.objs[C.obj].info['nrows'].c)
        if ta[1]!=tb[2] or w[2]-w[1]!=cs[ta[1]] or I.objs[C.obj].info['ncols'].c!=tb[3]: raise Bad(f'sizes do not fit: rows {w[1]} to {w[2]}, the map for {ta[1]} coefficients, reduction of {tb[3]} coefficients to {tb[2]}')
        st.event('block',w,tb[1:]); return [(C,st)]
    def fin(I,st,args,ins,name): st.event('finish',args[0],args[1]); return [(args[1],st)]
    def comp(I,st,args,ins,name): st.event('compile',args[0]); return [(UNDEF,st)]
    class Bad(Exception): pass
    I=Interp(ctx.prog,{**BASE,**base,**FL,'_small_multiplication_map':small,'_crt_modred_mat':red,'mzd_init_window':win,'mzd_mul':mul,'_mzd_mul':mul,FIN:fin,'_blm_djb_compile':comp}); I.lay=lay; I.unroll_max=4096
    st=State(); ff=mk_ff(I,st,lay,4) if field else NULL
    P=I.new(st,'p','mem',None)
    for i in range(17): I.put(st,P.obj,((),L(4*i)),4,L(p[i] if i<len(p) else 0))
    p=list(p)+[0]*(17-len(p)); q=irr(ctx)
    what=f'{a} and {b} coefficients, list '+', '.join(f'{n} of degree {d}' if d else f'infinity {n}' for d,n in enumerate(p) if n)
    try: out=I.run(GEN,[ff,L(a),L(b),P,L(djb)],st)
    except Bad as ex: res.absorb(I); res.viol.append(Violation(loc,'rows',f'{what}: {ex}')); return
    res.absorb(I); res.n+=1
    if not out:
        if all(p[d]<=q[d] for d in range(1,17)): res.viol.append(Violation(loc,'list',f'{what}: the call stops'))
        elif not I.dead: raise Undecided('no path')
        return
    m=cs[p[0]]+sum(cs[d]*p[d] for d in range(1,17))
    for r,t in out:
        if not isinstance(r,Ptr) or r.obj==0: raise Undecided('result')
        fs={k:I.load(t,r.at(lay('blm_t',k)),PTR) for k in('F','G','f','g')}
        blocks={}
        for ev in t.events():
            if ev[0]=='block': (o,r0,r1),tag=ev[1:]; blocks.setdefault(o,[]).append((r0,r1,tag))
        seen={}
        for k,n in(('F',a),('G',b)):
            o=I.objs[fs[k].obj] if isinstance(fs[k],Ptr) and fs[k].obj else None; res.n+=2
            if o is None or (o.info['nrows'].c,o.info['ncols'].c)!=(m,n): res.viol.append(Violation(loc,'rows',f'{what}: map {k} has the wrong size, must be {m}x{n}')); return
            bl=sorted(blocks.get(fs[k].obj,[])); at=0
            for r0,r1,tag in bl:
                if r0!=at: res.viol.append(Violation(loc,'rows',f'{what}: rows {min(at,r0)} to {max(at,r0)} of map {k} are '+('written twice' if r0<at else 'not written'))); return
                at=r1
            if at!=m: res.viol.append(Violation(loc,'rows',f'{what}: rows {at} to {m} of map {k} are not written')); return
            seen[k]=[(r0,tag[:2]) for r0,r1,tag in bl]
        res.n+=1
        if seen['F']!=seen['G']: res.viol.append(Violation(loc,'same modulus',f'{what}: the two maps use different moduli')); return
        mods=[x[1] for x in seen['F']]; res.n+=len(mods)
        want=sorted([d for d in range(1,17) for _ in range(p[d])]); got=sorted(d for mm,d in mods if mm); inf=[d for mm,d in mods if not mm]
        if want!=got or inf!=([p[0]] if p[0] else []): res.viol.append(Violation(loc,'coprime',f'{what}: moduli of degrees {got}, infinity {inf} are used')); return
        fin_=[mm for mm,d in mods if mm]
        for i,x in enumerate(fin_):
            for y in fin_[:i]:
                res.n+=1
                if gcd(x,y)!=1: res.viol.append(Violation(loc,'coprime',f'{what}: the moduli {y:#x} and {x:#x} have a common factor')); return
        # (a modulus with an odd constant term or not is irrelevant here: infinity is coprime to every polynomial)
        fe=[e for e in t.events() if e[0] in('finish','compile','block')]; ks=[e[0] for e in fe]; res.n+=2
        if ks.count('finish')!=1 or ks.count('compile')!=(1 if djb else 0) or 'block' in ks[ks.index('finish'):] or djb and ks[-1]!='compile': res.viol.append(Violation(loc,'solve',f'{what}: the third map is solved {ks.count("finish")} times and compiled {ks.count("compile")} times, or in the wrong order')); return
        e=fe[ks.index('finish')]
        if e[1]!=ff or e[2]!=r: res.viol.append(Violation(loc,'solve',f'{what}: the third map is solved for another map or field')); return
        if not djb:
            for k in('f','g','h'):
                res.n+=1
                if I.load(t,r.at(lay('blm_t',k)),PTR)!=NULL: res.viol.append(Violation(loc,'rows',f'{what}: the compiled map {k} is not marked absent')); return
# ------------------------------------------------------------------ solving for H
def perm_of(vals,rows):
    rows=list(rows)
    for i,k in enumerate(vals): rows[i],rows[k]=rows[k],rows[i]
    return rows
def run_fin(ctx,res,m,a,b,e,ranks,perm):
    """m rows, a and b coefficients; ranks: history of the rank computation before full rank; perm: row order (tuple)"""
    lay=ctx.lay; F=ctx.prog.func(FIN); loc=F.file+':'+FIN; base=mk_prims(lay)
    def bits(I,st,p,ins):
        d,n,c,w=words(I,st,p,ins); rr=I.objs[p.obj].info.get('perm')
        return [[st.norm(I.to_word(I.load(st,Ptr(d,(L(i),),L(8*(j//64))),I64),64)).b[j%64] for j in range(c)] for i in range(n)]
    def putbits(I,st,p,M,ins):
        d,n,c,w=words(I,st,p,ins)
        for i in range(n):
            for k in range(w): I.put(st,d,((L(i),),L(8*k)),8,Word([M[i][64*k+j] if 64*k+j<c else ZERO for j in range(64)]))
    def new(I,st,M,n,c,ins):
        p=mk_mzd(I,st,lay,f'new{I.nobj}@{I.where(ins)}',L(n),L(c),zero=True,flags=ZL); heap(I,st,p,'mzd'); putbits(I,st,p,M,ins); return p
    def dims(I,st,p,ins): _,n,c,_=words(I,st,p,ins); return n,c
    def tgt(I,st,p,M,n,c,ins):
        if p==NULL: return new(I,st,M,n,c,ins)
        if dims(I,st,p,ins)!=(n,c): raise Bad(f'sizes do not fit at {I.where(ins)}')
        putbits(I,st,p,M,ins); return p
    def trans(I,st,args,ins,name):
        M=bits(I,st,args[1],ins); n,c=dims(I,st,args[1],ins); return [(tgt(I,st,args[0],[[M[i][j] for i in range(n)] for j in range(c)],c,n,ins),st)]
    def copy(I,st,args,ins,name): n,c=dims(I,st,args[1],ins); return [(tgt(I,st,args[0],bits(I,st,args[1],ins),n,c,ins),st)]
    def pinit(I,st,args,ins,name):
        q=I.new(st,f'mzp@{I.where(ins)}','mzp',None); n=cint(I,st,args[0]); v=I.new(st,f'mzp.values@{I.where(ins)}','mem',None); I.objs[q.obj].info['values']=v
        I.put(st,q.obj,((),L(lay('mzp_t','values'))),8,v); I.put(st,q.obj,((),L(lay('mzp_t','length'))),4,L(n))
        for i in range(n): I.put(st,v.obj,((),L(4*i)),4,L(i))
        return [(heap(I,st,q,'mzp'),st)]
    def setp(I,st,P,vals,ins):
        if cint(I,st,I.load(st,P.at(lay('mzp_t','length')),I32))!=len(vals): raise Bad('a permutation of the wrong length is filled')
        for i,x in enumerate(vals): I.put(st,I.objs[P.obj].info['values'].obj,((),L(4*i)),4,L(x))
    def ple(I,st,args,ins,name):
        A,P,Q=args[:3]; n,c=dims(I,st,A,ins); k=len([1 for x in st.events() if x[0]=='ple'])
        cnt=[M for M in(bits(I,st,A,ins),)][0]
        st.event('ple',tuple(tuple(x) for x in cnt))
        putbits(I,st,A,[[atom(('ple',k,i,j)) for j in range(c)] for i in range(n)],ins)
        r=ranks[k] if k<len(ranks) else n
        setp(I,st,P,perm[:n],ins); setp(I,st,Q,tuple(range(n)),ins)
        return [(L(min(r,n)),st)]
    def pl(I,st,args,ins,name):
        A,P=args[:2]
        if not isinstance(P,Ptr) or 'values' not in I.objs[P.obj].info: raise Undecided('permutation at '+I.where(ins))
        M=bits(I,st,A,ins); n=cint(I,st,I.load(st,P.at(lay('mzp_t','length')),I32)); V=I.objs[P.obj].info['values']
        if n!=len(M): raise Bad('a permutation of another size is applied')
        for i in range(n):
            k=cint(I,st,I.load(st,V.at(4*i),I32),'permutation'); M[i],M[k]=M[k],M[i]
        putbits(I,st,A,M,ins); return [(UNDEF,st)]
    def inv(I,st,args,ins,name):
        A=args[1]; M=bits(I,st,A,ins); n,c=dims(I,st,A,ins)
        if n!=c: raise Bad('the system is not square')
        k=len([1 for x in st.events() if x[0]=='inv']); st.event('inv',k,tuple(tuple(x) for x in M))
        return [(tgt(I,st,args[0],[[atom(('inv',k,i,j)) for j in range(n)] for i in range(n)],n,n,ins),st)]
    def mul(I,st,args,ins,name):
        C,A,B=args[:3]; X,Y=bits(I,st,A,ins),bits(I,st,B,ins); (n,c),(n2,c2)=dims(I,st,A,ins),dims(I,st,B,ins)
        if c!=n2: raise Bad('sizes of a product do not fit at '+I.where(ins))
        Z=[]
        for i in range(n):
            row=[]
            for j in range(c2):
                s=ZERO
                for k in range(c):
                    if X[i][k]!=ZERO and Y[k][j]!=ZERO: s=padd(s,pmul(X[i][k],Y[k][j]))
                row.append(s)
            Z.append(row)
        return [(tgt(I,st,C,Z,n,c2,ins),st)]
    def red(I,st,args,ins,name):
        n,d=cint(I,st,args[0]),cint(I,st,args[2]); w=I.to_word(args[1],64)
        st.event('reduce',n,w,d); return [(new(I,st,[[atom(('red',i,j)) for j in range(n)] for i in range(d)],d,n,ins),st)]
    class Bad(Exception): pass
    def pfree(I,st,args,ins,name): do_free(I,st,args[0],ins,'mzp'); return [(UNDEF,st)]
    I=Interp(ctx.prog,{**BASE,**base,'mzd_set_ui':p_set,'mzd_transpose':trans,'mzd_copy':copy,'mzp_init':pinit,'mzp_free':pfree,'mzd_ple':ple,'_mzd_ple':ple,'mzd_pluq':ple,'mzd_apply_p_left':pl,'mzd_inv_m4ri':inv,'mzd_mul':mul,'_mzd_mul':mul,'_crt_modred_mat':red}); I.lay=lay; I.unroll_max=4096; I.unroll=4096; I.try_merge=lambda *x,**k:None
    st=State(); ff=mk_ff(I,st,lay,e) if e else NULL
    f=I.new(st,'f','mem',None)
    mats={}
    for k,c in(('F',a),('G',b)):
        q=mk_mzd(I,st,lay,k,L(m),L(c),flags=ZL); mats[k]=q; putbits(I,st,q,[[atom((k,i,j)) for j in range(c)] for i in range(m)],None); setf(I,st,f,lay,'blm_t',k,q,8)
    what=f'{m} products, {a} and {b} coefficients'+(f', degree {e}' if e else '')+(f', ranks {ranks}' if ranks else '')+(f', rows permuted' if perm!=tuple(range(m)) else '')
    try: out=I.run(FIN,[ff,f],st)
    except Bad as ex: res.absorb(I); res.viol.append(Violation(loc,'solve',f'{what}: {ex}')); return
    res.absorb(I)
    if not out: raise Undecided('no returning path')
    prod={}
    for v in range(a):
        for w in range(b): prod[tuple(pmul(atom(('F',k,v)),atom(('G',k,w))) for k in range(m))]=(v,w)
    for r,t in out:
        for k,c in(('F',a),('G',b)):
            res.n+=1
            if I.load(t,f.at(lay('blm_t',k)),PTR)!=mats[k] or bits(I,t,mats[k],None)!=[[atom((k,i,j)) for j in range(c)] for i in range(m)]: res.viol.append(Violation(loc,'operands',f'{what}: map {k} is modified')); return
        H=I.load(t,f.at(lay('blm_t','H')),PTR); invs=[x for x in t.events() if x[0]=='inv']; ples=[x for x in t.events() if x[0]=='ple']
        if not isinstance(H,Ptr) or H.obj==0: res.viol.append(Violation(loc,'solve',f'{what}: no third map')); return
        if t.known.get(('freed',H.obj)): res.viol.append(Violation(loc,'solve',f'{what}: the third map is released')); return
        if len(invs)!=1: raise Undecided('the system is not solved by one inversion')
        C=[tuple(x) for x in invs[0][2]]; vw=[]
        for j,row in enumerate(C):
            res.n+=1
            if row not in prod: res.viol.append(Violation(loc,'choice',f'{what}: equation {j} is not a product of a row of each map')); return
            vw.append(prod[row])
        # the rows whose rank was found full are the ones solved for (up to the order)
        res.n+=1
        if not ples or len(ples)<=len([x for x in ranks if x<m]): res.viol.append(Violation(loc,'choice',f'{what}: the search ends before full rank is found')); return
        if sorted(ples[-1][1],key=str)!=sorted(C,key=str): res.viol.append(Violation(loc,'choice',f'{what}: the solved equations are not the ones whose rank was full')); return
        for k in range(1,len(ples)):
            kept=perm_of(perm,ples[k-1][1])[:min(ranks[k-1],m)]; res.n+=1
            if list(ples[k][1][:len(kept)])!=kept: res.viol.append(Violation(loc,'choice',f'{what}: independent equations found before are not kept')); return
            new_=[x for x in ples[k][1][len(kept):]]
            if any(x in ples[j][1] for x in new_ for j in range(k)) and len(prod)>=m+sum(m-x for x in ranks): res.viol.append(Violation(loc,'choice',f'{what}: dependent equations are tried again')); return
        n=a+b-1; want=[]
        for i in range(n):
            row=[]
            for k in range(m):
                s=ZERO
                for j,(v,w) in enumerate(vw):
                    if v+w==i: s=padd(s,atom(('inv',invs[0][1],k,j)))
                row.append(s)
            want.append(row)
        if e:
            rd=[x for x in t.events() if x[0]=='reduce']
            mp=I.to_word(I.load(t,ff.at(lay('gf2e','minpoly')),I64),64); res.n+=1
            if len(rd)!=1 or rd[0][1]!=n or rd[0][3]!=e or t.norm(rd[0][2]).b!=t.norm(mp).b: res.viol.append(Violation(loc,'solve',f'{what}: the product is not reduced by the minimal polynomial of the field')); return
            w2=[]
            for i in range(e):
                row=[]
                for k in range(m):
                    s=ZERO
                    for j in range(n): s=padd(s,pmul(atom(('red',i,j)),want[j][k]))
                    row.append(s)
                w2.append(row)
            want=w2
        if dims(I,t,H,None)!=(len(want),m): res.viol.append(Violation(loc,'solve',f'{what}: the third map has the wrong size')); return
        got=bits(I,t,H,None)
        for i in range(len(want)):
            for k in range(m):
                res.n+=1
                if got[i][k]!=want[i][k]: res.viol.append(Violation(loc,'solve',f'{what}: entry ({i},{k}) of the third map is {pstr(got[i][k],4)}, must be {pstr(want[i][k],4)}')); return
LISTS=[{1:1},{1:2},{1:2,2:1},{0:1},{0:2,3:1},{0:1,1:2,2:1,3:2},{0:3,1:1,3:2},{0:8,1:2,2:1,3:2,4:3,5:6,6:3},{2:2},{2:3},{2:4},{1:1,2:2},{1:2,2:2},{4:4},{4:5},{4:6},{4:7},{2:1,4:4},{2:3,4:4},{8:30},{8:31},{3:3},{5:7},{6:10},{6:11},{7:1,11:1,13:2,15:1},{9:1,10:1,12:1,14:1,16:1},{0:1,1:2,4:3},{1:1,4:4,8:31},{6:12},{3:2,6:10}]
def obligations(ctx):
    obs=[Ob('list of moduli',f'lengths {a} and {b}',run_list,(a,b),(LST,)) for a in range(2,17) for b in(a,)]
    for n in range(2,17): obs.append(Ob('evaluation maps',f'chosen list {n}',run_own,(n,),(LST,GEN)))
    for i,d in enumerate(LISTS):
        p=[d.get(k,0) for k in range(17)]; t=p[0]+sum(k*p[k] for k in range(1,17)); 
        for a,b,dj,fi in((max(1,t//2),t+1-max(1,t//2),i%2,i%3==0),(3,7,1-i%2,i%3==1)): obs.append(Ob('evaluation maps',f'list {i} for {a} and {b}',run_gen,(tuple(p),a,b,dj,fi),(GEN,)))
    for m,a,b in((3,2,2),(4,2,3),(5,3,3),(6,3,3),(6,3,4),(9,4,4),(66,2,3)[:0] or (7,2,6)):
        idp=tuple(range(m)); rot=tuple(min(i+1,m-1) for i in range(m)); sw=(m-1,)+tuple(range(1,m))
        for e in(0,3):
            for rk,pm in(((),idp),((),rot),((),sw),((m-1,),idp),((m-1,),sw),((1,),rot),((m-2,m-1),rot)):
                if m+sum(m-x for x in rk)<=sum(b-v for v in range(a)): obs.append(Ob('third map',f'{m} products {a} {b} degree {e} ranks {rk} order {pm[:3]}',run_fin,(m,a,b,e,rk,pm),(FIN,)))
    return obs
def run_own(ctx,res,n):
    I,ls=listof(ctx,res,n,n)
    for p in ls:
        if any(p): run_gen(ctx,res,p,n,n,1,True); run_gen(ctx,res,p,n,n,0,False)
