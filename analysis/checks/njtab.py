"""table of all multiples of a row: induction over the Gray code order"""
from rows import *
def codebook(I,st,ctx,F):
    """m4ri's Gray code tables: ord[i] the i-th code word, inc[i] the bit that changes between i and i+1"""
    g=I.global_ptr(st,F.mod,'m4ri_codebook')
    def arr(nm,d):
        def init(I,st,o,addr,ty):
            off=addr[1]
            if ty.size!=4 or off.c%4 or any(v%4 for _,v in off.t): return None
            i=Lin(tuple((k,v//4) for k,v in off.t),off.c//4)
            return S((nm,d,i))
        return init
    def book(I,st,o,addr,ty):
        if ty.k=='ptr' and addr[1].isc() and addr[1].c%8==0:
            d=addr[1].c//8
            p=I.new(st,f'code{d}','code',None)
            I.put(st,p.obj,((),ZL),8,I.new(st,'ord','ints',arr('ord',d))); I.put(st,p.obj,((),L(8)),8,I.new(st,'inc','ints',arr('inc',d)))
            return p
    b=I.new(st,'codebook','ptrs',book)
    I.objs[g.obj].info['symread']=lambda I,st,o,addr,ty: b if ty.k=='ptr' else UNDEF
def run_table(ctx,res,e,rem,l,first):
    """columns = rem mod per; start column = l mod per; first: number of the word of the start column"""
    w=w_of(e); per=64//w; fn='mzed_make_table'; F=ctx.prog.func(fn)
    I=Interp(ctx.prog,{**BASE,**mk_prims(ctx.lay)}); st=State(); I.unroll_max=70
    codebook(I,st,ctx,F)
    ff=mk_ff(I,st,ctx.lay,e); Q=S('Q'); nr=S('m'); nc=Q*per+rem; r=S('r'); hb=L(first); c=hb*per+l
    st.facts=st.facts.add_ge(Q).add_ge(nc-1).add_ge(r).add_ge(nr-1-r).add_ge(hb).add_ge(nc-1-c)
    if st.facts.infeasible(): res.n=1; return
    A=mk_mzed(I,st,ctx.lay,'A',ff,e,w,nr,nc)
    ev=[]
    def amr(I,st,args,ins,name):
        ev.append((args,I.where(ins))); return [(UNDEF,st)]
    def setui(I,st,args,ins,name):
        ev.append((('clear',)+tuple(args),I.where(ins))); return [(UNDEF,st)]
    I.prims.update({'mzed_add_multiple_of_row':amr,'mzd_set_ui':setui})
    (T,st),=I.run('njt_mzed_init',[ff,nc],st)
    res.absorb(I); lay=ctx.lay
    TT=I.load(st,T.at(lay('njt_mzed_t','T')),PTR); TM=I.load(st,T.at(lay('njt_mzed_t','M')),PTR); TL=I.load(st,T.at(lay('njt_mzed_t','L')),PTR)
    def bad(rule,txt): res.viol.append(Violation(F.file+':'+fn,rule,txt))
    for p,rows in((TT,1<<e),(TM,e)):
        n_,c_=I.load(st,p.at(lay('mzed_t','nrows')),I32),I.load(st,p.at(lay('mzed_t','ncols')),I32); res.n+=1
        if st.facts.ne0(st.facts.norm(n_-rows)) or st.facts.ne0(st.facts.norm(c_-nc)): res.viol.append(Violation('newton_john.c:njt_mzed_init','table-shape',f'the table has {n_} rows and {c_} columns, must have {rows} and {nc}'))
        elif not(st.facts.eq0(st.facts.norm(n_-rows)) and st.facts.eq0(st.facts.norm(c_-nc))): raise Undecided('shape of the table')
    lo=I.objs[TL.obj]; res.n+=1
    if lo.kind!='zero': raise Undecided('index array is not zero initialised' ) if lo.kind!='malloc' else Undecided('index array')
    a,b=lo.info['size']
    if not(isinstance(a,Lin) and isinstance(b,Lin) and a.isc() and b.isc()): raise Undecided('size of the index array')
    if a.c*b.c<4<<e: res.viol.append(Violation('newton_john.c:njt_mzed_init','table range',f'the index array has {a.c*b.c} bytes, needs {4<<e}')); return
    xT,xM=I.load(st,TT.at(lay('mzed_t','x')),PTR),I.load(st,TM.at(lay('mzed_t','x')),PTR)
    dT,dM=I.objs[xT.obj].info['data'],I.objs[xM.obj].info['data']
    width=ceil64(nc*w)
    def content(nm,cut):
        def init(I,st,o,addr,ty):
            if ty.k!='int' or ty.bits!=64 or len(addr[0])!=1: return None
            off=addr[1]
            if any(v%8 for _,v in off.t): return None
            j=Lin(tuple((k,v//8) for k,v in off.t),off.c//8); row=addr[0][0]
            # entries of the generator rows before the start column are zero (add_multiple_of_row starts there); they may be added or masked off
            b=[atom((nm+'-' if cut and i<l*w else nm,row,j,i)) if i%w<e else ZERO for i in range(64)]
            last=st.facts.eq0(j-(width-1)); 
            if last and rem: b=[x if i<rem*w else ZERO for i,x in enumerate(b)]
            return Word(b)
        return init
    I.objs[dT].init=content('H',False); I.objs[dM].init=content('x',True)
    I.objs[dT].kind=I.objs[dM].kind='data'
    I.hyp=frozenset([dT])
    got=[]
    def hook(F2,lp,h,kid,k,backs,st0):
        if I.nest!=1: return
        for frm,x in backs:
            ls=[y for y in x.mem[dT].layers if y!={}]
            if not ls: continue
            got.append((kid,x))
    I.back_hook=hook
    I.keep_loop=lambda F,lp: bool(lp.subs)
    sites=track_sites(I)
    out=I.run(fn,[T,A,r,c],st); res.absorb(I)
    if not out: res.und.append('no returning path')
    for rr,t in out:
        if rr!=T: bad('table','the returned table is not the given one')
    # rows of the generator matrix
    clears=[i for i,(a,_) in enumerate(ev) if a[0]=='clear' and a[1]==xM and isinstance(a[2],Lin) and a[2].isc() and a[2].c&1==0]
    seen=[]
    for i,(a,wh) in enumerate(ev):
        if a[0]=='clear': continue
        M,i_,A_,r_,x_,c_=a
        if M!=TM: raise Undecided('row operation on another matrix')
        x_=I.to_word(x_,64).const() if not isinstance(x_,Lin) else (x_.c if x_.isc() else None)
        i_=I.to_lin(i_)
        if x_ is None or not i_.isc(): raise Undecided('generator rows')
        if A_!=A or not st.facts.eq0(st.facts.norm(r_-r)) or not st.facts.eq0(st.facts.norm(c_-c)):
            if A_==A and (st.facts.ne0(st.facts.norm(r_-r)) or st.facts.ne0(st.facts.norm(c_-c))): bad('generators',f'generator row {i_} is built from row {r_} column {c_}, must be row {r} column {c}')
            else: raise Undecided('generator rows')
        if x_!=1<<i_.c: bad('generators',f'generator row {i_} is multiplied by {x_}, must be {1<<i_.c} (x^{i_})')
        seen.append(i_.c)
        if not any(j<i for j in clears): bad('generators','the generator matrix is not cleared before its rows are built')
    res.n+=len(seen)
    if sorted(set(seen))!=list(range(e)) or len(seen)%e: bad('generators',f'generator rows {sorted(set(seen))} are built, must be 0..{e-1}')
    if not got: raise Undecided('table loop not found')
    used=0
    for kid,x in got:
        rows={a[0][0] for y in x.mem[dT].layers if isinstance(y,dict) for a in y}|{ent[0][0][0] for y in x.mem[dT].layers if not isinstance(y,dict) and y[0]=='q' for alt in y[4] for ent in alt if ent[0]!='q'}
        rows={x.facts.norm(z) for z in rows}
        if len(rows)!=1: raise Undecided(f'an iteration writes several rows {rows}')
        i=next(iter(rows))
        if not i.coef(kid): continue
        used+=1
        if i.coef(kid)!=1 or not (i-Lin(((kid,1),),0)).isc(): raise Undecided(f'row written by an iteration: {i}, counter {kid} {Lin(((kid,1),),0)}')
        first_=(i-Lin(((kid,1),),0)).c
        inc=S(('inc',e,i-1)); res.n+=1
        if first_!=1: bad('table-induction',f'the first row that is filled is {first_}, must be 1')
        # trip count: row 2^e - 1 is the last
        top=Lin((),(1<<e)-1)
        if not x.facts.ge0(top-i): bad('table-induction',f'rows beyond {top} are filled') if find_row(x,i,top) else res.und.append('upper end of the table')
        y=x.fork(); y.facts=y.facts.add_eq(i-top)
        if y.facts.infeasible(): bad('table-induction',f'the last row {top} is not filled')
        def expect(u,row,om):
            d=om-hb
            # neighbouring positions of a Gray code change different bits
            for K in list(Sym.keys):
                if isinstance(K,tuple) and K[:2]==('inc',e) and isinstance(K[2],Lin):
                    z=u.facts.norm(K[2]-(i-1))
                    if z.isc() and z.c%2: u=u.fork(); u.facts=u.facts.add_ne(S(K)-inc)
            for v in part(u,d):
                j=om
                if v.facts.ge0(d):
                    H=I.to_word(I.objs[dT].init(I,v,None,((i-1,),j*8),I64),64); M=I.to_word(I.objs[dM].init(I,v,None,((inc,),j*8),I64),64)
                    yield v,H.xor(M)
                elif v.facts.ge0(d+2): yield v,wconst(0)
        def part(u,d):
            for g in(d,):
                p=u.fork(); p.facts=p.facts.add_ge(d); q=u.fork(); q.facts=q.facts.add_ge(-d-1)
                s1=q.fork(); s1.facts=q.facts.add_ge(d+2); s2=q.fork(); s2.facts=q.facts.add_ge(-d-3)
                for z in(p,s1,s2):
                    if not z.facts.infeasible():
                        # the last word is known separately
                        for m in((z,) ):
                            a=m.fork(); a.facts=a.facts.add_eq(S(fresh('nil'))) if False else a.facts
                            yield a
        def lastsplit(ex):
            def f(u,row,om):
                a=u.fork(); a.facts=a.facts.add_eq(om-(width-1)); b=u.fork(); b.facts=b.facts.add_ge(width-2-om)
                for z in(a,b):
                    if z.facts.infeasible(): continue
                    h=z.fork(); h.facts=h.facts.add_eq(om-hb); g=z.fork(); g.facts=g.facts.add_ne(om-hb)
                    for y in(h,g):
                        if not y.facts.infeasible(): yield from ex(y,y.facts.norm(row),y.facts.norm(om))
            return f
        def masked(u,row,om):
            for v,wd in expect(u,row,om):
                if v.facts.eq0(v.facts.norm(om-hb)): wd=Word([ZERO if k<l*w else b for k,b in enumerate(I.to_word(wd,64).b)]).xor(Word([b if k<l*w else ZERO for k,b in enumerate(I.to_word(I.objs[dT].init(I,v,None,((i-1,),om*8),I64),64).b)]))
                yield v,wd
        txt=f'degree {e}, columns {rem} mod {per}, start {l} mod {per} in word {first}, row i of the table'
        n,b_=check_words(I,x,dT,L(1<<e),width,lastsplit(expect),txt,rho=i)
        def whole(u,row,om):
            # the words before the start column are zero in the generator rows and in row i-1
            for v,wd in expect(u,row,om):
                if v.facts.ge0(hb-1-om): wd=I.to_word(I.objs[dT].init(I,v,None,((i-1,),om*8),I64),64).xor(I.to_word(I.objs[dM].init(I,v,None,((inc,),om*8),I64),64))
                yield v,wd
        if b_ and l and not check_words(I,x,dT,L(1<<e),width,lastsplit(masked),txt,rho=i)[1]: b_=[]
        if b_ and first and not check_words(I,x,dT,L(1<<e),width,lastsplit(whole),txt,rho=i)[1]: b_=[]
        res.n+=n; report(res,I,fn,ctx,b_,'table-induction',sites.get(dT,()))
        # index: the element ord[i] is found in row i
        ls=[y for y in x.mem[TL.obj].layers if y!={}]
        dl=[y for y in ls if isinstance(y,dict)]
        ent=[(a,v) for y in dl[-1:] for a,(sz,v) in y.items()]
        o_=S(('ord',e,i)); res.n+=1
        if len(ent)!=1: raise Undecided('index entries')
        (a,v),=ent
        if a!=((),o_*4) or x.facts.norm(v-i)!=ZL:
            m_=f'the index entry written is [{a[1]} bytes] = {v}, must be [4*{o_}] = {i}'
            (bad('table-index',m_) if keyed(a[1]) and isinstance(v,Lin) else res.und.append(m_))
    if not used: raise Undecided('table loop not found')
def keyed(off):
    return all(isinstance(Sym.keys[k],tuple) and Sym.keys[k][0] in('ord','inc') or (isinstance(Sym.keys[k],tuple) and Sym.keys[k][:2]==('fresh','k')) for k in off.syms())
def find_row(x,i,top):
    y=x.fork(); y.facts=y.facts.add_ge(i-top-1); return witness(y.facts,[i],bound=4) is not None
def table_obligations(ctx,starts):
    obs=[]
    for e in range(2,17):
        if not ctx.thorough and e not in(2,3,4,5,8,9,16): continue
        per=64//w_of(e)
        for rem in sorted({0,1,per-1}) if not ctx.thorough else range(per):
            for l,hb in starts(per):
                obs.append(Ob('multiples table',f'degree {e} columns {rem} mod {per} start {l} mod {per} word {hb}',run_table,(e,rem,l,hb),('mzed_make_table','njt_mzed_init')))
    return obs
