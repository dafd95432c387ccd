"""Abstract interpretation of the packed row kernels (affine word/row indices, machine words as forms over GF(2),
field product uninterpreted): for every residue of the start column and of the column count modulo the number of
elements per word, every degree class, and symbolic row numbers and word counts, the final content of the storage at
a generic (row, word) equals the specified row operation on columns >= start and the old content everywhere else."""
from rows import *
EXPLANATION=__doc__
RULES=['row-kernel-content: word at (row,index) after the call == specified element-wise form; all other words/bits unchanged']
def setup(ctx,e,sc,rem,alias):
    w=w_of(e); per=64//w
    I=Interp(ctx.prog,BASE); st=State()
    ff=mk_ff(I,st,ctx.lay,e)
    q=S('q'); Q=S('Q'); scol=q*per+sc; ncols=Q*per+rem
    nr=S('m'); ar=S('ar'); br=S('br')
    f=st.facts.add_ge(q).add_ge(Q).add_ge(ncols-scol-1).add_ge(ncols-1)
    # (Q,rem),(q,sc) integers: the tightened consequence of scol<ncols
    f=f.add_ge(Q-q-(1 if sc>=rem else 0))
    f=f.add_ge(nr-1).add_ge(ar).add_ge(nr-1-ar).add_ge(br).add_ge(nr-1-br)
    if alias==1: f=f.add_ge(ar-br-1)
    elif alias==2: f=f.add_ge(br-ar-1)
    st.facts=f
    A=mk_mzed(I,st,ctx.lay,'A',ff,e,w,nr,ncols,owned=False)
    B=A if alias else mk_mzed(I,st,ctx.lay,'B',ff,e,w,nr,ncols,owned=False)
    return I,st,ff,A,B,w,per,nr,ncols,scol,ar,br
def run(ctx,res,kind,fname,e,sc,rem,alias):
    I,st,ff,A,B,w,per,nr,ncols,scol,ar,br=setup(ctx,e,sc,rem,alias)
    x=field_elem('x',e); nb='A.x' if alias else 'B.x'
    sites=track_sites(I)
    if kind=='madd': args=[A,ar,B,br,x,scol]
    elif kind=='add': args=[A,ar,B,br,scol]
    elif kind=='scale': args=[A,ar,scol,x]
    out=I.run(fname,args,st); res.absorb(I)
    if not out: res.und.append('no returning path'); return
    dA=data_of(I,A); width=ceil64(ncols*w)
    def expect(t,row,om):
        xx=t.norm(x)
        for s,u in split(t,row-ar):
            if s:
                yield u,mat_word('A.x',row,om,w,e); continue
            a=mat_word('A.x',u.facts.norm(ar),om,w,e); b=mat_word(nb,u.facts.norm(br),om,w,e)
            for v,lanes in lane_range(u,om,w,scol,ncols):
                def f(l):
                    y=elem(a,w,l); z=elem(b,w,l)
                    if kind=='madd': return y.xor(ffmul_word(e,'ff',xx,z))
                    if kind=='add': return y.xor(z)
                    return ffmul_word(e,'ff',xx,y)
                yield v,lane_word(a,w,lanes,f)
    for r,t in out:
        n,bad=check_words(I,t,dA,nr,width,expect,f'{fname} degree {e} start column = {sc} mod {per}, columns = {rem} mod {per}'+(' (same matrix)' if alias else ''))
        res.n+=n
        report(res,I,fname,ctx,bad,RULES[0].split(':')[0],sites.get(dA,()))
        if not alias and kind!='scale':
            if [l for l in t.mem[data_of(I,B)].layers if l!={}]: res.viol.append(Violation(fname,'source-unchanged','the source row is written'))
def obligations(ctx):
    obs=[]
    degs=[2,3,4,5,8,9,16] if not ctx.thorough else list(range(2,17))
    for kind,fname in (('madd','mzed_add_multiple_of_row'),('add','mzed_add_row'),('scale','mzed_rescale_row')):
        for e in degs:
            per=64//w_of(e)
            for sc in range(per):
                for rem in range(per):
                    for alias in ((0,) if kind=='scale' else (0,1,2) if ctx.thorough else (0,)+((1+(sc+rem)%2,) if (sc,rem) in((0,0),(1,per-1)) else ())):
                        obs.append(Ob(fname,f'e{e}s{sc}r{rem}a{alias}',run,(kind,fname,e,sc,rem,alias),need=(fname,)))
    return obs
# ---------------------------------------------------------------- bitsliced: a window of one row, converted, scaled, converted back
def run_slice_scale(ctx,res,e):
    import bmats as bm, c04, c05
    fn='mzd_slice_rescale_row'; F=ctx.prog.func(fn); where=F.file+':'+fn
    one=bm.Atm('x',ZL,L(1),ZL,L(1))
    def scale(gv,order):
        def f(I,st,args,ins,name):
            A,r,c,x=args; v=gv(I,st,A,ins); r,c=(st.facts.norm(I.to_lin(z)) for z in(r,c))
            for a,t in((r,f'row {r}'),(v.nr-1-r,f'row {r}'),(c,f'start column {c}'),(v.nc-c,f'start column {c}')):
                if not st.facts.ge0(a): bm.soft(I,st,[a],lambda z:z[0]<0,bm.caller(I,ins),'addressed row',f'{name}: {t} outside the matrix of {v.nr} rows and {v.nc} columns'); raise Undecided('position outside the matrix')
            x=st.norm(I.to_word(x,64))
            if x!=st.norm(field_elem('x',e)): raise Undecided('other multiplier')
            p=bm.View(v.d,v.r0+r,v.r0+r+1,v.c0+c,v.c1)
            g=bm.region(I,st,p)
            bm.write(I,st,p,bm.g_mul(st,bm.Grid((ZL,L(1)),(ZL,L(1)),((frozenset([(one,)]),),)),g),ins); return [(UNDEF,st)]
        return f
    ex=bm.slice_prims(ctx.lay); ex['mzed_rescale_row']=scale(bm.view,0)
    I,st,ff,w=c04.setup(ctx,e,ex)
    m,n,r,c=S('m'),S('n'),S('r'),S('c')
    st.facts=st.facts.add_ge(r).add_ge(m-1-r).add_ge(c).add_ge(n-1-c)
    A=c05.mk_bslice(I,st,ctx.lay,'A',ff,m,n)
    try: out=I.run(fn,[A,r,c,field_elem('x',e)],st)
    finally: res.absorb(I); bm.softs(I,res,Violation)
    if not out: res.und.append('no returning path')
    for ret,t in out:
        v=c05.slice_view(I,t,A)
        for lo,hi,c0,c1,sc in((ZL,r,ZL,n,0),(r+1,m,ZL,n,0),(r,r+1,ZL,c,0),(r,r+1,c,n,1)):
            u=bm.View(v.d,v.r0+lo,v.r0+hi,v.c0+c0,v.c0+c1)
            if t.facts.norm(u.nr)==ZL or t.facts.norm(u.nc)==ZL: continue
            s2=t.fork(); s2.facts=t.facts.add_ge(u.nr-1).add_ge(u.nc-1)
            if s2.facts.infeasible(): continue
            g=bm.region(I,s2,u)
            def expect(a,b,x,y): 
                at=bm.Atm('A',lo+a,lo+b,c0+x,c0+y)
                return frozenset([(one,at) if sc else (at,)])
            bm.check_grid(I,s2,u,expect,where,res,'row-kernel-content','scaled row' if sc else 'entries that must stay',Violation)
        c04.finish(I,res,where,t,[])
_kernels=obligations
def obligations(ctx):
    return _kernels(ctx)+[Ob('mzd_slice_rescale_row',f'degree {e}',run_slice_scale,(e,),need=('mzd_slice_rescale_row',)) for e in range(2,17)]
