"""Scalar multiples.  Bitsliced: abstract interpretation over polynomials in matrix symbols, the scalar a symbolic word.  Packed: abstract
interpretation of the word loops; every word of the target read back at a generic (row, word) is compared lane by lane with the field product,
for the direct and for the table driven path, symbolic row and word counts."""
from rows import *
import mats
from mats import *
from c03 import machine,slices,coef,judge
EXPLANATION=__doc__
RULES=['scalar-product: element (r,c) of the result = a * B(r,c) [+ old content when accumulating]','operands: B keeps its content','padding: words and bits beyond the last column keep their value']
def run_slice(ctx,res,fn,e,target,acc):
    I,st,ff=machine(ctx,e); I.lay=ctx.lay; I.frozen={"B"}
    m,n=S('m'),S('n')
    B=mk_mslice(I,st,ctx.lay,'B',ff,e,m,n)
    C=mk_mslice(I,st,ctx.lay,'C',ff,e,m,n) if target else NULL
    a=field_elem('a',e)
    out=I.run(fn,[C,a,B],st); res.absorb(I)
    exp=[]
    for i in range(e):
        d={}
        if target and acc: d[(f'C{i}',)]=ONE
        for s in range(e):
            for j in range(e):
                c=coef(e,s+j,i)
                if c: k=(f'B{j}',); d[k]=padd(d.get(k,ZERO),pmul(a.b[s],c))
        exp.append(Mat(d))
    def getx(r,t):
        if not isinstance(r,Ptr) or (target and r!=C): return None
        return slices(I,t,r,e)
    judge(ctx,res,I,out,fn,getx,exp,[(f'B{i}',x) for i,x in enumerate(slices(I,st,B,e))],f'{fn} degree {e}')
def t16_prims(ctx):
    """the 2^16 entry table of multiples of a: entry i holds a times every lane of i (obligation of the field arithmetic property)"""
    def init(I,st,args,ins,name):
        f,a=args; o=I.objs[f.obj]; e=o.info['degree']; w=w_of(e); a=st.norm(I.to_word(a,64))
        def rd(I,st,o2,addr,ty):
            ix=addr[1]
            if ty.k!='int' or ty.bits!=64: return None
            if ix.isc(): x=wconst(ix.c//8)
            elif len(ix.t)==1 and ix.c==0 and ix.t[0][1]==8:
                k=Sym.keys[ix.t[0][0]]
                if not(isinstance(k,tuple) and k[0]=='W'): return None
                x=k[1]
            else: return None
            x=Word((tuple(x.b)+(ZERO,)*64)[:64])
            if any(x.b[16:]): return None
            b=[]
            for l in range(16//w): b+=list(ffmul_word(e,o.name,a,elem(x,w,l)).b[:w])
            return Word(b+[ZERO]*48)
        p=I.new(st,'t16','t16',rd); return [(heap(I,st,p,'mem'),st)]
    return {'gf2e_t16_init':init}
def copy_prim(ctx):
    """mzd_copy of an unmodified matrix onto another"""
    def cp(I,st,args,ins,name):
        C,A=args
        if C==A: return [(C,st)]
        o=I.objs[A.obj]
        if o.kind!='mzd' or [l for l in st.mem[o.info['data']].layers if l!={}]: raise Undecided('copy of a modified matrix')
        d=I.objs[C.obj].info['data']
        if [l for l in st.mem[d].layers if l!={}]: raise Undecided('copy onto a modified matrix')
        if not (st.facts.eq0(st.facts.norm(o.info['nrows']-I.objs[C.obj].info['nrows'])) and st.facts.eq0(st.facts.norm(o.info['ncols']-I.objs[C.obj].info['ncols']))): raise Undecided('copy between different sizes')
        st.known=dict(st.known); st.known[('copyof',d)]=o.info['data']
        return [(C,st)]
    return {'mzd_copy':cp}
def copying(I,st,d,src,width,ncols):
    """content of storage d after a copy of src: bits of the columns come from src, padding stays"""
    o=I.objs[d]; init0=o.init
    def init(I,st,o2,addr,ty):
        if not st.known.get(('copyof',d)): return init0(I,st,o2,addr,ty)
        if ty.k!='int' or ty.bits!=64 or len(addr[0])!=1: return None
        new=I.to_word(I.initial(st,src,addr,ty),64); old=I.to_word(init0(I,st,o2,addr,ty),64)
        off=addr[1]
        if any(v%8 for _,v in off.t): return None
        j=Lin(tuple((k,v//8) for k,v in off.t),off.c//8)
        q=div_term(st.facts.norm(ncols),64); r=st.facts.norm(ncols-q*64)
        if not r.isc(): return None
        if st.facts.ge0(q-1-j): return new
        if st.facts.eq0(j-q): return Word(new.b[:r.c]+old.b[r.c:])
        if st.facts.ge0(j-q-1): return old
        return None
    o.init=init
def run_packed(ctx,res,e,rem,mode,path):
    w=w_of(e); per=64//w; fn='mzed_mul_scalar'
    I=Interp(ctx.prog,{**BASE,**mk_prims(ctx.lay),**t16_prims(ctx),**copy_prim(ctx)}); st=State()
    ff=mk_ff(I,st,ctx.lay,e); Q=S('Q'); nr=S('m'); nc=Q*per+rem
    st.facts=st.facts.add_ge(Q).add_ge(nc-1).add_ge(nr-1)
    if rem==0: st.facts=st.facts.add_ge(Q-1)
    B=mk_mzed(I,st,ctx.lay,'B',ff,e,w,nr,nc)
    C=NULL if mode==0 else B if mode==2 else mk_mzed(I,st,ctx.lay,'C',ff,e,w,nr,nc)
    a=field_elem('a',e); sites=track_sites(I)
    db=data_of(I,B); dc=data_of(I,C) if mode else None
    if mode==1: copying(I,st,dc,db,ceil64(nc*w),nc*w)
    if mode==0:
        # a fresh target is cleared storage; the copy replaces it
        old=I.prims['mzd_init']
        def fresh_init(I,st,args,ins,name):
            out=old(I,st,args,ins,name)
            for p,_ in out: copying(I,st,I.objs[p.obj].info['data'],db,ceil64(nc*w),nc*w)
            return out
        I.prims={**I.prims,'mzd_init':fresh_init}
    out=I.run(fn,[C,a,B],st); res.absorb(I)
    if not out: res.und.append('no returning path')
    width=ceil64(nc*w)
    for r,t in out:
        if not isinstance(r,Ptr) or I.objs[r.obj].kind!='mzed' and not I.objs[r.obj].info.get('heap') or (mode and r!=C):
            res.viol.append(Violation('mzed.c:'+fn,'scalar-product','the returned matrix is not the target')); continue
        x=r if mode else I.load(t,r.at(ctx.lay('mzed_t','x')),PTR)
        d=data_of(I,x)
        def expect(u,row,om):
            src=I.to_word(I.initial(u,db,((row,),om*8),I64),64)
            aa=u.norm(a)
            for v,lanes in lane_range(u,om,w,ZL,nc):
                base=src if mode!=1 else I.to_word(I.initial(v_un(v,d),d,((row,),om*8),I64),64)
                if mode==0: base=wconst(0)
                yield v,lane_word(base,w,lanes,lambda l:ffmul_word(e,'ff',aa,elem(src,w,l)))
        def v_un(v,d):
            u=v.fork(); u.known={k:x for k,x in u.known.items() if k!=('copyof',d)}; return u
        n,bad=check_words(I,t,d,nr,width,expect,f'{fn} degree {e}, columns = {rem} mod {per}, '+('new target','given target','in place')[mode])
        res.n+=n; report(res,I,fn,ctx,bad,'scalar-product',sites.get(d,()))
        if mode!=2 and [l for l in t.mem[db].layers if l!={}]: res.viol.append(Violation('mzed.c:'+fn,'operands','the source matrix is written'))
def obligations(ctx):
    obs=[]
    for e in range(2,17):
        for t in(0,1): obs.append(Ob('bitsliced scalar multiple',f'degree {e} {"target" if t else "new"}',run_slice,('mzd_slice_mul_scalar',e,t,0),('mzd_slice_mul_scalar',)))
        obs.append(Ob('bitsliced scalar multiple',f'degree {e} accumulate',run_slice,('mzd_slice_addmul_scalar',e,1,1),('mzd_slice_addmul_scalar',)))
        w=w_of(e); per=64//w
        for rem in range(per):
            if not ctx.thorough and e not in(2,3,4,6,8,9,16): continue
            for mode in(0,1,2): obs.append(Ob('packed scalar multiple',f'degree {e} columns {rem} mod {per} '+('new','target','in place')[mode],run_packed,(e,rem,mode,0),('mzed_mul_scalar',)))
    return obs
