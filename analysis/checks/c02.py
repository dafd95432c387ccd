"""Abstract interpretation of the packed/sliced conversions: for every degree 2..16, every column count residue
modulo 64, symbolic row and word counts and both target modes (fresh target, caller supplied target with arbitrary
previous content), every word of every slice (resp. of the packed matrix) read back at a generic (row, word) is the
exact bit permutation of the source; padding and bits beyond the last column keep their value."""
from rows import *
EXPLANATION=__doc__
RULES=['slice-bit: bit i of element (r,c) is stored at (r,c) of slice i','cling-bit: bit i of element (r,c) comes from slice i at (r,c)']
def dims(st,rem,rows):
    """64*Q+rem columns; any number of rows unless `rows` fixes it"""
    Q=S('Q'); nr=S('m') if not rows else L(rows)
    f=st.facts.add_ge(nr-1).add_ge(Q)
    if rem==0: f=f.add_ge(Q-1)
    st.facts=f
    return Q*64+rem,nr,Q
def src_bit(I,st,data,row,c_word,c_bit):
    """initial bit of an object at (row, word, bit)"""
    w=I.to_word(I.initial(st,data,((row,),c_word*8),I64),64)
    return w.b[c_bit]
def run_slice(ctx,res,e,rem,target,rows=0):
    w=w_of(e)
    I=Interp(ctx.prog,{**BASE,**mk_prims(ctx.lay)}); st=State()
    ff=mk_ff(I,st,ctx.lay,e); nc,nr,Q=dims(st,rem,rows)
    Z=mk_mzed(I,st,ctx.lay,'Z',ff,e,w,nr,nc,owned=True)
    if target: A=mk_slice(I,st,ctx.lay,'A',ff,e,nr,nc,owned=target==1)
    else: A=NULL
    sites=track_sites(I)
    out=I.run('mzed_slice',[A,Z],st); res.absorb(I)
    dz=data_of(I,Z); wz=ceil64(nc*w); ws=ceil64(nc); per=64//w
    if not out: res.und.append('no returning path')
    for r,t in out:
        if not isinstance(r,Ptr) or (target and r!=A): res.viol.append(Violation('conversion.c:mzed_slice','slice-result','the returned matrix is not the target')); continue
        if [l for l in t.mem[dz].layers if l!={}]: res.viol.append(Violation('conversion.c:mzed_slice','source-unchanged','the packed source is written'))
        for i in range(e):
            x=I.load(t,r.at(ctx.lay('mzd_slice_t','x')+8*i),PTR); d=I.objs[x.obj].info['data']
            def expect(u,row,om,i=i,d=d):
                old=I.to_word(I.initial(u,d,((row,),om*8),I64),64)
                for sg,v in split(u,om-(ws-1)):
                    n=(rem or 64) if sg==0 else 64
                    b=list(old.b)
                    for k in range(n):
                        b[k]=src_bit(I,v,dz,row,om*w+(k*w)//64,(k*w)%64+i)
                    yield v,Word(b)
            n,bad=check_words(I,t,d,nr,ws,expect,f'mzed_slice degree {e}, columns = {rem} mod 64, slice {i}')
            res.n+=n; report(res,I,'mzed_slice',ctx,bad,'slice-bit',sites.get(d,()))
def run_cling(ctx,res,e,rem,target,rows=0):
    w=w_of(e)
    I=Interp(ctx.prog,{**BASE,**mk_prims(ctx.lay)}); st=State()
    ff=mk_ff(I,st,ctx.lay,e); nc,nr,Q=dims(st,rem,rows)
    Z=mk_slice(I,st,ctx.lay,'Z',ff,e,nr,nc,owned=True)
    if target: A=mk_mzed(I,st,ctx.lay,'A',ff,e,w,nr,nc,owned=target==1)
    else: A=NULL
    sites=track_sites(I)
    out=I.run('mzed_cling',[A,Z],st); res.absorb(I)
    zs=[I.objs[x].info['data'] for x in I.objs[Z.obj].info['xs']]; wz=ceil64(nc*w); per=64//w
    if not out: res.und.append('no returning path')
    last=rem%per or per
    for r,t in out:
        if not isinstance(r,Ptr) or (target and r!=A): res.viol.append(Violation('conversion.c:mzed_cling','cling-result','the returned matrix is not the target')); continue
        for d in zs:
            if [l for l in t.mem[d].layers if l!={}]: res.viol.append(Violation('conversion.c:mzed_cling','source-unchanged','a source slice is written'))
        x=I.load(t,r.at(ctx.lay('mzed_t','x')),PTR); d=I.objs[x.obj].info['data']
        def expect(u,row,om):
            old=I.to_word(I.initial(u,d,((row,),om*8),I64),64)
            # packed word om holds columns om*per .. om*per+per-1 ; slice word om div w
            for rr in range(w):
                v=u.fork(); tq=S(fresh('t')); v.facts=u.facts.add_eq(om-(tq*w+rr))
                if v.facts.infeasible(): continue
                o2=v.facts.norm(om); sw=v.facts.norm(tq)
                for sg,y in split(v,o2-(wz-1)):
                    n=last if sg==0 else per
                    b=list(old.b)
                    for l in range(n):
                        for k in range(w):
                            b[l*w+k]=src_bit(I,y,zs[k],row,sw,rr*per+l) if k<e else ZERO
                    yield y,Word(b)
        n,bad=check_words(I,t,d,nr,wz,expect,f'mzed_cling degree {e}, columns = {rem} mod 64')
        res.n+=n; report(res,I,'mzed_cling',ctx,bad,'cling-bit',sites.get(d,()))
def obligations(ctx):
    obs=[]
    for e in range(2,17):
        per=64//w_of(e)
        rems=range(64) if ctx.thorough else sorted({0,1,63,2,31,32,33}|{k*per for k in range(1,64//per)}|{(k*per+1)%64 for k in range(64//per)})
        for rem in rems:
            for tg in ((0,1,2) if ctx.thorough else (0,1+(rem%2))):
                # when time runs out (few cores), the column residues next to the word borders have been decided for all degrees
                c=e+(100 if rem in(0,1,63) else 50 if rem in(31,32,33) else 0)
                obs.append(Ob('slice',f'e{e}r{rem}t{tg}',run_slice,(e,rem,tg),need=('mzed_slice',),cost=c))
                for rows in ((0,) if e<13 else (1,2) if ctx.thorough or rem in (0,1,33) else (2,)):   # the passes for degree 13..16 are nested: the row count is enumerated
                    obs.append(Ob('cling',f'e{e}r{rem}t{tg}'+(f'rows{rows}' if rows else ''),run_cling,(e,rem,tg,rows),need=('mzed_cling',),cost=c))
    return obs
