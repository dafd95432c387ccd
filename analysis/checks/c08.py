"""Mismatched operands.  Path sensitive guard dominance analysis over the compiler IR: the operands get independent symbolic sizes (and, in further
runs, different fields); every path is followed up to its first effect (a change of the content of an existing matrix, the start of an
arithmetic kernel, or the return to the caller).  At that point the path condition must imply that sizes and fields match; on a path that ends in the
fatal error nothing may have been changed before."""
from structs import *
from driver import *
import re
from emats import content as econtent
EXPLANATION=__doc__
RULES=['guard: the first effect and the return are only reached when sizes and fields match','no effect: a path that ends in the fatal error has not changed any operand','stops: the fatal error is reachable for mismatched operands']
LEVEL='other'
STOP=re.compile(r'^(_mzed_mul(?!_init)\w*|_mzed_addmul\w*|_mzed_strassen\w*|_mzd_slice_(add)?mul\w*|_mzd_ptr_(?!add$)\w*|blm_init_crt|mzed_slice|_mzed_slice\w*|mzed_cling|_mzed_cling\w*|njt_mzed_init|mzed_make_table|mzed_process_rows\w*|mzed_add_multiple_of_row|mzed_rescale_row|mzd_(add)?mul\w*|_mzd_(add)?mul\w*|mzd_combine\w*)$')
class Stopped(Exception): pass
def guard(ctx,res,fn,fmt,e,kind,target,fields):
    K=Case(ctx,res,fmt,e,fn); I,st=K.I,K.st; d={}
    ff2=mk_ff(I,st,ctx.lay,fields[1],name='gg') if fields else None
    def op(name):
        r,c=K.dim('rows_'+name),K.dim('cols_'+name); f=ff2 if fields and fields[0]==name else K.ff; ee=fields[1] if fields and fields[0]==name else e
        p=(mk_emzed if fmt=='p' else mk_eslice)(I,st,ctx.lay,name,f,ee,r,c,win=True); d[name]=(p,r,c,1 if fmt=='p' else ee); return p
    A,B=op('A'),op('B'); C=op('C') if target else NULL
    if kind=='copy': args=[A,B]; eqs=[('rows_A','rows_B'),('cols_A','cols_B')]
    else:
        args=[C,A,B]
        eqs=[('rows_A','rows_B'),('cols_A','cols_B')] if kind=='add' else [('cols_A','rows_B')]
        if target: eqs+=[('rows_C','rows_A'),('cols_C','cols_A' if kind=='add' else 'cols_B')]
    if fields:
        for a,b in eqs: K.st.facts=K.st.facts.add_eq(S(a)-S(b))
    np=len(ctx.prog.func(fn).params)
    if np>len(args): args.append(NULL if fn.endswith('blm') else K.dim('cutoff'))
    sids={}
    for n,(p,r,c,k) in d.items():
        for x in planes(I,K.st,p,fmt,k): sids[eview(I,K.st,x).sid]=n
    seen=set(); nstop=[0,0,0]
    def effects(t):
        return sorted({sids[s] for s in sids if econtent(I,t,s).ops})
    def mismatch(t,where,what):
        res.n+=1
        if fields:
            if not t.facts.infeasible(): res.viol.append(Violation(where,'guard',f'{fn}: {what} although {fields[0]} is over another field',witness(t.facts,[S(a) for a,_ in eqs])))
            return
        for a,b in eqs:
            x=S(a)-S(b)
            if t.facts.eq0(t.facts.norm(x)): continue
            u=t.fork(); u.facts=u.facts.add_ne(x)
            if u.facts.infeasible(): continue
            w=witness(u.facts,[S(y) for p in eqs for y in p])
            if w is None: res.und.append(f'{what}: {a} against {b}'); continue
            res.viol.append(Violation(where,'guard',f'{fn}: {what} although {a} and {b} may differ',w)); return
    def stop(I,st,args,ins,name):
        nstop[0]+=1; mismatch(st,I.where(ins),f'{name} is called'); return []
    orig=dict(I.prims)
    for F in {n for m in ctx.prog.mods for n in m.funcs}:
        if STOP.match(F) and F!=fn: I.prims[F]=stop
    for k in list(I.prims):
        if STOP.match(k) and k!=fn and not(k.startswith('mzed_slice') or k.startswith('mzed_cling')) : I.prims[k]=stop
    for k in('mzed_slice','mzed_cling'):
        h=orig.get(k)
        def conv(I,st,args,ins,name,h=h):
            if args[0]==NULL and h:
                try: return h(I,st,args,ins,name)
                except Undecided: pass
            return stop(I,st,args,ins,name)
        I.prims[k]=conv
    h0=I.on_store
    def hook(I,st,oid,addr,size,v,ins):
        if I.objs[oid].kind in('emwords','estore'):
            mismatch(st,I.where(ins),'a matrix is written')
            raise Undecided('direct access to the words of a matrix')
    I.on_store=hook
    try: out=I.run(fn,args,K.st)
    except Undecided:
        if not res.viol: raise
        out=[]
    finally: res.absorb(I)
    if res.viol: return
    for r,t in out:
        nstop[1]+=1; mismatch(t,K.where,'a result is returned')
        if res.viol: return
    for t in I.dead:
        if t.facts.infeasible(): continue
        nstop[2]+=1; res.n+=1; x=effects(t)
        if x: res.viol.append(Violation(K.where,'no effect',f'{fn}: {" and ".join(x)} is changed before the fatal error',witness(t.facts,[S(y) for p in eqs for y in p]))); return
    if not(nstop[0] or nstop[1]) and not fields: res.und.append('no effect is reached')
    if not nstop[2]: res.und.append('no path ends in the fatal error')
MUL=[f'mzed_{a}mul{s}' for a in('','add') for s in('','_naive','_newton_john','_strassen','_karatsuba','_blm')]
SMUL=[f'mzd_slice_{a}mul{s}' for a in('','add') for s in('','_karatsuba','_blm')]
def obligations(ctx):
    obs=[]
    for fmt,names,kind in(('p',('mzed_add','mzed_sub'),'add'),('s',('mzd_slice_add','mzd_slice_sub'),'add'),('p',MUL,'mul'),('s',SMUL,'mul'),('p',('mzed_copy',),'copy')):
        for fn in names:
            if ctx.prog.func(fn) is None: continue
            for e in (range(2,17) if ctx.thorough else (2,8,13)):
                for tg in((1,) if 'addmul' in fn or kind=='copy' else(0,1)):
                    for fl in [None]+[(x,y) for x in(('A','B') if kind=='copy' else ('A','B','C') if tg else('A','B')) for y in sorted({e,2+(e+5)%15})]:
                        obs.append(Ob('guard',f'{fn} degree {e} {"target" if tg else "new"} {"sizes" if fl is None else f"field of {fl[0]} (degree {fl[1]})"}',guard,(fn,fmt,e,kind,tg,fl),(fn,)))
    return obs
