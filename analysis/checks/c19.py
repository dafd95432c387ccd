"""Inverse.  Abstract interpretation over the field-matrix domain for every size: the augmented matrix [A | 1] handed to the echelon form
(C07, by contract) is compared block by block, the left half of the reduced matrix is compared with the identity before anything is returned, the
returned matrix (given or new) is the right half, the operand keeps its content, the temporaries are released once, and the only fatal exit
is the failed comparison.  1x1 and 2x2 matrices are additionally carried through the code in full."""
from fconc import *
from driver import *
import c06, c07
EXPLANATION=__doc__
RULES=['augmented: the matrix to be reduced is [A | 1]', 'inverse: the result is the right half of the reduced matrix', 'singular: a matrix whose reduced form is not the identity ends in the fatal error and is never returned', 'operand: the matrix to be inverted keeps its content', 'release: temporaries are released exactly once']
def invert(ctx,res,fn,e,n,given,optk,vals=None):
    I,st,ff=fmachine(ctx,e,True,{**conc_prims(ctx.lay),'m4ri_opt_k':lambda I,st,a,ins,nm:[(L(optk),st)]}); F=GF(max(e,8)); rng=random.Random(3)
    A=mk_fm(I,st,'A',ff,L(n),L(n)); sa=I.objs[A.obj].info['fm'].sid
    if vals: I.objs[sa].info['values']=vals
    base=entries(I,st,sa,n,n); B=NULL
    if given: B=mk_fm(I,st,'B',ff,L(n),L(n))
    outs=run_fn(I,res,fn,[B,A],st,Violation)
    for ret,t in outs:
        res.n+=1
        if not isinstance(ret,Ptr) or ret.obj==0 or given and ret!=B: res.viol.append(Violation(fn,'result','the inverse is not returned in the given matrix' if given else 'no matrix is returned')); return
        released(I,t,fn,res,Violation,() if given else {ret.obj})
        v=fview(I,t,ret)
        if rect(I,t,v)!=[0,0,n,n]: res.viol.append(Violation(fn,'result',f'the result has dimensions {rect(I,t,v)[2:]} for {n}x{n}')); return
        if any(live(ev) and ev[0]=='eop' and ev[1]==sa for ev in t.events() if ev[0]=='eop' and ev[2][0]!='el' or ev[0]=='loop'): res.viol.append(Violation(fn,'operand','the matrix to be inverted is modified'))
        X=block(I,t,v); w=numeric(I,t,F,(base,X),rng)
        if w is None: res.und.append('no witness'); continue
        one=[[int(i==j) for j in range(n)] for i in range(n)]
        got=F.matmul(w[0],w[1])
        if got!=one: res.viol.append(Violation(fn,'inverse',f'the product of the matrix and the result is {got}',{'input':str(w[0]),'result':str(w[1])})); return
        if res.viol: return
    dead=0
    for t in I.dead:
        w=numeric(I,t,F,(base,),rng); res.n+=1
        if w is None: continue
        dead+=1
        if F.rank(w[0])==n: res.viol.append(Violation(fn,'stops','the program stops on an invertible matrix',{'input':str(w[0])})); return
    if not outs: res.viol.append(Violation(fn,'stops','no path returns an inverse'))
# ---------------------------------------------------------------- all sizes: by the contract of the echelon form
def ech_contract(I,st,args,ins,name):
    v=fview(I,st,args[0],ins); o=I.objs[v.sid].info; f=st.facts
    if not(f.eq0(v.r0) and f.eq0(v.c0) and f.eq0(v.nr-o['rows']) and f.eq0(v.nc-o['cols'])): raise Undecided('echelon form of a window')
    full=f.norm(I.to_lin(args[1])); ver=fresh('ver')[2]; I.fver[ver]=[]
    r=S(fresh('rank')); I.ech.append((v.sid,ver,full,fops(st,v.sid),I.where(ins),r))
    emit(I,st,v.sid,('havoc',ver),ins); st.facts=st.facts.add_ge(r).add_ge(v.nr-r).add_ge(v.nc-r); return [(r,st)]
def everywhere(I,st,sid,ops,r0,c0,nr,nc,want):
    """problems of the entries of a block: want(state,i,j) -> polynomial"""
    i,j=S(fresh('i')),S(fresh('j')); t=st.fork(); t.facts=t.facts.add_ge(i).add_ge(j).add_ge(nr-1-i).add_ge(nc-1-j); I.reads=0
    if t.facts.infeasible(): return
    for sg,u in split(t,i-j):
        for w,x in fread(I,u,sid,ops,r0+i,c0+j):
            y=renorm(w,want(w,sg,w.facts.norm(i),w.facts.norm(j)))
            if renorm(w,x)!=y and not w.facts.infeasible(): yield w,w.facts.norm(i),w.facts.norm(j),renorm(w,x),y
def sym(ctx,res,fn,e,given):
    ex={k:ech_contract for k in('mzed_echelonize_newton_john','mzed_echelonize','mzed_echelonize_naive','mzed_echelonize_ple')}
    I,st,ff=fmachine(ctx,e,False,ex); I.ech=[]; n=S('n'); st.facts=st.facts.add_ge(n-1)
    A=mk_fm(I,st,'A',ff,n,n); sa=I.objs[A.obj].info['fm'].sid
    B=mk_fm(I,st,'B',ff,n,n) if given else NULL
    outs=run_fn(I,res,fn,[B,A],st,Violation); one=lambda w,sg,i,j: FONE if sg==0 else FZ
    if not outs: res.viol.append(Violation(fn,'stops','no path returns an inverse')); return
    if not I.ech: raise Undecided('no echelon form is computed')
    for ret,t in outs:
        res.n+=1
        if not isinstance(ret,Ptr) or ret.obj==0 or given and ret!=B: res.viol.append(Violation(fn,'result','the inverse is not returned in the given matrix' if given else 'no matrix is returned')); return
        released(I,t,fn,res,Violation,() if given else {ret.obj}); v=fview(I,t,ret)
        ech=[x for x in I.ech if any(o==('havoc',x[1]) for o in fops(t,x[0]))]
        if len(ech)!=1: raise Undecided('several echelon forms')
        sid,ver,full,before,where,_=ech[0]; T=I.objs[sid].info
        if full==ZL: res.viol.append(Violation(where,'reduced','the form that is compared with the identity is not reduced: an invertible upper triangular matrix is rejected')); return
        if t.facts.eq0(full) or not t.facts.ne0(full): raise Undecided('kind of echelon form')
        for g in(T['rows']-n,T['cols']-n*2):
            if not t.facts.eq0(g): raise Undecided('dimensions of the augmented matrix')
        an=I.objs[sa].info['nm']
        bad=list(everywhere(I,t,sid,before,ZL,ZL,n,n,lambda w,sg,i,j: fatom(('a',an,0,i,j))))+list(everywhere(I,t,sid,before,ZL,n,n,n,one))
        for w,i,j,x,y in bad[:1]: res.viol.append(Violation(where,'augmented matrix',f'entry ({i},{j}) of the matrix next to the identity is {fshow(x)}, not {fshow(y)}'))
        if bad: return
        ok=False
        for ev in t.events():
            if ev[0]!='cmp' or not t.facts.eq0(ev[1]): continue
            _,q,a,b,(ca,cb)=ev
            for p,cp,r,cr in((a,ca,b,cb),(b,cb,a,ca)):
                if r.sid!=sid: continue
                if not all(t.facts.eq0(g) for g in(r.nr-n,r.nc-n,p.nr-n,p.nc-n,r.r0,r.c0)): continue
                if list(everywhere(I,t,p.sid,cp.ops,p.r0,p.c0,n,n,one)): continue
                if list(everywhere(I,t,sid,cr.ops,ZL,ZL,n,n,lambda w,sg,i,j: fatom(('a',T['nm'],ver,i,j)))): continue
                ok=True
        if not ok: raise Undecided('the left half is not compared with the identity')
        if not all(t.facts.eq0(g) for g in(v.nr-n,v.nc-n)): res.viol.append(Violation(fn,'result',f'the result has {v.nr} rows and {v.nc} columns')); return
        bad=list(everywhere(I,t,v.sid,fops(t,v.sid),v.r0,v.c0,n,n,lambda w,sg,i,j: fatom(('a',T['nm'],ver,i,w.facts.norm(n+j)))))
        for w,i,j,x,y in bad[:1]: res.viol.append(Violation(fn,'result',f'entry ({i},{j}) of the result is {fshow(x)}, the right half of the reduced form has {fshow(y)} there',witness(w.facts,[n])))
        if any(live(ev) for ev in t.events() if ev[0]=='eop' and ev[1]==sa): res.viol.append(Violation(fn,'operand','the matrix to be inverted is modified'))
        if res.viol: return
    for t in I.dead:
        res.n+=1
        if not any(ev[0]=='cmp' and t.facts.ne0(ev[1]) for ev in t.events()): raise Undecided('stops without a comparison')
def obligations(ctx):
    fn='mzed_invert_newton_john'; obs=[]
    at=c06.at
    for g in(0,1):
        for e in range(2,17): obs.append(Ob('inverse',f'{fn} degree {e} target {"given" if g else "NULL"}',sym,(fn,e,g),(fn,)))
        for n in(1,2): obs.append(Ob('small',f'{fn} {n}x{n} target {"given" if g else "NULL"}',invert,(fn,8,n,g,1),(fn,),n))
    return obs
