"""Random filling.  Abstract interpretation with the random source as a stream of fresh symbols: the content of a packed matrix is read back at a
generic bit - inside the matrix it must be one bit of the random stream for the bits of an entry and zero for the unused bits, outside the old
content; every slice of a bitsliced matrix and every coefficient of a polynomial must be filled by the primitive."""
from structs import *
import c23, itertools
COUNT=itertools.count()
EXPLANATION=__doc__
RULES=['random: every entry of the matrix is replaced by bits of the random source, one for each bit of the entry','valid: unused bits of an entry stay zero','outside: nothing outside the matrix changes']
def rnd(I,st,args,ins,name):
    k=('rnd',next(COUNT)); return [(Word([atom((k,i)) for i in range(31)]+[ZERO]*33),st)]
def is_rnd(p):
    """bit of the random stream (a single atom of it, or its sum with other atoms of it)"""
    if not patoms(p): return False
    if any(not(isinstance(Atom.keys[a],tuple) and isinstance(Atom.keys[a][0],tuple) and Atom.keys[a][0][:1]==('rnd',)) for a in patoms(p)): return None
    return True
def modulus(p):
    """constant k when the bit belongs to (random word) mod k"""
    for a in patoms(p):
        k=Atom.keys[a]
        if isinstance(k,tuple) and k[0]=='lbit' and isinstance(k[1],Lin) and len(k[1].t)==1:
            q=Sym.keys[k[1].t[0][0]]
            if isinstance(q,tuple) and q[0] in('urem','srem') and isinstance(q[2],int): return q[2]
def packed(ctx,res,e):
    K=Case(ctx,res,'p',e,'mzed_randomize'); I=K.I; I.prims={**I.prims,'random':rnd,'lrand48':rnd,'rand':rnd}
    m,n=K.dim('m'),K.dim('n'); A=K.mat('A',m,n); w=K.w
    out=K.run([A]); K.none(out); K.died()
    for ret,t in out:
        K.heap_ok(t)
        v=K.views(A,t)[0]; o=I.objs[v.sid]; rho=S(fresh('rho')); g=S(fresh('omega')); nb=t.facts.norm(o.info['bits'])
        seen={}
        for b in range(w):
            u=t.fork(); c=g*w+b
            u.facts=u.facts.add_ge(rho).add_ge(o.info['rows']-1-rho).add_ge(g).add_ge(nb-1-c)
            if u.facts.infeasible(): continue
            I.reads=0
            for x,got in read(I,u,content(I,u,v.sid),rho,c):
                for ins_,y in inside(x,rho,c,v.rect):
                    if y.facts.infeasible(): continue
                    res.n+=1; p=y.norm(Word([got])).b[0]
                    old=y.norm(Word([base(I,y,v.sid,rho,c)])).b[0]
                    if ins_ and b<e:
                        z=is_rnd(p); k=modulus(p)
                        if k is not None and k<2**e: res.viol.append(Violation(K.where,'random',f'mzed_randomize degree {e}: entries are reduced modulo {k}: not every element of the field is possible')); return
                        if z:
                            if p in seen.values() and seen.get(b)!=p: res.viol.append(Violation(K.where,'random',f'bits of an entry are copies of each other (bit {b})')); return
                            seen[b]=p; continue
                        rule,want='random','random'
                    elif ins_:
                        if p==ZERO or p==old: continue
                        rule,want='valid','0'
                    else:
                        if p==old: continue
                        rule,want='outside','the old value'
                    txt=f'mzed_randomize degree {e}: bit {b} of the entry at ({y.facts.norm(rho)},{y.facts.norm(g)}) is {pstr(p,3)}, must be {want}'
                    wit=witness(y.facts,[rho,g])
                    if wit is not None and not word_opaque(Word([p])) : res.viol.append(Violation(K.where,rule,txt,wit)); return
                    res.und.append(txt[:250]); return
def sliced(ctx,res,e):
    K=Case(ctx,res,'s',e,'mzd_slice_randomize'); I=K.I
    def p(I,st,args,ins,name):
        v=eview(I,st,args[0],ins); apply(I,st,v.sid,('op',name,(),v),ins); return [(UNDEF,st)]
    I.prims={**I.prims,'mzd_randomize':p}
    A=K.mat('A',K.dim('m'),K.dim('n')); out=K.run([A]); K.none(out); K.died()
    for ret,t in out:
        K.heap_ok(t)
        for i,v in enumerate(K.views(A,t)):
            ops=content(I,t,v.sid).ops; res.n+=1
            if not ops: res.viol.append(Violation(K.where,'random',f'degree {e}: slice {i} is not filled')); return
            if any(o[:3]!=('op','mzd_randomize',()) or o[3]!=v for o in ops): res.und.append(f'slice {i} is filled in another way'); return
def poly(ctx,res,d):
    I,st=c23.machine(ctx); fn='mzd_poly_randomize'
    def p(I,st,args,ins,name):
        c23.putmat(I,st,args[0],c23.matom(f'rnd{I.nobj}_{len(hits)}'),ins); hits.append(1); return [(UNDEF,st)]
    hits=[]; I.prims={**I.prims,'mzd_randomize':p}
    A,xa=c23.mk_poly(I,st,ctx.lay,'A',d,S('m'),S('n'))
    loc,out=c23.run(ctx,res,fn,I,[A],st)
    for r,t in out:
        for i,x in enumerate(xa):
            z=str(c23.getmat(I,t,x)); res.n+=1
            if c23.getmat(I,t,x)==c23.matom(f'A{i}'): res.viol.append(Violation(loc,'random',f'coefficient {i} of {d} is not filled')); return
            if 'rnd' not in ''.join(map(str,c23.getmat(I,t,x).d)): res.und.append(f'coefficient {i} is filled in another way'); return
def obligations(ctx):
    obs=[]
    for e in range(2,17):
        obs.append(Ob('packed',f'mzed_randomize degree {e}',packed,(e,),('mzed_randomize',)))
        obs.append(Ob('bitsliced',f'mzd_slice_randomize degree {e}',sliced,(e,),('mzd_slice_randomize',)))
        obs.append(Ob('polynomial',f'{e-1} coefficients',poly,(e-1,),('mzd_poly_randomize',)))
    return obs
