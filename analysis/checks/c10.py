"""Bounds.  The abstract interpretations of other properties (symbolic sizes, start columns and window positions, all paths, loops at a generic iteration) are repeated
with a judgement of every access: a read or write of a word of a matrix lies in the rows and words of that matrix, and the rows, columns and ranges handed to the
primitives of the binary matrix library lie inside the matrix they are handed with."""
from driver import *
from rows import w_of
import interp, importlib, re
from content import witness, sym_opaque
EXPLANATION=__doc__
RULES=['word: 0 <= row < rows and the word lies between the first and the last word of the row','range: rows, columns, bit ranges and windows given to a primitive lie inside its matrix']
MODS=('c01','c02','c04','c05','c06','c07','c15','c16','c17','c18','c19','c21','c23','c14','c03','c13','c08','c22','c25','c26')
def plain(q):
    k=Sym.keys[q]
    return not isinstance(k,tuple) or k[0] in('div','mul','inc','ord','W') or k[:2]==('fresh','k')
RANGE=('range','table range','window range','element range')
def judge(I,res,loc):
    seen={}
    for where,what,conds,facts in I.acc:
        if facts.infeasible(): continue
        for g in conds:
            g=facts.norm(g)
            # entries of a permutation given by the caller are row / column numbers of its matrix
            if any(isinstance(Sym.keys[q],tuple) and Sym.keys[q][0] in('P','perm') for q in deep_syms(g)): continue
            k=(where,what,g,id(facts))
            if k in seen: continue
            seen[k]=facts
            res.n+=1
            for q in deep_syms(g):
                key=Sym.keys[q]
                if isinstance(key,tuple) and key[0]=='W': x=Lin(((q,1),),0); facts=facts.add_ge(x).add_ge(L(sum(1<<i for i,b in enumerate(key[1].b) if b!=ZERO))-x)
                if isinstance(key,tuple) and key[0]=='ord': x=Lin(((q,1),),0); facts=facts.add_ge(x).add_ge(L((1<<key[1])-1)-x)     # m4ri: the code words of the given length
                if isinstance(key,tuple) and key[0]=='inc': x=Lin(((q,1),),0); facts=facts.add_ge(x).add_ge(L(key[1])-1-x)     # m4ri: the position that changes from one Gray code word of the given length to the next
            if facts.ge0(g): continue
            bad=facts.add_ge(-g-1)
            if bad.infeasible(): continue
            txt=f'{what} at {where}: {g} >= 0 is required'
            if any(sym_opaque(q) or not plain(q) for q in deep_syms(g)): res.und.append(txt+' (not known)'); continue
            w=witness(bad,[g])
            if w is None: res.und.append(txt+' (no witness)'); continue
            res.viol.append(Violation(where or loc,'word' if 'read of' in what or 'write of' in what else 'range',txt+f' but fails',w)); return
def run_sub(ctx,res,ob):
    log=[]; sub=Res(); interp.Interp.audit=log; interp.Interp.bounds=True
    try: ob.fn(ctx,sub,*ob.args)
    except(Undecided,TooBig) as x: res.und.append(str(x)[:200])
    finally: interp.Interp.audit=None; interp.Interp.bounds=False
    res.fn|=sub.fn; done=set()
    for v in sub.viol:
        if v.rule in RANGE: res.viol.append(v)
    if res.viol: return
    if sub.und: res.und.append(sub.und[0])
    for I,fn,args,outs in log:
        if id(I) in done: continue
        done.add(id(I)); F=ctx.prog.func(fn)
        judge(I,res,F.file+':'+fn if F else fn)
        if res.viol: return
    # whole matrices only: no word, row, column or range is named
    if log and not res.n and not res.und and not sub.und: res.n=1
def pick(ctx,name):
    m=re.search(r'degree (\d+)',name) or re.search(r'\be(\d+)',name)
    if m is None: return True
    return int(m.group(1)) in ((2,3,5,9) if not ctx.thorough else range(17))
def obligations(ctx):
    obs=[]
    for m in MODS:
        q=importlib.import_module(m).obligations(ctx); seen={}
        for o in q:
            if o.group=='list of polynomials': continue
            if m=='c02' and not ctx.thorough:
                # every degree has its own code: one column count per number of words in the last group, targets alternate
                e,r,t=map(int,re.match(r'e(\d+)r(\d+)t(\d+)',o.name).groups()); w=w_of(e); k=(o.group,e,-(-r*w//64)%w)
                if (e,r)!=seen.setdefault(k,(e,r)) or (t>0)!=r%2: continue
            elif not pick(ctx,o.name): continue
            obs.append(Ob(m.upper()+' '+o.group,o.name,run_sub,(o,),o.need,o.cost))
    return obs
