"""Deciding what a matrix contains when a function returns: the contents are read back at a generic row and
word index (case analysis over the writes that reached it) and compared with the specification."""
from dom import *
from interp import *

class Opaque:
    TAGS=('rd','uninit','undef','fresh','toobig')
def is_opaque_key(k):
    """does this symbol / atom key hide an unknown of the analysis itself?"""
    if isinstance(k,tuple):
        if k and isinstance(k[0],str) and (k[0] in Opaque.TAGS or k[0]=='init') : return True
        return any(is_opaque_key(x) for x in k)
    if isinstance(k,Lin): return any(sym_opaque(q) for q in k.syms())
    if isinstance(k,Word): return word_opaque(k)
    if isinstance(k,frozenset): return any(is_opaque_key(Atom.keys[a]) for a in patoms(k))
    return False
_so={}
def sym_opaque(q):
    r=_so.get(q)
    if r is None:
        k=Sym.keys[q]
        if isinstance(k,tuple) and k[0]=='fresh': r=k[1] not in('t','j','k','rho','omega')
        elif isinstance(k,tuple) and k[0] in('rd','uninit','W','undef','init'): r=True
        else: r=any(is_opaque_key(x) for x in k) if isinstance(k,tuple) else False
        _so[q]=r
    return r
def word_opaque(w):
    return any(is_opaque_key(Atom.keys[a]) for a in w.atoms())
def val_opaque(v):
    if isinstance(v,Lin): return any(sym_opaque(q) for q in v.syms())
    if isinstance(v,Word): return word_opaque(v)
    return isinstance(v,Undef)

def split(st,e):
    """yield (sign,state) for e<0 (-1), e==0 (0), e>0 (1), feasible cases only"""
    f=st.facts
    e=f.norm(e)
    if e.isc(): yield ((e.c>0)-(e.c<0),st); return
    if f.ge0(e-1): yield (1,st); return
    if f.ge0(-e-1): yield (-1,st); return
    if f.eq0(e):
        t=st.fork(); t.facts=f.add_eq(e); yield (0,t); return
    for sg,g in ((-1,f.add_ge(-e-1)),(0,f.add_eq(e)),(1,f.add_ge(e-1))):
        if g.infeasible(): continue
        t=st.fork(); t.facts=g; yield (sg,t)
def split2(st,e):
    """(True,state) when e>=0, (False,state) otherwise"""
    f=st.facts; e=f.norm(e)
    if f.ge0(e): yield (True,st); return
    if f.ge0(-e-1): yield (False,st); return
    for sg,g in ((True,f.add_ge(e)),(False,f.add_ge(-e-1))):
        if g.infeasible(): continue
        t=st.fork(); t.facts=g; yield (sg,t)
def qr(st,c,per):
    """c = q*per + r with a constant remainder"""
    c=st.facts.norm(c); q=div_term(c,per); r=st.facts.norm(c-q*per)
    if not r.isc(): raise Undecided(f'column bound {c} has no fixed residue modulo {per}')
    return q,r.c
def lane_range(st,om,w,lo,hi):
    """for word index om: yield (state, list of lanes l with lo <= om*per+l < hi)"""
    per=64//w
    ql,rl=qr(st,lo,per); qh,rh=qr(st,hi,per)
    for s1,t1 in split(st,om-ql):
        a=0 if s1>0 else rl if s1==0 else per
        for s2,t2 in split(t1,om-qh):
            b=0 if s2>0 else rh if s2==0 else per
            yield t2,range(a,b) if a<b else range(0)

class Mismatch:
    def __init__(s,msg,st,row,om,got,want,definite): s.msg=msg; s.st=st; s.row=row; s.om=om; s.got=got; s.want=want; s.definite=definite

def check_words(I,st,oid,nrows,width,expect,what,rho=None,limit=4000):
    """compare the content of a storage object with `expect(st,row,om)` -> iterable of (state, Word).
    returns (number of cases compared, [Mismatch])"""
    t=st.fork()
    rho=S(fresh('rho')) if rho is None else rho; om=S(fresh('omega'))
    t.facts=t.facts.add_ge(rho).add_ge(nrows-1-rho).add_ge(om).add_ge(width-1-om)
    if t.facts.infeasible(): return 0,[]
    n=0; bad=[]
    for v,u in I.get_cases(t,oid,((u_norm(t,rho),),t.facts.norm(om)*8),8,I64_):
        r,o=u.facts.norm(rho),u.facts.norm(om)
        for x,want in expect(u,r,o):
            n+=1
            if n>limit: raise Undecided('too many cases in '+what)
            got=x.norm(I.to_word(v,64)); want=x.norm(want)
            got=resub(x,got); want=resub(x,want)
            if got==want: continue
            if not gated_equal(I,x,got,want):
                definite=not(word_opaque(got) or word_opaque(want)) and distinct(x,got,want)
                bad.append(Mismatch(what,x,x.facts.norm(r),x.facts.norm(o),got,want,definite))
    return n,bad
def u_norm(st,e): return st.facts.norm(e)
def resub(st,w):
    return w.subst(st.facts.sub) if st.facts.sub else w
def gated_equal(I,st,a,b):
    """equal up to integer equalities the facts entail"""
    f=st.facts
    for _ in range(8):
        d=a.xor(b)
        if d.iszero(): return True
        terms=set()
        def go(x):
            if isinstance(x,Lin): terms.add(x)
            elif isinstance(x,tuple):
                for y in x: go(y)
            elif isinstance(x,Word):
                for q in x.atoms(): go(Atom.keys[q])
            elif isinstance(x,frozenset):
                for q in patoms(x): go(Atom.keys[q])
        go(d); terms=sorted(terms,key=lambda z:(z.t,z.c)); hit=None
        for i in range(len(terms)):
            for j in range(i):
                e=terms[i]-terms[j]
                if not e.isc() and f.eq0(e): hit=e; break
            if hit is not None: break
        if hit is None: return False
        g=f.add_eq(hit)
        if g.sub==f.sub: return False
        f=g; a=a.subst(f.sub); b=b.subst(f.sub)
    return False
def distinct(st,a,b):
    """the two words differ for certain (their difference is a non zero form in atoms that cannot coincide)"""
    d=a.xor(b)
    for p in d.b:
        if p and poly_nonzero(st,p): return True
    return False
def poly_nonzero(st,p):
    if p==ONE: return True
    at=[Atom.keys[a] for a in patoms(p)]
    # atoms whose integer arguments could still coincide make the comparison inconclusive
    for i in range(len(at)):
        for j in range(i):
            if may_equal(st,at[i],at[j]): return False
    return True
def may_equal(st,x,y):
    if isinstance(x,Lin) and isinstance(y,Lin): return not st.facts.ne0(x-y)
    if isinstance(x,tuple) and isinstance(y,tuple) and len(x)==len(y): return all(may_equal(st,a,b) for a,b in zip(x,y))
    if isinstance(x,Word) and isinstance(y,Word):
        return True if x==y else not distinct(st,x,y)
    if isinstance(x,frozenset) and isinstance(y,frozenset): return x==y or not poly_nonzero(st,x^y)
    return x==y
I64_=TYI(8)

# ------------------------------------------------------------------ witnesses
def witness(facts,extra=(),bound=6,prefer=None,perms=False):
    """small integers satisfying the affine facts (for the report); None when none was found"""
    syms=set()
    for g in list(facts.ge)+list(facts.ne)+[v for v in facts.sub.values()]+list(extra): syms|=set(deep_syms(g))
    free=[k for k in syms if k not in facts.sub and not isinstance(Sym.keys[k],tuple) or (isinstance(Sym.keys[k],tuple) and Sym.keys[k][0]=='fresh' and k not in facts.sub)]
    if perms: free+=[k for k in syms if isinstance(Sym.keys[k],tuple) and Sym.keys[k][0]=='perm']
    free=sorted(set(free))
    cons=list(facts.ge)
    sol={}
    import itertools
    def ev(e,s):
        r=e.c
        for k,v in e.t:
            x=evs(k,s)
            if x is None: return None
            r+=v*x
        return r
    def evs(k,s):
        if k in s: return s[k]
        if k in facts.sub: return ev(facts.sub[k],s)
        key=Sym.keys[k]
        if isinstance(key,tuple):
            if key[0]=='div':
                x=ev(key[1],s); return None if x is None else x//key[2]
            if key[0]=='mul':
                a,b=ev(key[1],s),ev(key[2],s); return None if a is None or b is None else a*b
        return None
    cnt=[0]
    def rec(i,s):
        cnt[0]+=1
        if cnt[0]>60000: return None
        for g in cons:
            x=ev(g,s)
            if x is not None and x<0: return None
        for g in facts.ne:
            if ev(g,s)==0: return None
        if i==len(free): return dict(s)
        for v in range(0,bound):
            s[free[i]]=v
            r=rec(i+1,s)
            if r: return r
            del s[free[i]]
        return None
    def rec_c(cand):
        cnt[0]=0
        def go(i,s):
            cnt[0]+=1
            if cnt[0]>40000: return None
            for g in cons:
                x=ev(g,s)
                if x is not None and x<0: return None
            for g in facts.ne:
                if ev(g,s)==0: return None
            if i==len(free): return dict(s)
            for v in cand[free[i]]:
                s[free[i]]=v
                r=go(i+1,s)
                if r: return r
                del s[free[i]]
            return None
        return go(0,{})
    r=rec(0,{})
    if r is None:
        # values suggested by the constants of the constraints
        base=list(range(0,4))
        allc={k:set(base) for k in free}; extra=set()
        for g in cons+[v for v in facts.sub.values()]:
            for k in deep_syms(g):
                for c in (abs(g.c),):
                    if c>4: extra|={c-1,c,c+1,c//2,c//2+1}
        for q in list(syms):
            key=Sym.keys[q]
            if isinstance(key,tuple) and key[0]=='div' and key[2]>2: extra|={key[2],key[2]+1,2*key[2]}
        ex=sorted(x for x in extra if x>3)[:10]
        for k in free: allc[k]=base+ex
        r=rec_c(allc)
        if r is None:
            big=[0,1,2,63,64,65,128,511,512,513,1024,1025,4096,70000,131072]
            r=rec_c({k:big for k in free})
    if r is None: return None
    full={}
    for k in r:
        if isinstance(Sym.keys[k],str): full[Sym.keys[k]]=r[k]
    for k in facts.sub:
        if isinstance(Sym.keys[k],str):
            x=ev(facts.sub[k],r)
            if x is not None: full[Sym.keys[k]]=x
    return full
