"""Abstract domains.
 * Lin   - affine integer expressions over interned symbols (value numbering terms are symbols too)
 * Facts - conjunctions of affine inequalities/equalities (polyhedra, entailment by Fourier-Motzkin projection)
 * Word  - fixed width machine words, each bit an algebraic normal form over GF(2) (set of monomials over atoms)
"""
from math import gcd

# ---------------------------------------------------------------- symbols
class Sym:
    ids = {}; keys = []
    @classmethod
    def get(c, key):
        i = c.ids.get(key)
        if i is None:
            i = len(c.keys); c.ids[key] = i; c.keys.append(key)
        return i
_fresh = [0]
def fresh(tag='t'):
    _fresh[0] += 1
    return ('fresh', tag, _fresh[0])

class Lin:
    __slots__ = ('t','c','h')
    def __init__(s, t, c): s.t=t; s.c=c; s.h=hash((t,c))
    def __hash__(s): return s.h
    def __eq__(s,o): return isinstance(o,Lin) and s.c==o.c and s.t==o.t
    def __ne__(s,o): return not s==o
    def isc(s): return not s.t
    def __add__(s,o):
        if isinstance(o,int): return Lin(s.t, s.c+o) if o else s
        if not o.t: return Lin(s.t, s.c+o.c)
        if not s.t: return Lin(o.t, s.c+o.c)
        d=dict(s.t)
        for k,v in o.t:
            w=d.get(k,0)+v
            if w: d[k]=w
            else: del d[k]
        return Lin(tuple(sorted(d.items())), s.c+o.c)
    __radd__=__add__
    def __neg__(s): return Lin(tuple((k,-v) for k,v in s.t), -s.c)
    def __sub__(s,o): return s + (-o)
    def __rsub__(s,o): return (-s)+o
    def __mul__(s,n):
        if n==0: return ZL
        return Lin(tuple((k,v*n) for k,v in s.t), s.c*n)
    __rmul__=__mul__
    def syms(s): return [k for k,_ in s.t]
    def coef(s,k):
        for kk,v in s.t:
            if kk==k: return v
        return 0
    def sub(s, m):
        """substitute symbol id -> Lin (deep into value-numbering terms)"""
        if not s.t or not m: return s
        r=Lin((),s.c); hit=False
        for k,v in s.t:
            x=m.get(k)
            if x is None:
                x2=subst_key(k,m)
                if x2 is None: r=r+Lin(((k,v),),0); continue
                x=x2
            hit=True
            r=r+x*v
        return r if hit else s
    def __repr__(s):
        out=[]
        for k,v in s.t:
            n=keystr(Sym.keys[k]); out.append(n if v==1 else '-'+n if v==-1 else f'{v}*{n}')
        if s.c or not out: out.append(str(s.c))
        return '+'.join(out).replace('+-','-')
def keystr(k):
    if isinstance(k,str): return k
    if isinstance(k,tuple):
        if len(k) and k[0]=='fresh': return f'{k[1]}#{k[2]}'
        return (str(k[0]) if k else '')+'('+','.join(keystr(x) for x in k[1:])+')'
    return repr(k)
ZL=Lin((),0)
_cl={}
def L(n):
    r=_cl.get(n)
    if r is None:
        r=Lin((),n)
        if -70<n<5000: _cl[n]=r
    return r
def S(key): return Lin(((Sym.get(key),1),),0)
def subst_key(k,m):
    """rebuild a term symbol whose arguments mention substituted symbols; None if unaffected"""
    key=Sym.keys[k]
    if not isinstance(key,tuple) or key[0]=='fresh': return None
    nk,ch=subst_val(key,m)
    if not ch: return None
    return mk_term(nk)
def subst_val(v,m):
    if isinstance(v,Lin):
        r=v.sub(m); return r, r!=v
    if isinstance(v,Word):
        r=v.subst(m); return r, r is not v
    if isinstance(v,tuple):
        ch=False; out=[]
        for x in v:
            y,c=subst_val(x,m); ch|=c; out.append(y)
        return (tuple(out) if ch else v), ch
    return v, False
def mk_term(key):
    if key[0]=='div' and len(key)==3 and isinstance(key[1],Lin) and isinstance(key[2],int): return div_term(key[1],key[2])
    return S(key)
def div_term(x,k):
    """floor(x/k)"""
    if k==1: return x
    if x.isc(): return L(x.c//k)
    q={}; rem={}
    for s,v in x.t:
        a,b=divmod(v,k)
        if a: q[s]=a
        if b: rem[s]=b
    cq,cr=divmod(x.c,k)
    qq=Lin(tuple(sorted(q.items())),cq)
    if not rem: return qq
    return qq+S(('div',Lin(tuple(sorted(rem.items())),cr),k))

# ---------------------------------------------------------------- facts
def norm_ineq(e):
    g=0
    for _,v in e.t: g=gcd(g,v)
    if g>1: return Lin(tuple((k,v//g) for k,v in e.t), e.c//g)   # floor: integer tightening
    return e
def implied_facts(e, seen=None):
    """side facts of term symbols occurring in e"""
    out=[]
    for k in e.syms():
        if k in FACT_CACHE: out+=FACT_CACHE[k]; continue
        key=Sym.keys[k]; r=[]
        if isinstance(key,tuple):
            if key[0]=='div':
                x,n=key[1],key[2]; d=Lin(((k,1),),0)
                r=[x-d*n, d*n+(n-1)-x]
                FACT_CACHE[k]=r; r=r+implied_facts(x)
            elif key[0]=='min':
                d=Lin(((k,1),),0); r=[key[1]-d, key[2]-d]
            elif key[0]=='nnor':
                d=Lin(((k,1),),0); x,y=key[1],key[2]; r=[d-x,d-y,x+y-d]
            elif key[0] in('W','popcount','nn'):     # non negative terms
                r=[Lin(((k,1),),0)]
        FACT_CACHE[k]=r
        out+=r
    return out
FACT_CACHE={}

class Facts:
    """immutable conjunction"""
    __slots__=('ge','ne','sub','_memo','bad')
    def __init__(s, ge=(), ne=(), sub=None):
        s.ge=ge; s.ne=ne; s.sub=sub or {}; s._memo={}; s.bad=False
    def norm(s,e): return e.sub(s.sub) if s.sub else e
    def add_ge(s,e):
        e=norm_ineq(s.norm(e))
        if e.isc():
            if e.c>=0: return s
            f=Facts(s.ge,s.ne,s.sub); f.bad=True; return f
        if e in s.ge: return s
        if norm_ineq(-e) in s.ge: return s.add_eq(e)
        return Facts(s.ge+(e,),s.ne,s.sub)
    def add_ne(s,e):
        e=s.norm(e)
        if e.isc():
            if e.c!=0: return s
            f=Facts(s.ge,s.ne,s.sub); f.bad=True; return f
        if s.ge0(e): return s.add_ge(e-1)
        if s.ge0(-e): return s.add_ge(-e-1)
        return Facts(s.ge,s.ne+(e,),s.sub)
    def add_eq(s,e):
        e=s.norm(e)
        if e.isc():
            if e.c==0: return s
            f=Facts(s.ge,s.ne,s.sub); f.bad=True; return f
        g=0
        for _,v in e.t: g=gcd(g,v)
        if g>1:
            if e.c%g:
                f=Facts(s.ge,s.ne,s.sub); f.bad=True; return f
            e=Lin(tuple((k,v//g) for k,v in e.t),e.c//g)
        # choose a plain symbol with coefficient +-1
        best=None
        for k,v in e.t:
            if abs(v)==1:
                key=Sym.keys[k]; rank=0 if isinstance(key,tuple) and key[0]=='fresh' else 1 if isinstance(key,str) else 2
                if rank==2: rank=-1   # eliminate terms first
                if best is None or rank<best[0]: best=(rank,k,v)
        if best is None:
            return Facts(s.ge+(e,-e),s.ne,s.sub)
        _,k,v=best
        rhs=(Lin(((k,v),),0)-e)*v      # k = rhs
        if k in deep_syms(rhs): return Facts(s.ge+(e,-e),s.ne,s.sub)
        m={k:rhs}
        sub={kk:x.sub(m) for kk,x in s.sub.items()}; sub[k]=rhs
        f=Facts((),s.ne,sub); bad=False
        ge=[]
        old=list(s.ge)
        # terms' own side facts survive as facts on rhs
        key=Sym.keys[k]
        if isinstance(key,tuple) and key[0]!='fresh': old+=implied_facts(Lin(((k,1),),0))
        for g in old:
            g=norm_ineq(g.sub(m))
            if g.isc():
                if g.c<0: bad=True
            elif g not in ge: ge.append(g)
        ne=[]
        for g in s.ne:
            g=g.sub(m)
            if g.isc():
                if g.c==0: bad=True
            else: ne.append(g)
        f=Facts(tuple(ge),tuple(ne),sub); f.bad=bad
        return f
    # -- queries
    def ge0(s,e):
        """is e>=0 entailed?"""
        e=s.norm(e)
        if e.isc(): return e.c>=0
        r=s._memo.get(e)
        if r is None:
            r=s._memo[e]=s._prove(e)
        return r
    def eq0(s,e):
        e=s.norm(e)
        if e.isc(): return e.c==0
        return s.ge0(e) and s.ge0(-e)
    def ne0(s,e):
        e=s.norm(e)
        if e.isc(): return e.c!=0
        if s.ge0(e-1) or s.ge0(-e-1): return True
        for g in s.ne:
            if g==e or g==-e: return True
        # divisibility argument
        gg=0
        for _,v in e.t: gg=gcd(gg,v)
        if gg>1 and e.c%gg: return True
        return False
    def _prove(s,e):
        goal=-e-1
        cons=[goal]
        for g in s.ge: cons.append(g)
        # closure of implied facts
        work=list(cons); seen=set()
        while work:
            x=work.pop()
            for k in x.syms():
                if k in seen: continue
                seen.add(k)
                for f in implied_facts(Lin(((k,1),),0)):
                    f=s.norm(f)
                    if f not in cons: cons.append(f); work.append(f)
        # relevance
        rel=set(goal.syms()); ch=True; keep=[False]*len(cons); keep[0]=True
        while ch:
            ch=False
            for i,cn in enumerate(cons):
                if not keep[i] and any(k in rel for k in cn.syms()):
                    keep[i]=True; ch=True; rel.update(cn.syms())
        return fm_unsat([norm_ineq(cn) for i,cn in enumerate(cons) if keep[i]])
    def consistent(s):
        if s.bad: return False
        return True
    def infeasible(s):
        if s.bad: return True
        if any(s.eq0(e) for e in s.ne): return True
        cons=list(s.ge)
        for g in s.ge:
            for f in implied_facts(g):
                f=s.norm(f)
                if f not in cons: cons.append(f)
        return fm_unsat([norm_ineq(c) for c in cons])
    def project(s,kill):
        """forget the symbols in kill (rational projection of the constraints that mention them)"""
        eqs=[Lin(((k,1),),0)-v for k,v in s.sub.items()]; ges=list(s.ge); nes=list(s.ne)
        for t in kill:
            piv=None
            for e in eqs:
                c=e.coef(t)
                if c and (piv is None or abs(c)<abs(piv.coef(t))): piv=e
            if piv is not None:
                c=piv.coef(t)
                def el(e,sign):
                    d=e.coef(t)
                    if not d: return e
                    # |c|*e - sgn(c)*d*piv
                    return e*abs(c)-piv*(d if c>0 else -d)
                eqs=[el(e,0) for e in eqs if e is not piv]; ges=[el(e,1) for e in ges]; nes=[e for e in nes if not e.coef(t)]
            else:
                pos=[e for e in ges if e.coef(t)>0]; neg=[e for e in ges if e.coef(t)<0]
                new=[e for e in ges if e.coef(t)==0]
                if len(pos)*len(neg)<=60:
                    for p in pos:
                        for n in neg: new.append(norm_ineq(p*(-n.coef(t))+n*p.coef(t)))
                ges=new; nes=[e for e in nes if not e.coef(t)]
        ks=set(kill)
        dirty=lambda e: bool(deep_syms(e)&ks)
        f=Facts()
        for e in eqs:
            if not dirty(e): f=f.add_eq(e)
        for e in ges:
            if not dirty(e): f=f.add_ge(e)
        for e in nes:
            if not dirty(e): f=f.add_ne(e)
        return f
    def tsyms(s):
        out=set()
        for e in list(s.ge)+list(s.sub.values())+[Lin(((k,1),),0) for k in s.sub]:
            for k in e.syms():
                key=Sym.keys[k]
                if isinstance(key,tuple) and key[0]=='fresh' and key[1]=='t': out.add(k)
        return out
    def intersect(s,o):
        if s is o: return s
        ts,to=s.tsyms(),o.tsyms()
        if ts-to: s=s.project(sorted(ts-to))
        if to-ts: o=o.project(sorted(to-ts))
        os=set(o.ge)
        sub={k:v for k,v in s.sub.items() if o.sub.get(k)==v}
        ge=[g for g in s.ge if g in os or o.ge0(g)]
        ge+=[g for g in o.ge if g not in ge and s.ge0(g)]
        # equalities lost on one side: keep as implied inequalities
        for a,b in ((s,o),(o,s)):
            for k,v in a.sub.items():
                if k in sub: continue
                e=Lin(((k,1),),0)-v
                if b.eq0(e): ge+= [e,-e]
                elif b.ge0(e): ge.append(e)
                elif b.ge0(-e): ge.append(-e)
        return Facts(tuple(dict.fromkeys(ge)), tuple(x for x in s.ne if x in o.ne or o.ne0(x)), sub)
    def __repr__(s): return 'Facts('+', '.join(f'{g}>=0' for g in s.ge)+' ; '+', '.join(f'{keystr(Sym.keys[k])}={v}' for k,v in s.sub.items())+')'

def deep_syms(v):
    out=set()
    def go(x):
        if isinstance(x,Lin):
            for k in x.syms():
                if k not in out:
                    out.add(k); go(Sym.keys[k])
        elif isinstance(x,tuple):
            for y in x: go(y)
        elif isinstance(x,Word):
            for a in x.atoms(): go(Atom.keys[a])
    go(v); return out

def fm_unsat(cons, limit=400):
    """Fourier-Motzkin: True when the system of e>=0 constraints is unsatisfiable"""
    cons=list(dict.fromkeys(cons))
    while True:
        best={}
        nxt=[]
        for c in cons:
            if c.isc():
                if c.c<0: return True
            else:
                o=best.get(c.t)
                if o is None or c.c<o: best[c.t]=c.c
        cons=[Lin(t,c) for t,c in best.items()]
        for t,c in best.items():
            nt=tuple((k,-v) for k,v in t)
            if nt in best and c+best[nt]<0: return True
        if not cons: return False
        pos={}; neg={}
        for c in cons:
            for k,v in c.t: (pos if v>0 else neg).setdefault(k,[]).append(c)
        vs=set(pos)|set(neg)
        k=min(vs,key=lambda k: len(pos.get(k,()))*len(neg.get(k,())))
        P_=pos.get(k,()); N_=neg.get(k,())
        if len(P_)*len(N_)+len(cons)>limit: return False
        nxt=[c for c in cons if c.coef(k)==0]
        for p in P_:
            a=p.coef(k)
            for n in N_:
                b=-n.coef(k)
                nxt.append(norm_ineq(p*b+n*a))
        cons=nxt

# ---------------------------------------------------------------- words
class Atom:
    ids={}; keys=[]
    @classmethod
    def get(c,key):
        i=c.ids.get(key)
        if i is None:
            i=len(c.keys); c.ids[key]=i; c.keys.append(key)
        return i
ZERO=frozenset(); ONE=frozenset([0])
def katom(key):
    if key[0]=='lbit' and isinstance(key[1],Lin) and key[1].isc(): return ONE if key[1].c>>key[2]&1 else ZERO
    return atom(key)
def atom(key): return frozenset([1<<Atom.get(key)])
class TooBig(Exception): pass
PMAX=200000
def padd(a,b):
    if not a: return b
    if not b: return a
    return a^b
def pmul(a,b):
    if not a or not b: return ZERO
    if a is ONE or a==ONE: return b
    if b==ONE: return a
    if a==b: return a
    if len(a)*len(b)>PMAX: raise TooBig
    r=set()
    for x in a:
        for y in b:
            z=x|y
            if z in r: r.remove(z)
            else: r.add(z)
    return frozenset(r)
PMAXB=2048
def pmulb(a,b):
    """product inside a word: one bit whose form grows too large becomes opaque, the other bits stay exact"""
    if len(a)*len(b)>PMAXB and not(a==b or len(a)==1 or len(b)==1): return atom(('lbit',S(fresh('toobig')),0))
    return pmul(a,b)
def pnot(a): return padd(a,ONE)
def patoms(p):
    m=0
    for x in p: m|=x
    out=[]; 
    while m:
        l=m&-m; out.append(l.bit_length()-1); m^=l
    return out
def mono_atoms(m):
    out=[]
    while m:
        l=m&-m; out.append(l.bit_length()-1); m^=l
    return out
def pstr(p, lim=6):
    if not p: return '0'
    ms=[]
    for m in sorted(p)[:lim]:
        ms.append('1' if m==0 else '*'.join(astr(Atom.keys[a]) for a in mono_atoms(m)))
    return '^'.join(ms)+('^...' if len(p)>lim else '')
def astr(k):
    if isinstance(k,tuple): return str(k[0])+'['+','.join(keystr(x) if not isinstance(x,Word) else repr(x) for x in k[1:])+']'
    return str(k)

class Word:
    __slots__=('b','h')
    def __init__(s,b): s.b=tuple(b); s.h=None
    def __hash__(s):
        if s.h is None: s.h=hash(s.b)
        return s.h
    def __eq__(s,o): return isinstance(o,Word) and (s is o or s.b==o.b)
    @property
    def n(s): return len(s.b)
    def const(s):
        r=0
        for i,p in enumerate(s.b):
            if p:
                if p!=ONE: return None
                r|=1<<i
        return r
    def xor(s,o): return Word(padd(a,b) for a,b in zip(s.b,o.b))
    def and_(s,o): return Word(pmulb(a,b) for a,b in zip(s.b,o.b))
    def or_(s,o):
        r=[]
        for a,b in zip(s.b,o.b):
            r.append(b if not a else a if not b else padd(padd(a,b),pmulb(a,b)))
        return Word(r)
    def shl(s,k): return Word((ZERO,)*min(k,s.n)+s.b[:s.n-k]) if k<s.n else Word((ZERO,)*s.n)
    def lshr(s,k): return Word(s.b[k:]+(ZERO,)*min(k,s.n)) if k<s.n else Word((ZERO,)*s.n)
    def ashr(s,k): return Word(s.b[k:]+(s.b[-1],)*min(k,s.n))
    def add(s,o,carry=ZERO):
        r=[]; c=carry
        for a,b in zip(s.b,o.b):
            ab=padd(a,b)
            r.append(padd(ab,c))
            if len(r)<s.n:
                c = padd(pmul(a,b),pmul(c,ab)) if (c or (a and b)) else ZERO
                if len(c)>2000: raise TooBig
        return Word(r)
    def not_(s): return Word(pnot(a) for a in s.b)
    def sub(s,o): return s.add(o.not_(),ONE)
    def zext(s,n): return Word(s.b+(ZERO,)*(n-s.n))
    def sext(s,n): return Word(s.b+(s.b[-1],)*(n-s.n))
    def trunc(s,n): return Word(s.b[:n])
    def atoms(s):
        m=0
        for p in s.b:
            for x in p: m|=x
        return mono_atoms(m)
    def subst(s,m):
        """substitute integer symbols inside atom keys"""
        mp={}
        for a in s.atoms():
            k=Atom.keys[a]; nk,ch=subst_val(k,m) if isinstance(k,tuple) else (k,False)
            if ch: mp[a]=katom(nk)
        if not mp: return s
        return s.map_atoms(mp)
    def map_atoms(s,mp):
        return Word(pmap(p,mp) for p in s.b)
    def iszero(s): return all(not p for p in s.b)
    def __repr__(s):
        c=s.const()
        if c is not None: return hex(c)
        return 'W<'+' '.join(f'{i}:{pstr(p,2)}' for i,p in enumerate(s.b) if p)[:160]+'>'
def pmap(p,mp):
    """apply atom id -> poly map to a polynomial"""
    if not p: return p
    r=ZERO
    for m in p:
        q=ONE; keep=0
        for a in mono_atoms(m):
            if a in mp: q=pmul(q,mp[a])
            else: keep|=1<<a
        if keep: q=pmul(q,frozenset([keep]))
        r=padd(r,q)
    return r
def wconst(v,n=64): return Word(ONE if (v>>i)&1 else ZERO for i in range(n))
def watoms(key,n=64,nb=None):
    """word of fresh named atoms key[i] for the low nb bits"""
    nb=n if nb is None else nb
    return Word([atom(key+(i,)) for i in range(nb)]+[ZERO]*(n-nb))
def ite(c,a,b):
    """bitwise c?a:b for words, c a polynomial"""
    return Word(y if x==y else padd(y,pmul(c,padd(x,y))) for x,y in zip(a.b,b.b))
def reset():
    """drop all interned symbols (between independent obligations)"""
    Sym.ids.clear(); Sym.keys.clear(); Atom.ids.clear(); Atom.keys.clear(); FACT_CACHE.clear(); _fresh[0]=0
