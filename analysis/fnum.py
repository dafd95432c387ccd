"""Witnesses over a field: values for the entries of the initial matrices that satisfy the conditions of a path, and the values of derived forms there."""
import random
from fmats import *
MIN={1:3,2:7,3:11,4:19,5:37,6:67,7:131,8:285,9:529,10:1033,11:2053,12:4179,13:8219,14:16707,15:32771,16:69643}
class GF:
    def __init__(s,e):
        s.e=e; s.m=MIN[e]; s.q=1<<e
    def mul(s,a,b):
        r=0
        while b:
            if b&1: r^=a
            a<<=1
            if a&s.q: a^=s.m
            b>>=1
        return r
    def pw(s,a,n):
        n%=(s.q-1)
        r=1
        while n:
            if n&1: r=s.mul(r,a)
            a=s.mul(a,a); n>>=1
        return r
    def inv(s,a): return s.pw(a,s.q-2) if s.q>2 else a
    def rank(s,M):
        M=[list(r) for r in M]; rk=0
        for c in range(len(M[0]) if M else 0):
            p=next((i for i in range(rk,len(M)) if M[i][c]),None)
            if p is None: continue
            M[rk],M[p]=M[p],M[rk]; v=s.inv(M[rk][c]); M[rk]=[s.mul(v,x) for x in M[rk]]
            for i in range(len(M)):
                if i!=rk and M[i][c]:
                    f=M[i][c]; M[i]=[x^s.mul(f,y) for x,y in zip(M[i],M[rk])]
            rk+=1
        return rk
    def matmul(s,A,B):
        out=[]
        for r in A:
            o=[0]*len(B[0])
            for a,b in zip(r,B):
                if a: o=[x^s.mul(a,y) for x,y in zip(o,b)]
            out.append(o)
        return out
class Val:
    """assignment of values to entries"""
    def __init__(s,I,F): s.I=I; s.F=F; s.v={}; s.memo={}
    def atom(s,a):
        if a[0]=='n':
            if a not in s.memo: s.memo[a]=s.poly(s.I.named[a[1]])
            return s.memo[a]
        if a[0]=='const': return a[1]
        return s.v[a]
    def poly(s,p):
        F=s.F; r=0
        for m in p:
            x=1
            for a,e in m:
                y=s.atom(a)
                if y==0:
                    if e<0: raise ZeroDivisionError
                    x=0; break
                x=F.mul(x,F.pw(y,e))
            r^=x
        return r
def conditions(st):
    """entries and named values known zero / nonzero"""
    z=[]; nz=[]
    for q,v in st.facts.sub.items():
        k=Sym.keys[q]
        if isinstance(k,tuple) and k[0]=='fel' and v==ZL: z.append(frozenset(k[1]))
    return z
def forks(I,st):
    """(polynomial, is it zero) for every decided entry"""
    out=[]
    for e in st.events():
        if e[0]=='eop' and e[2][0]=='frd' and isinstance(e[2][3],Lin) and e[2][3].t:
            k=Sym.keys[e[2][3].t[0][0]]
            if k[0]!='fel': continue
            x=e[2][3]
            if st.facts.eq0(x): out.append((frozenset(k[1]),True))
            elif st.facts.ne0(x): out.append((frozenset(k[1]),False))
    return out
def solve(I,F,st,atoms,rng,tries=60):
    cond=forks(I,st); seen=set(); cond=[c for c in cond if not(c in seen or seen.add(c))]
    def expand(p):
        while len(p)==1:
            (m,)=p
            if len(m)==1 and m[0][0][0]=='n' and m[0][1]==1: p=I.named[m[0][0][1]]
            else: break
        return p
    cond=[(expand(p),z) for p,z in cond]
    for _ in range(tries):
        V=Val(I,F)
        for a in atoms: V.v[a]=rng.randrange(1,F.q)
        try:
            for p,z in cond:
                V.memo={}
                if not z: continue
                if V.poly(p)==0: continue
                done=False
                occ={}
                for m in p:
                    for a,e in m: occ.setdefault(a,[]).append((m,e))
                for a in sorted(occ,key=str,reverse=True):
                    if a[0]!='a' or len(occ[a])!=1 or occ[a][0][1]!=1: continue
                    m=occ[a][0][0]; V.v[a]=1; V.memo={}; cf=V.poly(frozenset([m]))
                    if not cf: continue
                    rest=V.poly(p-{m}); V.v[a]=F.mul(rest,F.inv(cf)); V.memo={}; done=True; break
                if not done: break
            V.memo={}
            if all((V.poly(p)==0)==z for p,z in cond): return V
        except ZeroDivisionError: continue
    return None
