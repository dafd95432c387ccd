"""Constant analysis of the initialisers of the polynomial tables: for every degree the entry of the index table is resolved to its constant
array, its leading count is compared with the array extent and with the number of irreducible polynomials of that degree (Gauss), and every listed
constant is checked for its degree, for distinctness and order, and for irreducibility (Rabin's criterion on the constant)."""
from driver import *
EXPLANATION=__doc__
RULES=['count: first word = number of listed polynomials = number of irreducible polynomials of the degree','member: every listed word is an irreducible polynomial of exactly that degree','distinct: strictly increasing']
def pmod(a,m):
    d=m.bit_length()
    while a.bit_length()>=d: a^=m<<(a.bit_length()-d)
    return a
def pmul_(a,b,m):
    r=0
    while b:
        if b&1: r^=a
        b>>=1; a<<=1
    return pmod(r,m)
def gcd_(a,b):
    while b: a,b=b,pmod(a,b)
    return a
def primes(n): return [q for q in range(2,n+1) if n%q==0 and all(q%r for r in range(2,q))]
def irreducible(p):
    d=p.bit_length()-1
    if d<1: return False
    if d==1: return True
    x=2; y=x; pw=[x]
    for i in range(d): y=pmul_(y,y,p); pw.append(y)
    if pw[d]!=pmod(x,p): return False
    return all(gcd_(p,pw[d//q]^x)==1 for q in primes(d))
def mobius(n):
    r=1
    for q in primes(n):
        if n%(q*q)==0: return 0
        r=-r
    return r
def necklaces(d): return sum(mobius(k)*2**(d//k) for k in range(1,d+1) if d%k==0)//d
def table(ctx,name):
    for m in ctx.prog.mods:
        g=m.globals.get(name)
        if g and not g['decl']:
            return m,m.const(__import__('ir').lib().LLVMGetInitializer(g['ref']))
    return None,None
def run_deg(ctx,res,d):
    m,idx=table(ctx,'irreducible_polynomials')
    if idx is None: res.und.append('table not found'); return
    if idx[0]!='agg' or d>=len(idx[1]): res.viol.append(Violation('gf2e.c:irreducible_polynomials','count',f'no entry for degree {d}')); return
    e=idx[1][d]
    if e[0]=='null': res.viol.append(Violation('gf2e.c:irreducible_polynomials','count',f'entry {d} is NULL')); return
    if e[0]!='g': res.und.append('entry is not the address of an array'); return
    m2,arr=table(ctx,e[1])
    if arr is None or arr[0]!='agg': res.und.append('array not found'); return
    w=[x[1]&(2**64-1) for x in arr[1]]; where=f'gf2e.c:{e[1]}'
    cnt=w[0]; res.n+=1
    if cnt!=necklaces(d): res.viol.append(Violation(where,'count',f'degree {d}: count word is {cnt}, there are {necklaces(d)} irreducible polynomials'))
    if len(w)<cnt+1: res.viol.append(Violation(where,'count',f'degree {d}: count word {cnt} exceeds the array extent {len(w)-1}'))
    seen=set()
    for i,p in enumerate(w[1:1+cnt],1):
        res.n+=1
        if p.bit_length()-1!=d or not irreducible(p): res.viol.append(Violation(f'{where}[{i}]','member',f'{p:#x} is not an irreducible polynomial of degree {d}'))
        if p in seen: res.viol.append(Violation(f'{where}[{i}]','distinct',f'{p:#x} is listed twice'))
        seen.add(p)
    if w[1:1+cnt]!=sorted(w[1:1+cnt]): res.viol.append(Violation(where,'distinct',f'degree {d}: entries are not increasing'))
def obligations(ctx):
    if table(ctx,'irreducible_polynomials')[1] is None: return []
    return [Ob('table',f'degree {d}',run_deg,(d,),need=('gf2e_init',),cost=2**d) for d in range(1,17)]
