"""Effect analysis over the whole call graph: every writable module level or function static object of the library is enumerated and every
use of its address is followed (address arithmetic, phi, select, calls with the address as argument); no store, memory intrinsic or atomic may
reach it.  For every exported function the set of external functions reachable through direct and indirect calls is computed and must be free
of sources of hidden state or non-determinism; only the randomize functions may draw random numbers."""
from driver import *
from effects import Graph
EXPLANATION=__doc__
RULES=['no-mutable-global: no instruction reachable in the library writes an object with static storage','deterministic: no reachable external call reads clock, environment, process state or a random source, except from the randomize functions']
DENY={'time','clock','clock_gettime','gettimeofday','getenv','secure_getenv','getpid','getppid','gettid','rdrand','getrandom','strtok','setlocale','signal','sigaction','atexit','setenv','putenv','srand','srandom','srand48','times','getrusage','sched_getcpu','pthread_self','localtime','gmtime','tmpfile','fopen','open','read','write','system','fork'}
RAND={'rand','random','drand48','lrand48','mrand48','rand_r','random_r','mzd_randomize','arc4random'}
def derived_uses(F,seed_pred):
    """fixpoint of values of F derived from pointers matching seed_pred(op)"""
    dv=set(); ch=True
    def isd(o): return isinstance(o,tuple) and ((o[0]=='v' and o[1] in dv) or seed_pred(o) or (o[0]=='ce' and any(isd(z) for z in o[2])))
    while ch:
        ch=False
        for b in F.blocks:
            for I in b.instrs:
                if I.id is None or I.id in dv: continue
                src=[]
                if I.op in('gep','bitcast','addrspacecast','ptrtoint','inttoptr','freeze'): src=I.ops[:1]
                elif I.op=='phi': src=list(I.x.values())
                elif I.op=='select': src=I.ops[1:]
                elif I.op in('add','sub','and','or'): src=I.ops
                if any(isd(o) for o in src): dv.add(I.id); ch=True
    return isd
def writes(g,k,pred,seen,depth=0):
    """(loc) of writes through pointers matching pred, following calls; returns (list of locations, escapes)"""
    F=g.funcs[k]; isd=derived_uses(F,pred); out=[]; esc=[]
    for b in F.blocks:
        for I in b.instrs:
            if I.op=='store':
                if isd(I.ops[1]): out.append(F.loc(I))
                elif isd(I.ops[0]): esc.append(F.loc(I))
            elif I.op in('atomicrmw','cmpxchg') and isd(I.ops[0]): out.append(F.loc(I))
            elif I.op=='ret' and I.ops and isd(I.ops[0]): esc.append(F.loc(I))
            elif I.op=='call':
                c=I.x
                for n,o in enumerate(I.ops):
                    if not isd(o): continue
                    if c and c[0]=='fn' and c[1].startswith('llvm.'):
                        if c[1].startswith(('llvm.memset','llvm.memcpy','llvm.memmove')) and n==0: out.append(F.loc(I))
                        continue
                    t=None
                    if c and c[0]=='fn':
                        t=(F.mod,c[1]) if c[1] in F.mod.funcs else ((g.p.fdefs[c[1]].mod,c[1]) if c[1] in g.p.fdefs else None)
                    if t is None or depth>6: esc.append(F.loc(I)); continue
                    if (t,n) in seen: continue
                    seen.add((t,n)); par=g.funcs[t].params[n]
                    a,b2=writes(g,t,lambda o,par=par:o==('v',par),seen,depth+1)
                    out+=a; esc+=b2
    return out,esc
_g={}
def graph(ctx):
    if id(ctx) not in _g: _g.clear(); _g[id(ctx)]=Graph(ctx.prog)
    return _g[id(ctx)]
def run_global(ctx,res,modi,name):
    g=graph(ctx); m=ctx.prog.mods[modi]; n=0
    for k,F in g.repo_funcs(ctx.repo).items():
        pred=lambda o:o==('g',name)
        if m.globals[name]['linkage'] in(8,9) and F.mod is not m: continue
        o,e=writes(g,k,pred,set()); n+=1; res.fn.add(k[1])
        for loc in o: res.viol.append(Violation(loc,'no-mutable-global',f'{loc} writes the static object {name}: the result of a call can depend on earlier calls or on another thread'))
    res.n+=max(n,1)
def run_fn(ctx,res,names):
    g=graph(ctx)
    for m,n in names:
        k=(ctx.prog.mods[m],n); res.n+=1; res.fn.add(n); F=g.funcs[k]
        rnd='randomize' in n or 'random' in n or 'coin_flip' in n
        for deny,what in ((DENY,'hidden state'),(set() if rnd else RAND,'a random source')):
            path=g.path_to(k,lambda x:any(y in deny for y in g.ext.get(x,{})))
            if path:
                last=[x for x in g.reach(k) if any(y in deny for y in g.ext.get(x,{}))][0]
                ext=[y for y in g.ext[last] if y in deny][0]
                loc=g.funcs[last].loc(g.ext[last][ext][0])
                res.viol.append(Violation(loc,'deterministic',f'{n} reaches {ext} ({what}) through '+' > '.join(path)))
        for b in F.blocks:
            for I in b.instrs:
                if I.op=='call' and I.x and I.x[0]=='asm': res.und.append('inline assembly in '+n)
def obligations(ctx):
    g=graph(ctx); obs=[]
    for i,m in enumerate(ctx.prog.mods):
        if not m.src.startswith(os.path.join(ctx.repo,'src')) and not m.src.endswith('inlines.c'): continue
        for n,x in m.globals.items():
            if x['const'] or x['decl']: continue
            obs.append(Ob('static objects',f'{os.path.basename(m.src)}:{n}',run_global,(i,n)))
    names={}
    for k,F in g.funcs.items():
        src=k[0].src
        if src.startswith(os.path.join(ctx.repo,'src')) or src.endswith('inlines.c'): names.setdefault(k[1],(ctx.prog.mods.index(k[0]),k[1]))
    ns=sorted(names.values(),key=lambda x:x[1])
    for i in range(0,len(ns),10): obs.append(Ob('reachable externals',ns[i][1]+'..',run_fn,(ns[i:i+10],)))
    obs[0].need=('mzed_mul','mzed_echelonize','gf2e_init','mzd_slice_mul')
    return obs
