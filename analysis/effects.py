"""Call graph and effect queries over the IR."""
import os
class Graph:
    def __init__(s,prog):
        s.p=prog; s.funcs={}            # key (module,name) -> Func
        s.taken=set()
        s.edges={}; s.ext={}; s.indirect={}
        for m in prog.mods:
            for n,F in m.funcs.items():
                m.build(F); s.funcs[(m,n)]=F
        def key(m,n):
            if n in m.funcs: return (m,n)
            F=prog.fdefs.get(n)
            return (F.mod,n) if F else None
        for k,F in s.funcs.items():
            e=set(); x={}; ind=[]
            for b in F.blocks:
                for I in b.instrs:
                    ops=list(I.ops or ())
                    if I.op=='call':
                        c=s.callee(I)
                        if c and c[0]=='fn':
                            if not c[1].startswith('llvm.'):
                                t=key(F.mod,c[1])
                                if t: e.add(t)
                                else: x.setdefault(c[1],[]).append(I)
                        else: ind.append(I)
                    for o in ops: s.scan(o,F,key)
                    if I.op=='phi':
                        for o in I.x.values(): s.scan(o,F,key)
            s.edges[k]=e; s.ext[k]=x; s.indirect[k]=ind
        for k in list(s.edges):
            if s.indirect[k]: s.edges[k]=s.edges[k]|{t for t in s.taken if t}
    def scan(s,o,F,key):
        if isinstance(o,tuple):
            if len(o)>=2 and o[0]=='fn': s.taken.add(key(F.mod,o[1]))
            elif o and o[0]=='ce':
                for z in o[2]: s.scan(z,F,key)
    def callee(s,I): return I.x
    def reach(s,k):
        out=[k]; seen={k}
        for x in out:
            for y in s.edges.get(x,()):
                if y not in seen: seen.add(y); out.append(y)
        return out
    def repo_funcs(s,repo):
        return {k:F for k,F in s.funcs.items() if k[0].src.startswith(os.path.join(repo,'src'))}
    def path_to(s,k,pred):
        prev={k:None}; q=[k]
        for x in q:
            if pred(x):
                out=[]
                while x is not None: out.append(x[1]); x=prev[x]
                return out[::-1]
            for y in sorted(s.edges.get(x,()),key=lambda z:z[1]):
                if y not in prev: prev[y]=x; q.append(y)
        return None
