"""Typestate of locally created objects over the control flow graph of one function, bottom up over the call graph.

An allocation site is followed along every path of the graph (phis resolved by the edge taken, branches on constants, on null tests of the object
and on conditions already decided on the path are pruned; nothing is solved).  States: live, released, escaped (stored, returned, kept by a callee).
Summaries of callees: what a call returns (new object / one of its arguments), which arguments it releases, which it keeps."""
NEW={'mzd_init':'mzd','mzd_init_window':'mzd','mzd_init_window_const':'mzd','mzp_init':'mzp','mzp_init_window':'mzp','m4ri_mm_malloc':'mem','m4ri_mm_calloc':'mem','m4ri_mm_malloc_aligned':'mem','malloc':'mem','calloc':'mem','djb_init':'djb','djb_compile':'djb','m4ri_mmc_malloc':'mem'}
NEW0={k:'mzd' for k in('mzd_copy','mzd_submatrix','mzd_transpose','mzd_mul','mzd_mul_naive','mzd_mul_m4rm','mzd_mul_va','mzd_add','mzd_concat','mzd_stack','mzd_inv_m4ri','mzd_invert_naive','mzd_addmul','_mzd_add','_mzd_mul','_mzd_addmul','_mzd_transpose','mzd_extract_u','mzd_extract_l')}
NEW0['mzp_copy']='mzp'
FREE={'mzd_free':'mzd','mzd_free_window':'mzd','mzp_free':'mzp','mzp_free_window':'mzp','m4ri_mm_free':'mem','free':'mem','djb_free':'djb','m4ri_mmc_free':'mem'}
STOP={'m4ri_die','exit','abort','__assert_fail','_exit','_m4ri_die'}
class Limit(Exception): pass
class Flow:
    def __init__(s,prog): s.prog=prog; s.sum={}; s.busy=set()
    def callee(s,F,i):
        if i.x[0]!='fn': return None,None
        G=s.prog.resolve(F.mod,i.x[1])
        return i.x[1],G
    def summary(s,G):
        k=(G.mod.path,G.name)
        if k in s.sum: return s.sum[k]
        if k in s.busy: return {'ret':set(),'free':{},'keep':set(),'stops':False}
        s.busy.add(k)
        r={'ret':set(),'free':{},'keep':set(),'stops':False}
        try:
            for pi,p in enumerate(G.params):
                if G.pty[pi].k!='ptr': continue
                try: ends=s.follow(G,p,None)
                except Limit: r['keep'].add(pi); continue
                fr=[e for e in ends if e[0]=='end']
                st={e[1] for e in fr}
                if 'esc' in st or any(e[2] for e in fr): r['keep'].add(pi) if any(e[4] for e in fr) else None
                if any(e[3] for e in fr): r['ret'].add(pi)
                if 'freed' in st: r['free'][pi]='must' if st=={'freed'} else 'may'
                kinds={e[5] for e in fr if e[1]=='freed'}
                if 'freed' in st and None not in kinds and len(kinds)==1: r.setdefault('kind',{})[pi]=kinds.pop()
            new=set(); stored=False
            for b in G.blocks:
                for i in b.instrs:
                    k0=s.creates(G,i,{})
                    if k0:
                        try: ends=s.follow(G,i.id,b.i,i)
                        except Limit: continue
                        if any(e[0]=='end' and e[3] for e in ends): new.add(k0)
                        elif any(e[0]=='end' and e[4] for e in ends): stored=True
            if new and G.ret.k=='ptr': r['ret'].add('new'); r['class']=new.pop() if len(new)==1 and not stored else G.name
        finally: s.busy.discard(k)
        s.sum[k]=r; return r
    def creates(s,F,i,env):
        """class of the new object when the call certainly returns one"""
        if i.op!='call': return None
        n,G=s.callee(F,i)
        if n is None: return None
        def null(o): return o==('null',) or o[0]=='v' and env.get(o[1])==('null',)
        if n in FREE or n in STOP: return None
        if G is None or n in NEW:
            if n in NEW: return NEW[n]
            if n in NEW0 and null(i.ops[0]): return NEW0[n]
            return None
        if n in NEW0: return NEW0[n] if null(i.ops[0]) else None
        R=s.summary(G)['ret']
        if 'new' in R and all(x=='new' or x<len(i.ops) and null(i.ops[x]) for x in R): return s.summary(G).get('class',n)
        return None
    def follow(s,F,x,b0,ins=None,limit=20000):
        """ends: ('end', status, escaped, returned, kept, kind, line) / ('viol', rule, text, line)"""
        ends=set(); seen=set()
        start=0
        todo=[]
        if b0 is None: todo.append((0,0,None,'live',False,False,None,frozenset({(x,'X')}),frozenset()))
        else:
            k=[q.id for q in F.blocks[b0].instrs].index(ins.id)
            todo.append((b0,k+1,None,'live',False,False,None,frozenset({(x,'X')}),frozenset()))
        n=0
        while todo:
            b,k,pred,st,esc,kept,kind,env,asm=todo.pop()
            key=(b,k,pred,st,esc,kept,kind,env,asm)
            if key in seen: continue
            seen.add(key); n+=1
            if n>limit: raise Limit()
            B=F.blocks[b]; E=dict(env); A=dict(asm)
            def val(o):
                if o[0]=='v': return E.get(o[1],o)
                return o
            stop=False
            if k==0 and pred is not None:
                new={}
                for i in B.instrs:
                    if i.op!='phi': break
                    v=val(i.x[pred]); new[i.id]=v if v in('X','D') or v[0] in('c','null') and s.flag(F,i) else None
                for q,v in new.items():
                    if v is None: E.pop(q,None)
                    else: E[q]=v
                ids={i.id for i in B.instrs}
                A={c:t for c,t in A.items() if not any(o[0]=='v' and o[1] in ids for o in c[1:])}
                for i in B.instrs:
                    if i.op!='phi' and E.get(i.id) is not None and E[i.id] not in('X',): E.pop(i.id,None)
            for i in B.instrs[k:]:
                if i.op=='phi': continue
                if ins is not None and i is ins:
                    # the next object is created here
                    if st=='live' and not esc and not kept: ends.add(('viol','release',f'is created again before it is released',i.line))
                    stop=True; break
                if i.op in('gep','bitcast'):
                    if val(i.ops[0]) in('X','D'): E[i.id]='D'
                elif i.op=='select':
                    vs=[val(o) for o in i.ops[1:]]
                    if 'X' in vs: esc=True; kept=True
                elif i.op=='load':
                    if val(i.ops[0]) in('X','D') and st=='freed': ends.add(('viol','use','is read after its release',i.line)); stop=True; break
                elif i.op=='store':
                    if val(i.ops[1]) in('X','D') and st=='freed': ends.add(('viol','use','is written after its release',i.line)); stop=True; break
                    if val(i.ops[0])=='X': esc=True; kept=True
                elif i.op=='icmp':
                    a,c=val(i.ops[0]),val(i.ops[1])
                    if 'X' in(a,c) and ('null',) in(a,c): E[i.id]=('c',1 if i.x=='ne' else 0,1)
                    elif a[0]=='null' and c[0]=='null': E[i.id]=('c',1 if i.x=='eq' else 0,1)
                    elif a[0]=='c' and c[0]=='c' and i.x in('eq','ne','slt','sgt','sle','sge'):
                        r={'eq':a[1]==c[1],'ne':a[1]!=c[1],'slt':a[1]<c[1],'sgt':a[1]>c[1],'sle':a[1]<=c[1],'sge':a[1]>=c[1]}[i.x]; E[i.id]=('c',int(r),1)
                elif i.op=='ret':
                    r=bool(i.ops) and val(i.ops[0])=='X'
                    if r and st=='freed': ends.add(('viol','use','is returned after its release',i.line)); stop=True; break
                    ends.add(('end',st,esc or r,r,kept,kind,i.line)); stop=True; break
                elif i.op=='unreachable': stop=True; break
                elif i.op in('ptrtoint',):
                    if val(i.ops[0])=='X': esc=True; kept=True
                elif i.op=='call':
                    nm,G=s.callee(F,i); vs=[val(o) for o in i.ops]
                    if nm in STOP: stop=True; break
                    idx=[q for q,v in enumerate(vs) if v=='X']; der=any(v=='D' for v in vs)
                    if (idx or der) and st=='freed':
                        if nm in FREE and idx: ends.add(('viol','use','is released twice',i.line))
                        elif nm is not None and not nm.startswith('llvm.'): ends.add(('viol','use',f'is used by {nm} after its release',i.line))
                        stop=True; break
                    if not idx: continue
                    if nm is None: esc=True; kept=True; continue
                    if nm in FREE: st='freed'; kind=FREE[nm]; continue
                    if G is not None:
                        m=s.summary(G)
                        for q in idx:
                            if m['free'].get(q)=='must': st='freed'; kind=nm
                            elif m['free'].get(q): esc=True; kept=True
                            elif q in m['keep']: esc=True; kept=True
                            if q in m['ret']: 
                                if m['ret']=={q} or m['ret']=={q,'new'}: E[i.id]='X'
                                else: esc=True; kept=True
                    elif nm in NEW0:
                        if idx==[0] or 0 in idx: E[i.id]='X'
            if stop: continue
            T=B.instrs[-1]
            if T.op=='br' and T.ops:
                c=T.ops[0]; v=val(c); ck=None
                if v[0]=='c': outs=[(B.succs[0] if v[1]&1 else B.succs[1],None)]
                else:
                    ck=s.cond(F,c); outs=[(B.succs[0],1),(B.succs[1],0)]
                    if ck is not None and ck[0] in A: outs=[(B.succs[0],1)] if A[ck[0]]==ck[1] else [(B.succs[1],0)]
                E={a:q for a,q in E.items() if a not in s.cmps(F)}
                for t,d in outs:
                    A2=dict(A)
                    if d is not None and ck is not None and s.again(F,ck[0])>1: A2[ck[0]]=ck[1] if d else 1-ck[1]
                    todo.append((t,0,b,st,esc,kept,kind,frozenset((a,q) for a,q in E.items()),frozenset(A2.items())))
            else:
                for t in B.succs: todo.append((t,0,b,st,esc,kept,kind,frozenset(E.items()),frozenset(A.items())))
        return ends
    def cond(s,F,c):
        """canonical form of a comparison with parameters and constants only: (key, polarity)"""
        if c[0]!='v': return None
        d=s.defs(F).get(c[1])
        if d is None or d.op!='icmp': return None
        if not all(o[0] in('c','null') or o[0]=='v' and (o[1] in F.params or True) for o in d.ops): return None
        neg={'ne':'eq','sge':'slt','sle':'sgt','uge':'ult','ule':'ugt'}
        p=d.x
        if p in neg: return ((neg[p],)+tuple(map(tuple,d.ops)),0)
        return ((p,)+tuple(map(tuple,d.ops)),1)
    def flag(s,F,i):
        return all(v[0] in('c','null') or v[0]=='v' and v[1] in s.defs(F) and s.defs(F)[v[1]].op in('phi','call') for v in i.x.values())
    def cmps(s,F):
        s.defs(F); return s._c[(F.mod.path,F.name)]
    def again(s,F,k):
        q=(F.mod.path,F.name)
        if q not in s._n:
            n={}
            for b in F.blocks:
                T=b.instrs[-1]
                if T.op=='br' and T.ops:
                    c=s.cond(F,T.ops[0])
                    if c: n[c[0]]=n.get(c[0],0)+1
            s._n[q]=n
        return s._n[q].get(k,0)
    def defs(s,F):
        if not hasattr(s,'_d'): s._d={}; s._c={}; s._n={}
        q=(F.mod.path,F.name)
        if q not in s._d: s._d[q]={i.id:i for b in F.blocks for i in b.instrs}; s._c[q]={i.id for i in s._d[q].values() if i.op=='icmp'}
        return s._d[q]
    def judge(s,F):
        """-> (sites, violations[(line, rule, text)], undecided)"""
        out=[]; und=[]; n=0
        for b in F.blocks:
            for i in b.instrs:
                k=s.creates(F,i,{})
                if not k: continue
                n+=1; nm=i.x[1]
                try: ends=s.follow(F,i.id,b.i,i)
                except Limit: und.append(f'{F.name}:{i.line}: too many paths'); continue
                for e in sorted(ends,key=str):
                    if e[0]=='viol': out.append((i.line,e[1],f'the object that {nm} creates in line {i.line} {e[2]} (line {e[3]})'))
                    else:
                        _,st,esc,ret,kept,kind,line=e
                        if st=='live' and not esc and not kept: out.append((i.line,'release',f'the object that {nm} creates in line {i.line} is not released on a path to the return in line {line}'))
                        if st=='freed' and kind in('mem',) and k!='mem': out.append((i.line,'release',f'the object that {nm} creates in line {i.line} is released only in part'))
        return n,out,und
if __name__=='__main__':
    import sys; from ir import Program
    P=Program(sys.argv[1] if len(sys.argv)>1 else '/repo'); W=Flow(P); tot=0; done=set()
    for m in P.mods:
        for nm in m.funcs:
            F=P.func(nm,m)
            if F.file.startswith(('mzd.h',)) : pass
            if (F.file,nm) in done: continue
            done.add((F.file,nm))
            n,o,u=W.judge(F); tot+=n
            for x in o: print(F.file,nm,x)
            for x in u: print('UND',F.file,x)
    print(tot,'sites',len(done))
    for q in('mzed_init','mzed_copy','mzed_free','njt_mzed_free','mzd_slice_free','_mzed_mul_init','mzed_slice','mzd_poly_free','blm_free','crt_init','mzd_poly_init'):
        G=P.func(q); print(q,W.summary(G) if G else None)
