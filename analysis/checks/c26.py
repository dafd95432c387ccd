"""Printed matrices.  Abstract interpretation of the printing functions for matrices of constant sizes with symbolic entries: every output call becomes a
piece of abstract text (characters of the format, conversions of symbolic values), and the whole text must be the one the format documents: one line per
row, every entry of the row once and in order, as the hexadecimal number of its coefficients, all with the same minimal width."""
from rows import *
import re
EXPLANATION=__doc__
RULES=['text: one bracketed line per row, entries in order, separated by blanks','entry: hexadecimal value of all coefficients of the entry','width: the same minimal width for every entry, wide enough for every field element','operands: the matrix keeps its content']
LEVEL='other'
def cstr(I,st,p,ins):
    if not isinstance(p,Ptr) or p.obj==0: raise Undecided('text at '+I.where(ins))
    s=''
    for k in range(400):
        v=I.load(st,p.at(k),I8)
        v=st.norm(v) if isinstance(v,Word) else st.facts.norm(I.to_lin(v))
        c=v.const() if isinstance(v,Word) else v.c if v.isc() else None
        if c is None: raise Undecided('text is not constant at '+I.where(ins))
        if c&255==0: return s
        s+=chr(c&255)
    raise Undecided('text without end')
FMT=re.compile(r'%([-0 +#]*)(\d*|\*)(?:\.\d+)?(hh|h|ll|l|z|j)?([a-zA-Z%])')
def cv(I,st,x,what):
    x=st.norm(x) if isinstance(x,Word) else st.facts.norm(I.to_lin(x))
    c=x.const() if isinstance(x,Word) else x.c if x.isc() else None
    if c is None: raise Undecided(what+' is not constant')
    return c
def pieces(I,st,fmt,args,ins):
    out=[]; at=0; args=list(args)
    for m in FMT.finditer(fmt):
        out+=list(fmt[at:m.start()]); at=m.end(); fl,w,ln,c=m.groups()
        if c=='%': out.append('%'); continue
        if w=='*': w=cv(I,st,args.pop(0),'width')
        if not args: raise Undecided('missing argument at '+I.where(ins))
        v=args.pop(0)
        if c=='s': out+=list(cstr(I,st,v,ins)); continue
        if c=='c': out.append(chr(cv(I,st,v,'character')&255)); continue
        out.append(('num',c,fl,int(w or 0),{'hh':8,'h':16,'l':64,'ll':64,'z':64,'j':64}.get(ln,32),v))
    return out+list(fmt[at:])
def prims(write):
    def emit(I,st,ps):
        for x in ps: st.event('out',x)
    def other(x): return 'stderr' in repr(x)
    def printf(k):
        def f(I,st,args,ins,name):
            if not(k and other(args[0])): emit(I,st,pieces(I,st,cstr(I,st,args[k],ins),args[k+1:],ins))
            return [(L(1),st)]
        return f
    def put(nl):
        def f(I,st,args,ins,name):
            if not(len(args)>1 and other(args[1])): emit(I,st,list(cstr(I,st,args[0],ins))+(['\n'] if nl else []))
            return [(L(1),st)]
        return f
    def putc(I,st,args,ins,name):
        if not(len(args)>1 and other(args[1])): emit(I,st,[chr(cv(I,st,args[0],'character')&255)])
        return [(L(1),st)]
    def sprintf(k):
        def f(I,st,args,ins,name):
            ps=pieces(I,st,cstr(I,st,args[k],ins),args[k+1:],ins); s=''
            for x in ps:
                if isinstance(x,str): s+=x
                elif x[1] in'diu': s+=('%'+x[2]+(str(x[3]) if x[3] else '')+'d')%cv(I,st,x[5],'number')
                else: raise Undecided('text built at run time at '+I.where(ins))
            if k==2: s=s[:max(cv(I,st,args[1],'length')-1,0)]
            d=args[0]
            for i,c in enumerate(s+'\0'): I.store(st,d.at(i),L(ord(c)),1,ins)
            return [(L(len(s)),st)]
        return f
    return {'printf':printf(0),'fprintf':printf(1),'puts':put(True),'fputs':put(False),'putchar':putc,'putc':putc,'fputc':putc,'sprintf':sprintf(1),'snprintf':sprintf(2),'fflush':lambda I,st,a,i,n:[(L(0),st)]}
def run_print(ctx,res,fmt,e,m,n):
    fn='mzed_print' if fmt=='p' else 'mzd_slice_print'; F=ctx.prog.func(fn); loc=F.file+':'+fn
    I=Interp(ctx.prog,{**BASE,**mk_prims(ctx.lay),**prims(None)}); I.lay=ctx.lay; I.unroll_max=4096; st=State(); w=w_of(e)
    ff=mk_ff(I,st,ctx.lay,e)
    if fmt=='p': A=mk_mzed(I,st,ctx.lay,'A',ff,e,w,L(m),L(n))
    else: A=mk_slice(I,st,ctx.lay,'A',ff,e,L(m),L(n))
    out=I.run(fn,[A],st); res.absorb(I)
    if not out: raise Undecided('no returning path')
    what=f'{fn} of a {m}x{n} matrix, degree {e}'
    def bit(i,j,k):
        if fmt=='p': c=j*w+k; return atom(('m','A.x',L(i),L(c//64),c%64))
        return atom(('m',f'A.x{k}',L(i),L(j//64),j%64))
    for r,t in out:
        toks=[x[1] for x in t.events() if x[0]=='out']; pos=0; width=None; i=j=0
        def bad(rule,msg): res.viol.append(Violation(loc,rule,f'{what}: {msg}'))
        want=[]
        for i in range(m):
            want.append('[')
            for j in range(n): want+=([' '] if j else [])+[(i,j)]
            want+=[']','\n']
        for k,x in enumerate(want):
            res.n+=1
            if k>=len(toks): bad('text',f'the text ends before {"entry (%d,%d)"%x if isinstance(x,tuple) else repr(x)}'); return
            g=toks[k]
            if isinstance(x,str):
                if g!=x: bad('text',f'after {k} pieces comes {"an entry" if not isinstance(g,str) else repr(g)}, must be {x!r}'); return
                continue
            if isinstance(g,str): bad('text',f'instead of entry {x} comes {g!r}'); return
            _,c,fl,wd,nb,v=g; wd=max(wd,1)
            if c!='x' or '#' in fl or wd>1 and ('0' in fl or '-' in fl): bad('entry',f'entry {x} is printed with conversion {c}'); return
            if width is None: width=wd
            if wd!=width or wd<-(-e//4): bad('width',f'entry {x} is printed with minimal width {wd}'); return
            W=t.norm(I.to_word(v,nb) if not isinstance(v,Word) else v); B=list(W.b)[:nb]+[ZERO]*(64-len(list(W.b)[:nb]))
            spec=[bit(*x,q) for q in range(e)]+[ZERO]*(64-e)
            for q in range(64):
                if B[q]!=spec[q]:
                    if any(isinstance(y,tuple) and y[0]!='m' for y in patoms(B[q])): raise Undecided(f'entry {x} bit {q}')
                    bad('entry',f'entry {x}: bit {q} of the printed number is {pstr(B[q],3)}, must be {pstr(spec[q],3)}'); return
        if len(toks)>len(want): bad('text',f'{len(toks)-len(want)} more pieces are printed'); return
        for d in ([I.objs[I.objs[A.obj].info['x']]] if fmt=='p' else [I.objs[y] for y in I.objs[A.obj].info['xs']]):
            res.n+=1
            if [l for l in t.mem[d.info['data']].layers if l!={}]: bad('operands','the matrix is modified'); return
def obligations(ctx):
    return [Ob('printed text',f'{"mzed_print" if f=="p" else "mzd_slice_print"} degree {e} {m}x{n}',run_print,(f,e,m,n),('mzed_print' if f=='p' else 'mzd_slice_print',)) for f in'ps' for e in range(2,17) for m,n in((0,0),(0,3),(2,0),(1,1),(3,2),(2,5),(1,33),(2,65))]
