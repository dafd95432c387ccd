"""Effect analysis over the whole call graph: for every exported function the set of external output routines reachable through direct and
indirect calls is computed; only functions whose purpose is printing may reach one."""
from driver import *
from c11 import graph
EXPLANATION=__doc__
RULES=['quiet: no function other than the printing functions reaches a terminal or file output routine']
OUT={'printf','puts','putchar','putc','fputc','fputs','fprintf','vprintf','vfprintf','fwrite','write','perror','dprintf','puts_unlocked','putchar_unlocked','_IO_putc','mzd_fprint_row','mzd_print','mzd_fprint','djb_print','__printf_chk','__fprintf_chk','psignal','error','warn','warnx','syslog'}
def printer(n): return any(x in n for x in('print','info','debug_dump'))
def run_fn(ctx,res,names):
    g=graph(ctx)
    for m,n in names:
        k=(ctx.prog.mods[m],n); res.n+=1; res.fn.add(n)
        path=g.path_to(k,lambda x:any(y in OUT for y in g.ext.get(x,{})))
        if path:
            last=[x for x in g.reach(k) if any(y in OUT for y in g.ext.get(x,{}))][0]
            ext=[y for y in g.ext[last] if y in OUT][0]
            loc=g.funcs[last].loc(g.ext[last][ext][0])
            res.viol.append(Violation(loc,'quiet',f'{n} reaches the output routine {ext} through '+' > '.join(path)))
def obligations(ctx):
    g=graph(ctx); obs=[]; names={}
    for k,F in g.funcs.items():
        if printer(k[1]) or k[1].startswith('m4ri_die'): continue
        src=k[0].src
        if src.startswith(os.path.join(ctx.repo,'src')): names.setdefault(k[1],(ctx.prog.mods.index(k[0]),k[1]))
    ns=sorted(names.values(),key=lambda x:x[1])
    for i in range(0,len(ns),10): obs.append(Ob('quiet functions',ns[i][1]+'..',run_fn,(ns[i:i+10],)))
    obs[0].need=('mzed_mul','mzed_echelonize','gf2e_init','mzd_slice_mul')
    return obs
