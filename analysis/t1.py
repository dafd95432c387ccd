import time,sys
from ir import Program
from model import *
lay=Lay('/repo'); prog=Program('/repo')
def tryone(e,w,sc,rem,case):
    I=Interp(prog,BASE); st=State()
    ff=mk_ff(I,st,lay,e)
    per=64//w
    if case=='one': ncols=L(rem or per); scol=L(sc)
    else:
        q=S('q'); Q=S('Q'); st.facts=st.facts.add_ge(q)
        scol=q*per+sc; ncols=Q*per+rem
        st.facts=st.facts.add_ge(Q-q-(1 if rem==0 else 0)-(0 if case=='any' else 0)).add_ge(ncols-scol-1)
    nr=S('m'); st.facts=st.facts.add_ge(nr-1)
    A=mk_mzed(I,st,lay,'A',ff,e,w,nr,ncols,owned=False); B=mk_mzed(I,st,lay,'B',ff,e,w,nr,ncols,owned=False)
    x=Word([atom(('x',i)) for i in range(e)]+[ZERO]*(64-e))
    t=time.time()
    out=I.run('mzed_add_multiple_of_row',[A,S('ar'),B,S('br'),x,scol],st)
    print(e,w,sc,rem,case,len(out),'states',I.steps,'steps',round(time.time()-t,2))
    for r,t in out:
        data=I.objs[I.objs[I.objs[A.obj].info['x']].info['data']].id
        print('  facts',t.facts, 'zero',{Atom.keys[k]:pstr(v) for k,v in list(t.zero.items())[:2]})
        for l in t.mem[data].layers:
            if isinstance(l,dict):
                for a,v in l.items(): print('    ',a,v)
            else: print('    ',l[0],l[1],l[2],l[3],str(l[4])[:150])
tryone(4,4,3,5,'any')
tryone(8,8,3,5,'any')
