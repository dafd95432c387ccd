"""shared set-up for checks on the packed row kernels"""
from driver import *
from content import *
from model import *

def lane_word(init,w,lanes,f):
    """replace the given lanes of word init by f(lane, bits)"""
    b=list(init.b)
    for l in lanes:
        v=f(l)
        b[l*w:(l+1)*w]=list(v.b[:w])
    return Word(b)
def elem(word,w,l):
    """lane l as a field element word"""
    return Word(tuple(word.b[l*w:(l+1)*w])+(ZERO,)*(64-w))
def mat_word(name,row,om,w,e):
    """initial content atoms of the packed matrix `name`"""
    return Word([atom(('m',name,row,om,b)) if b%w<e else ZERO for b in range(64)])
def field_elem(name,e):
    return Word([atom((name,i)) for i in range(e)]+[ZERO]*(64-e))
def w_of(e): return 2 if e==2 else 4 if e<=4 else 8 if e<=8 else 16

def report(res,I,fname,ctx,bad,rule,sites):
    F=ctx.prog.func(fname)
    for m in bad:
        wit=witness(m.st.facts,[m.row,m.om])
        where=f'{F.file}:{fname}'
        txt=f'{m.msg}: row {m.row}, word {m.om}: stored {diffstr(m.got,m.want)}; written at {", ".join(sorted(sites)[:6]) or "nowhere"}; under {m.st.facts}'
        if m.definite and wit is not None: res.viol.append(Violation(where,rule,txt,wit))
        else: res.und.append(('inconclusive: ' if not m.definite else 'no witness: ')+txt[:260])
def diffstr(a,b):
    for i,(p,q) in enumerate(zip(a.b,b.b)):
        if p!=q: return f'bit {i} is {pstr(p,3)}, must be {pstr(q,3)}'
    return '?'
def data_of(I,p): 
    """storage object of an mzed/mzd abstract matrix"""
    o=I.objs[p.obj]
    if 'x' in o.info: o=I.objs[o.info['x']]
    return o.info['data']
def track_sites(I):
    sites={}
    def h(I,st,oid,addr,size,v,ins): sites.setdefault(oid,set()).add(I.where(ins))
    I.on_store=h
    return sites
