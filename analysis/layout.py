"""Field offsets, read from the type checked headers (never hard coded)."""
import os, subprocess, tempfile, shutil
from ir import Program, LLVM
WIT='''
#include <stddef.h>
#include <m4rie/m4rie.h>
#include <m4rie/blm.h>
#define O(t,f) const unsigned long off__##t##__##f = offsetof(t,f);
#define Z(t) const unsigned long size__##t = sizeof(t);
Z(mzd_t) O(mzd_t,nrows) O(mzd_t,ncols) O(mzd_t,width) O(mzd_t,rowstride) O(mzd_t,offset_vector) O(mzd_t,row_offset) O(mzd_t,flags) O(mzd_t,blockrows_log) O(mzd_t,high_bitmask) O(mzd_t,blocks) O(mzd_t,rows)
Z(mzed_t) O(mzed_t,x) O(mzed_t,finite_field) O(mzed_t,nrows) O(mzed_t,ncols) O(mzed_t,w)
Z(mzd_slice_t) O(mzd_slice_t,x) O(mzd_slice_t,nrows) O(mzd_slice_t,ncols) O(mzd_slice_t,depth) O(mzd_slice_t,finite_field)
Z(gf2e) O(gf2e,degree) O(gf2e,minpoly) O(gf2e,pow_gen) O(gf2e,red) O(gf2e,_mul) O(gf2e,inv) O(gf2e,mul)
Z(mzp_t) O(mzp_t,values) O(mzp_t,length)
Z(njt_mzed_t) O(njt_mzed_t,L) O(njt_mzed_t,M) O(njt_mzed_t,T)
Z(blm_t) O(blm_t,H) O(blm_t,h) O(blm_t,F) O(blm_t,f) O(blm_t,G) O(blm_t,g)
Z(mzd_poly_t) O(mzd_poly_t,x) O(mzd_poly_t,nrows) O(mzd_poly_t,ncols) O(mzd_poly_t,depth)
Z(djb_t) O(djb_t,nrows) O(djb_t,ncols) O(djb_t,target) O(djb_t,source) O(djb_t,srctyp) O(djb_t,length)
const unsigned long djb_source_source = source_source; const unsigned long djb_source_target = source_target;
const unsigned long l2cache = __M4RI_CPU_L2_CACHE;
'''
class Off: pass
def load(repo):
    from ir import Module, lib
    import ctypes as C
    d=tempfile.mkdtemp(prefix='m4rie-lay-')
    try:
        src=os.path.join(d,'wit.c'); open(src,'w').write(WIT)
        out=os.path.join(d,'wit.bc')
        r=subprocess.run([LLVM+'/bin/clang','-c','-emit-llvm','-O0','-DNDEBUG=1','-w','-msse2','-I'+os.path.join(os.path.dirname(os.path.abspath(__file__)),'stub'),'-I'+repo+'/src','-I'+repo,src,'-o',out],capture_output=True,text=True)
        if r.returncode: raise RuntimeError('layout witness does not compile:\n'+r.stderr[:1500])
        class PP: pass
        p=PP(); p.ctx=lib().LLVMContextCreate(); p.gdefs={}
        m=Module(p,out,src)
        o={}; 
        for g in m.globals:
            v=m.init(g)
            if v and v[0]=='c': o[g]=v[1]
        return o
    finally: shutil.rmtree(d,ignore_errors=True)
