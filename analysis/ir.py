"""Front end: compile every C unit of the library to LLVM IR and expose it as
plain Python structures.  Nothing is executed; clang and the LLVM C API are used
only as a parser / type checker."""
import ctypes as C, glob, hashlib, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

LLVM = "/usr/lib/llvm-18"
_L = None
OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
 26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
 37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',66:'fneg',68:'freeze'}
PRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FPRED = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
P = C.c_void_p

def lib():
    global _L
    if _L is not None: return _L
    L = C.CDLL(glob.glob(LLVM + "/lib/libLLVM-18.so*")[0])
    def d(name, res, *args):
        f = getattr(L, name); f.restype = res; f.argtypes = list(args)
    u = C.c_uint
    for n in """LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstGlobal LLVMGetNextGlobal LLVMGetFirstBasicBlock
      LLVMGetNextBasicBlock LLVMGetFirstInstruction LLVMGetNextInstruction LLVMTypeOf LLVMGetAllocatedType
      LLVMGetGEPSourceElementType LLVMGetCalledValue LLVMGetFirstParam LLVMGetNextParam LLVMGetInitializer
      LLVMGetElementType LLVMGetReturnType LLVMGlobalGetValueType LLVMBasicBlockAsValue LLVMGetModuleDataLayout LLVMGetCondition""".split():
        d(n, P, P)
    d('LLVMGetOperand', P, P, u); d('LLVMGetNumOperands', C.c_int, P); d('LLVMGetInstructionOpcode', u, P)
    d('LLVMGetConstOpcode', u, P); d('LLVMGetValueKind', u, P); d('LLVMGetTypeKind', u, P)
    d('LLVMGetIntTypeWidth', u, P); d('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
    d('LLVMConstIntGetSExtValue', C.c_longlong, P)
    d('LLVMGetICmpPredicate', u, P); d('LLVMGetFCmpPredicate', u, P)
    d('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
    d('LLVMIsDeclaration', C.c_int, P); d('LLVMGetLinkage', u, P); d('LLVMIsGlobalConstant', C.c_int, P)
    d('LLVMCountIncoming', u, P); d('LLVMGetIncomingValue', P, P, u); d('LLVMGetIncomingBlock', P, P, u)
    d('LLVMGetNumSuccessors', u, P); d('LLVMGetSuccessor', P, P, u); d('LLVMIsConditional', C.c_int, P)
    d('LLVMGetNumArgOperands', u, P); d('LLVMGetDebugLocLine', u, P)
    d('LLVMGetDebugLocFilename', C.c_char_p, P, C.POINTER(u))
    d('LLVMGetArrayLength', u, P); d('LLVMGetVectorSize', u, P); d('LLVMCountStructElementTypes', u, P)
    d('LLVMStructGetTypeAtIndex', P, P, u); d('LLVMOffsetOfElement', C.c_ulonglong, P, P, u)
    d('LLVMABISizeOfType', C.c_ulonglong, P, P); d('LLVMGetAggregateElement', P, P, u)
    d('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
    d('LLVMGetStructName', C.c_char_p, P)
    d('LLVMContextCreate', P); d('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
    d('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
    d('LLVMIsConstant', C.c_int, P); d('LLVMGetNumIndices', u, P); d('LLVMGetIndices', C.POINTER(u), P)
    d('LLVMIsAConstantDataSequential', P, P) if hasattr(L,'LLVMIsAConstantDataSequential') else None
    d('LLVMIsNull', C.c_int, P); d('LLVMIsUndef', C.c_int, P)
    d('LLVMCountParams', u, P)
    _L = L
    return L

class Ty:
    """kinds: int(bits) ptr void float struct(name) array(n,elem) vec other"""
    __slots__ = ('k','bits','elem','n','ref','size','name')
    def __repr__(self): return f"{self.k}{self.bits or ''}{self.name or ''}"

class Instr:
    __slots__ = ('op','ty','ops','id','x','line','fn','idx')
    def __repr__(self): return f"%{self.id}={self.op} {self.ty} {self.ops} {self.x or ''} @{self.line}"

class Block:
    __slots__ = ('i','instrs','succs','preds','name')

class Func:
    __slots__ = ('name','mod','params','pty','blocks','ret','_ref','_built','linkage','file','nvals','cfg','params_names')
    def loc(self, ins): return f"{self.file}:{ins.line} ({self.name})"

class Module:
    def __init__(s, prog, path, src):
        s.prog, s.path, s.src = prog, path, src
        L = lib()
        buf, msg, mod = P(), C.c_char_p(), P()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)): raise RuntimeError(msg.value)
        if L.LLVMParseIRInContext(prog.ctx, buf, C.byref(mod), C.byref(msg)): raise RuntimeError(msg.value)
        s.ref = mod.value; s.dl = L.LLVMGetModuleDataLayout(s.ref)
        s.tys = {}; s.funcs = {}; s.globals = {}
        f = L.LLVMGetFirstFunction(s.ref)
        while f:
            n = s.vname(f)
            if not L.LLVMIsDeclaration(f):
                F = Func(); F.name=n; F.mod=s; F._ref=f; F._built=False; F.linkage = L.LLVMGetLinkage(f); F.file=os.path.basename(src); F.cfg=None
                s.funcs[n] = F
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(s.ref)
        while g:
            n = s.vname(g)
            s.globals[n] = dict(name=n, ref=g, const=bool(L.LLVMIsGlobalConstant(g)), decl=bool(L.LLVMIsDeclaration(g)), linkage=L.LLVMGetLinkage(g), ty=s.ty(L.LLVMGlobalGetValueType(g)), mod=s)
            g = L.LLVMGetNextGlobal(g)
    def vname(s, v):
        n = C.c_size_t(); r = lib().LLVMGetValueName2(v, C.byref(n)); return (r or b'').decode()
    def ty(s, t):
        if t in s.tys: return s.tys[t]
        L = lib(); k = L.LLVMGetTypeKind(t); T = Ty(); T.ref=t; T.bits=None; T.elem=None; T.n=None; T.size=0; T.name=None
        s.tys[t] = T
        if k==0: T.k='void'
        elif k in (2,3): T.k='float'; T.bits=32 if k==2 else 64; T.size=T.bits//8
        elif k==8: T.k='int'; T.bits=L.LLVMGetIntTypeWidth(t); T.size=(T.bits+7)//8
        elif k==10:
            T.k='struct'; nm=L.LLVMGetStructName(t); T.name=(nm or b'').decode(); T.n=L.LLVMCountStructElementTypes(t)
            T.elem=[s.ty(L.LLVMStructGetTypeAtIndex(t,i)) for i in range(T.n)]
            T.bits=[L.LLVMOffsetOfElement(s.dl,t,i) for i in range(T.n)]; T.size=L.LLVMABISizeOfType(s.dl,t)
        elif k==11: T.k='array'; T.n=L.LLVMGetArrayLength(t); T.elem=s.ty(L.LLVMGetElementType(t)); T.size=L.LLVMABISizeOfType(s.dl,t)
        elif k==12: T.k='ptr'; T.size=8
        elif k==13: T.k='vec'; T.n=L.LLVMGetVectorSize(t); T.elem=s.ty(L.LLVMGetElementType(t)); T.size=T.n*T.elem.size
        elif k==9: T.k='fn'
        else: T.k='other%d'%k
        return T
    def const(s, v):
        """constant operand -> tuple"""
        L = lib(); k = L.LLVMGetValueKind(v)
        # kinds: 0 arg 1 bb 5 function 8 globalvar 10 constexpr 12.. see llvm-c/Core.h
        if k==5: return ('fn', s.vname(v))
        if k==8: return ('g', s.vname(v))
        if k==18 or k==19 or k==20 or k==17 or True:
            t = s.ty(L.LLVMTypeOf(v))
            if L.LLVMIsUndef(v): return ('undef',)
            if k==10:
                op = OPC[L.LLVMGetConstOpcode(v)]
                ops=[s.const(L.LLVMGetOperand(v,i)) for i in range(L.LLVMGetNumOperands(v))]
                x = s.ty(L.LLVMGetGEPSourceElementType(v)) if op=='gep' else None
                return ('ce', op, ops, x, t)
            if t.k=='int':
                if t.bits<=64: return ('c', L.LLVMConstIntGetSExtValue(v), t.bits)
                return ('undef',)
            if t.k=='ptr' and L.LLVMIsNull(v): return ('null',)
            if t.k=='float':
                b=C.c_int(); return ('f', L.LLVMConstRealGetDouble(v, C.byref(b)))
            if t.k in('array','vec'):
                n=t.n
                if L.LLVMIsNull(v): return ('agg', [zero_of(t.elem)]*n, t)
                return ('agg', [s.const(L.LLVMGetAggregateElement(v,i)) for i in range(n)], t)
            if t.k=='struct':
                if L.LLVMIsNull(v): return ('agg', [zero_of(e) for e in t.elem], t)
                return ('agg', [s.const(L.LLVMGetAggregateElement(v,i)) for i in range(t.n)], t)
        return ('undef',)
    def init(s, name):
        g = s.globals.get(name)
        if g is None: return None
        if g['decl']:
            h = s.prog.gdefs.get(name)
            if h is None: return None
            return h['mod'].const(lib().LLVMGetInitializer(h['ref']))
        return s.const(lib().LLVMGetInitializer(g['ref']))
    def build(s, F):
        if F._built: return F
        L = lib(); vid = {}; n=0
        F.params=[]; F.pty=[]; F.params_names=[]
        p = L.LLVMGetFirstParam(F._ref)
        while p:
            vid[p]=n; F.params.append(n); F.pty.append(s.ty(L.LLVMTypeOf(p))); F.params_names.append(s.vname(p)); n+=1
            p = L.LLVMGetNextParam(p)
        F.ret = s.ty(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(F._ref)))
        bbs={}; order=[]; insl=[]
        b = L.LLVMGetFirstBasicBlock(F._ref)
        while b:
            bbs[L.LLVMBasicBlockAsValue(b)] = len(order); bbs[b]=len(order); order.append(b)
            i = L.LLVMGetFirstInstruction(b); lst=[]
            while i:
                lst.append(i); vid[i]=n; n+=1
                i = L.LLVMGetNextInstruction(i)
            insl.append(lst); b = L.LLVMGetNextBasicBlock(b)
        def opnd(v):
            if v in vid: return ('v', vid[v])
            if v in bbs: return ('b', bbs[v])
            k = L.LLVMGetValueKind(v)
            if k in (21,22,2,3,4,25) and not L.LLVMIsConstant(v): return ('md',)
            if not L.LLVMIsConstant(v): return ('md',)
            return s.const(v)
        F.blocks=[]
        for bi,(b,lst) in enumerate(zip(order,insl)):
            B=Block(); B.i=bi; B.instrs=[]; B.preds=[]; B.succs=[]; B.name=''
            for i in lst:
                I=Instr(); I.id=vid[i]; I.fn=F; I.x=None
                I.op=OPC.get(L.LLVMGetInstructionOpcode(i),'op%d'%L.LLVMGetInstructionOpcode(i))
                I.ty=s.ty(L.LLVMTypeOf(i)); I.line=L.LLVMGetDebugLocLine(i)
                if I.op=='phi':
                    I.ops=[]; I.x={}
                    for k in range(L.LLVMCountIncoming(i)):
                        I.x[bbs[L.LLVMGetIncomingBlock(i,k)]] = opnd(L.LLVMGetIncomingValue(i,k))
                elif I.op=='call':
                    na=L.LLVMGetNumArgOperands(i); cv=L.LLVMGetCalledValue(i)
                    I.x=opnd(cv)
                    if I.x[0]=='fn' and I.x[1].startswith('llvm.dbg'): continue
                    if I.x[0]=='fn' and I.x[1].startswith('llvm.lifetime'): continue
                    I.ops=[opnd(L.LLVMGetOperand(i,k)) for k in range(na)]
                elif I.op=='br':
                    I.ops=[opnd(L.LLVMGetCondition(i))] if L.LLVMIsConditional(i) else []
                    B.succs=[bbs[L.LLVMGetSuccessor(i,k)] for k in range(L.LLVMGetNumSuccessors(i))]
                elif I.op=='switch':
                    I.ops=[opnd(L.LLVMGetOperand(i,0))]
                    no=L.LLVMGetNumOperands(i); I.x=[]
                    dflt=bbs[L.LLVMGetOperand(i,1)]
                    for k in range(2,no,2): I.x.append((L.LLVMConstIntGetSExtValue(L.LLVMGetOperand(i,k)), bbs[L.LLVMGetOperand(i,k+1)]))
                    I.x=(dflt,I.x); B.succs=list(dict.fromkeys([dflt]+[t for _,t in I.x[1]]))
                else:
                    I.ops=[opnd(L.LLVMGetOperand(i,k)) for k in range(L.LLVMGetNumOperands(i))]
                    if I.op=='gep': I.x=s.ty(L.LLVMGetGEPSourceElementType(i))
                    elif I.op=='alloca': I.x=s.ty(L.LLVMGetAllocatedType(i))
                    elif I.op=='icmp': I.x=PRED[L.LLVMGetICmpPredicate(i)]
                    elif I.op=='fcmp': I.x=FPRED[L.LLVMGetFCmpPredicate(i)]
                    elif I.op in('extractvalue','insertvalue'):
                        p=L.LLVMGetIndices(i); I.x=[p[k] for k in range(L.LLVMGetNumIndices(i))]
                    elif I.op in('zext','sext','trunc','sitofp','uitofp'):
                        I.x=s.ty(L.LLVMTypeOf(L.LLVMGetOperand(i,0)))
                    elif I.op=='store':
                        I.x=s.ty(L.LLVMTypeOf(L.LLVMGetOperand(i,0)))
                B.instrs.append(I)
            F.blocks.append(B)
        for B in F.blocks:
            for t in B.succs: F.blocks[t].preds.append(B.i)
        u=C.c_uint()
        for lst in insl:
            for i in lst:
                r=L.LLVMGetDebugLocFilename(i,C.byref(u))
                if r: F.file=os.path.basename(r.decode()); break
            else: continue
            break
        F.nvals=n; F._built=True
        return F

def zero_of(t):
    if t.k=='int': return ('c',0,t.bits)
    if t.k=='ptr': return ('null',)
    if t.k=='float': return ('f',0.0)
    if t.k=='array': return ('agg',[zero_of(t.elem)]*t.n,t)
    if t.k=='struct': return ('agg',[zero_of(e) for e in t.elem],t)
    return ('undef',)

class Program:
    def __init__(s, repo='/repo', units=None, passes='mem2reg,loop-simplify'):
        s.repo=repo; s.ctx=lib().LLVMContextCreate(); s.mods=[]; s.fdefs={}; s.gdefs={}
        s.tmp=tempfile.mkdtemp(prefix='m4rie-ir-')
        try:
            srcs=sorted(glob.glob(repo+'/src/*.c'))
            if units: srcs=[x for x in srcs if os.path.basename(x)[:-2] in units]
            if not srcs: raise RuntimeError('no C sources found under %s/src'%repo)
            here=os.path.join(os.path.dirname(os.path.abspath(__file__)),'models')
            s.extra=sorted(glob.glob(here+'/*.c'))
            flags=['-O0','-Xclang','-disable-O0-optnone','-g','-DNDEBUG=1','-DPACKAGE="m4rie"','-DVERSION="x"','-I'+os.path.join(os.path.dirname(os.path.abspath(__file__)),'stub'),'-I'+repo+'/src','-I'+repo,'-msse2','-w','-fno-builtin']
            def comp(src):
                out=os.path.join(s.tmp, os.path.basename(src)[:-2]+'.bc')
                r=subprocess.run([LLVM+'/bin/clang','-c','-emit-llvm']+flags+(['-Xclang','-femit-all-decls'] if src.endswith('inlines.c') else [])+[src,'-o',out],capture_output=True,text=True)
                if r.returncode: raise RuntimeError('clang failed on %s:\n%s'%(src,r.stderr[:2000]))
                r=subprocess.run([LLVM+'/bin/opt','-passes='+passes,out,'-o',out],capture_output=True,text=True)
                if r.returncode: raise RuntimeError('opt failed on %s:\n%s'%(src,r.stderr[:2000]))
                return out
            with ThreadPoolExecutor(8) as ex: outs=list(ex.map(comp,srcs+s.extra))
            for src,out in zip(srcs+s.extra,outs):
                m=Module(s,out,src); s.mods.append(m)
                for n,F in m.funcs.items():
                    if F.linkage not in (8,9): s.fdefs.setdefault(n,F)   # not internal/private
                for n,g in m.globals.items():
                    if not g['decl'] and g['linkage'] not in (8,9): s.gdefs.setdefault(n,g)
        finally:
            shutil.rmtree(s.tmp, ignore_errors=True)
    def func(s, name, mod=None):
        F=None
        if mod is not None: F=mod.funcs.get(name)
        if F is None: F=s.fdefs.get(name)
        if F is None:
            for m in s.mods:
                if name in m.funcs: F=m.funcs[name]; break
        if F is None: return None
        return F.mod.build(F)
    def resolve(s, mod, name):
        """callee as seen from module `mod` (None when external)"""
        F=mod.funcs.get(name) or s.fdefs.get(name)
        return F.mod.build(F) if F else None

if __name__=='__main__':
    import time; t=time.time(); p=Program(sys.argv[1] if len(sys.argv)>1 else '/repo'); print(time.time()-t)
    n=0; t=time.time()
    for m in p.mods:
        for f in m.funcs.values(): m.build(f); n+=sum(len(b.instrs) for b in f.blocks)
    print(n, time.time()-t, len(p.fdefs))
    F=p.func('mzed_add_multiple_of_row')
    for B in F.blocks[:6]:
        print(B.i,B.succs)
        for I in B.instrs: print('  ',I)
