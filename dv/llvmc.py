"""Minimal ctypes binding to the LLVM-18 C API: turns a bitcode file produced by
clang from /repo's sources into Python objects.  Nothing is compiled here."""
import ctypes as C, os

_CAND = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so.1", "libLLVM-18.so",
         "/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1"]
L = None
for _c in _CAND:
    try:
        L = C.CDLL(_c); break
    except OSError:
        pass
if L is None:
    raise RuntimeError("libLLVM-18 not found")

P = C.c_void_p
def _f(name, res, *args):
    fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args); return fn

ctxCreate = _f("LLVMContextCreate", P)
memBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
parseBC = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
dataLayout = _f("LLVMGetModuleDataLayout", P, P)
firstFn = _f("LLVMGetFirstFunction", P, P)
nextFn = _f("LLVMGetNextFunction", P, P)
firstGl = _f("LLVMGetFirstGlobal", P, P)
nextGl = _f("LLVMGetNextGlobal", P, P)
valName = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
setName = _f("LLVMSetValueName2", None, P, C.c_char_p, C.c_size_t)
linkage = _f("LLVMGetLinkage", C.c_int, P)
isDecl = _f("LLVMIsDeclaration", C.c_int, P)
countParams = _f("LLVMCountParams", C.c_uint, P)
getParam = _f("LLVMGetParam", P, P, C.c_uint)
firstBB = _f("LLVMGetFirstBasicBlock", P, P)
nextBB = _f("LLVMGetNextBasicBlock", P, P)
firstI = _f("LLVMGetFirstInstruction", P, P)
nextI = _f("LLVMGetNextInstruction", P, P)
opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
numOps = _f("LLVMGetNumOperands", C.c_int, P)
operand = _f("LLVMGetOperand", P, P, C.c_uint)
typeOf = _f("LLVMTypeOf", P, P)
typeKind = _f("LLVMGetTypeKind", C.c_int, P)
intWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
valueKind = _f("LLVMGetValueKind", C.c_int, P)
constZ = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
constR = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
icmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
fcmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
gepSrc = _f("LLVMGetGEPSourceElementType", P, P)
allocTy = _f("LLVMGetAllocatedType", P, P)
elemTy = _f("LLVMGetElementType", P, P)
structAt = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
structN = _f("LLVMCountStructElementTypes", C.c_uint, P)
arrLen = _f("LLVMGetArrayLength", C.c_uint, P)
abiSize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
offElem = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
called = _f("LLVMGetCalledValue", P, P)
numArgs = _f("LLVMGetNumArgOperands", C.c_uint, P)
nInc = _f("LLVMCountIncoming", C.c_uint, P)
incV = _f("LLVMGetIncomingValue", P, P, C.c_uint)
incB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
nSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
isCond = _f("LLVMIsConditional", C.c_int, P)
normalDest = _f("LLVMGetNormalDest", P, P)
unwindDest = _f("LLVMGetUnwindDest", P, P)
nIdx = _f("LLVMGetNumIndices", C.c_uint, P)
idxs = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
constOp = _f("LLVMGetConstOpcode", C.c_int, P)
initializer = _f("LLVMGetInitializer", P, P)
isNull = _f("LLVMIsNull", C.c_int, P)
bbAsVal = _f("LLVMBasicBlockAsValue", P, P)
structName = _f("LLVMGetStructName", C.c_char_p, P)
swDef = _f("LLVMGetSwitchDefaultDest", P, P)
aggElem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
retTy = _f("LLVMGetReturnType", P, P)
calledFnTy = _f("LLVMGetCalledFunctionType", P, P)
isConstStr = _f("LLVMIsConstantString", C.c_int, P)
getAsStr = _f("LLVMGetAsString", C.c_void_p, P, C.POINTER(C.c_size_t))
printVal = _f("LLVMPrintValueToString", C.c_void_p, P)
dbgLine = _f("LLVMGetDebugLocLine", C.c_uint, P)
dbgFile = _f("LLVMGetDebugLocFilename", C.c_void_p, P, C.POINTER(C.c_uint))
globTy = _f("LLVMGlobalGetValueType", P, P)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',
 8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',
 20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',
 30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',
 39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',
 68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
# value kinds
VK_ARG,VK_BB=0,1
VK_FUNC=5; VK_GALIAS=6; VK_GVAR=8; VK_CEXPR=10; VK_CARR=11; VK_CSTRUCT=12; VK_CVEC=13; VK_UNDEF=14
VK_CAZERO=15; VK_CDARR=16; VK_CINT=18; VK_CFP=19; VK_CNULL=20; VK_INST=24; VK_POISON=25; VK_CTGT=26

def _name(v):
    n = C.c_size_t()
    p = valName(v, C.byref(n))
    return C.string_at(p, n.value).decode() if n.value else ""

class Ty:
    """kind: int/double/float/ptr/struct/array/void/other"""
    __slots__ = ("kind","bits","size","elems","offs","name","n","x86")
    def __repr__(self): return f"<{self.kind}{self.bits or ''} {self.name or ''}>"

class Ins:
    __slots__=("op","ty","res","ops","x","line","file","idx")
    def __repr__(self): return f"{self.res}={self.op}"

class Block:
    __slots__=("id","ins","succ","pred","addr")

class Fn:
    pass

class Module:
    def __init__(self, path):
        self.ctx = ctxCreate()
        mb = P(); err = C.c_char_p()
        if memBuf(path.encode(), C.byref(mb), C.byref(err)): raise RuntimeError(err.value)
        m = P()
        if parseBC(self.ctx, mb, C.byref(m)): raise RuntimeError("bitcode parse " + path)
        self.m = m; self.td = dataLayout(m); self.path = path
        self._ty = {}
        self.fns = {}; self.decls = {}; self.globals = {}
        f = firstFn(m)
        while f:
            n = _name(f)
            if isDecl(f): self.decls[n] = f
            else: self.fns[n] = f
            f = nextFn(f)
        g = firstGl(m)
        while g:
            if linkage(g) in (8, 9):        # internal, private: a different object in every module
                n = (_name(g) + "@" + os.path.basename(path)).encode(); setName(g, n, len(n))
            self.globals[_name(g)] = g
            g = nextGl(g)
        self._cache = {}

    def ty(self, t):
        r = self._ty.get(t)
        if r: return r
        k = typeKind(t)
        r = Ty(); r.bits=0; r.elems=None; r.offs=None; r.name=None; r.n=0; r.size=0
        self._ty[t] = r
        if k == 0: r.kind='void'
        elif k == 2: r.kind='float'; r.size=4
        elif k == 3: r.kind='double'; r.size=8
        elif k in (4,5,6,1): r.kind='fother'; r.size=16
        elif k == 8: r.kind='int'; r.bits=intWidth(t); r.size=max(1,(r.bits+7)//8)
        elif k == 10:
            r.kind='struct'; nm=structName(t); r.name = nm.decode() if nm else None
            n=structN(t)
            try:
                r.size=abiSize(self.td,t)
            except Exception: pass
            r.elems=[self.ty(structAt(t,i)) for i in range(n)]
            r.offs=[offElem(self.td,t,i) for i in range(n)]
        elif k == 11:
            r.kind='array'; r.n=arrLen(t); r.elems=[self.ty(elemTy(t))]; r.size=r.n*r.elems[0].size
        elif k == 12: r.kind='ptr'; r.size=8
        elif k == 13:
            r.kind='vector'; r.size=abiSize(self.td,t)
        else: r.kind='other'
        return r

    # ---- constants -------------------------------------------------------
    def const(self, v):
        """-> python description of a constant operand"""
        k = valueKind(v)
        if k == VK_CINT: return ('int', constZ(v), self.ty(typeOf(v)).bits)
        if k == VK_CFP:
            b=C.c_int(); return ('fp', constR(v, C.byref(b)))
        if k == VK_CNULL: return ('null',)
        if k in (VK_UNDEF, VK_POISON): return ('undef', self.ty(typeOf(v)))
        if k == VK_FUNC: return ('fn', _name(v))
        if k == VK_GVAR: return ('glob', _name(v))
        if k == VK_GALIAS: return ('fn', _name(v))
        if k == VK_CAZERO: return ('zero', self.ty(typeOf(v)))
        if k in (VK_CSTRUCT, VK_CARR, VK_CVEC):
            t = self.ty(typeOf(v))
            return ('agg', t, [self.const(operand(v,i)) for i in range(numOps(v))])
        if k == VK_CDARR:
            if isConstStr(v):
                n=C.c_size_t(); p=getAsStr(v,C.byref(n)); return ('str', C.string_at(p,n.value))
            t=self.ty(typeOf(v))
            n=t.n
            return ('agg', t, [self.const(aggElem(v,i)) for i in range(n)])
        if k == VK_CEXPR:
            op = OPC.get(constOp(v),'?')
            if op == 'gep':
                off = 0
                st = gepSrc(v)
                base = self.const(operand(v,0))
                off = self._gepconst(st, [operand(v,i) for i in range(1,numOps(v))])
                return ('cgep', base, off)
            return ('cexpr', op, [self.const(operand(v,i)) for i in range(numOps(v))])
        return ('other', k)

    def _gepconst(self, st, idx):
        off = 0; cur = st
        for j,o in enumerate(idx):
            c = constZ(o)
            if j == 0: off += c*abiSize(self.td,cur)
            else:
                k = typeKind(cur)
                if k == 10: off += offElem(self.td,cur,c); cur = structAt(cur,c)
                else:
                    cur = elemTy(cur); off += c*abiSize(self.td,cur)
        return off

    def gep_plan(self, inst):
        """list of (const_off, [(scale, operand_value)])"""
        cur = gepSrc(inst); off=0; dyn=[]
        for j in range(1, numOps(inst)):
            o = operand(inst,j)
            isc = valueKind(o)==VK_CINT
            if j>1 and typeKind(cur)==10:
                c = constZ(o); off += offElem(self.td,cur,c); cur = structAt(cur,c); continue
            if j>1: cur = elemTy(cur)
            sz = abiSize(self.td,cur)
            if isc: off += constZ(o)*sz
            else: dyn.append((sz,o))
        return off, dyn

    # ---- functions -------------------------------------------------------
    def fn(self, name):
        r = self._cache.get(name)
        if r: return r
        f = self.fns[name]
        F = Fn(); F.name=name; F.module=self
        vid = {}
        F.params=[]
        for i in range(countParams(f)):
            p=getParam(f,i); vid[p]=('a',i); F.params.append(self.ty(typeOf(p)))
        F.ret = self.ty(retTy(globTy(f)))
        bbs=[]; b=firstBB(f); bid={}
        while b:
            bid[b]=len(bbs); bbs.append(b); b=nextBB(b)
        cnt=0
        raw=[]
        for b in bbs:
            i=firstI(b); lst=[]
            while i:
                vid[i]=('v',cnt); cnt+=1; lst.append(i); i=nextI(i)
            raw.append(lst)
        def opv(v):
            r=vid.get(v)
            if r is not None: return r
            if valueKind(v)==VK_BB: return ('bb', bid.get(v))
            return ('c', self.const(v))
        F.blocks=[]
        for bi,b in enumerate(bbs):
            B=Block(); B.id=bi; B.ins=[]; B.succ=[]; B.pred=[]
            for i in raw[bi]:
                I=Ins(); oc=opcode(i); I.op=OPC.get(oc,str(oc)); I.ty=self.ty(typeOf(i)); I.res=vid[i]; I.x=None
                I.line=dbgLine(i) or 0; I.file=None
                if I.line:
                    n=C.c_uint(); p=dbgFile(i,C.byref(n)); I.file=C.string_at(p,n.value).decode() if n.value else None
                op=I.op
                if op=='phi':
                    I.ops=[(opv(incV(i,k)), bid[incB(i,k)]) for k in range(nInc(i))]
                elif op=='br':
                    if isCond(i):
                        I.ops=[opv(operand(i,0))]; I.x=[bid[succ(i,0)],bid[succ(i,1)]]
                    else: I.ops=[]; I.x=[bid[succ(i,0)]]
                    B.succ=list(I.x)
                elif op=='switch':
                    n=numOps(i)
                    I.ops=[opv(operand(i,0))]
                    cases=[]
                    ns=nSucc(i)
                    for k in range(1,ns):
                        cases.append((constZ(operand(i,2*k)), bid[succ(i,k)]))
                    I.x=(bid[succ(i,0)],cases)
                    B.succ=[bid[succ(i,k)] for k in range(ns)]
                elif op in('call','invoke'):
                    na=numArgs(i)
                    I.ops=[opv(operand(i,k)) for k in range(na)]
                    cal=opv(called(i))
                    nd=ud=None
                    if op=='invoke':
                        nd=bid[normalDest(i)]; ud=bid[unwindDest(i)]; B.succ=[nd,ud]
                    I.x=(cal,nd,ud,[self.ty(typeOf(operand(i,k))) for k in range(na)])
                elif op=='gep':
                    off,dyn=self.gep_plan(i)
                    I.ops=[opv(operand(i,0))]; I.x=(off,[(s,opv(o)) for s,o in dyn])
                elif op=='icmp':
                    I.ops=[opv(operand(i,0)),opv(operand(i,1))]; I.x=(ICMP[icmpPred(i)], self.ty(typeOf(operand(i,0))))
                elif op=='fcmp':
                    I.ops=[opv(operand(i,0)),opv(operand(i,1))]; I.x=FCMP[fcmpPred(i)]
                elif op=='alloca':
                    I.ops=[opv(operand(i,0))]; I.x=self.ty(allocTy(i))
                elif op in('extractvalue','insertvalue'):
                    n=nIdx(i); p=idxs(i); I.x=[p[k] for k in range(n)]
                    I.ops=[opv(operand(i,k)) for k in range(numOps(i))]
                elif op=='store':
                    I.ops=[opv(operand(i,0)),opv(operand(i,1))]; I.x=self.ty(typeOf(operand(i,0)))
                elif op in('trunc','zext','sext','sitofp','uitofp','fptosi','fptoui','ptrtoint','inttoptr','bitcast','fpext','fptrunc'):
                    I.ops=[opv(operand(i,0))]; I.x=self.ty(typeOf(operand(i,0)))
                else:
                    I.ops=[opv(operand(i,k)) for k in range(numOps(i))]
                B.ins.append(I)
            F.blocks.append(B)
        for B in F.blocks:
            for s in B.succ: F.blocks[s].pred.append(B.id)
        _loops(F)
        self._cache[name]=F
        return F

    def vtable(self, gname):
        """list of function names (or None) of every slot incl. the 2 header words of each sub-table -> list of tables"""
        g = self.globals.get(gname)
        if not g or isDecl(g): return None
        init = self.const(initializer(g))
        if init[0] != 'agg': return None
        out=[]
        for t in init[2]:
            if t[0]=='zero': out.append([('null',)]*t[1].n)
            elif t[0]=='agg': out.append(t[2])
        return out

def _loops(F):
    n=len(F.blocks)
    # dominators (iterative)
    order=[];seen=set()
    def dfs(u):
        st=[(u,iter(F.blocks[u].succ))]; seen.add(u)
        while st:
            x,it=st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); st.append((y,iter(F.blocks[y].succ))); break
            else:
                order.append(x); st.pop()
    dfs(0)
    rpo=order[::-1]; pos={b:i for i,b in enumerate(rpo)}
    idom={0:0}; ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            new=None
            for p in F.blocks[b].pred:
                if p in idom:
                    if new is None: new=p
                    else:
                        a,c=p,new
                        while a!=c:
                            while pos[a]>pos[c]: a=idom[a]
                            while pos[c]>pos[a]: c=idom[c]
                        new=a
            if idom.get(b)!=new: idom[b]=new; ch=True
    def dom(a,b):
        while True:
            if a==b: return True
            if b==0: return False
            b=idom[b]
    loops={}
    for b in rpo:
        for s in F.blocks[b].succ:
            if s in idom and dom(s,b):
                body=loops.setdefault(s,{s})
                st=[b]
                while st:
                    x=st.pop()
                    if x in body: continue
                    body.add(x); st.extend(p for p in F.blocks[x].pred if p in idom)
    F.loops=loops; F.idom=idom
