"""Contracts of the abstract WaveFunction and Operator interfaces (what every concrete class promises), at the level of ghost vector values.
A wave function object carries a ghost value '#val' (an element of a complex vector space) and '#ret' (1 while its storage is retired).
An operator object is a linear map on that space, chosen by its identity and its adjoint flag."""
from spec import *
import re, lib, kernels, vec
from vec import VecVal
from lib import contract

WF = "QDLIB::WaveFunction"; OP = "QDLIB::Operator"
N = int_sym("N")        # number of values of every wave function of the run

def setup(w, wf="_ZTVN5QDLIB7WFLevelE", op="_ZTVN5QDLIB4OSumE", cls=None):
    w.ex.absmap = {"WF": wf, "OP": op}; w.ex.patterns += MAPS
    w.st.assume(le(1, N))
    w.wflay = cls or WF
    w.ex.wfw = w
def wf_fields(f, name, lay, val=None):
    v = {"nstrides_": P(1), "stride_size_": N, "n_": N, "isRef_": P(0), "_StorageLocked": P(0), "_mpirank": P(0), "_mpisize": P(1), "_IsKspace": P(0), "_spacebuffer": NULL}
    for m, (o, t) in lay.items():
        if m == "#size": continue
        k = KIND(t) if not m.endswith("#vptr") else None
        if k: f.fields[o] = k
        if m in v: f.bases[o] = lambda X, x=v[m]: x
    f.bases[0] = lambda X: Ptr("AVT:WF")
    f.fields['#val'] = 'v'; f.bases['#val'] = val or (lambda X: VecVal.x(name, *X))
    f.fields['#ret'] = 'i'
    if '#ret' not in f.bases: f.bases['#ret'] = lambda X: P(0)
    return f
def wf(w, name, arity=0, count=None, val=None, const=False, heap=True, ret=0):
    """wave function object(s)"""
    lay = w.prog.layout(w.wflay)
    f = Fam(name, 'struct', size=lay["#size"][0], const=const, cls=WF, arity=arity, heap=heap, ixok=(lambda ix: b_and(le(0, ix[0]), lt(ix[0], count))) if count is not None else None)
    f.bases['#ret'] = lambda X: P(ret)
    wf_fields(f, name, lay, val); w.st.fam(f)
    return Ptr(name, tuple(P(0) for _ in range(arity)))
def ks(ex): return [k for k, u in ex.loopks if k is not None]
def junk(ex):
    return VecVal.x(fresh_name("junk"), *ks(ex))
def usable(ex, st, p, I, what):
    if not isinstance(p, Ptr): raise Unsupported(f"{what} on {p!r}")
    if p.fam is None:
        ex.oblige(st, False, f"null-deref:{what}@{ex.loc(I)}"); raise DeadPath()
    f = st.fams.get(p.fam)
    if f is None or '#val' not in f.bases: raise Unsupported(f"{what}: {p.fam} is not a wave function at {ex.loc(I)}")
    if p.fam in st.dead:
        ex.oblige(st, False, f"use-after-free:{p.fam.split('!')[0]}@{ex.loc(I)}"); raise DeadPath()
    if f.ixok is not None: ex.oblige(st, f.ixok(p.ix), f"object-exists:{p.fam.split('!')[0]}@{ex.loc(I)}")
    dc = st.mem.get((p.fam, '#dead'))
    if dc is not None and dc.ups: ex.oblige(st, eq(col_eval(dc, p.ix, lambda c: ex.S.decide(st.pc, c)), 0), f"use-after-free:{p.fam.split('!')[0]}@{ex.loc(I)}")
    return f
def acquired(ex, st, p, I, what):
    f = usable(ex, st, p, I, what)
    c = ex.column(st, f, '#ret', 'i')
    ex.oblige(st, eq(col_eval(c, p.ix, lambda q: ex.S.decide(st.pc, q)), 0), f"pre:{what} storage not retired:{p.fam.split('!')[0]}@{ex.loc(I)}")
    return f
def vget(ex, st, p, I=None, what="read"):
    f = acquired(ex, st, p, I, what)
    return col_eval(ex.column(st, f, '#val', 'v'), p.ix, lambda q: ex.S.decide(st.pc, q))
def vset(ex, st, p, v, I=None, what="write"):
    f = acquired(ex, st, p, I, what)
    if f.const: ex.oblige(st, False, f"frame:write to read-only {p.fam.split('!')[0]}@{ex.loc(I)}"); return
    st.mem[(p.fam, '#val')] = ex.column(st, f, '#val', 'v').write(p.ix, v)
def val(w, st, p): return w.rd(st, p.fam, '#val', p.ix)
def retired(w, st, p): return w.rd(st, p.fam, '#ret', p.ix)
def distinct(ex, st, a, b, I, what):
    if a.fam != b.fam: return
    ex.oblige(st, b_not(b_and(*[eq(x, y) for x, y in zip(a.ix, b.ix)])), f"pre:{what} operands distinct@{ex.loc(I)}")

# ---------------------------------------------------------------- WaveFunction
@contract
def k_new(ex, st, args, I, name):
    """NewInstance(): a fresh wave function of the same shape; contents unspecified"""
    usable(ex, st, args[0], I, "NewInstance")
    return newwf(ex, st, I)
def newwf(ex, st, I):
    lay = ex.prog.layout(ex.wfw.wflay)
    p = intrin.alloc(ex, st, P(lay["#size"][0]), "wf", I=I)
    f = st.fams[p.fam]
    if '#val' not in f.bases: wf_fields(f, f.name, lay)
    return p
@contract
def k_retire(ex, st, args, I, name):
    """Retire(): storage handed back, contents lost"""
    f = usable(ex, st, args[0], I, "Retire"); p = args[0]
    st.mem[(p.fam, '#ret')] = ex.column(st, f, '#ret', 'i').write(p.ix, P(1))
    st.mem[(p.fam, '#val')] = ex.column(st, f, '#val', 'v').write(p.ix, junk(ex))
@contract
def k_reaquire(ex, st, args, I, name):
    """Reaquire(): storage available again, contents unspecified"""
    f = usable(ex, st, args[0], I, "Reaquire"); p = args[0]
    st.mem[(p.fam, '#ret')] = ex.column(st, f, '#ret', 'i').write(p.ix, P(0))
    st.mem[(p.fam, '#val')] = ex.column(st, f, '#val', 'v').write(p.ix, junk(ex))
@contract
def k_assign(ex, st, args, I, name):
    """*this = *src (same shape)"""
    vset(ex, st, args[0], vget(ex, st, args[1], I, "assign"), I, "assign"); return args[0]
@contract
def k_fastcopy(ex, st, args, I, name):
    vset(ex, st, args[0], vget(ex, st, args[1], I, "FastCopy"), I, "FastCopy")
@contract
def k_swap(ex, st, args, I, name):
    a, b = vget(ex, st, args[0], I, "swap"), vget(ex, st, args[1], I, "swap")
    vset(ex, st, args[0], b, I); vset(ex, st, args[1], a, I)
@contract
def k_inner(ex, st, args, I, name):
    """<this|ket>"""
    return vec.inner(vget(ex, st, args[0], I, "inner product"), vget(ex, st, args[1], I, "inner product"))
def norm(v):
    return intrin.math1("sqrt", vec.inner(v, v)[0])
@contract
def k_norm(ex, st, args, I, name): return norm(vget(ex, st, args[0], I, "Norm"))
@contract
def k_normalize(ex, st, args, I, name):
    v = vget(ex, st, args[0], I, "Normalize"); vset(ex, st, args[0], v.rscale(rdiv(R(1), norm(v))), I)
@contract
def k_noop(ex, st, args, I, name): return None
@contract
def k_delete(ex, st, args, I, name):
    """Collector::Delete(p): releases the object; null is ignored"""
    p = args[-1]
    if isinstance(p, Ptr) and p.fam is None: return
    if isinstance(p, list): raise Unsupported("conditional delete")
    intrin.free(ex, st, p, I)
@contract
def k_collector(ex, st, args, I, name):
    if "G:collector" not in st.fams: st.fam(Fam("G:collector", 'struct', size=64))
    return Ptr("G:collector")
@contract
def k_name(ex, st, args, I, name):
    if "G:name" not in st.fams: st.fam(Fam("G:name", 'struct', size=32))
    return Ptr("G:name")

def kernel(name, kinds, formula):
    @contract
    def h(ex, st, args, I, nm):
        env = {}; j = 0; ps = []
        for i, k in enumerate(kinds):
            if k == 'c':
                a = args[j]
                if isinstance(a, tuple): env[f"p{i}"] = a; j += 1
                elif isinstance(a, Ptr): raise Unsupported("complex by reference")
                else: env[f"p{i}"] = (args[j], args[j+1]); j += 2
                continue
            a = args[j]; j += 1
            if k == 'd': env[f"p{i}"] = (a, R(0))
            elif k == 'V':
                ps.append(a); f = st.fams.get(a.fam)
                if i == 0 and not uses(formula, "p0"): acquired(ex, st, a, I, name); env["p0"] = None
                else: env[f"p{i}"] = vget(ex, st, a, I, name)
            else:
                f = st.fams.get(a.fam)
                dn = getattr(f, "dname", None)
                if dn is None: raise Unsupported(f"{name}: real vector {a} has no ghost name")
                env[f"p{i}"] = kernels.D(dn(a.ix) if callable(dn) else dn)
        if kinds[0] != 'V': raise Unsupported(name)
        vset(ex, st, args[0], kernels.ev_vec(formula, env), I, name)
    h.__doc__ = name
    return h
def uses(f, p): return f == p if isinstance(f, str) else any(uses(x, p) for x in f[1:])

# ---------------------------------------------------------------- Operator
def op(w, name, arity=0, count=None, vals=None):
    """operator object(s); identity = (name, index)"""
    lay = w.prog.layout(OP)
    f = Fam(name, 'struct', size=lay["#size"][0], cls=OP, arity=arity, heap=True, ixok=(lambda ix: b_and(le(0, ix[0]), lt(ix[0], count))) if count is not None else None)
    for m, (o, t) in lay.items():
        if m == "#size": continue
        k = KIND(t) if not m.endswith("#vptr") else None
        if k: f.fields[o] = k
        if m in ("_isTimedependent", "_hermitian", "_conj", "_recalc"):
            nm = f"{name}.{m}"
            f.bases[o] = lambda X, nm=nm: ite(uf_bool(nm, X), P(1), P(0))
        if vals and m in vals: f.bases[o] = (lambda X, v=vals[m]: v(X) if callable(v) else v)
    f.bases[0] = lambda X: Ptr("AVT:OP"); f.fields['#op'] = 'i'; f.bases['#op'] = lambda X: P(0)
    w.st.fam(f); f.is_op = True
    return Ptr(name, tuple(P(0) for _ in range(arity)))
def uf_bool(nm, X):
    if not X: return z3.Bool(nm)
    return z3.Function(nm, *([z3.IntSort()] * len(X)), z3.BoolSort())(*[P(x).z() for x in X])
CONJ = "_conj"
def opoff(ex, m): return ex.prog.layout(OP)[m][0]
def flags(ex, st, p):
    """atom flag of an operator in its present state: its adjoint flag (and epoch, when time matters)"""
    f = st.fams[p.fam]; o = opoff(ex, "_conj")
    c = st.mem.get((p.fam, o)); v = None
    if c is None or not c.ups: cf = 'as set'
    else:
        v = col_eval(c, p.ix, lambda q: ex.S.decide(st.pc, q))
        cf = v.const() if v.is_const() else vec.Z(z3.simplify(v.z()))
    e = st.mem.get((p.fam, '#epoch')); ep = None
    if e is not None and e.ups:
        v = col_eval(e, p.ix, lambda q: ex.S.decide(st.pc, q)); ep = vec.Z(z3.simplify(v.z())) if not v.is_const() else v.const()
    return (cf,) if ep is None else (cf, ep)
def opapp(kind, p, fl, v):
    if p.ix: return vec.papp((kind, p.fam), p.ix[0], fl, v)
    return vec.app((kind, p.fam) + tuple(fl), v)
def isop(ex, st, p, I, what):
    if not isinstance(p, Ptr) or p.fam is None:
        ex.oblige(st, False, f"null-deref:{what}@{ex.loc(I)}"); raise DeadPath()
    f = st.fams.get(p.fam)
    if f is None or not getattr(f, "is_op", False): raise Unsupported(f"{what}: {p.fam} is not an operator at {ex.loc(I)}")
    if p.fam in st.dead:
        ex.oblige(st, False, f"use-after-free:{p.fam.split('!')[0]}@{ex.loc(I)}"); raise DeadPath()
    if f.ixok is not None: ex.oblige(st, f.ixok(p.ix), f"object-exists:{p.fam.split('!')[0]}@{ex.loc(I)}")
    return f
@contract
def k_apply(ex, st, args, I, name):
    """Apply(dest, src): dest = O src; source unchanged; dest and src are different objects"""
    o, d, s = args; isop(ex, st, o, I, "Apply"); distinct(ex, st, d, s, I, "Apply")
    vset(ex, st, d, opapp('op', o, flags(ex, st, o), vget(ex, st, s, I, "Apply")), I, "Apply")
@contract
def k_apply1(ex, st, args, I, name):
    """Apply(psi): psi = O psi"""
    o, d = args; isop(ex, st, o, I, "Apply")
    vset(ex, st, d, opapp('op', o, flags(ex, st, o), vget(ex, st, d, I, "Apply")), I, "Apply")
@contract
def k_applyadd(ex, st, args, I, name):
    """ApplyAdd(dest, src): dest += O src"""
    o, d, s = args; isop(ex, st, o, I, "ApplyAdd"); distinct(ex, st, d, s, I, "ApplyAdd")
    vset(ex, st, d, vget(ex, st, d, I, "ApplyAdd").add(opapp('op', o, flags(ex, st, o), vget(ex, st, s, I, "ApplyAdd"))), I, "ApplyAdd")
@contract
def k_applyparent(ex, st, args, I, name):
    """ApplyParent(dest, src): dest = O' src for the operator's own basic map O'"""
    o, d, s = args; isop(ex, st, o, I, "ApplyParent")
    vset(ex, st, d, opapp('parent', o, flags(ex, st, o), vget(ex, st, s, I, "ApplyParent")), I, "ApplyParent")
@contract
def k_matel(ex, st, args, I, name):
    """MatrixElement(bra, ket) = <bra|O ket>"""
    o, b, k = args; isop(ex, st, o, I, "MatrixElement")
    return vec.inner(vget(ex, st, b, I, "MatrixElement"), opapp('op', o, flags(ex, st, o), vget(ex, st, k, I, "MatrixElement")))
@contract
def k_expec(ex, st, args, I, name):
    o, k = args; isop(ex, st, o, I, "Expec"); v = vget(ex, st, k, I, "Expec")
    return vec.inner(v, opapp('op', o, flags(ex, st, o), v))[0]
def spectral(nm, p):
    return tuple(uf_real(f"{nm}.{c}:{p.fam}", *p.ix) if p.ix else z3.Real(f"{nm}.{c}:{p.fam}") for c in ("re", "im"))
@contract
def k_emax(ex, st, args, I, name):
    isop(ex, st, args[0], I, "Emax"); return spectral("Emax", args[0])
@contract
def k_emin(ex, st, args, I, name):
    isop(ex, st, args[0], I, "Emin"); return spectral("Emin", args[0])
@contract
def k_conj(ex, st, args, I, name):
    """Conj(b): sets the adjoint flag"""
    f = isop(ex, st, args[0], I, "Conj"); o = opoff(ex, "_conj"); b = args[1]
    b = (P(1) if b else P(0)) if isinstance(b, bool) else ite(b, P(1), P(0)) if not isinstance(b, Poly) else b
    st.mem[(f.name, o)] = ex.column(st, f, o, 'i').write(args[0].ix, b)
@contract
def k_clock(ex, st, args, I, name):
    """Clock(c): stores the clock"""
    f = isop(ex, st, args[0], I, "Clock"); o = opoff(ex, "clock")
    st.mem[(f.name, o)] = ex.column(st, f, o, 'p').write(args[0].ix, args[1])
def mark(tag, argix=None):
    """methods whose effect on the object is recorded as a ghost mark (and, when given, the argument)"""
    @contract
    def h(ex, st, args, I, name):
        f = isop(ex, st, args[0], I, tag); nm = '#' + tag
        if nm not in f.bases: f.bases[nm] = lambda X: P(0); f.fields[nm] = 'i'
        st.mem[(f.name, nm)] = ex.column(st, f, nm, 'i').write(args[0].ix, P(1) if argix is None else boolint(args[argix]))
    return h
def boolint(b):
    if isinstance(b, Poly): return b
    if isinstance(b, bool): return P(1) if b else P(0)
    return ite(b, P(1), P(0))
@contract
def k_valid(ex, st, args, I, name):
    isop(ex, st, args[0], I, "Valid"); return uf_bool("Valid:" + args[0].fam, args[0].ix)
@contract
def k_opnew(ex, st, args, I, name):
    """NewInstance(): a fresh operator with the same parameters"""
    isop(ex, st, args[0], I, "NewInstance")
    lay = ex.prog.layout(OP); p = intrin.alloc(ex, st, P(lay["#size"][0]), "opnew", I=I); f = st.fams[p.fam]
    if not getattr(f, "is_op", False):
        f.is_op = True; f.bases[0] = lambda X: Ptr("AVT:OP")
        for m, (o, t) in lay.items():
            if m != "#size" and not m.endswith("#vptr") and KIND(t): f.fields[o] = KIND(t)
        f.origin = (args[0].fam, ks(ex), args[0].ix)
    return p

@contract
def k_register(ex, st, args, I, name):
    """Collector::Register records the object for later deletion; the object itself is untouched"""
    return None
def contracts(extra=None):
    W = "virt:WF::"; O = "virt:OP::"
    V = "QDLIB::Vector<QDLIB::dcomplex>"
    c = {W + "NewInstance()": k_new, W + "Retire()": k_retire, W + "Reaquire()": k_reaquire, W + "operator=(QDLIB::WaveFunction*)": k_assign,
         W + "operator=(QDLIB::WaveFunction&)": k_assign,
         W + "operator*(QDLIB::WaveFunction*)": k_inner, W + "Norm()": k_norm, W + "Normalize()": k_normalize, W + "Name()": k_name, O + "Name()": k_name,
         V + f"::FastCopy({V}&)": k_fastcopy, V + f"::swap({V}&)": k_swap,
         O + "Apply(QDLIB::WaveFunction*, QDLIB::WaveFunction*)": k_apply, O + "Apply(QDLIB::WaveFunction*)": k_apply1,
         O + "ApplyAdd(QDLIB::WaveFunction*, QDLIB::WaveFunction*)": k_applyadd, O + "ApplyParent(QDLIB::WaveFunction*, QDLIB::WaveFunction*)": k_applyparent,
         O + "MatrixElement(QDLIB::WaveFunction*, QDLIB::WaveFunction*)": k_matel, O + "Expec(QDLIB::WaveFunction*)": k_expec,
         O + "Emax()": k_emax, O + "Emin()": k_emin, O + "Conj(bool)": k_conj, O + "Clock(QDLIB::QDClock*)": k_clock,
         O + "UpdateTime()": mark("UpdateTime"), O + "Init(QDLIB::WaveFunction*)": mark("Init"), O + "RecalcInternals(bool)": mark("RecalcInternals", 1),
         O + "Valid(QDLIB::WaveFunction*)": k_valid, O + "NewInstance()": k_opnew,
         "QDLIB::Collector<QDLIB::WaveFunction>::Instance()": k_collector, "QDLIB::Collector<QDLIB::Operator>::Instance()": k_collector,
         "QDLIB::Collector<QDLIB::WaveFunction>::Register(QDLIB::WaveFunction*, bool)": k_register, "QDLIB::Collector<QDLIB::Operator>::Register(QDLIB::Operator*, bool)": k_register,
         "QDLIB::Collector<QDLIB::WaveFunction>::Delete(QDLIB::WaveFunction*)": k_delete, "QDLIB::Collector<QDLIB::Operator>::Delete(QDLIB::Operator*)": k_delete}
    for n, kinds, f in kernels.KERNELS:
        if kinds[0] == 'V': c[kernels.sig(n, kinds)] = kernel(n, kinds, f)
    for m in ("ParamContainer()", "ParamContainer(QDLIB::ParamContainer const&)", "ParamContainer(QDLIB::ParamContainer&)", "~ParamContainer()", "operator=(QDLIB::ParamContainer const&)", "operator=(QDLIB::ParamContainer&)"):
        c["QDLIB::ParamContainer::" + m] = k_noop
    c['__dynamic_cast'] = k_dyncast
    c.update(lib.mem()); c.update(extra or {})
    return c

# ---------------------------------------------------------------- objects under verification
def olist(w, cls, vptr, size, ops="op", vals=None, name="L"):
    """an operator list object holding `size` operators op[0..size-1]"""
    lay = w.prog.layout(cls)
    v = {"_size": size, "_O": lambda X: Ptr(ops, (X[0],))}
    v.update(vals or {})
    p = w.obj(name, cls, v, vptr="VT:" + vptr)
    w.st.assume(b_and(le(0, size), le(size, P(128))))
    return p
def veq(w, st, a, b, name):
    w.ex.oblige(st, vec.vec_eq(a, b), name)
def wframe(w, st, allowed, tag):
    """wave functions existing before the call and not in `allowed` keep value and state"""
    w.frame(st, lambda f, o: allowed(f, o), tag)

# ---------------------------------------------------------------- std::map<std::string, unsigned> as a ghost finite map from string identities
def _mapname(ex, st, p):
    nm = f"MAP:{p.fam}.{p.off}"
    if nm not in st.fams: raise Unsupported(f"std::map at {p}")
    return nm
def named_map(w, obj, off, has, val):
    """ghost contents of the map member at obj+off: has(id) bool-as-0/1, val(id)"""
    nm = f"MAP:{obj}.{P(off)}"
    w.st.fam(Fam(nm, 'array', esize=4, arity=1, fields={0: 'i', '#has': 'i'}, bases={0: lambda X: val(X[0]), '#has': lambda X: has(X[0])}, count=P(1)))
    return nm
def string(w, name):
    f = Fam(name, 'struct', size=32, const=True, fields={'#str': 'i'}, bases={'#str': lambda X, n=name: int_sym(n + ".id")})
    w.st.fam(f); return Ptr(name)
def _sid(ex, st, p):
    f = st.fams.get(p.fam) if isinstance(p, Ptr) else None
    if f is None or '#str' not in f.bases: raise Unsupported("map key without identity")
    return col_eval(ex.column(st, f, '#str', 'i'), p.ix, lambda q: ex.S.decide(st.pc, q))
def _has(ex, st, nm, k): return col_eval(ex.column(st, st.fams[nm], '#has', 'i'), (k,), lambda q: ex.S.decide(st.pc, q))
@contract
def k_mapfind(ex, st, args, I, name):
    nm = _mapname(ex, st, args[0]); k = _sid(ex, st, args[1]); h = _has(ex, st, nm, k); out = []
    for c, r in ((eq(h, 1), Ptr("MAPNODE:" + nm, (k,))), (b_not(eq(h, 1)), Ptr("MAPEND:" + nm))):
        if ex.S.feasible(st.pc, c): t = st.copy(); t.assume(c); out.append((t, 'ret', r))
    return out
@contract
def k_mapend(ex, st, args, I, name): return Ptr("MAPEND:" + _mapname(ex, st, args[0]))
@contract
def k_mapeq(ex, st, args, I, name):
    a, b = (ex.load(st, x, lib.PTRTY, I) for x in args)
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported("map iterator")
    r = a == b if a.fam != b.fam else b_and(*[eq(x, y) for x, y in zip(a.ix, b.ix)]) if a.ix else True
    return b_not(r) if "operator!=" in name or name.startswith("_ZStne") else r
@contract
def k_mapderef(ex, st, args, I, name):
    n = ex.load(st, args[0], lib.PTRTY, I)
    if not (isinstance(n, Ptr) and n.fam and n.fam.startswith("MAPNODE:")): raise Unsupported("map iterator")
    return Ptr(n.fam[8:], n.ix, P(-32))      # the pair; its second member is the value
@contract
def k_mapix(ex, st, args, I, name):
    nm = _mapname(ex, st, args[0]); k = _sid(ex, st, args[1]); h = _has(ex, st, nm, k); out = []
    for c in (eq(h, 1), b_not(eq(h, 1))):
        if not ex.S.feasible(st.pc, c): continue
        t = st.copy(); t.assume(c)
        if c is not True and len(out) or ex.S.decide(t.pc, eq(h, 1)) is not True:
            f = t.fams[nm]; t.mem[(nm, '#has')] = ex.column(t, f, '#has', 'i').write((k,), P(1)); t.mem[(nm, 0)] = ex.column(t, f, 0, 'i').write((k,), P(0))
        out.append((t, 'ret', Ptr(nm, (k,))))
    return out
@contract
def k_mapcopy(ex, st, args, I, name):
    a, b = _mapname(ex, st, args[0]), _mapname(ex, st, args[1])
    for o in (0, '#has'): st.mem[(a, o)] = ex.column(st, st.fams[b], o, 'i')
    return args[0]
_INTERN = {}
def strid(w, text): return P(-1000 - _INTERN.setdefault(text, len(_INTERN)))
def _literal(ex, p):
    if not (isinstance(p, Ptr) and p.fam and p.fam.startswith("G:")): return None
    m, g = ex.prog.glob(p.fam[2:])
    if g is None: return None
    import llvmc
    init = m.const(llvmc.initializer(g))
    if init[0] != 'str': return None
    return bytes(init[1]).split(b"\0")[0].decode("latin1")
@contract
def k_strctor(ex, st, args, I, name):
    """std::string(const char*) of a literal: a string whose identity is its text"""
    t = _literal(ex, args[1]) if args[1].off.is_const() and args[1].off.const() == 0 and not args[1].ix or args[1].ix in ((P(0),), ()) else None
    f = st.fams[args[0].fam]
    if '#str' not in f.bases: f.bases['#str'] = lambda X: P(-1); f.fields['#str'] = 'i'
    st.mem[(f.name, '#str')] = ex.column(st, f, '#str', 'i').write(args[0].ix, strid(None, t) if t is not None else _digits(ex, st, args[1]))
@contract
def k_streq(ex, st, args, I, name):
    """string == literal: same text"""
    f = st.fams[args[0].fam]; t = _literal(ex, args[1])
    if '#str' not in f.fields or t is None: raise Unsupported(f"comparison of strings@{ex.loc(I)}")
    return eq(col_eval(ex.column(st, f, '#str', 'i'), args[0].ix, lambda q: ex.S.decide(st.pc, q)), strid(None, t))
DIGITS, JOINED = (z3.Function(f, *([z3.IntSort()]*n)) for f, n in (("digits", 2), ("joined", 3)))
def _digits(ex, st, p):
    """text of a character buffer: the number printed into it"""
    f = st.fams.get(p.fam) if isinstance(p, Ptr) else None
    if f is None or '#num' not in f.fields: return from_z(z3.FreshInt("str"))
    return from_z(DIGITS(P(col_eval(ex.column(st, f, '#num', 'i'), p.ix)).z()))
@contract
def k_sprintf(ex, st, args, I, name):
    """sprintf(buffer, "%d", number)"""
    f = st.fams[args[0].fam]; ex.oblige(st, _literal(ex, args[1]) == "%d", f"pre:sprintf: prints one number@{ex.loc(I)}")
    if '#num' not in f.fields: f.fields['#num'] = 'i'; f.bases['#num'] = lambda X: P(-1)
    st.mem[(f.name, '#num')] = ex.column(st, f, '#num', 'i').write(args[0].ix, P(args[2])); return fresh_int("printed")
@contract
def k_strjoin(ex, st, args, I, name):
    """string + string: identified by its parts"""
    f = st.fams[args[0].fam]; v = []
    for a in args[1:]:
        g = st.fams[a.fam]
        if '#str' not in g.fields: raise Unsupported(f"string {a}@{ex.loc(I)}")
        v.append(P(col_eval(ex.column(st, g, '#str', 'i'), a.ix)).z())
    if '#str' not in f.fields: f.bases['#str'] = lambda X: P(-1); f.fields['#str'] = 'i'
    st.mem[(f.name, '#str')] = ex.column(st, f, '#str', 'i').write(args[0].ix, from_z(JOINED(*v)))
@contract
def k_strdtor(ex, st, args, I, name): return None
_STR = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::"
_SM = r"std::map<std::__cxx11::basic_string<[^=]*unsigned int, "
MAPS = [(lambda d: bool(re.match(_STR + r'basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)', d)), k_strctor), (lambda d: d.startswith(_STR + '~basic_string('), k_strdtor), (lambda d: d == "sprintf", k_sprintf),
        (lambda d: "std::operator+<char, std::char_traits<char>, std::allocator<char> >(std::__cxx11::basic_string<" in d and d.count("basic_string<") == 3, k_strjoin),
        (lambda d: re.match(r"bool std::operator==<char.*char const\*\)$", d) is not None, k_streq),
        (lambda d: bool(re.match(_SM + r".*>::find\(", d)), k_mapfind), (lambda d: bool(re.match(_SM + r".*>::end\(\)$", d)), k_mapend),
        (lambda d: bool(re.match(_SM + r".*>::operator\[\]\(", d)), k_mapix), (lambda d: bool(re.match(_SM + r".*>::operator=\(", d)), k_mapcopy),
        (lambda d: d.startswith(("std::operator==(std::_Rb_tree_iterator<", "std::operator!=(std::_Rb_tree_iterator<")), k_mapeq),
        (lambda d: bool(re.match(r"std::_Rb_tree_(const_)?iterator<std::pair<std::__cxx11::basic_string<[^=]*unsigned int> >::operator(->|\*)\(\) const$", d)), k_mapderef)]
def mapval(w, st, nm, k): return w.rd(st, nm, 0, (P(k),))
def maphas(w, st, nm, k): return w.rd(st, nm, '#has', (P(k),))

# dynamic_cast: decided by the object's declared dynamic type
@contract
def k_dyncast(ex, st, args, I, name):
    p = args[0]
    if isinstance(p, Ptr) and p.fam is None: return NULL
    f = st.fams.get(p.fam); dst = demangle_ti(args[2])
    d = getattr(f, "dyn", None)
    if d is None and f is not None and p.off == P(0) and (p.fam, 0) in st.mem and st.mem[(p.fam, 0)].kind == 'p':
        vp = col_eval(st.mem[(p.fam, 0)], p.ix, lambda c: ex.S.decide(st.pc, c))
        if isinstance(vp, Ptr) and vp.fam and vp.fam.startswith("VT:_ZTV"):
            from prog import demangle
            if demangle(vp.fam[3:]).replace("vtable for ", "") == dst: return p      # exactly the class asked for
    if d is None or dst not in d: raise Unsupported(f"dynamic type of {p.fam} ({dst})")
    if isinstance(d[dst], Poly): return Ptr(p.fam, p.ix, d[dst])
    return p if d[dst] else NULL
def demangle_ti(p):
    from prog import demangle
    return demangle("_ZTV" + p.fam.split("_ZTI")[-1]).replace("vtable for ", "")
