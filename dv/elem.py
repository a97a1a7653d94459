"""Contracts of the elementwise kernels (proved in V01) at the level of single elements, for vectors with one stride;
and objects of classes with virtual bases (virtual table pointers as left by the real constructor)."""
from spec import *
import kernels, lib, intrin
from lib import contract
VC = "QDLIB::Vector<QDLIB::dcomplex>"; VD = "QDLIB::Vector<double>"
def uses(f, p): return f == p if isinstance(f, str) else any(uses(x, p) for x in f[1:])
def block(ex, st, v, I, what, kind='V'):
    """(data pointer, number of elements) of a vector with one stride"""
    lay = ex.prog.layout(VC if kind == 'V' else VD)
    if isinstance(v, Ptr) and v.fam is None: ex.oblige(st, False, f"null-deref:{what}@{ex.loc(I)}"); raise DeadPath()
    g = lambda m, t: ex.load(st, v.add(P(lay[m][0])), t, I)
    n, s = g("n_", lib.INT), g("nstrides_", lib.INT); ex.oblige(st, eq(s, 1), f"pre:{what}: one stride@{ex.loc(I)}"); st.assume(eq(s, 1))
    p = ex.load(st, g("v_", lib.PTRTY), lib.PTRTY, I)
    if p.fam is None: ex.oblige(st, eq(n, 0), f"null-deref:{what}@{ex.loc(I)}"); raise DeadPath()
    f = st.fams[p.fam]; es = 16 if kind == 'V' else 8
    if f.esize is None: intrin.settype(ex, f, es, {0: 'd', 8: 'd'} if es == 16 else {0: 'd'})
    if f.esize != es: raise Unsupported(f"{what}: element size of {f.name}")
    if p.fam in st.dead: ex.oblige(st, False, f"use-after-free:{what}@{ex.loc(I)}"); raise DeadPath()
    dc = st.mem.get((p.fam, '#dead'))
    if f.arity and dc is not None and dc.ups: ex.oblige(st, eq(col_eval(dc, p.ix, lambda c: ex.S.decide(st.pc, c)), 0), f"use-after-free:{what}@{ex.loc(I)}")
    cnt = f.count(p.ix) if callable(f.count) else f.count
    ex.oblige(st, cnt is None or le(n, cnt), f"bounds:{what}@{ex.loc(I)}")
    return p, n
def reader(ex, st, p, n, kind):
    c = [ex.column(st, st.fams[p.fam], o, 'd') for o in ((0, 8) if kind == 'V' else (0,))]; s0 = st.copy()
    def at(i):
        s = s0.copy(); s.assume(b_and(le(0, i), lt(i, n))); d = lambda q: ex.S.decide(s.pc, q)
        v = [col_eval(x, tuple(p.ix) + (P(i) if not isinstance(i, Poly) else i,), d) for x in c]
        return (v[0], v[1] if kind == 'V' else R(0))
    return at
def kernel(name, kinds, formula):
    @contract
    def h(ex, st, args, I, nm):
        env = {}; j = 0; rd = {}; dst = None; n0 = None
        for i, k in enumerate(kinds):
            a = args[j]; j += 1
            if k == 'c':
                if isinstance(a, tuple): env[f"p{i}"] = a
                else: env[f"p{i}"] = (a, args[j]); j += 1
            elif k == 'd': env[f"p{i}"] = (a, R(0))
            else:
                p, n = block(ex, st, a, I, f"{name} operand {i}", k)
                if i == 0: dst, n0 = p, n
                else: ex.oblige(st, eq(n, n0), f"pre:{name}: same number of elements@{ex.loc(I)}"); st.assume(eq(n, n0))
                if i or uses(formula, "p0"): rd[f"p{i}"] = reader(ex, st, p, n0, k)
        f = st.fams[dst.fam]
        if f.const: ex.oblige(st, False, f"frame:write to read-only {f.name.split('!')[0]}@{ex.loc(I)}"); return
        fn = lambda o, i: ev_real(formula, {**env, **{q: r(i) for q, r in rd.items()}})[o // 8]
        for o in ((0, 8) if kinds[0] == 'V' else (0,)): st.mem[(f.name, o)] = ex.column(st, f, o, 'd').bulk(Upd([('eq', i) for i in dst.ix] + [('rng', P(0), n0)], None, lambda X, o=o: fn(o, X[-1])))
    h.__doc__ = f"{name}: elementwise formula, same shapes"; return h
ev_real = kernels.ev_elem
def contracts(): return {kernels.sig(n, kinds): kernel(n, kinds, f) for n, kinds, f in kernels.KERNELS}
_vp = {}
def ctor(prog, cls, sig="()"):
    """mangled name of the complete-object constructor"""
    short = cls.split("::")[-1]; d = f"{cls}::{short}{sig}"; prog.find(d); import llvmc
    c = [n for n in prog.where if "C1E" in n and demangle(n) == d]
    if not c and prog.find(d) is None: raise Unsupported(f"no constructor {d}")
    return c[0] if c else prog.find(d)
def vptrs(w, cls, contracts_):
    """{offset: virtual table pointer} of a complete object, found by executing the default constructor"""
    k = cls
    if k not in _vp:
        st = w.st.copy(); lay = w.prog.layout(cls); short = cls.split("::")[-1]; nm = "proto:" + short
        st.fam(Fam(nm, 'struct', size=lay["#size"][0], heap=True, cls=cls)); outs = [o for o in w.ex.call_fn(st, ctor(w.prog, cls), [Ptr(nm)]) if o[1] == 'ret']
        s = outs[0][0]; r = {}
        for (n, f), c in s.mem.items():
            if n == nm and isinstance(f, int) and c.kind == 'p':
                v = col_eval(c, (), lambda q: None)
                if isinstance(v, Ptr) and v.fam is not None and v.fam.startswith("VT:"): r[f] = v
        _vp[k] = r
    return _vp[k]
def vobj(w, p, cls):
    """give object p its virtual table pointers; casts to class cls lead to the start of the object"""
    f = w.st.fams[p.fam]
    for o, v in vptrs(w, cls, None).items(): f.fields[o] = 'p'; f.bases[o] = lambda X, v=v: v
    f.dyn = {**(getattr(f, "dyn", None) or {}), cls: P(0)}; return p
INT8 = lib._T(); INT8.kind = 'int'; INT8.size = 1; INT8.bits = 8
# ---- vectors local to a function, by the contracts proved in V04: a vector of n values in one stride of its own storage
def owned(ex, st, p): 
    f = st.fams.get(p.fam) if isinstance(p, Ptr) else None
    return f is not None and f.kind == 'struct' and f.name.startswith("stack")
def _own(st, p, kind):
    nm = f"own:{p.fam}.{p.off}"
    if nm + ".d" not in st.fams:
        ar = len(p.ix); es = 16 if kind == 'V' else 8
        st.fam(Fam(nm + ".d", 'array', esize=es, count=None, arity=ar, fields={0: 'd', 8: 'd'} if es == 16 else {0: 'd'}))
        st.fam(Fam(nm + ".v", 'array', esize=8, count=(lambda X: P(1)) if ar else P(1), arity=ar, fields={0: 'p'}, bases={0: lambda X: Ptr(nm + ".d", tuple(X[:-1]))}))
    return Ptr(nm + ".v", tuple(p.ix)), Ptr(nm + ".d", tuple(p.ix))
def isown(ex, st, v, lay, I):
    if not owned(ex, st, v): return None
    q = ex.load(st, v.add(P(lay["v_"][0])), lib.PTRTY, I); return q if isinstance(q, Ptr) and q.fam and q.fam.startswith("own:") else None
def body(ex, st, args, name): return ex.call_fn(st, name, args, 1, ("contract",))
def unspecified(ex, st, d, lo, hi):
    for o in sorted(st.fams[d.fam].fields):
        nm = fresh_name("unset"); ks = [k for k, u in ex.loopks if k is not None]
        st.mem[(d.fam, o)] = ex.column(st, st.fams[d.fam], o, 'd').bulk(Upd([('eq', i) for i in d.ix] + [('rng', lo, hi)], None, lambda X: uf_real(nm, *ks, X[-1])))
def locals_(kind='D'):
    cls = VC if kind == 'V' else VD
    @lib.contract
    def ctor_(ex, st, args, I, name):
        """a local vector: no values yet"""
        if not owned(ex, st, args[0]): return body(ex, st, args, name)
        lay = ex.prog.layout(cls); v, d = _own(st, args[0], kind); z = {"n_": 0, "nstrides_": 1, "stride_size_": 0, "isRef_": 0, "_StorageLocked": 0}
        for m, x in z.items(): ex.store(st, args[0].add(P(lay[m][0])), P(x), lib.INT if m.endswith("_") else INT8, I)
        ex.store(st, args[0].add(P(lay["v_"][0])), v, lib.PTRTY, I)
    @lib.contract
    def newsize(ex, st, args, I, name):
        """newsize(n): n values, treated as unspecified (also when the size stays)"""
        lay = ex.prog.layout(cls); v, n = args[:2]
        if isown(ex, st, v, lay, I) is None: return body(ex, st, args, name)
        t = st.copy(); t.gh['throw'] = 'memory'; ex.oblige(st, le(0, n), f"pre:newsize: not negative@{ex.loc(I)}"); st.assume(le(0, n)); unspecified(ex, st, _own(st, v, kind)[1], P(0), n); ex.store(st, v.add(P(lay["n_"][0])), n, lib.INT, I); ex.store(st, v.add(P(lay["stride_size_"][0])), n, lib.INT, I)
        return [(st, 'ret', v), (t, 'throw', None)]
    @lib.contract
    def at(ex, st, args, I, name):
        """element of a local vector"""
        lay = ex.prog.layout(cls)
        if isown(ex, st, args[0], lay, I) is None: return body(ex, st, args, name)
        n = ex.load(st, args[0].add(P(lay["n_"][0])), lib.INT, I); i = P(args[1]); ex.oblige(st, b_and(le(0, i), lt(i, n)), f"bounds:element of a local vector@{ex.loc(I)}"); d = _own(st, args[0], kind)[1]; return Ptr(d.fam, d.ix, i*st.fams[d.fam].esize)
    @lib.contract
    def fill(ex, st, args, I, name):
        """all values become the number"""
        lay = ex.prog.layout(cls)
        if isown(ex, st, args[0], lay, I) is None: return body(ex, st, args, name)
        n = ex.load(st, args[0].add(P(lay["n_"][0])), lib.INT, I); d = _own(st, args[0], kind)[1]
        for o in sorted(st.fams[d.fam].fields):
            x = ex.load(st, args[1].add(P(o)), lib.DBL, I); st.mem[(d.fam, o)] = ex.column(st, st.fams[d.fam], o, 'd').bulk(Upd([('eq', i) for i in d.ix] + [('rng', P(0), n)], None, lambda X, x=x: x))
        return args[0]
    @lib.contract
    def dtor(ex, st, args, I, name):
        """releases the storage of a local vector"""
        if isown(ex, st, args[0], ex.prog.layout(cls), I) is None: return body(ex, st, args, name)
    T = "double" if kind == 'D' else "QDLIB::dcomplex"
    return {f"{cls}::Vector()": ctor_, f"{cls}::newsize(int)": newsize, f"{cls}::operator[](int)": at, f"{cls}::operator=({T} const&)": fill, f"{cls}::~Vector()": dtor}
