"""G02: views of one coordinate, momentum grids and operators built from them."""
from framework import *
import wfc, vec, lib, grid, fftc, loops, elem, intrin, params
from exec import QUO, REM, div_axioms
ID = "G02"; TITLE = "coordinate views and momentum grids"
SOURCES = ["qdlib/GridSystem.cpp", "qdlib/Kspace.cpp", "qdlib/OGridPosition.cpp", "qdlib/OGridKick.cpp", "qdlib/OGobbler.cpp", "qdlib/OGridNablaSq.cpp", "qdlib/Diff.cpp", "qdlib/TransformFFT.cpp", "qdlib/OGridsystem.cpp", "qdlib/WFGridSystem.cpp", "qdlib/WFGridCartesian.cpp", "qdlib/WaveFunction.cpp", "math/math_functions.cpp"]
SHIMS = {"vv": '#include "math/typedefs.h"\nnamespace QDLIB { template class VectorView<double>; template class VectorView<dcomplex>; }\nusing namespace QDLIB;\nint f(dVecView*a, cVecView*b){ return sizeof(*a) + sizeof(*b); }\n', "op": '#include "qdlib/OGridPosition.h"\n#include "qdlib/OGridKick.h"\n#include "qdlib/OGridNablaSq.h"\n#include "qdlib/OGobbler.h"\n#include "qdlib/WFGridCartesian.h"\nusing namespace QDLIB;\nint f(OGridPosition*p, OGridKick*k, OGridNablaSq*n, OGobbler*g){ return sizeof(*p)+sizeof(*k)+sizeof(*n)+sizeof(*g)+sizeof(WFGridCartesian)+sizeof(GridSystem); }\n'}
REPLAY = "G02.cpp"
ASSUMPTIONS = ["kernels as proved in V01", "the vector looked at has one stride and as many values as the product of the numbers of points"]
Q = "QDLIB::"; CX = "struct QDLIB::dcomplex"; VC = elem.VC; VD = elem.VD
T = {"double": ("double", "double", VD), "dcomplex": (CX, Q + "dcomplex", VC)}
def vcls(t): return f"{Q}VectorView<{T[t][1]}>"
D, dim = int_sym("ndims"), int_sym("dim")
def iuf(name, *a): return from_z(z3.Function(name, *([z3.IntSort()]*(len(a) + 1)))(*[P(x).z() for x in a]))
sz = lambda d: iuf("N", d)
no = lambda d: iuf("others", d)
off = lambda d, i, j: iuf("cell", d, i, j)          # where the view finds point i of dimension d at position j of the others
co = lambda d, e: iuf("coord", d, e)                # coordinate of element e
ot = lambda d, e: iuf("other", d, e)
TOT = int_sym("total")
def bij(w):
    """the cells of a view of a dimension are the elements of the vector, each exactly once (proved by 'cells')"""
    INT = z3.IntSort(); CE, CO, OT = (z3.Function(*a) for a in (("cell", INT, INT, INT, INT), ("coord", INT, INT, INT), ("other", INT, INT, INT))); N, O = z3.Function("N", INT, INT), z3.Function("others", INT, INT); T = TOT.z(); A = z3.And
    def axioms(fs):
        out = []; seen = set(); todo = list(fs)
        for _ in range(3):
            new = []
            for f in todo: collect(f, new, seen)
            todo = []
            for a in new:
                x = a.children(); n = a.decl().name()
                if n == "cell": d, i, j = x; todo.append(z3.Implies(A(0 <= i, i < N(d), 0 <= j, j < O(d)), A(0 <= a, a < T, CO(d, a) == i, OT(d, a) == j)))
                else: d, e = x; todo.append(z3.Implies(A(0 <= e, e < T), A(0 <= CO(d, e), CO(d, e) < N(d), 0 <= OT(d, e), OT(d, e) < O(d), CE(d, CO(d, e), OT(d, e)) == e)))
            out += todo
        return out
    w.ex.S.extra_axioms.append(axioms)
def collect(f, out, seen):
    todo = [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if x.decl().name() in ("cell", "coord", "other") and x.num_args() > 1: out.append(x)
            todo += x.children()
def view(w, t, built=True, const=False):
    """a view with dimension `dim` active"""
    cls = vcls(t); ty = T[t][0]
    w.vparts("x", ty, TOT, P(1)); w.st.assume(b_and(le(1, TOT), le(0, dim), lt(dim, D), le(1, sz(dim)), le(1, no(dim)))); bij(w)
    if built:
        w.st.fam(Fam("vw.c", 'array', esize=8, count=lambda X: no(X[0]), arity=2, fields={0: 'p'}, bases={0: lambda X: Ptr("x.d", (P(0),), off(X[0], X[1], X[2])*w.st.fams["x.d"].esize)}, const=const, heap=True))
        w.st.fam(Fam("vw.b", 'array', esize=8, count=lambda X: sz(X[0]), arity=1, fields={0: 'p'}, bases={0: lambda X: Ptr("vw.c", X)}, const=const, heap=True))
        w.st.fam(Fam("vw.a", 'array', esize=8, count=D, fields={0: 'p'}, bases={0: lambda X: Ptr("vw.b", X)}, const=const, heap=True))
    w.st.fam(Fam("vw.n", 'array', esize=4, count=D, fields={0: 'i'}, bases={0: lambda X: sz(X[0])}, const=const, heap=True))
    return w.obj("vw", cls, {"_v": Ptr("x.d", (P(0),)), "_view": Ptr("vw.a") if built else NULL, "_ndims": D, "_dims": Ptr("vw.n"), "_adim": dim, "_nothers": no(dim)}, const=const)
def world(c, extra=None):
    w = c.world({**lib.mem(), **wfc.contracts(), **elem.contracts(), **(extra or {})}); w.ex.patterns += wfc.MAPS
    w.ex.witness = [lambda X: co(dim, X[-1]), lambda X: ot(dim, X[-1])]
    return w
def units(prog, tier):
    u = [Unit("position operator", u_position), Unit("kick operator", u_kick), Unit("filter operator", u_filter), Unit("filter operator for a wave function", u_filterinit), Unit("operator parameters", u_params)]
    for t in T:
        u += [Unit("cells", u_cells)] + [Unit(f"momentum grid, {k} derivative", lambda c, k=k: u_kspace(c, k)) for k in ("first", "second")] if t == "double" else []
        u += [Unit(f"view {o} ({t})", lambda c, t=t, o=o: u_op(c, t, o)) for o in ("=", "*=", "+=")] + [Unit(f"active dimension ({t})", lambda c, t=t: u_active(c, t)), Unit(f"constructor ({t})", lambda c, t=t: u_ctor(c, t)), Unit(f"sum ({t})", lambda c, t=t: u_sum(c, t))]
    return u
def el(w, st, t, name, i):
    return tuple(w.rd(st, name + ".d", o, (P(0), i)) for o in ((0, 8) if t == "dcomplex" else (0,)))
def u_op(c, t, o):
    e = int_sym("e"); w = world(c); p = view(w, t, const=True); v = w.vector("v", T[t][0], sz(dim), P(1), const=True)
    for st, k, r in c.run(w, f"{vcls(t)}::operator{o}({T[t][2]} const&)", [p, v]):
        if k != 'ret': continue
        s = st.copy(); s.assume(b_and(le(0, e), lt(e, TOT))); x, y = el(w, w.pre, t, "x", e), el(w, w.pre, t, "v", co(dim, e))
        if t == "double": want = {"=": y[0], "*=": x[0]*y[0], "+=": x[0] + y[0]}[o]; ok = el(w, s, t, "x", e)[0] == want
        else: ok = ceq(el(w, s, t, "x", e), {"=": y, "*=": cmul(x, y), "+=": cadd(x, y)}[o])
        w.ex.oblige(s, ok, f"post:operator{o} combines every element with the value of its coordinate"); w.frame(st, lambda f, q: f == "x.d", f"operator{o}")
i_ = z3.Int("vi")
def PI(f, lo, hi): return loops.PRODS.make(f(from_z(i_)), i_, lo, hi)
def low(d): return PI(sz, P(0), d)
def others(d): return PI(lambda q: ite(eq(q, d), P(1), sz(q)), P(0), D)
def cell(d, i, j):
    """position of point i of dimension d in replica j: the others below d run fastest"""
    q, r = (from_z(f(j.z(), low(d).z())) for f in (QUO, REM)); return (q*sz(d) + i)*low(d) + r
def u_active(c, t):
    """activating a dimension: the cells are at the positions of the coordinate system"""
    cls = vcls(t); i, j = int_sym("i"), int_sym("j")
    for built in (0, 1):
        w = world(c); w.ex.divfn = True; w.ex.S.extra_axioms.append(div_axioms); p = view(w, t); e = w.st.fams["x.d"].esize; g = z3.Int("$vg"); w.st.assume(z3.ForAll([g], sz(from_z(g)).z() >= 1, patterns=[sz(from_z(g)).z()]))
        f = w.st.fams["vw"].bases; f[w.prog.layout(cls)["_adim"][0]] = lambda X: int_sym("was"); f[w.prog.layout(cls)["_nothers"][0]] = lambda X: int_sym("wasn")
        if not built:
            def b(X):
                if X[0] == dim: return NULL
                raise AltPtr([(eq(X[0], dim), NULL)], Ptr("vw.b", X))
            w.st.fams["vw.a"].bases[0] = b
        for st, k, r in c.run(w, f"{cls}::ActiveDim(int)", [p, dim]):
            if k != 'ret': continue
            s = st.copy(); s.assume(b_and(le(0, i), lt(i, sz(dim)), le(0, j), lt(j, others(dim))))
            w.ex.oblige(st, b_and(eq(w.fld(st, p, cls, "_adim"), dim), eq(w.fld(st, p, cls, "_nothers"), others(dim))), "post:active dimension and number of points for each of its values")
            a = w.rd(s, "vw.a", 0, (dim,)); w.ex.oblige(s, isinstance(a, Ptr) and a.fam is not None and (not built or a.fam == "vw.b"), "post:cells of the dimension (kept when there are some)")
            if not built:
                b = w.rd(s, a.fam, 0, tuple(a.ix) + (i,)); x = w.rd(s, b.fam, 0, tuple(b.ix) + (j,))
                w.ex.oblige(s, x.fam == "x.d" and eq(x.off, cell(dim, i, j)*e), "post:position of the cells")
            w.frame(st, lambda f, o: f == "vw" and o in [w.prog.layout(cls)[m][0] for m in ("_adim", "_nothers")] or f == "vw.a" and not built, "ActiveDim")
def u_cells(c):
    """the cells are the elements of the vector, each exactly once: cell (i, j) is the j-th element with coordinate i"""
    w = world(c); st = w.st; n = int_sym("n"); g = z3.Int("$vg"); st.assume(z3.ForAll([g], sz(from_z(g)).z() >= 1, patterns=[sz(from_z(g)).z()])); st.assume(b_and(le(0, dim), lt(dim, D)))
    oth = lambda q: ite(eq(q, dim), P(1), sz(q)); A = lambda n: PI(oth, P(0), n); B = lambda n: PI(sz, P(0), n); H = lambda n: PI(sz, dim + 1, n)
    ob = lambda s, g, m: w.ex.oblige(s, g, "lemma:" + m)
    ob(st, eq(A(dim), B(dim)), "dimensions below the active one"); s = st.copy(); s.assume(eq(A(dim), B(dim))); ob(s, b_and(eq(A(dim + 1)*sz(dim), B(dim + 1)), eq(A(dim + 1), low(dim)*H(dim + 1))), "base, others = lower times higher")
    s = st.copy(); s.assume(b_and(lt(dim, n), lt(n, D), eq(A(n)*sz(dim), B(n)), eq(A(n), low(dim)*H(n)))); s.assume(b_and(eq(A(n + 1), A(n)*sz(n)), eq(H(n + 1), H(n)*sz(n)), eq(B(n + 1), B(n)*sz(n)))); ob(s, b_and(eq(A(n + 1)*sz(dim), B(n + 1)), eq(A(n + 1), low(dim)*H(n + 1))), "step, others = lower times higher, points times others = size")
    s = st.copy(); s.assume(b_and(lt(dim, n), lt(n, D))); ob(s, b_and(eq(A(n + 1), A(n)*sz(n)), eq(H(n + 1), H(n)*sz(n)), eq(B(n + 1), B(n)*sz(n))), "products step by step")
    l, h, N, i, q, r, x, y, e = (int_sym(v) for v in ("l", "h", "Np", "i", "q", "r", "x", "y", "e")); b = int_sym("b")
    s = w.st.copy(); s.assume(b_and(le(1, b), lt(x, y))); ob(s, le(b*x + b, b*y), "multiples differ by the divisor")
    uniq = lambda a, bb, Q1, R1: z3.Implies(to_bool(b_and(le(1, bb), le(0, R1), lt(R1, bb), le(0, Q1), eq(a, bb*Q1 + R1))), to_bool(b_and(eq(quo(a, bb), Q1), eq(rem(a, bb), R1))))
    def quo(a, bb): return from_z(QUO(a.z(), bb.z()))
    def rem(a, bb): return from_z(REM(a.z(), bb.z()))
    s = w.st.copy(); s.assume(b_and(le(1, b), le(0, r), lt(r, b), le(0, q), eq(e, b*q + r), le(0, x), le(0, y), lt(y, b), eq(e, b*x + y))); s.assume(z3.Implies(to_bool(lt(x, q)), to_bool(le(b*x + b, b*q)))); s.assume(z3.Implies(to_bool(lt(q, x)), to_bool(le(b*q + b, b*x)))); ob(s, b_and(eq(x, q), eq(y, r)), "quotient and remainder are unique")
    base = w.st.copy(); base.assume(b_and(le(1, l), le(1, h), le(1, N))); j = q*l + r
    def U(a, bb, Q1, R1): return uniq(a, bb, Q1, R1)
    # a cell has the coordinate it is filed under
    s = base.copy(); s.assume(b_and(le(0, i), lt(i, N), le(0, q), lt(q, h), le(0, r), lt(r, l))); c_ = (q*N + i)*l + r; s.assume(U(c_, l, q*N + i, r)); s.assume(U(q*N + i, N, q, i))
    s.assume(le(0, q*N))
    ob(s, b_and(eq(rem(quo(c_, l), N), i), eq(quo(quo(c_, l), N)*l + rem(c_, l), j)), "the cell has this coordinate and this place among the others")
    s2 = base.copy(); s2.assume(b_and(le(0, i), lt(i, N), le(0, q), lt(q, h), le(0, r), lt(r, l))); s2.assume(le(q*N + N, h*N)); s2.assume(b_and(lt(q*N + i, h*N), le(0, q*N))); s2.assume(le((q*N + i)*l + l, h*N*l)); s2.assume(le(0, (q*N + i)*l)); ob(s2, b_and(le(0, c_), lt(c_, h*N*l)), "inside the vector")
    # an element is a cell
    E_ = int_sym("e"); s = base.copy(); s.assume(b_and(le(0, E_), lt(E_, h*N*l))); u = quo(E_, l); q1, i1, r1 = quo(u, N), rem(u, N), rem(E_, l)
    D_ = lambda a, bb: z3.Implies(to_bool(b_and(le(0, a), le(1, bb))), to_bool(b_and(eq(a, bb*quo(a, bb) + rem(a, bb)), le(0, rem(a, bb)), lt(rem(a, bb), bb), le(0, quo(a, bb)))))
    s.assume(D_(E_, l)); s.assume(D_(u, N)); ob(s, b_and(eq((q1*N + i1)*l + r1, E_), le(0, i1), lt(i1, N), le(0, r1), lt(r1, l)), "every element is a cell of its coordinate")
    s.assume(eq((q1*N + i1)*l + r1, E_)); s.assume(z3.Implies(to_bool(le(h, q1)), to_bool(le(h*N*l, q1*N*l)))); s.assume(b_and(le(0, i1*l), le(0, r1))); ob(s, lt(q1, h), "its replica exists")
    s = base.copy(); a1, a2 = int_sym("a1"), int_sym("a2"); s.assume(b_and(le(0, a1), le(a1, a2))); ob(s, b_and(le(a1*l, a2*l), le(a1*N, a2*N)), "multiplication is monotonic")
    s = base.copy(); s.assume(b_and(le(0, q), lt(q, h), le(0, r), lt(r, l))); s.assume(le((q + 1)*l, h*l)); ob(s, b_and(lt(j, h*l), le(0, j)) , "place among the others exists"); 
    s = base.copy(); s.assume(b_and(le(0, E_), lt(E_, h*l))); s.assume(D_(E_, l)); s.assume(z3.Implies(to_bool(le(h, quo(E_, l))), to_bool(le(h*l, quo(E_, l)*l)))); ob(s, lt(quo(E_, l), h), "every place lies in a replica")

def u_ctor(c, t):
    cls = vcls(t); ty = T[t][0]; S = int_sym("strides"); i = int_sym("i")
    w = world(c); x = w.vector("x", ty, TOT, S, const=True); w.st.fam(Fam("dims", 'array', esize=4, count=D, fields={0: 'i'}, bases={0: lambda X: sz(X[0])}, const=True)); w.st.assume(b_and(le(1, TOT), le(1, D)))
    p = w.obj("vw", cls)
    for st, k, r in c.run(w, f"{cls}::VectorView({T[t][2]}&, int, int const*)", [p, x, D, Ptr("dims")]):
        w.ex.oblige(st, k == 'ret', "post:returns"); f = lambda m: w.fld(st, p, cls, m); w.frame(st, lambda f, o: f == "vw", "constructor")
        if f("_dims") == NULL: w.ex.oblige(st, lt(1, S), "post:refuses strided vectors only"); w.ex.oblige(st, f("_view") == NULL and eq(f("_ndims"), 0), "post:nothing to release"); continue
        w.ex.oblige(st, eq(S, 1), "post:one stride"); w.ex.oblige(st, f("_v") == Ptr("x.d", (P(0),)) and eq(f("_ndims"), D), "post:the vector's values")
        s = st.copy(); s.assume(b_and(le(0, i), lt(i, D))); d, v = f("_dims"), f("_view")
        w.ex.oblige(s, d.fam != "dims" and eq(w.rd(s, d.fam, 0, tuple(d.ix) + (i,)), sz(i)), "post:own copy of the numbers of points"); w.ex.oblige(s, w.rd(s, v.fam, 0, tuple(v.ix) + (i,)) == NULL, "post:no cells yet")
def u_sum(c, t):
    cls = vcls(t); j = int_sym("j"); w = world(c); p = view(w, t, const=True)
    for st, k, r in c.run(w, f"{cls}::Sum()", [p]):
        if k != 'ret': continue
        w.frame(st, lambda f, o: False, "Sum"); s = st.copy(); s.assume(b_and(le(0, j), lt(j, no(dim)))); w.ex.oblige(st, eq(w.fld(st, r, T[t][2], "n_"), no(dim)), "post:one value per place among the others")
        d = w.fld(st, r, T[t][2], "v_"); d = w.rd(s, d.fam, 0, tuple(d.ix) + (P(0),)); kz = z3.Int("vk")
        for o in ((0, 8) if t == "dcomplex" else (0,)): w.ex.oblige(s, w.rd(s, d.fam, o, tuple(d.ix) + (j,)) == loops.SUMS.make(w.rd(w.pre, "x.d", o, (P(0), off(dim, from_z(kz), j))), kz, P(0), sz(dim)), "post:sum over the coordinate")
GS = grid.GS
def freq(n, N):
    """index n of a transform of N points as signed frequency: 0, 1, ..., then the negative ones"""
    return ite(lt(n*2, N), n, n - N)
def real(n): return z3.ToReal(P(n).z())
import math, fractions
TWOPI = z3.RealVal(str(fractions.Fraction(2*math.pi)))
def dk(lo, hi, N): return TWOPI/(hi - lo + (hi - lo)/real(N - 1))
def u_kspace(c, which):
    n = int_sym("n"); Dg, sg, lo, hi = grid.symbols("g"); d = int_sym("d"); fac = real_sym("fac")
    for fn in {"second": ("Init1Dd2dx2({G} const&, int, double)", "Init1Dd2dx2(double, {G} const&, int)"), "first": ("Init1Dddx({G} const&, int, double)",)}[which]:
        w = c.world({**lib.mem(), **wfc.contracts(), **grid.contracts(), **elem.contracts()}); w.ex.patterns += lib.STDVEC; w.ex.loopcap = 0; g = grid.grid(w, "g", const=True, least=1); w.st.assume(b_and(le(0, d), lt(d, Dg), le(2, sg(d)))); w.st.assume(lo(d) < hi(d)); w.st.assume(fac != 0)
        args = [g, d, fac] if fn.endswith("double)") else [fac, g, d]
        for st, k, r in c.run(w, Q + "Kspace::" + fn.format(G=GS), args):
            if k != 'ret': continue
            N = sg(d); w.ex.oblige(st, isinstance(r, Ptr) and eq(w.fld(st, r, VD, "n_"), N), "post:one value per point"); w.frame(st, lambda f, o: f == "g", "Kspace")
            b = w.fld(st, r, VD, "v_"); b = w.rd(st, b.fam, 0, tuple(b.ix) + (P(0),)); s = st.copy(); s.assume(b_and(le(0, n), lt(n, N)))
            v = w.rd(s, b.fam, 0, tuple(b.ix) + (n,)); f, k = real(freq(n, N)), dk(lo(d), hi(d), N)
            if which == "first": want = f*k*fac
            else: want = f*f*k*k*(-fac if fn.endswith("double)") else 1/(2*fac))
            w.ex.oblige(s, v == want, f"post:{'i times the derivative' if which == 'first' else 'second derivative'}: frequencies 0, 1, ..., -2, -1 times the momentum spacing" + ("" if fn.endswith("double)") else ", kinetic energy of this mass"))

# ---- operators built from coordinates: the view by its contract
def gtot(g="g"): D, s, lo, hi = grid.symbols(g); return fftc.total(D, s)
def gco(d, e): return iuf("co:g", d, e)
def viewc(g="g"):
    """contracts of VectorView<double> over the grid g (proved above): combining with a vector changes every value by the vector's value at its coordinate"""
    Dg, sg, lo, hi = grid.symbols(g); cls = vcls("double")
    @lib.contract
    def ctor(ex, st, args, I, name):
        """a view of the values of the vector; the numbers of points are those of the grid"""
        vw, v, nd, ds = args; p, n = elem.block(ex, st, v, I, "view", 'D'); i = fresh_int("vd"); s = st.copy(); s.assume(b_and(le(0, i), lt(i, Dg)))
        ex.oblige(st, eq(nd, Dg), f"pre:view: number of dimensions@{ex.loc(I)}"); ex.oblige(st, eq(n, gtot(g)), f"pre:view: one value per grid point@{ex.loc(I)}"); ex.oblige(s, eq(ex.load(s, ds.add(i*4), lib.INT, I), sg(i)), f"pre:view: numbers of points@{ex.loc(I)}")
        lay = ex.prog.layout(cls); ex.store(st, vw.add(P(lay["_v"][0])), p, lib.PTRTY, I); ex.store(st, vw.add(P(lay["_ndims"][0])), nd, lib.INT, I); ex.store(st, vw.add(P(lay["_adim"][0])), P(0), lib.INT, I); ex.store(st, vw.add(P(lay["_nothers"][0])), P(0), lib.INT, I)
    @lib.contract
    def active(ex, st, args, I, name):
        """selects an existing dimension"""
        ex.oblige(st, b_and(le(0, args[1]), lt(args[1], Dg)), f"pre:view: dimension exists@{ex.loc(I)}"); st.assume(b_and(le(0, args[1]), lt(args[1], Dg)))
        lay = ex.prog.layout(cls); ex.store(st, args[0].add(P(lay["_adim"][0])), args[1], lib.INT, I); ex.store(st, args[0].add(P(lay["_nothers"][0])), P(1), lib.INT, I)
    def op(f):
        @lib.contract
        def h(ex, st, args, I, name):
            """combines every value with the value of the vector at its coordinate"""
            lay = ex.prog.layout(cls); d = ex.load(st, args[0].add(P(lay["_adim"][0])), lib.INT, I); p = ex.load(st, args[0].add(P(lay["_v"][0])), lib.PTRTY, I); act = ex.load(st, args[0].add(P(lay["_nothers"][0])), lib.INT, I)
            ex.oblige(st, b_and(eq(act, 1), le(0, d), lt(d, Dg)), f"pre:view: a dimension has been activated@{ex.loc(I)}"); q, n = elem.block(ex, st, args[1], I, "view operand", 'D'); ex.oblige(st, le(sg(d), n), f"pre:view: one value per point of the dimension@{ex.loc(I)}")
            F = st.fams[p.fam]
            if F.const: ex.oblige(st, False, f"frame:write to read-only {F.name}@{ex.loc(I)}"); return
            col = ex.column(st, F, 0, 'd'); src = ex.column(st, st.fams[q.fam], 0, 'd'); s0 = st.copy()
            def val(X):
                c = gco(d, X[-1]); s = s0.copy(); s.assume(b_and(le(0, c), lt(c, sg(d)), le(0, X[-1]), lt(X[-1], gtot(g)))); dec = lambda z: ex.S.decide(s.pc, z)
                return f(col_eval(col, X, dec), col_eval(src, tuple(q.ix) + (c,), dec))
            st.mem[(F.name, 0)] = col.bulk(Upd([('eq', i) for i in p.ix] + [('rng', P(0), gtot(g))], None, val))
        return h
    return {f"{cls}::VectorView({VD}&, int, int const*)": ctor, f"{cls}::~VectorView()": wfc.k_noop, f"{cls}::ActiveDim(int)": active, **{f"{cls}::operator{o}({VD} const&)": op(f) for o, f in (("=", lambda x, y: y), ("*=", lambda x, y: x*y), ("+=", lambda x, y: x + y))}}
def coax(g="g"):
    Dg, sg, lo, hi = grid.symbols(g)
    def axioms(fs):
        out = []; seen = set(); todo = list(fs)
        while todo:
            x = todo.pop()
            if isinstance(x, bool) or x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x) or not z3.is_app(x): continue
            if x.decl().name() == "co:g": out.append(z3.And(0 <= x, x < sg(from_z(x.arg(0))).z()))
            todo += x.children()
        return out
    return axioms
def gworld(c, extra=None):
    k = {Q + "OLaser::OLaser()": wfc.k_noop, **lib.mem(), **wfc.contracts(), **grid.contracts(), **fftc.contracts(), **elem.contracts(), **elem.locals_(), **viewc(), **(extra or {})}
    for x in (f"{VC}::FastCopy({VC}&)", f"{VC}::swap({VC}&)"): k.pop(x, None)
    w = c.world(k); w.ex.patterns += wfc.MAPS + lib.STDVEC; w.ex.S.extra_axioms.append(coax()); return w
WW = "QDLIB::WaveFunction*"
import O07, W03
def u_position(c):
    """the position operator is the (scaled) sum of the chosen coordinates"""
    kind = "position"; cls = O07.CLS[kind]; e = int_sym("e"); Dg, sg, lo, hi = grid.symbols("g")
    for single in (0, 1):
        w = gworld(c); dm = int_sym("which"); w.st.assume(b_and(le(0, dm), lt(dm, Dg)) if single else lt(dm, 0)); grid.wellformed(w, "g", 1, 2)
        p = O07.oper(w, kind, "op", "h", False, int_sym("op.n"), {"_dim": dm, "_scale": real_sym("scale")}); grid.wellformed(w, "h"); grid.attach(w, p, "h", cls, False); w.st.assume(eq(int_sym("op.n"), 0)); psi = W03.wave(w, "s", "g", const=True)
        for st, k, v in c.run(w, O07.owner(w, kind, f"Init({WW})"), [p, psi]):
            if k != 'ret' and st.gh.get('throw') == 'memory': continue
            if k != 'ret': w.ex.oblige(st, le(Dg, dm) if single else False, "post:refuses only a dimension the wave function does not have"); continue
            n = gtot(); w.ex.oblige(st, eq(w.fld(st, p, cls, "n_"), n), "post:one value per grid point"); W03.samegrid(w, st, p, "g", "grid", cls); s2 = st.copy(); s2.assume(b_and(le(0, e), lt(e, n))); b = W03.blk(w, s2, p, cls)
            v = w.rd(s2, b.fam, 0, tuple(b.ix) + (e,)); kz = z3.Int("dk"); x = lambda d: (lo(d) + (hi(d) - lo(d))/real(sg(d) - 1)*real(gco(d, e)))*real_sym("scale")
            w.ex.oblige(s2, v == (x(dm) if single else loops.SUMS.make(x(from_z(kz)), kz, P(0), Dg)), "post:value = coordinate" + ("" if single else ", summed over the dimensions")); w.frame(st, lambda f, o: f.startswith(("op", "PB:op")), "Init")

def xgrid(d, i):
    Dg, sg, lo, hi = grid.symbols("g"); return lo(d) + (hi(d) - lo(d))/real(sg(d) - 1)*real(i)
def u_kick(c):
    """the kick operator multiplies by exp(i k x)"""
    loops.SUMS.loose = loops.RPRODS.loose = True
    e = int_sym("e"); Dg, sg, lo, hi = grid.symbols("g"); cls = O07.KK; i = int_sym("i"); n = gtot()
    for dims in (0, 1):
        w = gworld(c, params.contracts()); w.ex.patterns += params.VECS; grid.wellformed(w, "g", 1, 2)
        p = O07.kick(w, "op", "h", False, False, int_sym("op.nk"), least=0); w.st.assume(le(0, int_sym("op.nk"))); hd = grid.symbols("h")[0]; w.st.assume(b_not(eq(hd, 0)) if dims else eq(hd, 0)); psi = W03.wave(w, "s", "g", const=True)
        for st, k, v in c.run(w, f"{cls}::Init({WW})", [p, psi]):
            if k != 'ret' and st.gh.get('throw') == 'memory': continue
            if k != 'ret': w.ex.oblige(st, b_or(b_not(eq(hd, Dg)) if dims else False, b_and(params.has("k"), lt(Dg, params.count("k")))), "post:refuses only a different number of dimensions or too many momenta"); continue
            if dims: w.ex.oblige(st, eq(hd, Dg), "post:number of dimensions agrees")
            W03.samegrid(w, st, p, "g", "grid", cls); kz = z3.Int("dk"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, Dg))); yes = lambda t: w.ex.S.decide(st.pc, params.has(t)) is True; sc = params.num("scale") if yes("scale") else R(1)
            kn = lambda d: z3.If(to_bool(lt(d, params.count("k"))), params.entry("k", d)*sc, R(0)) if yes("k") else R(0)
            x = w.fld(st, p, cls, "_kn.v_"); x = w.rd(st, x.fam, 0, tuple(x.ix) + (P(0),)); w.ex.oblige(st, eq(w.fld(st, p, cls, "_kn.n_"), Dg), "post:one momentum per dimension"); w.ex.oblige(s2, w.rd(s2, x.fam, 0, tuple(x.ix) + (i,)) == kn(i), "post:momenta as given, times the scale, zero where none is given")
            E = w.fld(st, p, cls, "_exp"); ok = isinstance(E, Ptr) and E.fam is not None and E.fam not in st.dead; w.ex.oblige(st, ok, "post:phase factors exist")
            if not ok: continue
            w.ex.oblige(st, eq(w.fld(st, E, VC, "n_"), n), "post:one phase factor per grid point"); s2 = st.copy(); s2.assume(b_and(le(0, e), lt(e, n))); b = W03.blk(w, s2, E, VC)
            ph = R(0) if not yes("k") else loops.SUMS.make(xgrid(from_z(kz), gco(from_z(kz), e))*kn(from_z(kz)), kz, P(0), Dg)
            w.ex.oblige(s2, ceq(tuple(w.rd(s2, b.fam, o, tuple(b.ix) + (e,)) for o in (0, 8)), (intrin.math1("cos", ph), intrin.math1("sin", ph))), "post:value = exp(i sum of momentum times coordinate)"); w.frame(st, lambda f, o: f.startswith(("op", "PB:op")), "Init")
def u_filter(c):
    """the filter is the product (negative imaginary potential: the sum) of its edges, times the gain"""
    loops.SUMS.loose = loops.RPRODS.loose = True; cls = O07.CLS["filter"]; e = int_sym("e"); Dg, sg, lo, hi = grid.symbols("g"); n = gtot()
    for nip in (0, 1):
        w = gworld(c); w.st.assume(le(0, int_sym("op.n")))
        p = O07.oper(w, "filter", "op", "g", False, int_sym("op.n"), {"_nip": nip, "_gain": real_sym("gain"), "_order": int_sym("order")}); grid.wellformed(w, "g", 1, 2); grid.attach(w, p, "g", cls, False)
        on = {k: (lambda d, fl=z3.Function(f"op.{m}", z3.IntSort(), z3.BoolSort()): fl(P(d).z())) for k, m in (("Low", "_lp"), ("High", "_rp"))}
        pos = {k: (lambda d, m=m: w.rd(w.pre, "op", ('A', w.prog.layout(cls)[m][0], 0), (P(d),))) for k, m in (("Low", "_lpx"), ("High", "_rpx"))}
        for st, k, v in c.run(w, cls + "::_Init()", [p]):
            if k != 'ret': continue
            w.ex.oblige(st, eq(w.fld(st, p, cls, "n_"), n), "post:one value per grid point"); s2 = st.copy(); s2.assume(b_and(le(0, e), lt(e, n))); b = W03.blk(w, s2, p, cls); kz = z3.Int("dk"); d = from_z(kz)
            def at(kd):
                x, i = (pos[kd](d) - lo(d))/((hi(d) - lo(d))/real(sg(d) - 1)), real(gco(d, e)); return 1/(1 + intrin._pow(i/x if kd == "Low" else x/i, 2*real(int_sym("order"))))
            v = w.rd(s2, b.fam, 0, tuple(b.ix) + (e,))
            if nip: want = loops.SUMS.make(z3.If(on["Low"](d), at("Low"), R(0)) + z3.If(on["High"](d), at("High"), R(0)), kz, P(0), Dg)
            else: want = loops.RPRODS.make(z3.If(on["Low"](d), at("Low"), R(1))*z3.If(on["High"](d), at("High"), R(1)), kz, P(0), Dg)
            w.ex.oblige(s2, v == want*real_sym("gain"), "post:" + ("sum" if nip else "product") + " of the edges times the gain"); w.frame(st, lambda f, o: f.startswith(("op", "PB:op")), "_Init")
def u_filterinit(c):
    """the filter set up for a wave function: its grid, and exactly the edges given for its dimensions"""
    cls = O07.CLS["filter"]; i = int_sym("i"); Dg, sg, lo, hi = grid.symbols("g")
    @lib.contract
    def init(ex, st, args, I, name):
        """fills the filter for its grid and edges (unit 'filter operator')"""
        st.gh['ready'] = args[0]
    w = gworld(c, {**params.contracts(), cls + "::_Init()": init}); hd, hs, _, _ = grid.symbols("h")
    p = O07.oper(w, "filter", "op", "h", False, int_sym("op.n"), {}); grid.wellformed(w, "g", 1, 2); grid.wellformed(w, "h", 0, 0); grid.attach(w, p, "h", cls, False); psi = W03.wave(w, "s", "g", const=True)
    for st, k, v in c.run(w, O07.owner(w, "filter", f"Init({WW})"), [p, psi]):
        if k != 'ret' and st.gh.get('throw') == 'memory': continue
        if k != 'ret': w.ex.oblige(st, b_and(b_not(eq(hd, 0)), b_not(eq(hd, Dg))), "post:refuses only a different number of dimensions"); continue
        if st.gh.get('ready') is None: w.frame(st, lambda f, o: False, "Init a second time"); w.ex.oblige(st, lt(0, fftc.total(hd, hs)), "post:set up already"); continue
        w.ex.oblige(st, st.gh['ready'] == p, "post:this operator is filled"); W03.samegrid(w, st, p, "g", "grid", cls); s = st.copy(); s.assume(b_and(le(0, i), lt(i, Dg)))
        for m, t, what in (("_lp", "lp", "left"), ("_rp", "rp", "right")):
            o = w.prog.layout(cls)[m][0]; x = w.prog.layout(cls)[m + "x"][0]; w.ex.oblige(s, eq(w.rd(s, "op", ('A', o, 0), (i,)), params.flag((t, i))), f"post:{what} edge of a dimension if and only if it is given")
            q = s.copy(); q.assume(params.has((t, i))); w.ex.oblige(q, w.rd(q, "op", ('A', x, 0), (i,)) == params.num((t, i)), f"post:{what} edge where it is given")
        w.frame(st, lambda f, o: f.startswith("PB:op") or f.startswith("op") and o not in [w.prog.layout(cls)[m][0] for m in ("_nip", "_gain", "_order")], "Init")
def u_params(c):
    """parameters as given, otherwise the documented defaults"""
    @lib.contract
    def copy(ex, st, args, I, name):
        """ParamContainer::operator=: the same entries"""
        return args[0]
    @lib.contract
    def put(ex, st, args, I, name):
        """ParamContainer::SetValue: enters a value into the operator's own parameters"""
        w.ex.oblige(st, args[0].fam == "op", f"frame:parameters of the caller@{ex.loc(I)}")
    PC = Q + "ParamContainer"; k = {f"{PC}::operator=({PC}&)": copy, f"{PC}::operator=({PC} const&)": copy, f"{PC}::SetValue({params.SS}, int const&)": put}
    for kind in ("position", "kick", "filter"):
        w = gworld(c, {**params.contracts(), **k}); hd, hs, _, _ = grid.symbols("h"); cls = O07.KK if kind == "kick" else O07.CLS[kind]
        grid.wellformed(w, "h", 0, 0)
        if kind == "kick": p = O07.kick(w, "op", "h", False, False, int_sym("op.nk"), least=0)
        else: p = O07.oper(w, kind, "op", "h", False, int_sym("op.n"), {"position": {"_dim": int_sym("dim0"), "_scale": real_sym("scale0")}, "filter": {"_gain": real_sym("gain0"), "_order": int_sym("order0"), "_nip": 0}}[kind]); grid.attach(w, p, "h", cls, False)
        a = w.obj("params", GS, const=True); f = lambda st, m: w.fld(st, p, cls, m); has, ob = params.has, w.ex.oblige
        pick = lambda t, x, y: ite(has(t), x, y)
        for st, kk, v in c.run(w, O07.owner(w, kind, f"Init({PC}&)") if kind != "kick" else f"{cls}::Init({PC}&)", [p, a]):
            if kk != 'ret' and st.gh.get('throw') == 'memory': continue
            if kind == "position":
                if kk != 'ret': ob(st, b_and(has("dim"), lt(params.integer("dim"), 0)), "post:refuses only a negative dimension"); continue
                ob(st, eq(f(st, "_dim"), pick("dim", params.integer("dim"), int_sym("dim0"))), "post:dimension"); ob(st, f(st, "_scale") == z3.If(has("scale"), params.num("scale"), real_sym("scale0")), "post:scale"); own = ("_dim", "_scale")
                ob(st, z3.Implies(has("dim"), le(0, params.integer("dim"))), "post:a negative dimension is refused")
            elif kind == "kick":
                if kk != 'ret': ob(st, b_and(has("dims"), b_or(lt(params.integer("dims"), 1), lt(grid.MAXD, params.integer("dims")))), "post:refuses only an impossible number of dimensions"); continue
                ob(st, eq(grid.get(w, st, p, "dims", None, cls), pick("dims", params.integer("dims"), hd)), "post:number of dimensions"); own = ()
            else:
                if kk != 'ret': ob(st, b_or(b_and(has("order"), lt(params.integer("order"), 1)), b_and(has("dims"), b_or(lt(params.integer("dims"), 0), lt(grid.MAXD, params.integer("dims"))))), "post:refuses only an impossible order or number of dimensions"); continue
                nip = b_and(has("nip"), z3.Bool("param:nip")); ob(st, eq(f(st, "_order"), pick("order", params.integer("order"), P(20))), "post:order, 20 if none is given"); ob(st, eq(f(st, "_nip"), ite(nip, P(1), P(0))), "post:negative imaginary potential only if asked for")
                ob(st, f(st, "_gain") == z3.If(has("gain"), params.num("gain"), real_sym("gain0")), "post:gain"); ob(st, eq(f(st, "_hermitian"), ite(nip, P(0), w.fld(w.pre, p, cls, "_hermitian"))), "post:a negative imaginary potential is not hermitian"); own = ("_order", "_nip", "_gain", "_hermitian", "_residue")
            w.frame(st, lambda fm, o: fm.startswith("PB:op") or fm == "op" and (isinstance(o, str) or o in [w.prog.layout(cls)[m][0] for m in own] or kind != "position"), "Init")
