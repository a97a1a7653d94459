"""F01: transforms: plans describe the grid, planning keeps the data, forward goes in -> out, backward out -> in."""
from framework import *
import lib, grid, loops, fftw
ID = "F01"; TITLE = "Fourier transforms"
SOURCES = ["fft/fft.cpp", "qdlib/GridSystem.cpp"]
SHIMS = {"fft": '#include "fft/fft.h"\nusing namespace QDLIB;\nint f(FFT*f, GridSystem*g, cVec *a, cVec *b, dVec *d){ FFT *x=new FFT(*g,*a,*b,true), *y=new FFT(*a,*b), *z=new FFT(*d,*a); x->forward(); x->backward(1); z->ReplaceBuffers(a,b); y->ReplaceBuffers(d,b); return f->Compatible(*g) + sizeof(*f); }\n'}
FF = "QDLIB::FFT"; CX = "struct QDLIB::dcomplex"; V = "QDLIB::Vector<QDLIB::dcomplex>"; VD = "QDLIB::Vector<double>"; GS = "QDLIB::GridSystem"
REPLAY = "F01.cpp"
ASSUMPTIONS = ["FFTW computes the transform it was asked for; planning with a measuring strategy may overwrite both buffers, a wisdom-only request may yield no plan, any other request yields one", "in and out buffers are different, contiguous and as large as the grid"]
FLAGS = (fftw.MEASURE, fftw.PATIENT, fftw.ESTIMATE)
D_, N, lo, hi = grid.symbols("g")
def fw(c, flag=None, extra=None):
    w = c.world({**lib.mem(), **grid.contracts(), **fftw.contracts(), **(extra or {})})
    if flag is not None:
        @lib.contract
        def k_inst(ex, st, args, I, name): return Ptr("G:fftg")
        @lib.contract
        def k_flag(ex, st, args, I, name): return P(flag)
        w.ex.contracts["QDLIB::FFTGlobal::Instance()"] = k_inst; w.ex.contracts["QDLIB::FFTGlobal::OptimizeFlag()"] = k_flag
        w.st.fam(Fam("G:fftg", 'struct', size=64, fields={8: 'i'}))
    return w
def total(D): return fftw.prod([N(P(i)) for i in range(D)])
def low(d): return fftw.prod([N(P(i)) for i in range(d)])
def bufs(w, n): return w.vector("in", CX, n), w.vector("out", CX, n)
def shape(w, D):
    w.st.assume(b_and(*[le(1, N(P(i))) for i in range(D)]))
    w.st.fam(Fam("dims", 'array', esize=4, count=P(D), fields={0: 'i'}, bases={0: lambda X: N(X[0])}, heap=True)); w.st.fam(Fam("rdims", 'array', esize=4, count=P(D), fields={0: 'i'}, bases={0: lambda X: N(P(D) - 1 - X[0])}, heap=True))
def plans(w, name, sign, given):
    """plan objects: entry 0 the full transform, entry 1 + dim the transforms of one dimension"""
    f = w.st.fam(Fam(name, 'struct', size=8, arity=1, heap=True)); f.plan = lambda ix: ("given", name, ix); return f
def fft(w, D=None, f=lambda X: NULL, b=lambda X: NULL, oneway=0, typ=0, vals=None):
    v = {"_planf": f, "_planb": b, "_dims": Ptr("dims"), "_rdims": Ptr("rdims"), "_oneway": P(oneway), "_type": P(typ), "_in": Ptr("in"), "_cin": Ptr("in.d", (0,)), "_cout": Ptr("out.d", (0,)), "_din": NULL, "_dout": NULL}
    if D is not None: v["_ndims"] = P(D); shape(w, D)
    v.update(vals or {}); return w.obj("f", FF, v)
def kept(w, st, who, n, tag):
    i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n)))
    w.ex.oblige(s2, ceq(w.cat(st, who, P(0), i), w.cat(w.pre, who, P(0), i)), f"post:{tag}")
def units(prog, tier):
    u = [Unit("lower dimensions", u_low), Unit("compatible", u_compat), Unit("buffers", u_bufs), Unit("destructor", u_del), Unit("one dimension data", u_1d)]
    for D in range(1, grid.MAXD + 1):
        u += [Unit(f"grid {D}", lambda c, D=D: u_grid(c, D)), Unit(f"execute {D}", lambda c, D=D: u_exec(c, D))]
        u += [Unit(f"dimension plans {D}.{d}", lambda c, D=D, d=d: u_dim(c, D, d)) for d in range(D)]
    return u
def PI(f, lo, hi): i = z3.Int("gi"); return loops.PRODS.make(f(from_z(i)), i, lo, hi)
def u_low(c):
    d = int_sym("d"); n = int_sym("D")
    for fn, want in (("_lothers", PI(N, P(0), d)), ("_uothers", PI(N, P(0), n - d - 1))):
        w = fw(c); w.st.assume(b_and(le(0, d), lt(d, n), le(n, P(grid.MAXD)))); w.st.fam(Fam("dims", 'array', esize=4, count=n, fields={0: 'i'}, bases={0: lambda X: N(X[0])})); p = fft(w, vals={"_ndims": n})
        for st, k, v in c.run(w, f"{FF}::{fn}(int) const", [p, d]): w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, eq(v, want), "post:points in the lower dimensions"); w.frame(st, lambda f, o: False, fn)
def plan_at(w, st, p, m, i):
    o = w.prog.layout(FF)[m][0]; return w.rd(st, p.fam, ('A', o, 0), tuple(p.ix) + (P(i),))
def describes(w, st, q, kind, dims, loops_, sign, src, dst, tag):
    """the plan q asks for exactly this transform"""
    ok = isinstance(q, Ptr) and q.fam is not None and hasattr(st.fams[q.fam], "plan") and q.fam not in st.dead
    w.ex.oblige(st, ok, f"post:{tag} plan exists")
    if not ok: return
    pl = fftw.plan(st, q)
    if not isinstance(pl, fftw.Plan): w.ex.oblige(st, False, f"post:{tag} plan is new"); return
    w.ex.oblige(st, pl.kind == kind and pl.sign == sign, f"post:{tag} kind and direction"); w.ex.oblige(st, pl.src == src and pl.dst == dst, f"post:{tag} buffers")
    w.ex.oblige(st, len(pl.dims) == len(dims) and b_and(*[eq(a, b) for x, y in zip(pl.dims, dims) for a, b in zip(x, y)]), f"post:{tag} transformed dimensions")
    # the loop order is free: every expected loop occurs exactly once
    rest = list(pl.loops); good = len(rest) == len(loops_)
    for y in loops_:
        j = next((j for j, x in enumerate(rest) if len(x) == len(y) and all(w.ex.S.decide(st.pc, eq(a, b)) is True for a, b in zip(x, y))), None)
        if j is None: good = False
        else: rest.pop(j)
    w.ex.oblige(st, good, f"post:{tag} loops over the other dimensions")
def u_grid(c, D):
    for flag in FLAGS:
        for one in (0, 1):
            w = fw(c, flag); g = grid.grid(w, "g", const=True, dims=D); w.st.assume(b_and(*[le(1, N(P(i))) for i in range(D)])); n = total(D); a, b = bufs(w, n)
            p = Ptr(w.st.fam(Fam("f", 'struct', size=w.prog.layout(FF)["#size"][0], cls=FF)).name)
            f = w.st.fams["f"]; 
            for m in ("_planf", "_planb"): o = w.prog.layout(FF)[m][0]; f.arrays.append((o, 8, 5)); f.fields[('A', o, 0)] = 'p'
            for st, k, v in c.run(w, f"{FF}::FFT({GS}&, {V}&, {V}&, bool)", [p, g, a, b, bool(one)]):
                if k != 'ret': continue      # out of memory
                X, Y = Ptr("in.d", (0,)), Ptr("out.d", (0,)); G = lambda m: w.fld(st, p, FF, m)
                w.ex.oblige(st, eq(G("_ndims"), D), "post:number of dimensions"); w.ex.oblige(st, b_and(eq(G("_type"), 0), eq(G("_oneway"), one)), "post:kind"); w.ex.oblige(st, G("_cin") == X and G("_cout") == Y, "post:buffers")
                for i in range(D):
                    for m, x in (("_dims", N(P(i))), ("_rdims", N(P(D - 1 - i)))): q = G(m); w.ex.oblige(st, eq(w.rd(st, q.fam, 0, tuple(q.ix) + (P(i),)), x), f"post:{m}")
                w.ex.oblige(st, G("_dims").fam != G("_rdims").fam, "post:tables are separate")
                dims = [(N(P(D - 1 - i)),) for i in range(D)]
                describes(w, st, plan_at(w, st, p, "_planf", 0), "dft", dims, [], -1, X, Y, "forward")
                if one: w.ex.oblige(st, plan_at(w, st, p, "_planb", 0) == NULL, "post:no backward plan when only one way is wanted")
                else: describes(w, st, plan_at(w, st, p, "_planb", 0), "dft", dims, [], 1, Y, X, "backward")
                for i in range(1, 5): w.ex.oblige(st, plan_at(w, st, p, "_planf", i) == NULL and plan_at(w, st, p, "_planb", i) == NULL, "post:no plans of single dimensions yet")
                kept(w, st, "in", n, "input data kept"); w.ex.oblige(st, not st.gh.get('fft'), "post:nothing transformed"); w.frame(st, lambda f, o: f == "f" or f == "out.d", "FFT(grid)")
def u_1d(c):
    n = int_sym("n")
    for one in (0, 1):
        w = fw(c); w.st.assume(le(1, n)); a, b = bufs(w, n); p = w.obj("f", FF)
        for st, k, v in c.run(w, f"{FF}::FFT({V}&, {V}&, bool)", [p, a, b, bool(one)]):
            if k != 'ret': continue
            X, Y = Ptr("in.d", (0,)), Ptr("out.d", (0,)); G = lambda m: w.fld(st, p, FF, m)
            w.ex.oblige(st, G("_cin") == X and G("_cout") == Y and G("_dims") == NULL and G("_rdims") == NULL, "post:buffers"); w.ex.oblige(st, b_and(eq(G("_type"), 0), eq(G("_oneway"), one)), "post:kind")
            describes(w, st, plan_at(w, st, p, "_planf", 0), "dft", [(n,)], [], -1, X, Y, "forward")
            if one: w.ex.oblige(st, plan_at(w, st, p, "_planb", 0) == NULL, "post:no backward plan when only one way is wanted")
            else: describes(w, st, plan_at(w, st, p, "_planb", 0), "dft", [(n,)], [], 1, Y, X, "backward")
            kept(w, st, "in", n, "input data kept"); w.frame(st, lambda f, o: f in ("f", "out.d"), "FFT(1d)")
        w = fw(c); w.st.assume(le(1, n)); b = w.vector("out", CX, int_sym("m")); a = w.vector("in", "double", n, const=True); p = w.obj("f", FF)
        for st, k, v in c.run(w, f"{FF}::FFT({VD}&, {V}&, bool)", [p, a, b, bool(one)]):
            if k != 'ret': continue
            X, Y = Ptr("in.d", (0,)), Ptr("out.d", (0,)); G = lambda m: w.fld(st, p, FF, m)
            w.ex.oblige(st, G("_din") == X and G("_cout") == Y and G("_dims") == NULL and G("_rdims") == NULL, "post:buffers"); w.ex.oblige(st, b_and(eq(G("_type"), 1), eq(G("_oneway"), one)), "post:kind")
            describes(w, st, plan_at(w, st, p, "_planf", 0), "r2c", [(n,)], [], 0, X, Y, "forward")
            if one: w.ex.oblige(st, plan_at(w, st, p, "_planb", 0) == NULL, "post:no backward plan when only one way is wanted")
            else: describes(w, st, plan_at(w, st, p, "_planb", 0), "c2r", [(n,)], [], 0, Y, X, "backward")
            w.frame(st, lambda f, o: f == "f", "FFT(real)")
def u_dim(c, D, d):
    for flag in FLAGS:
        for one in (0, 1):
            w = fw(c, flag); n = total(D); bufs(w, n); plans(w, "pf", -1, 1); p = fft(w, D, oneway=one)
            for st, k, v in c.run(w, f"{FF}::_CreatePlanDim(int)", [p, P(d)]):
                if k != 'ret': continue
                X, Y = Ptr("in.d", (0,)), Ptr("out.d", (0,)); dims = [(N(P(d)), low(d), low(d))]; lps = [(N(P(i)), low(i), low(i)) for i in range(D) if i != d]
                describes(w, st, plan_at(w, st, p, "_planf", d + 1), "guru", dims, lps, -1, X, Y, "forward")
                if one: w.ex.oblige(st, plan_at(w, st, p, "_planb", d + 1) == NULL, "post:no backward plan when only one way is wanted")
                else: describes(w, st, plan_at(w, st, p, "_planb", d + 1), "guru", dims, lps, 1, Y, X, "backward")
                for i in range(5):
                    if i != d + 1: w.ex.oblige(st, plan_at(w, st, p, "_planf", i) == NULL and plan_at(w, st, p, "_planb", i) == NULL, "post:other plans untouched")
                kept(w, st, "in", n, "input data kept"); kept(w, st, "out", n, "output data kept"); w.frame(st, lambda f, o: f == "f" and isinstance(o, tuple) or f in ("in.d", "out.d"), "_CreatePlanDim")
def u_exec(c, D):
    """forward and backward run the right plan on the right buffers; a missing plan of one dimension is made first"""
    X, Y, Z_ = Ptr("in.d", (0,)), Ptr("out.d", (0,)), Ptr("din")
    @lib.contract
    def k_create(ex, st, args, I, name):
        p, d = args[0], args[1]; f = st.fams["f"]; dd = num(d)
        ex.oblige(st, 0 <= dd < D, f"pre:dimension exists@{ex.loc(I)}")
        for m, nm in (("_planf", "pf"), ("_planb", "pb")):
            o = ex.prog.layout(FF)[m][0]; st.mem[("f", ('A', o, 0))] = ex.column(st, f, ('A', o, 0), 'p').write((P(dd + 1),), Ptr(nm, (P(dd + 1),)))
    num = lambda d: fftw.num(d, "dimension")
    for fn, m, nm in (("forward", "_planf", "pf"), ("backward", "_planb", "pb")):
        for d in range(-1, D):
            for have in (0, 1):
                for typ in (0, 1):
                    if d >= 0 and typ: continue
                    if d < 0 and not have: continue
                    w = fw(c, extra={f"{FF}::_CreatePlanDim(int)": k_create}); n = total(D); bufs(w, n)
                    if typ: w.st.fam(Fam("din", 'array', esize=8, count=n, fields={0: 'd'}))
                    for x in ("pf", "pb"): plans(w, x, 0, 1)
                    pl = lambda nm: (lambda X: Ptr(nm, X) if have or X[0] == P(0) else NULL)
                    p = fft(w, D, pl("pf"), pl("pb"), typ=typ, vals={"_din": Z_} if typ else None)
                    for st, k, v in c.run(w, f"{FF}::{fn}(int)", [p, P(d)]):
                        if k != 'ret': continue
                        a, b = (Z_ if typ else X), Y
                        if fn == "backward": a, b = b, a
                        want = (("r2c" if fn == "forward" else "c2r") if typ else "c2c", Ptr(nm, (P(d + 1),)), a, b)
                        w.ex.oblige(st, st.gh.get('fft') == (want,), f"post:{fn} runs the plan of the dimension asked for on its buffers"); w.frame(st, lambda f, o: not have and f == "f" and isinstance(o, tuple), fn)
def u_bufs(c):
    for T, m, VT in ((CX, "_cin", V), ("double", "_din", VD)):
        w = fw(c); n = int_sym("n"); w.st.assume(le(1, n)); w.vector("in", T, n); w.vector("out", CX, n); a = w.vector("a", T, n, const=True); b = w.vector("b", CX, n, const=True); p = fft(w)
        for st, k, v in c.run(w, f"{FF}::ReplaceBuffers({VT}*, {V}*)", [p, a, b]):
            w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, w.fld(st, p, FF, m) == Ptr("a.d", (0,)) and w.fld(st, p, FF, "_cout") == Ptr("b.d", (0,)), "post:buffers replaced")
            lay = w.prog.layout(FF); w.frame(st, lambda f, o: f == "f" and o in (lay[m][0], lay["_cout"][0]), "ReplaceBuffers")
def u_compat(c):
    n = int_sym("nd"); T = lambda i: uf_int("T", i); j = z3.Int("$j"); q = from_z(j)
    w = fw(c); g = grid.grid(w, "g", const=True); w.st.assume(b_and(le(0, n), le(n, P(grid.MAXD)))); w.st.fam(Fam("dims", 'array', esize=4, count=n, fields={0: 'i'}, bases={0: lambda X: T(X[0])}, const=True)); p = fft(w, vals={"_ndims": n})
    w.ex.loophist = True
    same = z3.And(n.z() == D_.z(), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n.z()), T(q).z() == N(q).z())))
    for st, k, v in c.run(w, f"{FF}::Compatible({GS} const&) const", [p, g]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); r = to_bool(v) if not isinstance(v, Poly) else v.z() == 1
        w.ex.oblige(st, r == same, "post:compatible means the same sizes in all dimensions"); w.frame(st, lambda f, o: False, "Compatible")
def u_del(c):
    for tab in (0, 1):
        for have in range(3):
            w = fw(c); 
            for x in ("pf", "pb"): plans(w, x, 0, 1)
            pl = lambda nm: (lambda X: Ptr(nm, X) if have == 2 or (have == 1 and X[0] == P(0)) else NULL)
            w.st.fam(Fam("in.d", 'array', esize=16, count=int_sym("n"), arity=1)); w.st.fam(Fam("out.d", 'array', esize=16, count=int_sym("n"), arity=1))
            p = fft(w, 2 if tab else None, pl("pf"), pl("pb"), vals={} if tab else {"_dims": NULL, "_rdims": NULL, "_ndims": P(1)})
            for st, k, v in c.run(w, f"{FF}::~FFT()", [p]):
                w.ex.oblige(st, k == 'ret', "post:returns normally")
                for nm in ("pf", "pb"):
                    for i in range(5): 
                        dd = st.mem.get((nm, '#dead')); gone = dd is not None and dd.ups and eq(col_eval(dd, (P(i),)), 1)
                        w.ex.oblige(st, (gone if have == 2 or (have == 1 and i == 0) else b_not(gone)), f"post:every plan destroyed exactly once")
                if tab: w.ex.oblige(st, "dims" in st.dead and "rdims" in st.dead, "post:tables released")
                w.ex.oblige(st, "in.d" not in st.dead and "out.d" not in st.dead, "post:buffers left to their owner")
