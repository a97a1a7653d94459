"""G01: grid descriptions: what was set is what is reported; sizes, spacings, stripes and index mapping."""
from framework import *
import lib, grid, loops
from grid import GS, MAXD
ID = "G01"; TITLE = "grid geometry"
SOURCES = ["qdlib/GridSystem.cpp"]
SHIMS = {"gs": '#include "qdlib/GridSystem.h"\nusing namespace QDLIB;\nint f(GridSystem*s){ s->ActiveDim(0); return s->NumOthers() + s->NumOthers(0) + s->LowOthers() + s->LowOthers(0) + s->NumActive() + s->Index(0,0) + s->IndexBase(0) + sizeof(*s); }\n'}
REPLAY = "G01.cpp"
ASSUMPTIONS = ["the generated message class stores and returns the values it is given", "parameter parsing is not covered"]
def gw(c, extra=None):
    w = c.world({**lib.mem(), **grid.contracts(), **(extra or {})}); w.ex.patterns += lib.STDVEC; return w
def units(prog, tier):
    return [Unit(l, f) for l, f in (("getters", u_get), ("setters", u_set), ("dims", u_dims), ("size", u_size), ("spacing", u_dx), ("compare", u_cmp), ("copy", u_copy), ("stripes", u_stripes), ("two dims", u_two), ("active", u_active), ("index", u_index), ("lemmas", u_lem), ("from arrays", u_arrays))]
i_ = z3.Int("gi")
def PI(f, lo, hi): return loops.PRODS.make(f(from_z(i_)), i_, lo, hi)
def idx(w, st, D, nm="i"):
    i = int_sym(nm); s = st.copy(); s.assume(b_and(le(0, i), lt(i, D))); return s, i
def u_get(c):
    D, sz, lo, hi = grid.symbols("s"); i = int_sym("i")
    for fn, want in (("DimSize(int) const", sz), ("Xmin(int) const", lo), ("Xmax(int) const", hi)):
        w = gw(c); s = grid.grid(w, "s", const=True); w.st.assume(b_and(le(0, i), lt(i, D)))
        for st, k, v in c.run(w, f"{GS}::{fn}", [s, i]):
            w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, loops.val_eq(v, want(i)), "post:value of that dimension"); w.frame(st, lambda f, o: False, fn)
    w = gw(c); s = grid.grid(w, "s", const=True)
    for st, k, v in c.run(w, f"{GS}::Dim() const", [s]): w.ex.oblige(st, eq(v, D), "post:number of dimensions"); w.frame(st, lambda f, o: False, "Dim")
    w = gw(c); s = grid.grid(w, "s")
    for st, k, v in c.run(w, f"{GS}::DimSizes()", [s]):
        s2, i = idx(w, st, D); o = w.prog.layout(GS)["dimsizes_"][0]
        w.ex.oblige(st, v == s.add(P(o)), "post:the size table"); w.ex.oblige(s2, eq(w.rd(s2, "s", ('A', o, 0), (i,)), sz(i)), "post:size of every dimension"); w.frame(st, lambda f, q: f == "s" and q == ('A', o, 0), "DimSizes")
def u_set(c):
    D, sz, lo, hi = grid.symbols("s"); d, i = int_sym("d"), int_sym("i")
    for fn, what, arg, fl in (("DimSize(int, unsigned int)", "size", int_sym("n"), sz), ("Xmin(int, double)", "xmin", real_sym("x"), lo), ("Xmax(int, double)", "xmax", real_sym("x"), hi)):
        w = gw(c); s = grid.grid(w, "s"); w.st.assume(b_and(le(0, d), lt(d, D))); 
        if what == "size": w.st.assume(le(1, arg))
        for st, k, v in c.run(w, f"{GS}::{fn}", [s, d, arg]):
            w.ex.oblige(st, k == 'ret', "post:returns normally"); s2, i = idx(w, st, D)
            for q, f in (("size", sz), ("xmin", lo), ("xmax", hi)):
                w.ex.oblige(s2, loops.val_eq(grid.get(w, s2, s, q, i), ite(eq(i, d), arg, f(i)) if q == what else f(i)), f"post:only the {what} of the named dimension changes ({q})")
            w.ex.oblige(st, eq(grid.get(w, st, s, "dims"), D), "post:number of dimensions kept")
def u_dims(c):
    n = int_sym("n"); D, sz, lo, hi = grid.symbols("s")
    w = gw(c); s = grid.grid(w, "s"); w.ex.loopcap = 0
    for st, k, v in c.run(w, f"{GS}::Dim(int)", [s, n]):
        if k == 'throw':
            w.ex.oblige(st, b_or(lt(n, 0), lt(P(MAXD), n)), "post:only refuses impossible numbers"); w.frame(st, lambda f, o: False, "refused")
        else:
            w.ex.oblige(st, b_and(le(0, n), le(n, P(MAXD))), "post:refuses impossible numbers"); w.ex.oblige(st, b_and(eq(grid.get(w, st, s, "dims"), n), eq(grid.get(w, st, s, "cnt"), n)), "post:number of dimensions")
    w = gw(c); p = w.obj("s", GS)
    for st, k, v in c.run(w, f"{GS}::GridSystem()", [p]): w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, eq(grid.get(w, st, p, "dims"), 0), "post:no dimensions")
    w = gw(c); p = w.obj("s", GS); w.st.assume(b_and(le(0, n), le(n, P(MAXD))))
    for st, k, v in c.run(w, f"{GS}::GridSystem(int)", [p, n]): w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, b_and(eq(grid.get(w, st, p, "dims"), n), eq(grid.get(w, st, p, "cnt"), n)), "post:number of dimensions")
def u_size(c):
    D, sz, lo, hi = grid.symbols("s"); w = gw(c); s = grid.grid(w, "s", const=True)
    for st, k, v in c.run(w, f"{GS}::Size() const", [s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, eq(v, ite(eq(D, 0), P(0), PI(sz, P(0), D))), "post:product of the sizes of all dimensions, 0 without dimensions"); w.frame(st, lambda f, o: False, "Size")
def u_dx(c):
    D, sz, lo, hi = grid.symbols("s"); i = int_sym("i"); w = gw(c); s = grid.grid(w, "s", const=True, minsize=2); w.st.assume(b_and(le(0, i), lt(i, D)))
    for st, k, v in c.run(w, f"{GS}::Dx(int) const", [s, i]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, v == (hi(i) - lo(i)) / z3.ToReal(sz(i).z() - 1), "post:spacing = length / (points - 1)"); w.frame(st, lambda f, o: False, "Dx")
def u_cmp(c):
    D, sz, lo, hi = grid.symbols("s"); E, tz, lo2, hi2 = grid.symbols("t"); EPS = R("1e-10") if False else z3.RealVal("1/10000000000")
    j = z3.Int("$j"); ab = lambda x: z3.If(x >= 0, x, -x)
    q = from_z(j)
    same = z3.And(D.z() == E.z(), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < D.z()), z3.And(sz(q).z() == tz(q).z(), ab(lo(q) - lo2(q)) <= EPS, ab(hi(q) - hi2(q)) <= EPS))))
    for fn, neg in (("operator==", False), ("operator!=", True)):
        w = gw(c); s = grid.grid(w, "s", const=True); t = grid.grid(w, "t", const=True)
        for st, k, v in c.run(w, f"{GS}::{fn}({GS}&) const", [s, t]):
            w.ex.oblige(st, k == 'ret', "post:returns normally"); r = to_bool(v) if not isinstance(v, Poly) else v.z() == 1
            w.ex.oblige(st, r == (z3.Not(same) if neg else same), f"post:{fn[8:]} compares number of dimensions, sizes and limits"); w.frame(st, lambda f, o: False, fn)
def stripes(w, st, p, D, sz):
    lay = w.prog.layout(GS); i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, D)))
    a = w.rd(s2, p.fam, ('A', lay["_lothers"][0], 0), (i,)); b = w.rd(s2, p.fam, ('A', lay["_nothers"][0], 0), (i,))
    w.ex.oblige(s2, eq(a, PI(sz, P(0), i)), "post:stripe length = product of the sizes of the lower dimensions")
    w.ex.oblige(s2, eq(b, PI(lambda q: ite(eq(q, i), P(1), sz(q)), P(0), D)), "post:replicas = product of the sizes of the other dimensions")
def u_copy(c):
    E, tz, lo2, hi2 = grid.symbols("t"); w = gw(c); s = grid.grid(w, "s"); t = grid.grid(w, "t", const=True)
    for st, k, v in c.run(w, f"{GS}::operator=({GS}&)", [s, t]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, eq(grid.get(w, st, s, "dims"), E), "post:number of dimensions"); s2, i = idx(w, st, E)
        for q, f in (("size", tz), ("xmin", lo2), ("xmax", hi2)): w.ex.oblige(s2, loops.val_eq(grid.get(w, s2, s, q, i), f(i)), f"post:{q} of every dimension copied")
        stripes(w, st, s, E, tz); w.frame(st, lambda f, o: f == "s" or f.startswith("PB:s"), "operator=")
def u_stripes(c):
    D, sz, lo, hi = grid.symbols("s"); w = gw(c); s = grid.grid(w, "s")
    for st, k, v in c.run(w, f"{GS}::_BuildInfo()", [s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); stripes(w, st, s, D, sz)
        o = [w.prog.layout(GS)[m][0] for m in ("_lothers", "_nothers")]; w.frame(st, lambda f, q: f == "s" and isinstance(q, tuple) and q[1] in o, "_BuildInfo")
def u_two(c):
    D, sz, lo, hi = grid.symbols("s"); a, b = int_sym("a"), int_sym("b")
    for fn in ("NumOthers",):
        w = gw(c); s = grid.grid(w, "s", const=True); w.st.assume(b_and(le(0, a), lt(a, D), le(0, b), lt(b, D), b_not(eq(a, b))))
        for st, k, v in c.run(w, f"{GS}::{fn}(unsigned long, unsigned long) const", [s, a, b]):
            w.ex.oblige(st, k == 'ret', "post:returns normally"); w.frame(st, lambda f, o: False, fn)
            if fn == "NumOthers": w.ex.oblige(st, eq(v, PI(lambda q: ite(b_or(eq(q, a), eq(q, b)), P(1), sz(q)), P(0), D)), "post:product of the sizes of all dimensions but the two")
def arrays(w): return {m: w.prog.layout(GS)[m][0] for m in ("_lothers", "_nothers")}
def u_active(c):
    D, sz, lo, hi = grid.symbols("s"); a = int_sym("a"); L = lambda X: uf_int("LO", X[0]); M = lambda X: uf_int("NO", X[0])
    w = gw(c); s = grid.grid(w, "s"); w.st.assume(b_and(le(0, a), lt(a, D)))
    for st, k, v in c.run(w, f"{GS}::ActiveDim(int)", [s, a]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, b_and(eq(w.fld(st, s, GS, "_active"), a), eq(w.fld(st, s, GS, "_numactive"), sz(a))), "post:active dimension and its number of points")
        lay = w.prog.layout(GS); w.frame(st, lambda f, o: f == "s" and o in (lay["_active"][0], lay["_numactive"][0]), "ActiveDim")
    i = int_sym("i")
    for fn, args, want in (("NumOthers() const", [], M((a,))), ("LowOthers() const", [], L((a,))), ("NumOthers(int) const", [i], M((i,))), ("LowOthers(int) const", [i], L((i,))), ("NumActive() const", [], int_sym("na"))):
        w = gw(c); s = grid.grid(w, "s", const=True, vals={"_active": a, "_numactive": int_sym("na"), "_lothers": L, "_nothers": M}); w.st.assume(b_and(le(0, a), lt(a, D), le(0, i), lt(i, D)))
        for st, k, v in c.run(w, f"{GS}::{fn}", [s] + args): w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, eq(v, want), f"post:{fn.split('(')[0]}"); w.frame(st, lambda f, o: False, fn)
def u_index(c):
    """index mapping: point (i, replica) of the active dimension"""
    D, sz, lo, hi = grid.symbols("s"); a, i, r, q, m, n, l, h = (int_sym(x) for x in "a i r q m n l h".split())
    for fn in ("Index(int, int) const", "IndexBase(int) const"):
        w = gw(c); s = grid.grid(w, "s", const=True, vals={"_active": a, "_numactive": n, "_lothers": lambda X: l, "_nothers": lambda X: l * h})
        # replica = q * stripe + m: position m inside the stripe, repetition q
        w.st.assume(b_and(le(0, a), lt(a, D), le(1, l), le(1, n), le(1, h), le(0, i), lt(i, n), le(0, q), lt(q, h), le(0, m), lt(m, l)))
        x = m + q * l
        for st, k, v in c.run(w, f"{GS}::{fn}", [s, i, x] if fn.startswith("Index(") else [s, x]):
            w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, eq(v, m + (i if fn.startswith("Index(") else P(0)) * l + q * l * n), "post:flat index = position in stripe + i * stripe + repetition * points * stripe"); w.frame(st, lambda f, o: False, fn)
def u_lem(c):
    """lemmas over the contracts: replicas x points = grid size; the index map is one-to-one and stays inside the grid"""
    w = gw(c); D, sz, lo, hi = grid.symbols("s"); grid.wellformed(w, "s"); i, n = int_sym("i"), int_sym("n"); st = w.st; st.assume(b_and(le(0, i), lt(i, D)))
    oth = lambda q: ite(eq(q, i), P(1), sz(q)); A = lambda n: PI(oth, P(0), n); B = lambda n: PI(sz, P(0), n)
    w.ex.oblige(st, eq(A(i), B(i)), "lemma:dimensions below the active one"); s = st.copy(); s.assume(eq(A(i), B(i))); w.ex.oblige(s, eq(A(i + 1) * sz(i), B(i + 1)), "lemma:base, replicas * points = size up to the active dimension")
    s = st.copy(); s.assume(b_and(lt(i, n), lt(n, D), eq(A(n) * sz(i), B(n)))); s.assume(A(n + 1).z() == A(n).z() * sz(n).z()); w.ex.oblige(s, eq(A(n + 1) * sz(i), B(n + 1)), "lemma:step, replicas * points = size")
    a = {x: int_sym(x) for x in "l h n i m q i2 m2 q2".split()}; l, h, N_, i, m, q, i2, m2, q2 = a.values()
    st = w.st.copy(); st.assume(b_and(le(1, l), le(1, h), le(1, N_), le(0, i), lt(i, N_), le(0, q), lt(q, h), le(0, m), lt(m, l), le(0, i2), lt(i2, N_), le(0, q2), lt(q2, h), le(0, m2), lt(m2, l)))
    u, u2 = i + q * N_, i2 + q2 * N_
    s = st.copy(); s.assume(b_and(lt(u, u2))); w.ex.oblige(s, le((u + 1) * l, u2 * l), "lemma:blocks of a stripe do not overlap")
    s.assume(le((u + 1) * l, u2 * l)); w.ex.oblige(s, b_not(eq(m + u * l, m2 + u2 * l)), "lemma:different blocks, different index")
    s = st.copy(); s.assume(lt(q, q2)); w.ex.oblige(s, le((q + 1) * N_, q2 * N_), "lemma:repetitions do not overlap"); s.assume(le((q + 1) * N_, q2 * N_)); w.ex.oblige(s, lt(u, u2), "lemma:different repetition, different block")
    s = st.copy(); s.assume(b_and(eq(u, u2), eq(q, q2))); w.ex.oblige(s, eq(i, i2), "lemma:same block, same point")
    s = st.copy(); s.assume(b_and(eq(u, u2), eq(m + u * l, m2 + u2 * l))); w.ex.oblige(s, eq(m, m2), "lemma:same index, same position in the stripe")
    s = st.copy(); s.assume(le((q + 1) * N_, h * N_)); w.ex.oblige(st, le((q + 1) * N_, h * N_), "lemma:last repetition"); w.ex.oblige(s, lt(u, h * N_), "lemma:block inside the grid")
    s = st.copy(); s.assume(lt(u, h * N_)); w.ex.oblige(s, le((u + 1) * l, h * N_ * l), "lemma:block end inside the grid"); s.assume(le((u + 1) * l, h * N_ * l)); w.ex.oblige(s, b_and(le(0, m + u * l), lt(m + u * l, h * N_ * l)), "lemma:index inside the grid")
AV = "std::vector<{0}, std::allocator<{0}> >"
def u_arrays(c):
    n, m, k3 = int_sym("n"), int_sym("m"), int_sym("k3"); N = lambda i: uf_int("N", i); X0, X1 = (lambda i: uf_real("x0", i)), (lambda i: uf_real("x1", i))
    sig = f"{GS}::SetFromArrays({AV.format('int')}, {AV.format('double')}, {AV.format('double')})"
    w = gw(c); w.ex.loopcap = 0; s = grid.grid(w, "s"); a = lib.stdvec(w, "a", 'i', n, N); b = lib.stdvec(w, "b", 'd', m, X0); d = lib.stdvec(w, "d", 'd', k3, X1); w.st.assume(b_and(le(0, n), le(0, m), le(0, k3)))
    for st, k, v in c.run(w, sig, [s, a, b, d]):
        fit = b_and(eq(n, m), eq(m, k3), le(n, P(MAXD)))
        if k == 'throw': w.ex.oblige(st, b_not(fit), "post:only refuses arrays that do not fit"); continue
        w.ex.oblige(st, fit, "post:arrays of different length or too many dimensions are refused"); w.ex.oblige(st, b_and(eq(grid.get(w, st, s, "dims"), n), eq(grid.get(w, st, s, "cnt"), n)), "post:number of dimensions")
        s2, i = idx(w, st, n)
        for q, f in (("size", N), ("xmin", X0), ("xmax", X1)): w.ex.oblige(s2, loops.val_eq(grid.get(w, s2, s, q, i), f(i)), f"post:{q} of every dimension from the array")
