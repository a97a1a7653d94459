"""W03: grid wave functions: representation changes, FFT bookkeeping, copies, reduce/restore, inner product and integral."""
from framework import *
import wfc, vec, lib, kernels, grid, fftc, loops
ID = "W03"; TITLE = "grid wave functions"
SOURCES = ["qdlib/WFGridCartesian.cpp", "qdlib/WFGridSystem.cpp", "qdlib/GridSystem.cpp", "qdlib/WaveFunction.cpp", "math/math_functions.cpp"]
SHIMS = {"wg": '#include "qdlib/WFGridCartesian.h"\nusing namespace QDLIB;\nint f(WFGridCartesian *w, WaveFunction*s){ w->fft().forward(); s->WaveFunction::IsKspace(true); return w->IsKspace() + sizeof(*w); }\n'}
REPLAY = "W03.cpp"
ASSUMPTIONS = ["class FFT behaves as proved in F01", "the data of a grid wave function has one value per grid point", "inner product: both wave functions live on the same grid"]
WC = "QDLIB::WFGridCartesian"; WG = "QDLIB::WFGridSystem"; WF = "QDLIB::WaveFunction"; WW = WF + "*"; CX = "struct QDLIB::dcomplex"; V = "QDLIB::Vector<QDLIB::dcomplex>"; GS = grid.GS
VT = "VT:_ZTVN5QDLIB15WFGridCartesianE"
def gw(c, extra=None):
    k = {**lib.mem(), **wfc.contracts(), **grid.contracts(), **fftc.contracts(), **(extra or {})}
    for x in (f"{V}::FastCopy({V}&)", f"{V}::swap({V}&)"): k.pop(x)
    k["QDLIB::GridSystemHeaderPm::DumpParams(QDLIB::ParamContainer&)"] = wfc.k_noop
    w = c.world(k); w.ex.patterns += wfc.MAPS; return w
def PI(sz, D): return fftc.total(D, sz)
def wave(w, name, gname=None, const=False, fft=None, buf=None, ks=0, L=None, vals=None):
    """a grid wave function: grid symbols(gname), one value per point; buf: None | 'same' | 'other' shape; fft: None | 'any' shape and buffers | 'ok'"""
    gname = gname or name; D, sz, lo, hi = grid.symbols(gname); L = int_sym(name + ".L") if L is None else L
    sb = NULL
    if buf: 
        n, s = (L, P(1)) if buf == 'same' else (int_sym(name + ".bL"), int_sym(name + ".bS")); sb = w.vector(name + "B", CX, n, s, vals={"_StorageLocked": P(0)}); w.st.fams[name + "B"].heap = True
    ff = NULL
    if fft:
        E, tz, _, _ = grid.symbols(name + "F"); a, b = Ptr(name + ".d", (0,)), Ptr(name + "B.d", (0,)) if buf else Ptr("stale", ())
        if fft == 'any': w.st.fam(Fam("stale", 'array', esize=16, count=P(0), fields={0: 'd', 8: 'd'})); w.st.dead = w.st.dead | {"stale"}; a = b = Ptr("stale")
        ff = fftc.new(w, w.st, name + "F", E if fft == 'any' else D, tz if fft == 'any' else sz, b if ks == 1 else a, a if ks == 1 else b); w.st.assume(b_and(le(1, E), le(E, P(grid.MAXD))))
    p = w.vector(name, CX, L, P(1), const=const, cls=WC, vptr=VT, vals={"_IsKspace": P(ks) if not isinstance(ks, Poly) else ks, "_spacebuffer": sb, "_fft": ff, "_StorageLocked": P(0), **(vals or {})})
    grid.wellformed(w, gname, 1); grid.attach(w, p, gname, WC, const); w.st.assume(b_and(le(1, L), eq(L, PI(sz, D)))); w.st.fams[name].dyn = {WG: True, WC: True}; return p
def units(prog, tier):
    u = [Unit("data", u_ctor)]
    for ks in (0, 1):
        for buf in (None, 'same', 'other'):
            for fft in (None, 'any'): u.append(Unit(f"fft k={ks} {buf} {fft}", lambda c, a=(ks, buf, fft): u_check(c, *a)))
    u += [Unit(l, f) for l, f in (("copy", u_copy), ("new instance", u_new), ("reduce", u_reduce), ("restore", u_restore), ("inner product", u_inner), ("integral", u_integral), ("retire", u_reaq), ("maximum", u_max), ("destructor", u_del))]
    return u
def blk(w, st, p, cls=WC): v = w.fld(st, p, cls, "v_"); return w.rd(st, v.fam, 0, tuple(v.ix) + (P(0),))
def el(w, st, d, i): return tuple(w.rd(st, d.fam, o, tuple(d.ix) + (P(i),)) for o in (0, 8))
def samedata(w, st, p, src, n, tag, cls=WC):
    """elements of p equal the elements of src before the call"""
    i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n))); w.ex.oblige(s2, ceq(el(w, s2, blk(w, s2, p, cls), i), w.cat(w.pre, src, P(0), i)), tag)
def samegrid(w, st, p, gname, tag, cls=WC):
    D, sz, lo, hi = grid.symbols(gname); i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, D)))
    w.ex.oblige(st, eq(grid.get(w, st, p, "dims", cls=cls), D), f"post:{tag}: number of dimensions")
    for q, f in (("size", sz), ("xmin", lo), ("xmax", hi)): w.ex.oblige(s2, loops.val_eq(grid.get(w, s2, p, q, i, cls), f(i)), f"post:{tag}: {q}")
def sameptr(x, y): return x.fam == y.fam and b_and(*[eq(m, n) for m, n in zip(x.ix, y.ix)], eq(x.off, y.off))
def fftstate(w, st, p, gname, ks, tag):
    """the FFT is made for the grid and works on the active data and the transformation buffer"""
    f = w.fld(st, p, WC, "_fft"); ok = isinstance(f, Ptr) and f.fam is not None and f.fam not in st.dead and '#D' in st.fams[f.fam].fields
    w.ex.oblige(st, ok, f"post:{tag}FFT exists")
    if not ok: return
    D, sz, lo, hi = grid.symbols(gname); i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, D))); ff = st.fams[f.fam]
    w.ex.oblige(st, eq(fftc.dims(w.ex, st, ff, f.ix), D), f"post:{tag}FFT made for the number of dimensions"); w.ex.oblige(s2, eq(fftc.size(w.ex, s2, ff)(i), sz(i)), f"post:{tag}FFT made for the sizes")
    sb = w.fld(st, p, WC, "_spacebuffer"); a, b = blk(w, st, p), blk(w, st, sb, V); L = PI(sz, D)
    x, y = w.fld(st, f, fftc.FF, "_cin"), w.fld(st, f, fftc.FF, "_cout")
    if ks: x, y = y, x
    w.ex.oblige(st, sameptr(x, a), f"post:{tag}FFT works on the active data"); w.ex.oblige(st, sameptr(y, b), f"post:{tag}FFT works on the transformation buffer")
    w.ex.oblige(st, b_and(eq(w.fld(st, sb, V, "n_"), w.fld(st, p, WC, "n_")), eq(w.fld(st, sb, V, "nstrides_"), 1)), f"post:{tag}buffer has the shape of the data")
def u_check(c, ks, buf, fft):
    for fn in (f"{WG}::CheckFFT()", f"{WG}::fft()"):
        w = gw(c); p = wave(w, "s", fft=fft, buf=buf, ks=ks); L = int_sym("s.L")
        if buf == 'other': w.st.assume(b_and(le(1, int_sym("s.bL")), le(1, int_sym("s.bS"))))
        for st, k, v in c.run(w, fn, [p]):
            if k != 'ret': continue      # out of memory
            fftstate(w, st, p, "s", ks, ""); samedata(w, st, p, "s", L, "post:active data kept"); samegrid(w, st, p, "s", "grid kept"); w.ex.oblige(st, eq(w.fld(st, p, WC, "_IsKspace"), ks), "post:representation kept")
            w.ex.oblige(st, eq(w.fld(st, p, WC, "n_"), L), "post:size kept")
            if "fft()" in fn: w.ex.oblige(st, v == w.fld(st, p, WC, "_fft"), "post:returns the FFT")
            w.frame(st, lambda f, o: f.startswith(("s", "FS:")), fn)
def u_ctor(c):
    for g in (0, 1):
        w = gw(c); lay = w.prog.layout(WC); p = Ptr(w.st.fam(Fam("self", 'struct', size=lay["#size"][0], heap=True, cls=WC)).name); a = []
        if g: a = [grid.grid(w, "g", const=True, least=1)]
        for st, k, v in c.run(w, f"{WC}::WFGridCartesian({GS + '&' if g else ''})", [p] + a):
            if k != 'ret': continue
            D, sz, lo, hi = grid.symbols("g")
            w.ex.oblige(st, b_and(eq(w.fld(st, p, WC, "_IsKspace"), 0), w.fld(st, p, WC, "_spacebuffer") == NULL, w.fld(st, p, WC, "_fft") == NULL), "post:position space, no buffer, no FFT"); w.ex.oblige(st, eq(w.fld(st, p, WC, "n_"), PI(sz, D) if g else 0), "post:one value per grid point")
            if g: samegrid(w, st, p, "g", "grid taken over")
            w.frame(st, lambda f, o: f == "self" or f.startswith("PB:self"), "ctor")
def isnew(w, st, v): w.ex.oblige(st, isinstance(v, Ptr) and v.fam is not None and v.fam not in w.pre.fams and v.fam not in st.dead, "post:result is a new object")
def u_new(c):
    w = gw(c); p = wave(w, "s", const=True); D, sz, lo, hi = grid.symbols("s")
    for st, k, v in c.run(w, f"{WC}::NewInstance()", [p]):
        if k != 'ret': continue
        isnew(w, st, v); w.ex.oblige(st, b_and(eq(w.fld(st, v, WC, "n_"), PI(sz, D)), eq(w.fld(st, v, WC, "_IsKspace"), 0), w.fld(st, v, WC, "_fft") == NULL, w.fld(st, v, WC, "_spacebuffer") == NULL), "post:same size, position space, own buffers"); samegrid(w, st, v, "s", "same grid"); w.frame(st, lambda f, o: False, "NewInstance")
def u_copy(c):
    for ks in (0, 1):
        for kt in (0, 1):
            for buf in (None, 'other'):
                w = gw(c); p = wave(w, "s", ks=ks, buf=buf, fft='any' if buf else None); q = wave(w, "t", const=True, ks=kt); L = int_sym("t.L")
                if buf: w.st.assume(b_and(le(1, int_sym("s.bL")), le(1, int_sym("s.bS"))))
                for st, k, v in c.run(w, f"{WC}::operator=({WW})", [p, q]):
                    if k != 'ret': continue
                    w.ex.oblige(st, v == p, "post:returns this"); w.ex.oblige(st, b_and(eq(w.fld(st, p, WC, "n_"), L), eq(w.fld(st, p, WC, "_IsKspace"), kt)), "post:size and representation taken over")
                    w.ex.oblige(st, blk(w, st, p).fam != "t.d", "post:own storage"); samedata(w, st, p, "t", L, "post:elements copied"); samegrid(w, st, p, "t", "grid taken over"); w.frame(st, lambda f, o: f.startswith(("s", "PB:s")), "operator=")
    for fn in ("operator=", "Restore"):
        w = gw(c); p = wave(w, "s"); q = wave(w, "t", const=True); w.st.fams["t"].dyn = {WG: False, WC: False}
        for st, k, v in c.run(w, f"{WC if fn == 'operator=' else WG}::{fn}({WW})", [p, q], expect_ret=False): w.ex.oblige(st, k == 'throw', f"post:{fn} refuses other kinds"); w.frame(st, lambda f, o: False, "refused")
def rabs(x): return z3.If(x >= 0, x, -x)
def u_reduce(c):
    mx = real_sym("mx")
    for buf, fft in ((None, None), ('same', 'ok'), ('other', 'any')):
        seen = []
        @lib.contract
        def k_max(ex, st, args, I, name):
            """VecMax: largest magnitude (checked separately)"""
            d = first(ex, st, args[0], I); seen.append(tuple(col_eval(ex.column(st, st.fams[d.fam], o, 'd'), tuple(d.ix) + (from_z(fftc.CAN),), lambda q, s=canon(st): ex.S.decide(s.pc, q)) for o in (0, 8))); return mx
        def canon(st): s = st.copy(); s.assume(b_and(le(0, from_z(fftc.CAN)), lt(from_z(fftc.CAN), L))); return s
        first = fftc.first; L = int_sym("s.L"); D, sz, lo, hi = grid.symbols("s")
        w = gw(c, {f"QDLIB::VecMax({V}&)": k_max}); w.st.assume(mx >= 0); p = wave(w, "s", buf=buf, fft=fft); tol = real_sym("tol")
        if buf == 'other': w.st.assume(b_and(le(1, int_sym("s.bL")), le(1, int_sym("s.bS"))))
        K = fftc.key(lambda o, i: w.rd(w.st, "s.d", o, (P(0), P(i))), D, sz, -1, "full")
        for st, k, v in c.run(w, f"{WG}::Reduce(double)", [p, tol]):
            if k != 'ret': continue
            isnew(w, st, v); i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, L))); x = el(w, s2, blk(w, s2, v), i); y = tuple(fftc.value(K, o, i) for o in (0, 8)); cut = mx * tol
            w.ex.oblige(st, eq(w.fld(st, v, WC, "n_"), L), "post:same size")
            for j, nm in ((0, "real"), (1, "imaginary")): w.ex.oblige(s2, x[j] == z3.If(rabs(y[j]) < cut, R(0), y[j] / z3.ToReal(L.z())), f"post:{nm} part = normalised transform, zero below the cut-off")
            w.ex.oblige(st, len(seen) >= 1 and all(fftc.value(K, o, from_z(fftc.CAN)).eq(z) for t in seen for o, z in zip((0, 8), t)), "post:cut-off is relative to the largest value in k-space")
            samedata(w, st, p, "s", L, "post:the original keeps its data"); samegrid(w, st, p, "s", "grid kept"); samegrid(w, st, v, "s", "same grid"); w.ex.oblige(st, b_and(eq(w.fld(st, p, WC, "_IsKspace"), 0), eq(w.fld(st, p, WC, "n_"), L)), "post:the original stays in position space")
            fftstate(w, st, p, "s", 0, "")
            w.frame(st, lambda f, o: f.startswith(("s", "FS:")) and f != "s.d", "Reduce")
def u_restore(c):
    for buf, fft, ks in ((None, None, 0), ('same', 'ok', 0), ('other', 'any', 0), ('other', 'any', 1)):
        w = gw(c); p = wave(w, "s", buf=buf, fft=fft, ks=ks); q = wave(w, "t", const=True); L = int_sym("t.L"); D, sz, lo, hi = grid.symbols("t")
        if buf == 'other': w.st.assume(b_and(le(1, int_sym("s.bL")), le(1, int_sym("s.bS"))))
        K = fftc.key(lambda o, i: w.rd(w.st, "t.d", o, (P(0), P(i))), D, sz, 1, "full")
        for st, k, v in c.run(w, f"{WG}::Restore({WW})", [p, q]):
            if k != 'ret': continue
            i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, L))); x = el(w, s2, blk(w, s2, p), i)
            w.ex.oblige(st, b_and(eq(w.fld(st, p, WC, "n_"), L), eq(w.fld(st, p, WC, "_IsKspace"), 0)), "post:size taken over, position space"); w.ex.oblige(s2, ceq(x, tuple(fftc.value(K, o, i) for o in (0, 8))), "post:elements = backward transform of the stored data")
            samegrid(w, st, p, "t", "grid taken over"); fftstate(w, st, p, "t", 0, ""); w.frame(st, lambda f, o: f.startswith(("s", "PB:s", "FS:")), "Restore")
def weighted(tot, lo, hi, sz, ks):
    """tot * product over the dimensions of the volume element, as a recursion over the number of dimensions"""
    k = z3.Int("$wk"); q = from_z(k); x = z3.Real("$wr"); f = PI2 / (hi(q) - lo(q)) if ks else (hi(q) - lo(q)) / z3.ToReal(sz(q).z() - 1)
    return loops.RECS.define([x * f], [x], k, [tot])[0]
PI2 = z3.RealVal(str(__import__("fractions").Fraction(2 * __import__("math").pi)))
def u_inner(c): integ(c, True)
def u_integral(c): integ(c, False)
def integ(c, two):
    for ks in (0, 1):
        for al in ((0, 1) if two else (0,)):
            w = gw(c); p = wave(w, "s", const=True, ks=ks); D, sz, lo, hi = grid.symbols("s"); L = int_sym("s.L"); i = z3.Int("$gi")
            if not ks: w.st.assume(z3.ForAll([i], sz(from_z(i)).z() >= 2))
            else: w.st.assume(z3.ForAll([i], hi(from_z(i)) > lo(from_z(i))))
            q = p if al else w.vector("t", CX, L, P(1), const=True, cls=WC, vptr=VT); qn = "s" if al else "t"
            for st, k, v in c.run(w, f"{WC}::operator*({WW})" if two else f"{WC}::Integral()", [p, q] if two else [p]):
                w.ex.oblige(st, k == 'ret', "post:returns normally")
                if k != 'ret': continue
                ki = z3.Int("ki"); x = w.cat(w.pre, "s", P(0), from_z(ki)); t = cmul(cconj(x), w.cat(w.pre, qn, P(0), from_z(ki))) if two else x
                w.frame(st, lambda f, o: False, "operator*" if two else "Integral")
                for j, nm in ((0, "real"), (1, "imaginary")): induct(w, st, v[j], weighted(loops.SUMS.make(t[j], ki, P(0), L), lo, hi, sz, ks), D, f"post:{nm} part = sum over the points times the volume element{' (k-space)' if ks else ''}{' (norm)' if al else ''}")
def u_reaq(c):
    for ks in (0, 1):
        calls = []
        @lib.contract
        def k_base(ex, st, args, I, name):
            """WaveFunction::Reaquire (W01): storage of data and buffer is available again, at new addresses"""
            for x in ("s", "sB"):
                st.fam(Fam(x + ".new", 'array', esize=16, count=L, arity=1, fields={0: 'd', 8: 'd'}, heap=True)); f = st.fams[x + ".v"]; st.mem[(x + ".v", 0)] = ex.column(st, f, 0, 'p').write((P(0),), Ptr(x + ".new", (P(0),)))
            return None
        for fft in (None, 'ok'):
            L = int_sym("s.L"); w = gw(c, {f"{WF}::Reaquire()": k_base}); p = wave(w, "s", buf='same', fft=fft, ks=ks)
            for st, k, v in c.run(w, f"{WG}::Reaquire()", [p]):
                w.ex.oblige(st, k == 'ret', "post:returns normally")
                if fft: fftstate(w, st, p, "s", ks, "")
                w.frame(st, lambda f, o: f in ("s.v", "sB.v", "sF"), "Reaquire")
def u_max(c):
    for cx in (1, 0):
        w = gw(c); L = int_sym("v.L"); w.st.assume(le(1, L)); p = w.vector("v", CX if cx else "double", L, P(1), const=True); w.ex.loopcap = 0
        for st, k, v in c.run(w, f"QDLIB::VecMax({V if cx else 'QDLIB::Vector<double>'}&)", [p]):
            w.ex.oblige(st, k == 'ret', "post:returns normally"); A = loops.RECS.apps([v]); w.frame(st, lambda f, o: False, "VecMax")
            if len(A) != 1: raise Unsupported("VecMax: result is no recursion")
            n = from_z(A[0].children()[0]); off = L - n; k = int_sym("k"); r = lambda q: z3.substitute(v, (A[0], A[0].decl()(P(q).z(), *A[0].children()[1:]))); m = lambda i: absv(w, st, cx, i)
            w.ex.oblige(st, b_and(le(0, off), le(off, 1)), "post:all elements are looked at"); w.ex.oblige(st, r(0) == m(P(0)), "post:starts with the first element"); s2 = st.copy(); s2.assume(b_and(le(0, k), lt(k, n)))
            w.ex.oblige(s2, r(k + 1) >= r(k), "post:largest: never decreases"); w.ex.oblige(s2, r(k + 1) >= m(k + off), "post:largest: not below any element"); w.ex.oblige(s2, z3.Or(r(k + 1) == r(k), r(k + 1) == m(k + off)), "post:largest: attained by an element")
def absv(w, st, cx, i):
    if not cx: return w.rd(w.pre, "v.d", 0, (P(0), P(i)))
    z = w.cat(w.pre, "v", P(0), i); return intrin.math1("sqrt", radd(rmul(z[0], z[0]), rmul(z[1], z[1])))
def u_del(c):
    for buf in (None, 'same'):
        for fft in (None, 'ok'):
            w = gw(c); p = wave(w, "s", buf=buf, fft=fft)
            for st, k, v in c.run(w, f"{WG}::~WFGridSystem()", [p]):
                w.ex.oblige(st, k == 'ret', "post:returns normally")
                if fft: w.ex.oblige(st, "sF" in st.dead, "post:FFT released")
                if buf: w.ex.oblige(st, "sB" in st.dead, "post:buffer released")
