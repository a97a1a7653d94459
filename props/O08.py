"""O08: derivative operators on grids: gradient/momentum, kinetic energy, partial derivatives."""
from framework import *
import fractions, math
import wfc, vec, lib, grid, fftc, loops, elem, intrin, params, kernels, spec
import W03, G02, O07
SHIMS = {"vv": G02.SHIMS["vv"], "on": '#include "qdlib/OGridNabla.h"\n#include "qdlib/OGridNablaSq.h"\n#include "qdlib/WFGridCartesian.h"\n#include "fft/fft.h"\nusing namespace QDLIB;\nint f(OGridNabla*p, OGridNablaSq*n, Diff*d, TransformFFT*t){ return sizeof(*p)+sizeof(*n)+sizeof(*d)+sizeof(*t)+sizeof(WFGridCartesian)+sizeof(GridSystem)+sizeof(FFT); }\n'}
ID = "O08"; TITLE = "derivative operators on grids"
SOURCES = ["qdlib/OGridNabla.cpp", "qdlib/OGridNablaSq.cpp", "qdlib/Diff.cpp", "qdlib/TransformFFT.cpp", "qdlib/Kspace.cpp", "qdlib/GridSystem.cpp", "qdlib/WFGridSystem.cpp", "qdlib/WFGridCartesian.cpp", "qdlib/WaveFunction.cpp", "math/math_functions.cpp"]
REPLAY = "O08.cpp"
ASSUMPTIONS = ["class FFT as proved in F01", "kernels as proved in V01", "comparison and copying of grids as proved in G01", "coordinate views and momentum grids as proved in G02", "wave functions are in position space on the operator's grid, destination and source differ"]
Q = "QDLIB::"; WW = Q + "WaveFunction*"; CX = G02.CX; VC = elem.VC; VD = elem.VD; GS = grid.GS; NA = Q + "OGridNabla"; NQ = Q + "OGridNablaSq"; DF = Q + "Diff"; TF = Q + "TransformFFT"
Dg, sg, lo, hi = grid.symbols("g"); i = int_sym("i"); real = G02.real
def n_(): return G02.gtot()
def units(prog, tier):
    return [Unit("gradient apply", u_napply), Unit("gradient setup", u_nsetup), Unit("kinetic energy apply", u_tapply), Unit("kinetic energy setup", u_tsetup), Unit("kinetic energy copy", u_tcopy), Unit("masses", u_tparams), Unit("kinetic energy exponential", u_texp), Unit("kinetic energy bounds", u_temax), Unit("gradient exponential", u_nexp), Unit("gradient copy", u_ncopy), Unit("kinds and grids", u_refuse), Unit("largest momentum", u_nbounds), Unit("gradient parameters", u_nparams), Unit("transforms", u_transform), Unit("derivative along a dimension", u_dapply), Unit("derivatives setup", u_dsetup)]
def world(c, extra=None):
    w = G02.gworld(c, extra); grid.wellformed(w, "g", 1, 1); return w
def kreal(w, name, const=True, n=None): return w.vector(name, "double", n_() if n is None else n, P(1), const=const, vals={"_StorageLocked": P(0)})
def nabla(w, name="op", gname="g", const=True, ks=True, ds=False, vals=None, nk=None, nd=None):
    """a gradient operator: factors k (ks), complex diagonal representation (ds)"""
    v = {m: P(x) if isinstance(x, int) else x for m, x in (vals or {}).items()}; N = fftc.total(*grid.symbols(gname)[:2])
    v["_kspace"] = kreal(w, name + "K", const, N if nk is None else nk) if ks else NULL; v["_dspace"] = w.vector(name + "D", CX, N if nd is None else nd, P(1), const=const, vals={"_StorageLocked": P(0)}) if ds else NULL
    for x in ("K", "D"):
        if name + x in w.st.fams: w.st.fams[name + x].heap = True
    p = w.obj(name, NA, v); elem.vobj(w, p, NA); grid.attach(w, p, gname, NA, const); return p
def norm(w, cls): return w.prog.layout(cls)["_FFT._norm"][0]
def pair(w, ks=0):
    """destination and source: wave functions on the grid, with or without an FFT so far"""
    out = []
    for a, b in ((None, None), ('same', 'ok')): out.append((a, b))
    return out
def transformed(w, st, data, want, sign, dim, tag, source=None):
    """the data are the transform of `want`(component, element, rest): one transform over dim of the shape of the grid"""
    s = st.copy(); s.assume(b_and(le(0, i), lt(i, n_()))); c = from_z(fftc.CAN); v = W03.el(w, s, data, i); got = [fftc.origin(x) for x in v]; ob = w.ex.oblige
    ok = all(got) and got[0][0] is got[1][0] and [g[5] for g in got] == ["re", "im"] and all(eq(g[6], i) is True for g in got) and got[0][3] == sign and (got[0][4] == "full" if dim is None else True)
    ob(st, ok, f"post:{tag}: result of one {'backward' if sign > 0 else 'forward'} transform")
    if not ok: return None
    f, D, sz = got[0][:3]; g = int_sym("g!"); s2 = st.copy(); s2.assume(b_and(le(0, g), lt(g, Dg))); ob(st, eq(D, Dg), f"post:{tag}: transform over the dimensions of the grid"); ob(s2, eq(sz(g), sg(g)), f"post:{tag}: transform of the sizes of the grid")
    if dim is not None: ob(st, got[0][4] == (dim.z() if isinstance(dim, Poly) else dim).sexpr(), f"post:{tag}: transform along the dimension")
    s = st.copy(); s.assume(b_and(le(0, c), lt(c, n_()))); want = want if source is None else lambda x: (source(0, x), source(8, x)); ob(s, ceq((f(0, c), f(8, c)), want(c)), f"post:{tag}"); return f
def spectrum(w, st, name, k="full"):
    """element of the forward transform of the data of wave function `name` before the call"""
    key = fftc.key(lambda o, x: w.rd(st, name + ".d", o, (P(0), x)), Dg, sg, -1, k); return lambda x: (fftc.value(key, 0, x), fftc.value(key, 8, x))
def u_napply(c):
    for fn in ("Apply2", "Apply1"):
        for buf, fft in ((None, None), ('same', 'ok')):
            for mom in (0, 1):
                for cj in (0, 1):
                    w = world(c); p = nabla(w, vals={"_momentum": mom, "_conj": cj, "_fac": real_sym("fac")}); d = W03.wave(w, "d", "g", fft=fft, buf=buf); s = W03.wave(w, "s", "g", fft=fft, buf=buf) if fn == "Apply2" else None
                    sig = f"{NA}::Apply({WW}, {WW})" if s else f"{NA}::Apply({WW})"; src = "s" if s else "d"
                    for st, k, v in c.run(w, sig, [p, d] + ([s] if s else [])):
                        if k != 'ret':
                            if st.gh.get('throw') != 'memory': w.ex.oblige(st, False, "post:applies")
                            continue
                        F = spectrum(w, w.pre, src); sgn = R(-1 if cj else 1)
                        def want(x):
                            r = w.rd(w.pre, "opK.d", 0, (P(0), x))*real_sym("fac")*sgn/real(n_()); return cmul((r, R(0)) if mom else (R(0), r), F(x))
                        transformed(w, st, W03.blk(w, st, d), want, 1, None, f"{fn}: factor times the transform of the source, transformed back")
                        w.ex.oblige(st, eq(w.fld(st, d, W03.WC, "_IsKspace"), 0), "post:result in position space")
                        if s: w.ex.oblige(st, eq(w.fld(st, s, W03.WC, "_IsKspace"), 0), "post:source in position space"); W03.samedata(w, st, s, "s", n_(), "post:source unchanged")
                        w.frame(st, lambda f, o: f.startswith(("d", "s", "fft")) or f == "op" and o == norm(w, NA), fn); w.ex.oblige(st, w.fld(st, p, NA, "_FFT._norm") == 1/real(n_()), "post:normalization of the transform")
def kspacec():
    """contracts of Kspace (proved in G02): a new vector with one value per point of the dimension"""
    def mk(which):
        @lib.contract
        def k(ex, st, args, I, name):
            """momentum grid of one dimension (G02)"""
            g, d, fac = args; h = g.add(P(grid.hoff(ex, GS))); hf = grid._hdr(ex, st, h, I, "Kspace"); D = grid._get(ex, st, hf, '#pb.dims@' + str(h.off), h.ix, 'i')
            ex.oblige(st, b_and(le(0, d), lt(d, D)), f"pre:momentum grid: dimension exists@{ex.loc(I)}"); e = st.fams[grid.ent(h)]; st.assume(b_and(le(0, d), lt(d, D))); s0 = st.copy()
            at = lambda fl, kd: col_eval(ex.column(s0, e, fl, kd), tuple(h.ix) + (P(d),), lambda q: ex.S.decide(s0.pc, q)); N, a, b = at('#size', 'i'), at('#xmin', 'd'), at('#xmax', 'd')
            ex.oblige(st, le(1, N), f"pre:momentum grid: the dimension has points@{ex.loc(I)}"); p = intrin.alloc(ex, st, P(ex.prog.layout(VD)["#size"][0]), "kgrid", I=I); out = []
            ex.allocprefix = "kgrid:"; outs = ex.call_fn(st, ex.prog.find(f"{VD}::Vector(int)"), [p, N], 1, ("contract",)); ex.allocprefix = ""
            for s, k, v in outs:
                if k != 'ret': out.append((s, k, v)); continue
                q, n = elem.block(ex, s, p, I, "momentum grid", 'D'); f, kk = s.fams[q.fam], G02.dk(a, b, N)
                def val(X):
                    m = real(G02.freq(X[-1], N)); return m*kk*fac if which == "first" else -fac*(m*kk)*(m*kk)
                s.mem[(f.name, 0)] = ex.column(s, f, 0, 'd').bulk(Upd([('eq', x) for x in q.ix] + [('rng', P(0), n)], None, val)); out.append((s, 'ret', p))
            return out
        return k
    return {f"{Q}Kspace::Init1Dddx({GS} const&, int, double)": mk("first"), f"{Q}Kspace::Init1Dd2dx2({GS} const&, int, double)": mk("second")}
def kd(d, e): return real(G02.freq(G02.gco(d, e), sg(d)))*G02.dk(lo(d), hi(d), sg(d))
kz = z3.Int("dk"); dz = from_z(kz)
def u_nsetup(c):
    """set up for a wave function (again): factors = momenta of the chosen dimension, or their sum"""
    loops.SUMS.loose = True
    for single in (0, 1):
        for ks, ds in ((0, 0), (1, 0), (1, 1)):
            w = world(c, kspacec()); dm = int_sym("which"); w.st.assume(b_and(le(0, dm), lt(dm, Dg)) if single else lt(dm, 0)); w.st.assume(b_and(le(0, int_sym("nk")), le(0, int_sym("nd")))); grid.wellformed(w, "h")
            p = nabla(w, "op", "h", False, ks, ds, {"_dim": dm}, int_sym("nk"), int_sym("nd")); psi = W03.wave(w, "s", "g", const=True)
            for st, k, v in c.run(w, f"{NA}::Init({WW})", [p, psi]):
                if k != 'ret' and st.gh.get('throw') == 'memory': continue
                w.ex.oblige(st, k == 'ret', "post:accepted")
                if k != 'ret': continue
                W03.samegrid(w, st, p, "g", "grid", NA); w.ex.oblige(st, w.fld(st, p, NA, "_dspace") == NULL, "post:no diagonal representation of another grid")
                K = w.fld(st, p, NA, "_kspace"); w.ex.oblige(st, eq(w.fld(st, K, VD, "n_"), n_()), "post:one factor per grid point"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n_()))); b = W03.blk(w, s2, K, VD); v = w.rd(s2, b.fam, 0, tuple(b.ix) + (i,))
                w.ex.oblige(s2, v == (kd(dm, i) if single else loops.SUMS.make(kd(dz, i), kz, P(0), Dg)), "post:factor = momentum" + ("" if single else ", summed over the dimensions")); w.frame(st, lambda f, o: f.startswith(("op", "PB:op")), "Init")
    w = world(c, kspacec()); dm = int_sym("which"); w.st.assume(le(Dg, dm)); grid.wellformed(w, "h"); p = nabla(w, "op", "h", False, 0, 0, {"_dim": dm}); psi = W03.wave(w, "s", "g", const=True)
    for st, k, v in c.run(w, f"{NA}::Init({WW})", [p, psi], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:refuses a dimension the wave function does not have")
# ---- kinetic energy
def hvec(w, p, cls, m, name, n, const=False):
    """vector that is a member of an object: n values in one stride"""
    v = w.vparts(name, "double", n, P(1), const, prefix=m + "."); f = w.st.fams[p.fam]; lay = w.prog.layout(cls)
    for k, x in v.items(): o = lay[k][0]; f.bases[o] = lambda X, x=x: x
def dgrid(w, p, name, cls, m):
    """grid description of the difference operator (member m + '_grid')"""
    D, sz, lo_, hi_ = grid.symbols(name); q = p.add(P(w.prog.layout(cls)[m + "_grid.grid_sys.header"][0])); grid.header(w, w.st, q, 0, D, D, sz, lo_, hi_, w.st.fams[p.fam].const)
def kinetic(w, name="op", gname="g", dname="g", const=True, nk=None, vals=None, mass=P(4), ready=True):
    """a kinetic energy operator by the Fourier method"""
    v = {"_method": 0, "_coll": 1, "_single": 0, "_mixed": 0, "_deriv": 2, "_dim": -1, "_hofd": NULL, **(vals or {})}; p = w.obj(name, NQ, {m: P(x) if isinstance(x, int) else x for m, x in v.items()}); elem.vobj(w, p, NQ); o = w.prog.layout(NQ)
    hvec(w, p, NQ, "_kspace", name + "K", n_() if nk is None else nk, const); hvec(w, p, NQ, "_pfac", name + "P", P(4) if mass is None else mass, const); hvec(w, p, NQ, "_mass", name + "M", mass, const)
    w.st.fams[name].bases[o["_dspace"][0]] = lambda X: p.add(P(o["_kspace"][0])) if ready else NULL
    grid.attach(w, p, gname, NQ, const); dgrid(w, p, dname, NQ, ""); return p
def dbase(w, p): return p.add(P(w.prog.layout(NQ)["_deriv"][0] - w.prog.layout(DF)["_deriv"][0]))
def member(w, st, p, cls, m, x):
    """element x of the vector member m"""
    v = w.fld(st, p, cls, m + ".v_"); b = w.rd(st, v.fam, 0, tuple(v.ix) + (P(0),)); return w.rd(st, b.fam, 0, tuple(b.ix) + (x,))
def u_tapply(c):
    for buf, fft in ((None, None), ('same', 'ok')):
        for exact in (0, 1):
            w = world(c); p = kinetic(w); d, s = (W03.wave(w, x, "g", fft=fft, buf=buf) for x in "ds"); f = [] if not exact else [real_sym("factor")]
            for st, k, v in c.run(w, f"{DF}::DnDxn({WW}, {WW}, double)" if exact else f"{NQ}::Apply({WW}, {WW})", [dbase(w, p) if exact else p, d, s] + f):
                if k != 'ret':
                    if st.gh.get('throw') != 'memory': w.ex.oblige(st, False, "post:applies")
                    continue
                F = spectrum(w, w.pre, "s"); fac = f[0] if exact else R(1)
                transformed(w, st, W03.blk(w, st, d), lambda x: cmul((w.rd(w.pre, "opK.d", 0, (P(0), x))*fac/real(n_()), R(0)), F(x)), 1, None, "factor times the transform of the source, transformed back")
                w.ex.oblige(st, eq(w.fld(st, d, W03.WC, "_IsKspace"), 0), "post:result in position space"); w.ex.oblige(st, eq(w.fld(st, s, W03.WC, "_IsKspace"), 0), "post:source in position space"); W03.samedata(w, st, s, "s", n_(), "post:source unchanged")
                w.frame(st, lambda f, o: f.startswith(("d", "s", "fft")) or f == "op" and o == w.prog.layout(NQ)["_FFT._norm"][0], "Apply")
def tfactor(x): return lambda d: -x(d)*(kd(d, i)*kd(d, i))
@lib.contract
def k_wisdom(ex, st, args, I, name):
    """stores the FFT plans found so far: no effect on data"""
def setupc(): return {**kspacec(), **params.contracts(), **pcopy(), f"{Q}FFTGlobal::FlushWisdom()": k_wisdom, f"{Q}FFTGlobal::Instance()": k_inst, f"{Q}ParamContainer::GetValue({params.SS}, {params.SS}&)": k_method}
@lib.contract
def k_inst(ex, st, args, I, name):
    """the one object that plans transforms"""
    if "fftglobal" not in st.fams: st.fam(Fam("fftglobal", 'struct', size=64))
    return Ptr("fftglobal")
@lib.contract
def k_method(ex, st, args, I, name):
    """GetValue(name, text): the text of the entry (here: the Fourier method)"""
    f = st.fams[args[2].fam]; f.fields['#str'] = 'i'; f.bases.setdefault('#str', lambda X: P(-1)); st.mem[(f.name, '#str')] = ex.column(st, f, '#str', 'i').write(args[2].ix, wfc.strid(None, "FFT")); return True
@lib.contract
def k_pcopy(ex, st, args, I, name):
    """ParamContainer: a copy has the same entries"""
    return args[0]
def pcopy():
    PC = Q + "ParamContainer"; return {f"{PC}::operator=({PC}&)": k_pcopy, f"{PC}::operator=({PC} const&)": k_pcopy, f"{PC}::ParamContainer({PC} const&)": k_pcopy, f"{PC}::ParamContainer({PC}&)": k_pcopy, f"{PC}::~ParamContainer()": wfc.k_noop}
def ready(w, st, p, fac, tag):
    """the operator is set up for grid g: one factor per point, sum over dimensions of -fac(d) k_d^2"""
    W03.samegrid(w, st, p, "g", tag, NQ); o = w.prog.layout(NQ); w.ex.oblige(st, w.fld(st, p, NQ, "_dspace") == p.add(P(o["_kspace"][0])), f"post:{tag}: representation is the operator's own"); w.ex.oblige(st, eq(w.fld(st, p, NQ, "_kspace.n_"), n_()), f"post:{tag}: one factor per grid point")
    s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n_()))); w.ex.oblige(s2, member(w, s2, p, NQ, "_kspace", i) == loops.SUMS.make(-fac(dz)*(kd(dz, i)*kd(dz, i)), kz, P(0), Dg), f"post:{tag}: factor = sum over the dimensions")
def u_tsetup(c):
    loops.SUMS.loose = True; hd, hs, _, _ = grid.symbols("h")
    w = world(c, setupc()); grid.wellformed(w, "h", 0, 0); grid.wellformed(w, "e", 0, 0); p = kinetic(w, "op", "h", "e", False, int_sym("nk"), ready=False); w.st.assume(le(0, int_sym("nk"))); psi = W03.wave(w, "s", "g", const=True)
    for st, k, v in c.run(w, f"{NQ}::Init({WW})", [p, psi]):
        if k != 'ret' and st.gh.get('throw') == 'memory': continue
        if k != 'ret': w.ex.oblige(st, b_or(b_and(b_not(eq(hd, 0)), b_not(eq(hd, Dg))), params.has("dim")), "post:refuses only a different number of dimensions"); continue
        w.ex.oblige(st, b_or(eq(hd, 0), eq(hd, Dg)), "post:number of dimensions agrees"); ready(w, st, p, lambda d: w.rd(w.pre, "opP.d", 0, (P(0), d)), "set up"); w.frame(st, lambda f, o: f.startswith(("op", "PB:op", "fftglobal")), "Init")
    w = world(c, setupc()); p = kinetic(w, const=False); psi = W03.wave(w, "s", "g", const=True)
    for st, k, v in c.run(w, f"{NQ}::Init({WW})", [p, psi]): w.ex.oblige(st, k == 'ret', "post:set up already"); w.frame(st, lambda f, o: False, "Init a second time")
def u_tcopy(c):
    """a copy applies the same factors on the same grid and reports the same bounds"""
    loops.SUMS.loose = True
    for rdy in (0, 1):
        w = world(c, setupc()); grid.wellformed(w, "h", 0, 0); grid.wellformed(w, "e", 0, 0); nk = int_sym("nk"); w.st.assume(le(0, nk)); m = int_sym("m"); mo = int_sym("mo"); w.st.assume(b_and(le(0, m), le(0, mo), le(Dg, mo)))
        a = kinetic(w, "op", "h", "e", False, nk, mass=m, ready=False); b = kinetic(w, "src", "g", "g", True, mass=mo, ready=bool(rdy)); w.st.fams["src"].const = True
        for st, k, v in c.run(w, f"{NQ}::Copy({Q}Operator*)", [a, b]):
            if k != 'ret' and st.gh.get('throw') == 'memory': continue
            if k != 'ret': w.ex.oblige(st, params.has("dim") if rdy else False, "post:accepted"); continue
            w.ex.oblige(st, v == a or v.fam == a.fam, "post:returns this operator"); fac = lambda d: w.rd(w.pre, "srcP.d", 0, (P(0), d)); s2 = st.copy(); x = int_sym("x"); s2.assume(b_and(le(0, x), lt(x, mo)))
            w.ex.oblige(st, b_and(eq(w.fld(st, a, NQ, "_mass.n_"), mo), eq(w.fld(st, a, NQ, "_pfac.n_"), mo)), "post:as many masses"); w.ex.oblige(s2, member(w, s2, a, NQ, "_mass", x) == w.rd(w.pre, "srcM.d", 0, (P(0), x)), "post:masses"); w.ex.oblige(s2, member(w, s2, a, NQ, "_pfac", x) == fac(x), "post:factors of the derivatives")
            if rdy: ready(w, st, a, fac, "copy")
            else: W03.samegrid(w, st, a, "g", "copy", NQ); w.ex.oblige(st, w.fld(st, a, NQ, "_dspace") == NULL, "post:not set up either")
            w.frame(st, lambda f, o: f.startswith(("op", "PB:op", "fftglobal")), "Copy")
def u_tparams(c):
    """masses: factor -1/(2 mass), none for a dimension without mass"""
    PC = Q + "ParamContainer"; w = world(c, setupc()); grid.wellformed(w, "h", 0, 0); m = int_sym("m"); w.st.assume(le(0, m)); p = kinetic(w, "op", "h", "h", False, mass=m, ready=False); a = w.obj("params", GS, const=True); x = int_sym("x"); w.ex.patterns += params.VECS
    n = params.count("mass"); e = lambda i: params.entry("mass", i); z = z3.Int("$z"); w.st.assume(b_and(le(0, n), z3.Implies(z3.Not(params.has("mass")), n.z() == 0))); w.ex.loophist = True; bad = lambda q: z3.Exists([z], z3.And(z >= 0, z < n.z(), q(e(from_z(z)))))
    for st, k, v in c.run(w, f"{NQ}::Init({PC}&)", [p, a]):
        if k != 'ret' and st.gh.get('throw') == 'memory': continue
        s = st.copy(); s.assume(b_and(le(0, x), lt(x, n)))
        if k != 'ret': w.ex.oblige(st, z3.Or(n.z() < 1, n.z() > grid.MAXD, bad(lambda q: q == 0), z3.Not(bad(lambda q: q > 0))), "post:refuses only no masses, too many, a zero mass, or no positive mass"); continue
        w.ex.oblige(st, b_and(le(1, n), le(n, P(grid.MAXD))), "post:one to four masses"); w.ex.oblige(s, e(x) != 0, "post:no mass is zero"); w.ex.oblige(st, bad(lambda q: q > 0), "post:at least one dimension has a mass")
        w.ex.oblige(st, b_and(eq(w.fld(st, p, NQ, "_mass.n_"), n), eq(w.fld(st, p, NQ, "_pfac.n_"), n)), "post:one factor per mass"); w.ex.oblige(s, member(w, s, p, NQ, "_mass", x) == e(x), "post:masses as given")
        w.ex.oblige(s, member(w, s, p, NQ, "_pfac", x) == z3.If(e(x) > 0, -1/(2*e(x)), R(0)), "post:factor = -1/(2 mass), 0 without mass"); w.ex.oblige(st, eq(grid.get(w, st, p, "dims", None, NQ), n), "post:number of dimensions"); w.frame(st, lambda f, o: f.startswith(("op", "PB:op")), "Init")
def u_texp(c):
    for rdy in (1,):
        w = world(c, setupc()); p = kinetic(w); e = w.vector("e", CX, n_(), P(1), vals={"_StorageLocked": P(0)}); w.st.fams["e"].heap = True; cr, ci = real_sym("cr"), real_sym("ci")
        for st, k, v in c.run(w, f"{NQ}::InitExponential({VC}*, {Q}dcomplex)", [p, e, cr, ci]):
            if k != 'ret': continue
            s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n_()))); r = w.rd(w.pre, "opK.d", 0, (P(0), i)); b = W03.blk(w, s2, e, VC); w.ex.oblige(s2, ceq(tuple(w.rd(s2, b.fam, o, tuple(b.ix) + (i,)) for o in (0, 8)), kernels.cexp_((cr*r, ci*r))), "post:exp(factor times c)"); w.frame(st, lambda f, o: f.startswith("e"), "InitExponential")
PI2 = z3.RealVal(str(fractions.Fraction(math.pi*math.pi/2)))
def u_temax(c):
    """largest value: sum over the dimensions with mass of pi^2/(2 mass dx^2); every factor lies between 0 and this"""
    loops.SUMS.loose = True; w = world(c); m = int_sym("m"); w.st.assume(b_and(le(Dg, m))); p = kinetic(w, const=True, mass=m); M = lambda d: w.rd(w.pre, "opM.d", 0, (P(0), d)); dx = lambda d: (hi(d) - lo(d))/real(sg(d) - 1)
    for st, k, v in c.run(w, f"{NQ}::Emax()", [p]):
        w.ex.oblige(st, k == 'ret', "post:returns"); w.frame(st, lambda f, o: False, "Emax"); w.ex.oblige(st, ceq(v, (PI2*loops.SUMS.make(z3.If(M(dz) > 0, 1/(M(dz)*dx(dz)*dx(dz)), R(0)), kz, P(0), Dg), R(0))), "post:largest = sum over the dimensions with mass of pi^2/(2 mass dx^2)")
    for st, k, v in c.run(w, f"{NQ}::Emin()", [p]): w.ex.oblige(st, k == 'ret' and ceq(v, (R(0), R(0))), "post:smallest = 0")
    # the factor of one dimension against its bound; dx = (xmax - xmin)/(N - 1) by G01
    N, f, e = int_sym("N"), int_sym("f"), int_sym("e"); pi, h, ms = real_sym("pi"), real_sym("h"), real_sym("mass"); Nr, fr = real(N), z3.ToReal(P(f).z()); kk = real_sym("k"); t = real_sym("t")
    ob = lambda s, g, t: w.ex.oblige(s, g, "lemma:" + t); s = w.st.copy(); s.assume(b_and(le(2, N), le(0, e), lt(e, N)));  s.assume(eq(f, G02.freq(e, N))); ob(s, b_and(le(f*2, N), le(P(0) - N, f*2)), "frequency at most half the number of points")
    s = w.st.copy(); x0, x1 = real_sym("x0"), real_sym("x1"); s.assume(b_and(le(2, N))); s.assume(h*(Nr - 1) == x1 - x0); q = real_sym("q"); s.assume(q*(Nr - 1) == x1 - x0); ob(s, q == h, "grid spacing"); s.assume(q == h); ob(s, x1 - x0 + q == Nr*h, "length of a period = points times spacing")
    s = w.st.copy(); s.assume(b_and(le(2, N), le(f*2, N), le(P(0) - N, f*2))); s.assume(z3.And(pi > 0, h > 0, kk*Nr*h == 2*pi*fr)); s.assume(t == kk*h); s.assume(t*Nr == 2*pi*fr); s.assume(z3.And(2*pi*fr <= pi*Nr, -pi*Nr <= 2*pi*fr)); ob(s, z3.And(t <= pi, -pi <= t), "phase between neighbouring points at most pi")
    s = w.st.copy(); s.assume(b_and(le(f*2, N), le(P(0) - N, f*2))); s.assume(pi > 0); ob(s, z3.And(2*pi*fr <= pi*Nr, -pi*Nr <= 2*pi*fr), "multiples of pi")
    s = w.st.copy(); s.assume(z3.And(t <= pi, -pi <= t, pi > 0, h > 0, ms > 0, t == kk*h)); s.assume(t*t <= pi*pi); u = real_sym("u"); s.assume(u*(2*ms*h*h) == 1); ob(s, kk*kk*h*h == t*t, "squared phase"); s.assume(kk*kk*h*h == t*t); s.assume(z3.And(ms*h*h > 0, u > 0)); ob(s, z3.And(t*t*u <= pi*pi*u, t*t*u >= 0), "factor of a dimension between 0 and its bound")
    s = w.st.copy(); s.assume(z3.And(t <= pi, -pi <= t, pi > 0)); ob(s, t*t <= pi*pi, "square of the phase")
# ---- gradient: representation, exponential, copies, bounds
def u_nexp(c):
    loops.SUMS.loose = True; cr, ci, fac = real_sym("cr"), real_sym("ci"), real_sym("fac")
    for mom in (0, 1):
        for ks, ds in ((1, 1), (1, 0), (0, 0)):
            w = world(c, kspacec()); dm = int_sym("which"); w.st.assume(lt(dm, 0)); p = nabla(w, "op", "g", False, ks, ds, {"_dim": dm, "_momentum": mom, "_fac": fac}); e = w.vector("e", CX, n_(), P(1), vals={"_StorageLocked": P(0)}); w.st.fams["e"].heap = True
            for st, k, v in c.run(w, f"{NA}::InitExponential({VC}*, {Q}dcomplex)", [p, e, cr, ci]):
                if k != 'ret' and st.gh.get('throw') == 'memory': continue
                w.ex.oblige(st, k == 'ret', "post:returns")
                if k != 'ret': continue
                s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n_()))); x = w.rd(w.pre, "opK.d", 0, (P(0), i)) if ks else loops.SUMS.make(kd(dz, i), kz, P(0), Dg)
                f = w.cat(w.pre, "opD", P(0), i) if ds else (x, R(0)) if mom else (R(0), x); b = W03.blk(w, s2, e, VC)
                w.ex.oblige(s2, ceq(tuple(w.rd(s2, b.fam, o, tuple(b.ix) + (i,)) for o in (0, 8)), kernels.cexp_(cmul(f, cmul((cr, ci), (fac, R(0)))))), "post:exp(factor times diagonal times c)")
                D = w.fld(st, p, NA, "_dspace"); ok = isinstance(D, Ptr) and D.fam is not None; w.ex.oblige(st, ok, "post:diagonal representation exists")
                if ok: b = W03.blk(w, s2, D, VC); w.ex.oblige(s2, ceq(tuple(w.rd(s2, b.fam, o, tuple(b.ix) + (i,)) for o in (0, 8)), f), "post:diagonal = momentum for a momentum operator, i times momentum for a gradient")
                w.frame(st, lambda f, o: f.startswith("e") or f == "op" and o in [w.prog.layout(NA)[m][0] for m in ("_kspace", "_dspace")] + [('A', w.prog.layout(NA)["dimsizes_"][0], 0)], "InitExponential")
def u_ncopy(c):
    for ka, da in ((0, 0), (1, 1)):
        for kb, db in ((0, 0), (1, 0), (1, 1)):
            w = world(c, pcopy()); grid.wellformed(w, "h", 0, 0); w.st.assume(b_and(le(0, int_sym("nk")), le(0, int_sym("nd")))); b_ = lambda m: (w.st.assume(b_or(eq(int_sym(m), 0), eq(int_sym(m), 1))), int_sym(m))[1]
            a = nabla(w, "op", "h", False, ka, da, {"_dim": int_sym("d0"), "_momentum": b_("m0"), "_fac": real_sym("f0")}, int_sym("nk"), int_sym("nd")); b = nabla(w, "src", "g", True, kb, db, {"_dim": int_sym("d1"), "_momentum": b_("m1"), "_fac": real_sym("f1")}); w.st.fams["src"].const = True
            for st, k, v in c.run(w, f"{NA}::Copy({Q}Operator*)", [a, b]):
                if k != 'ret' and st.gh.get('throw') == 'memory': continue
                w.ex.oblige(st, k == 'ret', "post:accepted")
                if k != 'ret': continue
                W03.samegrid(w, st, a, "g", "grid", NA); f = lambda m: w.fld(st, a, NA, m); w.ex.oblige(st, b_and(eq(f("_dim"), int_sym("d1")), eq(f("_momentum"), int_sym("m1"))), "post:dimension and kind"); w.ex.oblige(st, f("_fac") == real_sym("f1"), "post:factor"); w.ex.oblige(st, f("_dspace") == NULL, "post:diagonal representation is made anew")
                K = f("_kspace")
                if not kb: w.ex.oblige(st, K == NULL, "post:not set up either")
                else:
                    ok = isinstance(K, Ptr) and K.fam not in (None, "srcK") and K.fam not in st.dead; w.ex.oblige(st, ok, "post:own momenta")
                    if ok: s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n_()))); w.ex.oblige(st, eq(w.fld(st, K, VD, "n_"), n_()), "post:momenta: one per point"); bk = W03.blk(w, s2, K, VD); w.ex.oblige(s2, bk.fam != "srcK.d" and w.rd(s2, bk.fam, 0, tuple(bk.ix) + (i,)) == w.rd(w.pre, "srcK.d", 0, (P(0), i)), "post:momenta of the source")
                w.frame(st, lambda f, o: f.startswith(("op", "PB:op")), "Copy")
def u_refuse(c):
    for cls in (NA, NQ):
        w = world(c, setupc()); p = nabla(w, "op", const=False) if cls == NA else kinetic(w, const=False); q = kinetic(w, "t") if cls == NA else nabla(w, "t"); w.st.fams["t"].dyn = {**w.st.fams["t"].dyn, cls: False}
        for st, k, v in c.run(w, f"{cls}::Copy({Q}Operator*)", [p, q], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:refuses other kinds"); w.frame(st, lambda f, o: False, "refused")
        for case in ("grid", "other", "null"):
            b = fresh_bool("same"); seen = []
            def cmpk(neg):
                @lib.contract
                def k(ex, st, args, I, name):
                    """GridSystem comparison (G01): true iff all dimensions agree"""
                    seen.append((args[0], args[1])); return b_not(b) if neg else b
                return k
            w = world(c, {f"{GS}::operator{o}({a}){e}": cmpk(o == "!=") for o in ("==", "!=") for a in (GS + "&", GS + " const&") for e in ("", " const")}); p = nabla(w) if cls == NA else kinetic(w); psi = W03.wave(w, "s", "g", const=True)
            if case == "other": w.st.fams["s"].dyn = {W03.WG: False, W03.WC: False}
            for st, k, v in c.run(w, f"{cls}::Valid({WW})", [p, NULL if case == "null" else psi]):
                w.frame(st, lambda f, o: False, "Valid"); w.ex.oblige(st, k == 'ret', "post:returns"); w.ex.oblige(st, O07.b_iff(O07.tobool(v), case == "grid" and b), "post:valid iff a grid wave function on the same grid")
                if case == "grid": w.ex.oblige(st, len(seen) >= 1 and all({x.fam, y.fam} == {"op", "s"} for x, y in seen), "post:compares the grids of operator and wave function")
        for case in ("other",):
            w = world(c, setupc()); p = nabla(w) if cls == NA else kinetic(w, ready=False); psi = W03.wave(w, "s", "g", const=True); w.st.fams["s"].dyn = {W03.WG: False, W03.WC: False}
            for st, k, v in c.run(w, f"{cls}::Init({WW})", [p, psi], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:refuses wave functions without grid"); w.frame(st, lambda f, o: False, "refused")
def u_nbounds(c):
    mx = real_sym("mx"); seen = []
    @lib.contract
    def k_max(ex, st, args, I, name):
        """VecMax: largest element (W03)"""
        elem.block(ex, st, args[0], I, "max", 'D'); seen.append(args[0]); return mx
    w = world(c, {f"QDLIB::VecMax({VD}&)": k_max}); p = nabla(w)
    for st, k, v in c.run(w, f"{NA}::Emax()", [p]): w.ex.oblige(st, k == 'ret' and len(seen) == 1 and seen[0] == Ptr("opK") and ceq(v, (mx, R(0))), "post:largest momentum"); w.frame(st, lambda f, o: False, "Emax")
def u_nparams(c):
    PC = Q + "ParamContainer"; w = world(c, {**params.contracts(), **pcopy()}); p = nabla(w, "op", "g", True, vals={"_dim": int_sym("d0"), "_fac": real_sym("f0")}); a = w.obj("params", GS, const=True); has = params.has; g = lambda m: w.fld(st, p, NA, m)
    w.st.fams["op"].const = False
    for st, k, v in c.run(w, f"{NA}::Init({PC}&)", [p, a]):
        if k != 'ret': w.ex.oblige(st, b_and(has("dim"), lt(params.integer("dim"), 0)), "post:refuses only a negative dimension"); continue
        w.ex.oblige(st, z3.Implies(has("dim"), le(0, params.integer("dim"))), "post:a negative dimension is refused"); w.ex.oblige(st, eq(g("_dim"), ite(has("dim"), params.integer("dim"), int_sym("d0"))), "post:dimension"); w.ex.oblige(st, g("_fac") == z3.If(has("factor"), params.num("factor"), real_sym("f0")), "post:factor"); w.frame(st, lambda f, o: f == "op" and (isinstance(o, str) or o in [w.prog.layout(NA)[m][0] for m in ("_dim", "_fac")]), "Init")
# ---- transforms of wave functions
def u_transform(c):
    for fn, sign in (("Forward", -1), ("Backward", 1)):
        for dim in (0, 1):
            for ks in (0, 1):
                for buf, fft in ((None, None), ('same', 'ok')):
                    if (sign > 0) != ks: continue
                    w = world(c); t = w.obj("t", TF); elem.vobj(w, t, TF); s = W03.wave(w, "s", "g", fft=fft, buf=buf, ks=ks); d = int_sym("dim"); w.st.assume(b_and(le(0, d), lt(d, Dg)))
                    for st, k, v in c.run(w, f"{TF}::{fn}({WW}{', int' if dim else ''})", [t, s] + ([d] if dim else [])):
                        if k != 'ret':
                            if st.gh.get('throw') != 'memory': w.ex.oblige(st, False, "post:applies")
                            continue
                        w.ex.oblige(st, eq(w.fld(st, s, W03.WC, "_IsKspace"), 1 - ks), "post:representation changes")
                        transformed(w, st, W03.blk(w, st, s), lambda x: None, sign, d if dim else None, fn, source=lambda o, x: w.rd(w.pre, "s.d", o, (P(0), x)))
                        if not dim: w.ex.oblige(st, w.fld(st, t, TF, "_norm") == 1/real(n_()), "post:normalization = 1/points")
                        w.frame(st, lambda f, o: f.startswith(("s", "fft")) or f == "t" and not dim and o == w.prog.layout(TF)["_norm"][0], fn)
            w = world(c); t = w.obj("t", TF, const=True); elem.vobj(w, t, TF); s = W03.wave(w, "s", "g", const=True); w.st.fams["s"].dyn = {W03.WG: False, W03.WC: False}
            for st, k, v in c.run(w, f"{TF}::{fn}({WW}{', int' if dim else ''})", [t, s] + ([P(0)] if dim else []), expect_ret=False): w.ex.oblige(st, k == 'throw', "post:refuses wave functions without FFT"); w.frame(st, lambda f, o: False, "refused")
    w = world(c); t = w.obj("t", TF, {"_norm": real_sym("nm")}, const=True); elem.vobj(w, t, TF)
    for st, k, v in c.run(w, f"{TF}::Normalization()", [t]): w.ex.oblige(st, k == 'ret' and v == real_sym("nm"), "post:normalization of the last transform"); w.frame(st, lambda f, o: False, "Normalization")
# ---- derivatives along one dimension
def diff(w, deriv, const=True, dim=P(-1), size=None, vals=None):
    """a differenciator for single dimensions: vector d holds the factors of dimension d"""
    p = w.obj("op", DF, {m: P(x) if isinstance(x, int) else x for m, x in {"_method": 0, "_coll": 0, "_single": 1, "_mixed": 0, "_deriv": deriv, "_dim": dim, "_hofd": NULL, **(vals or {})}.items()}); elem.vobj(w, p, DF); hvec(w, p, DF, "_pfac", "opP", P(4), True); dgrid(w, p, "g", DF, "")
    f = w.st.fams["op"]; lay = w.prog.layout(VD); o0 = w.prog.layout(DF)["_kspace1"][0]; f.arrays.append((o0, lay["#size"][0], 4)); N = (lambda X: n_()) if size is None else size
    for m, x in {"nstrides_": lambda X: P(1), "stride_size_": N, "n_": N, "_mpirank": lambda X: P(0), "_mpisize": lambda X: P(1), "isRef_": lambda X: P(0), "_StorageLocked": lambda X: P(0), "v_": lambda X: Ptr("opK.v", X), "_StrideRefObj": lambda X: Ptr("opK.ro", X), "_SourceStride": lambda X: Ptr("opK.ss", X)}.items():
        k = ('A', o0, lay[m][0]); f.fields[k] = 'p' if m in ("v_", "_StrideRefObj", "_SourceStride") else 'i'; f.bases[k] = x
    one = lambda X: P(1); F = lambda nm, es, fl, b, cnt=one, ar=1, **kw: w.st.fam(Fam(nm, 'array', esize=es, count=cnt, fields={0: fl}, bases={0: b} if b else {}, arity=ar, const=const, heap=True, **kw))
    F("opK.v", 8, 'p', lambda X: Ptr("opK.d", X)); F("opK.ro", 8, 'p', lambda X: NULL); F("opK.ss", 4, 'i', lambda X: P(-1)); F("opK.d", 8, 'd', None, lambda X: N(X[:1]), 2); return p
def u_dapply(c):
    d = int_sym("dim"); fac = real_sym("factor")
    for deriv in (1, 2):
        for fn in ("DnDxn", "DnDxnAdd"):
            for buf, fft in ((None, None), ('same', 'ok')):
                w = world(c); p = diff(w, deriv); w.st.assume(b_and(le(0, d), lt(d, Dg))); a, b = (W03.wave(w, x, "g", fft=fft, buf=buf) for x in "ds")
                for st, k, v in c.run(w, f"{DF}::{fn}({WW}, {WW}, int, double)", [p, a, b, d, fac]):
                    if k != 'ret':
                        if st.gh.get('throw') != 'memory': w.ex.oblige(st, False, "post:applies")
                        continue
                    F = spectrum(w, w.pre, "s", d.z().sexpr()); r = lambda x: w.rd(w.pre, "opK.d", 0, (d, P(0), x))*fac/real(sg(d)); want = lambda x: cmul((r(x), R(0)) if deriv == 2 else (R(0), r(x)), F(x)); blkd = W03.blk(w, st, a)
                    w.ex.oblige(st, eq(w.fld(st, a, W03.WC, "_IsKspace"), 0), "post:result in position space"); w.ex.oblige(st, eq(w.fld(st, b, W03.WC, "_IsKspace"), 0), "post:source in position space"); src = fn != "DnDxn"
                    transformed(w, st, W03.blk(w, st, b if src else a), want, 1, d, f"{fn}: factor of the dimension times the transform along it, transformed back")
                    if src:
                        s = st.copy(); s.assume(b_and(le(0, i), lt(i, n_()))); w.ex.oblige(s, ceq(W03.el(w, s, blkd, i), cadd(w.cat(w.pre, "d", P(0), i), W03.el(w, s, W03.blk(w, s, b), i))), "post:added to the destination")
                    else: W03.samedata(w, st, b, "s", n_(), "post:source unchanged")
                    w.frame(st, lambda f, o: f.startswith(("d", "s", "fft")), fn)
def u_dsetup(c):
    x = int_sym("x"); loops.SUMS.loose = True
    for deriv in (1, 2):
        for one in (0, 1):
            sz = z3.Function("nk", z3.IntSort(), z3.IntSort()); w = world(c, kspacec()); dm = int_sym("which"); (w.st.assume(b_and(le(0, dm), lt(dm, Dg))) if one else None); dm = dm if one else P(-1); z = z3.Int("$z"); w.st.assume(z3.ForAll([z], sz(z) >= 0, patterns=[sz(z)]))
            p = diff(w, deriv, False, dm, lambda X: from_z(sz(X[0].z())), {"_single": 1})
            for st, k, v in c.run(w, f"{DF}::_InitKspace()", [p]):
                if k != 'ret' and st.gh.get('throw') == 'memory': continue
                w.ex.oblige(st, k == 'ret', "post:returns")
                if k != 'ret': continue
                s = st.copy(); s.assume(b_and(le(0, x), lt(x, Dg), le(0, i), lt(i, n_()))); o0 = w.prog.layout(DF)["_kspace1"][0]; lay = w.prog.layout(VD)
                if one: s.assume(eq(x, dm))
                for kept in (True, False):
                    s3 = s.copy(); same = eq(from_z(sz(x.z())), n_()); s3.assume(same if kept else b_not(same))
                    w.ex.oblige(s3, eq(w.rd(s3, "op", ('A', o0, lay["n_"][0]), (x,)), n_()), "post:one factor per point"); q = w.rd(s3, "op", ('A', o0, lay["v_"][0]), (x,)); q = w.rd(s3, q.fam, 0, tuple(q.ix) + (P(0),)); v = w.rd(s3, q.fam, 0, tuple(q.ix) + (i,)); pf = w.rd(w.pre, "opP.d", 0, (P(0), x))
                    w.ex.oblige(s3, v == (kd(x, i)*pf if deriv == 1 else -pf*(kd(x, i)*kd(x, i))), "post:factor of a dimension = its momentum")
                w.frame(st, lambda f, o: f.startswith("op") and f != "opP.d", "_InitKspace")
