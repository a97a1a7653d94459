"""O07: operators diagonal on the grid and laser couplings."""
from framework import *
import wfc, vec, lib, grid, fftc, loops, elem, intrin, W03
from W03 import blk, wave
ID = "O07"; TITLE = "operators diagonal on the grid and laser couplings"
SOURCES = ["qdlib/OGridPotential.cpp", "qdlib/OGridsystem.cpp", "qdlib/OGridDipole.cpp", "qdlib/OGridRaman.cpp", "qdlib/OGridPosition.cpp", "qdlib/OGridKick.cpp", "qdlib/OGobbler.cpp", "qdlib/OLaser.cpp", "qdlib/Laser.cpp", "qdlib/GridSystem.cpp", "qdlib/WFGridSystem.cpp", "qdlib/WFGridCartesian.cpp", "qdlib/WaveFunction.cpp", "math/math_functions.cpp"]
SHIMS = {"od": '#include "qdlib/OGridPotential.h"\n#include "qdlib/OGridDipole.h"\n#include "qdlib/OGridRaman.h"\n#include "qdlib/OGridKick.h"\n#include "qdlib/OGobbler.h"\n#include "qdlib/OGridPosition.h"\n#include "qdlib/WFGridCartesian.h"\nusing namespace QDLIB;\nint f(OGridPotential*p, OGridDipole*d, OGridRaman*r, OGridKick*k, OGobbler*g, OGridPosition*x, WaveFunction*w, cVec*e){ p->InitExponential(e,dcomplex(0)); d->ApplyParent(w,w); d->GetLaser(); d->GetLaser(1); d->NumLasers(); d->UsePol(); d->GetPol(); return sizeof(*p)+sizeof(*d)+sizeof(*r)+sizeof(*k)+sizeof(*g)+sizeof(*x)+sizeof(WFGridCartesian); }\n'}
REPLAY = "O07.cpp"
ASSUMPTIONS = ["kernels as proved in V01", "class Laser as proved in L01", "comparison and copying of grids as proved in G01", "dest, source and operator have one value per grid point"]
Q = "QDLIB::"; WW = "QDLIB::WaveFunction*"; CX = "struct QDLIB::dcomplex"; VC = elem.VC; VD = elem.VD; LAS = Q + "Laser"; GS = grid.GS
CLS = {"potential": Q + "OGridPotential", "dipole": Q + "OGridDipole", "raman": Q + "OGridRaman", "position": Q + "OGridPosition", "filter": Q + "OGobbler"}
@lib.contract
def k_get(ex, st, args, I, name):
    """Laser::Get (L01): the scaled field at the time of its clock: an arbitrary real of this laser"""
    f, X = laser(ex, st, args[0], I); return col_eval(ex.column(st, f, '#E', 'd'), X, lambda q: ex.S.decide(st.pc, q))
def laser(ex, st, p, I):
    """family and index of a laser object in the array of a coupling operator"""
    if p.fam is None: ex.oblige(st, False, f"null-deref:laser@{ex.loc(I)}"); raise DeadPath()
    f = st.fams[p.fam]
    if p.fam in st.dead: ex.oblige(st, False, f"use-after-free:laser@{ex.loc(I)}"); raise DeadPath()
    if '#E' not in f.bases: raise Unsupported(f"{p.fam} is no laser")
    if f.kind == 'struct': return f, tuple(p.ix)
    q = p.off.divc(f.esize)
    if q is None or not (q[1].is_const() and q[1].const() == 0 if isinstance(q[1], Poly) else q[1] == 0): raise Unsupported(f"pointer {p} into a laser")
    ex.oblige(st, b_and(le(0, q[0]), lt(q[0], f.count)), f"bounds:laser exists@{ex.loc(I)}"); return f, tuple(p.ix) + (q[0],)
@lib.contract
def k_lassign(ex, st, args, I, name):
    """Laser::operator= (L01): same field, clock and scale, hence the same value at the time of the clock"""
    (a, X), (b, Y) = laser(ex, st, args[0], I), laser(ex, st, args[1], I)
    if a.const: ex.oblige(st, False, f"frame:write to read-only laser@{ex.loc(I)}"); return args[0]
    v = col_eval(ex.column(st, b, '#E', 'd'), Y, lambda q: ex.S.decide(st.pc, q)); st.mem[(a.name, '#E')] = ex.column(st, a, '#E', 'd').write(X, v); return args[0]
def world(c, extra=None):
    k = {Q + "OLaser::OLaser()": wfc.k_noop, Q + "OLaser::OLaser(int)": wfc.k_noop, **lib.mem(), **wfc.contracts(), **grid.contracts(), **fftc.contracts(), **elem.contracts(), f"{LAS}::Get()": k_get, f"{LAS}::operator=({LAS} const&)": k_lassign, **(extra or {})}
    for x in (f"{VC}::FastCopy({VC}&)", f"{VC}::swap({VC}&)"): k.pop(x)
    w = c.world(k); w.ex.patterns += wfc.MAPS; return w
L = int_sym("L")
def oper(w, kind, name="op", gname="g", const=True, n=None, vals=None, lasers=2):
    cls = CLS[kind]; n = L if n is None else n; D, sz, lo, hi = grid.symbols(gname)
    v = dict(vals or {})
    if kind in ("dipole", "raman"):
        k = {"dipole": 1, "raman": 2}[kind]; v["_laser"] = Ptr(name + ".las"); v["_numlasers"] = P(k)
        w.st.fam(Fam(name + ".las", 'array', esize=w.prog.layout(LAS)["#size"][0], count=P(k), const=const, fields={'#E': 'd'}, bases={'#E': lambda X: uf_real("E:" + name, *X)}))
    p = w.vector(name, "double", n, P(1), const=const, cls=cls, vals={"_StorageLocked": P(0), **{a: P(b) if isinstance(b, int) else b for a, b in v.items()}}); elem.vobj(w, p, cls)
    if kind == "filter":
        for m in ("_lp", "_rp"):
            fl = z3.Function(f"{name}.{m}", z3.IntSort(), z3.BoolSort()); w.st.fams[name].bases[('A', w.prog.layout(cls)[m][0], 0)] = lambda X, fl=fl: from_z(z3.If(fl(X[-1].z()), z3.IntVal(1), z3.IntVal(0)))
    return p
def E(name, i): return uf_real("E:" + name, P(i))
def diag(w, name, i): return w.rd(getattr(w, 'pre', None) or w.st, name + ".d", 0, (P(0), P(i) if not isinstance(i, Poly) else i))
def factor(w, kind, name, i, v):
    """the operator's value at point i as complex pair"""
    d = diag(w, name, i)
    if kind == "dipole": return (-E(name, 0) * d, R(0))
    if kind == "raman": return (-R(1) / 2 * E(name, 0) * E(name, 1) * d, R(0))
    if v.get("_nip"): return (R(0), d if v["_conj"] else -d)
    return (d, R(0))
def cases(kind): return [{"_nip": 0, "_conj": 0}, {"_nip": 0, "_conj": 1}, {"_nip": 1, "_conj": 0}, {"_nip": 1, "_conj": 1}] if kind == "filter" else [{}]
def units(prog, tier):
    u = []
    for k in CLS: u += [Unit(f"{k} apply", lambda c, k=k: u_apply(c, k)), Unit(f"{k} exponential", lambda c, k=k: u_exp(c, k))]
    for k in CLS: u += [Unit(f"{k} copy", lambda c, k=k: u_copy(c, k)), Unit(f"{k} copy of another kind", lambda c, k=k: u_refuse(c, k)), Unit(f"{k} valid", lambda c, k=k: u_valid(c, k))]
    u += [Unit(f"{k} bounds", lambda c, k=k: u_bounds(c, k)) for k in ("potential", "position")] + [Unit("filter bounds", u_gbounds), Unit("minimum", u_min), Unit("kick apply", u_kapply), Unit("kick copy", u_kcopy), Unit("laser access", u_laser)]
    return u
def wv(w, name, const=False): return w.vector(name, CX, L, P(1), const=const, cls=W03.WC, vptr=W03.VT, vals={"_StorageLocked": P(0)})
def at(w, st, name, i): return tuple(w.rd(st, name + ".d", o, (P(0), i)) for o in (0, 8))
def owner(w, kind, sig):
    cls = CLS[kind]; short = [cls] + {"potential": [], "dipole": [CLS["potential"]], "raman": [CLS["potential"]]}.get(kind, []) + [Q + "OGridSystem", Q + "ODSpaceT<double>"]
    for s in short:
        if w.prog.find(f"{s}::{sig}") is not None: return f"{s}::{sig}"
    raise Unsupported(f"{kind}: no {sig}")
def u_apply(c, kind):
    i = int_sym("i")
    for vals in cases(kind):
        for fn in ("Apply2", "Apply1") + (("ApplyAdd",) if kind in ("potential", "dipole", "raman") else ()) + (("ApplyParent",) if kind == "dipole" else ()):
            w = world(c); w.st.assume(le(1, L)); p = oper(w, kind, vals=vals); d = wv(w, "d"); s = wv(w, "s", True)
            args = [p, d] + ([] if fn == "Apply1" else [s]); sig = {"Apply2": f"Apply({WW}, {WW})", "Apply1": f"Apply({WW})"}.get(fn, f"{fn}({WW}, {WW})")
            for st, k, v in c.run(w, owner(w, kind, sig), args):
                if k != 'ret': continue
                s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, L))); f = factor(w, "potential" if fn == "ApplyParent" else kind, "op", i, vals); x = at(w, w.pre, "d" if fn == "Apply1" else "s", i); r = cmul(f, x)
                if fn == "ApplyAdd": r = cadd(at(w, w.pre, "d", i), r)
                w.ex.oblige(s2, ceq(at(w, s2, "d", i), r), f"post:{fn} multiplies every point by the operator's value{' ' + str(vals) if vals else ''}"); w.frame(st, lambda f, o: f == "d.d", fn)
def u_exp(c, kind):
    i = int_sym("i")
    for vals in cases(kind):
        for dsp in (0, 1):
            w = world(c); w.st.assume(le(1, L)); p = oper(w, kind, vals={**vals, "_dspace": Ptr("op", (), doff(w, kind)) if dsp else NULL}, const=False); w.st.fams["op.d"].const = True; e = w.vector("e", CX, L, P(1)); z = (real_sym("c.re"), real_sym("c.im"))
            for st, k, v in c.run(w, owner(w, kind, f"InitExponential({VC}*, {Q}dcomplex)"), [p, e, z[0], z[1]]):
                if k != 'ret': continue
                s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, L))); import kernels
                w.ex.oblige(s2, ceq(at(w, s2, "e", i), kernels.cexp_(cmul(z, factor(w, kind, "op", i, vals)))), f"post:exponential of c times the operator's value{' ' + str(vals) if vals else ''}"); w.frame(st, lambda f, o: f == "e.d" or f == "op", "InitExponential")
def doff(w, kind): return P(w.prog.layout(CLS[kind])["nstrides_"][0]) - P(w.prog.layout(VD)["nstrides_"][0])
def u_laser(c):
    """the laser fields of a coupling operator by index"""
    OL = Q + "OLaser"; K, n, m = int_sym("K"), int_sym("n"), int_sym("m")
    for kind in ("dipole", "raman"):
        def mk():
            w = world(c); w.st.assume(b_and(le(1, L), le(1, K))); p = oper(w, kind, const=False); w.st.fams["op.d"].const = True; w.st.fams["op.las"].count = K; o = w.prog.layout(CLS[kind])["_numlasers"][0]; w.st.fams["op"].bases[o] = lambda X: K
            w.st.fam(Fam("nl", 'struct', size=w.prog.layout(LAS)["#size"][0], const=True, fields={'#E': 'd'}, bases={'#E': lambda X: real_sym("nl.E")})); return w, p.add(P(o - 8))
        for args, sig in ((1, f"SetLaser({LAS}&)"), (2, f"SetLaser(int, {LAS}&)")):
            w, p = mk(); w.st.assume(b_and(le(0, n), lt(n, K), le(0, m), lt(m, K))); at_ = P(0) if args == 1 else n
            for st, k, v in c.run(w, f"{OL}::{sig}", [p] + ([n] if args == 2 else []) + [Ptr("nl")]):
                if k != 'ret': continue
                w.ex.oblige(st, w.rd(st, "op.las", '#E', (m,)) == z3.If(eq(m, at_), real_sym("nl.E"), uf_real("E:op", m)), "post:sets exactly the laser with this number"); w.frame(st, lambda f, o: f == "op.las", "SetLaser")
        for args, sig in ((1, "GetLaser()"), (2, "GetLaser(int)"), (0, "NumLasers()")):
            w, p = mk(); w.st.assume(b_and(le(0, n), lt(n, K)))
            for st, k, v in c.run(w, f"{OL}::{sig}", [p] + ([n] if args == 2 else [])):
                if k != 'ret': continue
                w.ex.oblige(st, eq(v, K) if not args else isinstance(v, Ptr) and v.fam == "op.las" and eq(v.off, (n if args == 2 else P(0)) * w.st.fams["op.las"].esize), f"post:{sig}"); w.frame(st, lambda f, o: False, sig)
# ---- copies, validity
def opoff(w, cls): return P(w.prog.layout(cls)["_recalc"][0] - 8)
def full(w, kind, name, gname, const, vals=None, n=None):
    n = n if n is not None else grid_n(gname); p = oper(w, kind, name, gname, const, n, vals); grid.wellformed(w, gname, 1); grid.attach(w, p, gname, CLS[kind], const); w.st.fams[name].dyn.update({CLS[k]: False for k in CLS if k != kind})
    f = w.st.fams[name]; f.dyn.update({Q + "OGridSystem": P(0), **({CLS["potential"]: P(0)} if kind in ("dipole", "raman") else {})}); return p
def grid_n(g): D, sz, lo, hi = grid.symbols(g); return fftc.total(D, sz)
MEM = {"potential": (), "dipole": (), "raman": (), "position": ("_dim", "_scale"), "filter": ("_order", "_gain", "_nip", "_residue", "_hermitian")}
MEMK = {"_scale": real_sym, "_gain": real_sym}
def symvals(kind, name): return {m: MEMK.get(m, int_sym)(f"{name}.{m}") for m in MEM[kind]}
def u_copy(c, kind):
    cls = CLS[kind]; i = int_sym("i")
    w = world(c)
    for nm in ("op", "t"):
        for m in ("_nip", "_residue", "_hermitian"): w.st.assume(b_or(eq(int_sym(f"{nm}.{m}"), 0), eq(int_sym(f"{nm}.{m}"), 1)))
    p = full(w, kind, "op", "g", False, symvals(kind, "op"), int_sym("op.n")); q = full(w, kind, "t", "h", True, symvals(kind, "t")); n = grid_n("h"); w.st.assume(b_and(le(0, int_sym("op.n")), le(1, n)))
    for st, k, v in c.run(w, f"{cls}::Copy({Q}Operator*)", [p, q.add(opoff(w, cls))]):
        if k != 'ret': continue
        w.ex.oblige(st, isinstance(v, Ptr) and v.fam == "op" and eq(v.off, opoff(w, cls)), "post:returns this"); copied(w, st, p, kind, n, "Copy")
def copied(w, st, p, kind, n, tag):
    cls = CLS[kind]; i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n)))
    w.ex.oblige(st, b_and(eq(w.fld(st, p, cls, "n_"), n), eq(w.fld(st, p, cls, "nstrides_"), 1)), "post:as many values"); b = blk(w, s2, p, cls); w.ex.oblige(s2, b.fam != "t.d" and w.rd(s2, b.fam, 0, tuple(b.ix) + (i,)) == diag(w, "t", i), "post:values copied into own storage")
    W03.samegrid(w, st, p, "h", "grid", cls)
    for m in MEM[kind]: w.ex.oblige(st, loops.val_eq(w.fld(st, p, cls, m), w.fld(w.pre, Ptr("t"), cls, m)), f"post:{m} copied")
    if kind in ("dipole", "raman"):
        for j in range({"dipole": 1, "raman": 2}[kind]): w.ex.oblige(st, w.rd(st, "op.las", '#E', (P(j),)) == E("t", j), f"post:laser field {j} copied")
        w.ex.oblige(st, w.fld(st, p, cls, "clock") == w.fld(w.pre, Ptr("t"), cls, "clock"), "post:clock taken over")
    if kind == "filter":
        for m in ("_lp", "_lpx", "_rp", "_rpx"):
            o = w.prog.layout(cls)[m][0]; s3 = st.copy(); s3.assume(b_and(le(0, i), lt(i, 4))); w.ex.oblige(s3, loops.val_eq(w.rd(s3, "op", ('A', o, 0), (i,)), w.rd(w.pre, "t", ('A', o, 0), (i,))), f"post:{m} copied")
    w.frame(st, lambda f, o: f.startswith(("op", "PB:op")), tag)
def u_refuse(c, kind):
    cls = CLS[kind]; other = "position" if kind != "position" else "potential"
    w = world(c); p = full(w, kind, "op", "g", False, symvals(kind, "op")); q = full(w, other, "t", "h", True); w.st.fams["t"].dyn = {**w.st.fams["t"].dyn, cls: False}
    for st, k, v in c.run(w, f"{cls}::Copy({Q}Operator*)", [p, q.add(opoff(w, CLS[other]))], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:refuses other kinds"); w.frame(st, lambda f, o: False, "refused")
def u_valid(c, kind):
    for case in ("grid", "other", "null") if kind == "potential" else ("grid", "other"):
        b = fresh_bool("same"); seen = []
        def cmpk(neg):
            @lib.contract
            def k(ex, st, args, I, name):
                """GridSystem comparison (G01): true iff all dimensions agree"""
                seen.append((args[0], args[1])); return b_not(b) if neg else b
            return k
        for fn in ("Valid", "Init") if kind == "potential" else ("Valid",):
            if fn == "Init" and case == "null": continue
            del seen[:]; w = world(c, {**{f"{GS}::operator{o}({a}){b}": cmpk(o == "!=") for o in ("==", "!=") for a in (GS + "&", GS + " const&") for b in ("", " const")}}); p = full(w, kind, "op", "g", True); psi = wave(w, "s", const=True)
            if case == "other": w.st.fams["s"].dyn = {W03.WG: False, W03.WC: False}
            f = owner(w, kind, f"{fn}({WW})")
            for st, k, v in c.run(w, f, [p, NULL if case == "null" else psi], expect_ret=False):
                w.frame(st, lambda f, o: False, fn)
                ok = case == "grid" and b
                if fn == "Valid": w.ex.oblige(st, k == 'ret', "post:returns"); w.ex.oblige(st, b_iff(tobool(v), ok), "post:valid iff a grid wave function on the same grid")
                else: w.ex.oblige(st, b_iff(k == 'ret', ok), "post:accepted iff a grid wave function on the same grid")
                if case == "grid": w.ex.oblige(st, len(seen) >= 1 and all({x.fam, y.fam} == {"op", "s"} for x, y in seen), "post:compares the grids of operator and wave function")
def tobool(v): return v if isinstance(v, (bool, z3.ExprRef)) else eq(v, 1)
def zb(x): return x if isinstance(x, z3.ExprRef) else z3.BoolVal(bool(x))
def b_iff(a, b): return zb(a) == zb(b)
def u_bounds(c, kind):
    """spectral bounds: largest and smallest of the operator's values (VecMax/VecMin proved in W03 and here)"""
    mx, mn = real_sym("mx"), real_sym("mn"); seen = []
    def k_ext(which):
        @lib.contract
        def k(ex, st, args, I, name):
            """VecMax/VecMin: largest/smallest element (checked separately)"""
            elem.block(ex, st, args[0], I, which, 'D'); seen.append((which, args[0])); return {"max": mx, "min": mn}[which]
        return k
    for fn, which, val in (("Emax", "max", mx), ("Emin", "min", mn)):
        del seen[:]; w = world(c, {f"QDLIB::VecMax({VD}&)": k_ext("max"), f"QDLIB::VecMin({VD}&)": k_ext("min")}); w.st.assume(le(1, L)); p = oper(w, kind)
        for st, k, v in c.run(w, owner(w, kind, f"{fn}()"), [p]):
            w.ex.oblige(st, len(seen) == 1 and seen[0][1].fam == "op" and eq(seen[0][1].off, doff(w, kind)), "post:of the operator's values"); w.ex.oblige(st, ceq(v, (val, R(0))), f"post:{fn} = {which}imum of the operator's values"); w.frame(st, lambda f, o: False, fn)
def u_gbounds(c):
    g = real_sym("gain")
    for nip in (0, 1):
        for fn in ("Emax", "Emin"):
            w = world(c); p = oper(w, "filter", vals={"_nip": nip, "_gain": g})
            for st, k, v in c.run(w, owner(w, "filter", f"{fn}()"), [p]):
                want = (g, R(0)) if fn == "Emax" else (R(0), -g) if nip else (R(0), R(0))
                w.ex.oblige(st, ceq(v, want), f"post:{fn}"); w.frame(st, lambda f, o: False, fn)
def u_min(c):
    w = world(c); n = int_sym("v.L"); w.st.assume(le(1, n)); p = w.vector("v", "double", n, P(1), const=True); w.ex.loopcap = 0
    for st, k, v in c.run(w, f"QDLIB::VecMin({VD}&)", [p]):
        if k != 'ret': continue
        A = loops.RECS.apps([v]); w.frame(st, lambda f, o: False, "VecMin")
        if len(A) != 1: raise Unsupported("VecMin: result is no recursion")
        m = from_z(A[0].children()[0]); off = n - m; k = int_sym("k"); r = lambda q: z3.substitute(v, (A[0], A[0].decl()(P(q).z(), *A[0].children()[1:]))); x = lambda i: w.rd(w.pre, "v.d", 0, (P(0), P(i)))
        w.ex.oblige(st, b_and(le(0, off), le(off, 1)), "post:all elements are looked at"); w.ex.oblige(st, r(0) == x(0), "post:starts with the first element"); s2 = st.copy(); s2.assume(b_and(le(0, k), lt(k, m)))
        w.ex.oblige(s2, r(k + 1) <= r(k), "post:smallest: never increases"); w.ex.oblige(s2, r(k + 1) <= x(k + off), "post:smallest: not above any element"); w.ex.oblige(s2, z3.Or(r(k + 1) == r(k), r(k + 1) == x(k + off)), "post:smallest: attained by an element")
# ---- kick operator
KK = Q + "OGridKick"
def kick(w, name="op", gname="g", const=True, exp=True, nk=None, ne=None, least=1):
    nk = grid.symbols(gname)[0] if nk is None else nk; ne = grid_n(gname) if ne is None else ne; e = NULL
    if exp: e = w.vector(name + "X", CX, ne, P(1), const=const, vals={"_StorageLocked": P(0)}); w.st.fams[name + "X"].heap = True
    v = w.vparts(name + "K", "double", nk, P(1), const, prefix="_kn."); v.update({"_kn._StorageLocked": P(0), "_exp": e})
    p = w.obj(name, KK, v, const=const); elem.vobj(w, p, KK); grid.wellformed(w, gname, least); grid.attach(w, p, gname, KK, const); return p
def u_kapply(c):
    i = int_sym("i")
    for fn in ("Apply2", "Apply1"):
        w = world(c); w.st.assume(le(1, L)); p = kick(w, ne=L); d = wv(w, "d"); s = wv(w, "s", True)
        for st, k, v in c.run(w, f"{KK}::Apply({WW}, {WW})" if fn == "Apply2" else f"{KK}::Apply({WW})", [p, d] + ([s] if fn == "Apply2" else [])):
            if k != 'ret': continue
            s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, L))); w.ex.oblige(s2, ceq(at(w, s2, "d", i), cmul(at(w, w.pre, "opX", i), at(w, w.pre, "d" if fn == "Apply1" else "s", i))), f"post:{fn} multiplies by the stored phase factors"); w.frame(st, lambda f, o: f == "d.d", fn)
def u_kcopy(c):
    for a in (0, 1):
        for b in (0, 1):
            w = world(c); p = kick(w, "op", "g", False, a, int_sym("op.nk"), int_sym("op.ne")); q = kick(w, "t", "h", True, b); n, m = grid.symbols("h")[0], grid_n("h"); w.st.assume(b_and(le(0, int_sym("op.nk")), le(0, int_sym("op.ne")), le(1, m)))
            for st, k, v in c.run(w, f"{KK}::Copy({Q}Operator*)", [p, q]):
                if k != 'ret': continue
                i = int_sym("i"); w.ex.oblige(st, v == p, "post:returns this"); W03.samegrid(w, st, p, "h", "grid", KK)
                s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n))); w.ex.oblige(st, eq(w.fld(st, p, KK, "_kn.n_"), n), "post:momentum: number of dimensions"); x = w.fld(st, p, KK, "_kn.v_"); x = w.rd(st, x.fam, 0, tuple(x.ix) + (P(0),)); w.ex.oblige(s2, x.fam != "tK.d" and w.rd(s2, x.fam, 0, tuple(x.ix) + (i,)) == w.rd(w.pre, "tK.d", 0, (P(0), i)), "post:momentum copied")
                e = w.fld(st, p, KK, "_exp")
                if not b: w.ex.oblige(st, e == NULL, "post:no phase factors if the source has none")
                else:
                    ok = isinstance(e, Ptr) and e.fam is not None and e.fam not in st.dead and e.fam != "tX"; w.ex.oblige(st, ok, "post:own phase factors")
                    if ok: s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, m))); w.ex.oblige(st, eq(w.fld(st, e, VC, "n_"), m), "post:phase factors: size"); y = blk(w, s2, e, VC); w.ex.oblige(s2, y.fam != "tX.d" and ceq(tuple(w.rd(s2, y.fam, o, tuple(y.ix) + (i,)) for o in (0, 8)), w.cat(w.pre, "tX", P(0), i)), "post:phase factors copied")
                w.frame(st, lambda f, o: f.startswith(("op", "PB:op")), "Copy")
    w = world(c); p = kick(w, "op", "g", False); q = full(w, "potential", "t", "h", True); w.st.fams["t"].dyn = {**w.st.fams["t"].dyn, KK: False}
    for st, k, v in c.run(w, f"{KK}::Copy({Q}Operator*)", [p, q.add(opoff(w, CLS["potential"]))], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:refuses other kinds"); w.frame(st, lambda f, o: False, "refused")
