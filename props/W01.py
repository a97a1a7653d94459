"""W01: wave function arithmetic: inner product, norm, scaling, sums, pointwise products, copies and the k-space toggle."""
from framework import *
import wfc, vec, lib, kernels
from wfc import veq, N
ID = "W01"; TITLE = "wave function arithmetic"
SOURCES = ["qdlib/WFLevel.cpp", "qdlib/WaveFunction.cpp", "qdlib/OSum.cpp", "qdlib/OList.cpp"]
SHIMS = {"wf": '#include "qdlib/WFLevel.h"\nusing namespace QDLIB;\nint f(WaveFunction*s, WFLevel *l, WaveFunction *w){ *s = 1.0; *s = dcomplex(1,2); *s *= 2.0; *s *= dcomplex(1,2); *s + w; *s += w; *s -= w; s->DirectProduct(w); s->DirectProductConjugate(w); s->Imag(); s->Real(); s->WaveFunction::IsKspace(true); s->WaveFunction::Retire(); s->WaveFunction::Reaquire(); s->WaveFunction::Normalize(); s->WaveFunction::operator=(*w); return s->WaveFunction::Norm() + s->IsKspace() + sizeof(*l); }\n'}
REPLAY = "W01.cpp"
ASSUMPTIONS = ["whole-vector kernels compute their element formulas (proved in V01)", "WFLevel inner product: both wave functions have the same stride layout"]
WF = "QDLIB::WaveFunction"; WL = "QDLIB::WFLevel"; WW = WF + "*"; CX = "struct QDLIB::dcomplex"
V = "QDLIB::Vector<QDLIB::dcomplex>"
@wfc.contract
def k_fill(ex, st, args, I, name):
    """cVec = scalar: every element becomes the scalar (V04)"""
    p, c = args; z = tuple(col_eval(ex.column(st, st.fams[c.fam], c.off.const() + o, 'd'), c.ix) for o in (0, 8))
    wfc.vset(ex, st, p, ones().scale(z), I, "fill"); return p
def ones(): return VecVal.x("ones")
from vec import VecVal
FILL = {f"{V}::operator=(QDLIB::dcomplex const&)": k_fill}
def gw(c, extra=None):
    w = c.world(wfc.contracts({**FILL, **(extra or {})})); wfc.setup(w); return w
def units(prog, tier):
    return [Unit(l, f) for l, f in (("inner product", u_inner), ("norm", u_norm), ("normalize", u_normalize), ("scaling", u_scale), ("fill", u_fill), ("sums", u_sum), ("pointwise", u_point), ("size mismatch", u_mismatch), ("real/imag", u_reim),
        ("copy", u_copy), ("new instance", u_new), ("reduce", u_reduce), ("restore", u_restore), ("k-space toggle", u_ksp), ("retire", u_retire), ("constructor", u_ctor))]
# ---- ghost level (any concrete wave function class)
def two(w, same=True):
    s = wfc.wf(w, "s"); t = wfc.wf(w, "t", const=True); return s, t
def post(c, w, sig, args, want, allowed=("s",), ret=None, tgt="s"):
    for st, k, v in c.run(w, sig, args):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k != 'ret': continue
        veq(w, st, wfc.val(w, st, Ptr(tgt)), want, "post:value"); w.frame(st, lambda f, o: f in allowed and o == '#val', sig.split("(")[0])
        if ret is not None: w.ex.oblige(st, v == ret, "post:returns this")
def u_norm(c):
    w = gw(c); s = wfc.wf(w, "s", const=True)
    for st, k, v in c.run(w, f"{WF}::Norm()", [s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, v == wfc.norm(wfc.val(w, w.pre, s)), "post:norm = sqrt(Re <s|s>)"); w.frame(st, lambda f, o: False, "Norm")
def u_normalize(c):
    w = gw(c); s = wfc.wf(w, "s"); v = wfc.val(w, w.st, s); post(c, w, f"{WF}::Normalize()", [s], v.rscale(rdiv(R(1), wfc.norm(v))))
def u_scale(c):
    w = gw(c); s = wfc.wf(w, "s"); v = wfc.val(w, w.st, s); post(c, w, f"{WF}::operator*=(double)", [s, real_sym("d")], v.rscale(real_sym("d")))
    w = gw(c); s = wfc.wf(w, "s"); v = wfc.val(w, w.st, s); z = (real_sym("zr"), real_sym("zi")); post(c, w, f"{WF}::operator*=(QDLIB::dcomplex)", [s, *z], v.scale(z), ret=s)
def u_fill(c):
    w = gw(c); s = wfc.wf(w, "s"); post(c, w, f"{WF}::operator=(double)", [s, real_sym("d")], ones().rscale(real_sym("d")), ret=s)
    w = gw(c); s = wfc.wf(w, "s"); z = (real_sym("zr"), real_sym("zi")); post(c, w, f"{WF}::operator=(QDLIB::dcomplex)", [s, *z], ones().scale(z), ret=s)
def u_sum(c):
    for op, f in (("operator+=", 1), ("operator-=", -1)):
        w = gw(c); s, t = two(w); a, b = wfc.val(w, w.st, s), wfc.val(w, w.st, t); post(c, w, f"{WF}::{op}({WW})", [s, t], a.add(b.rscale(R(f))), ret=s)
        w = gw(c); s = wfc.wf(w, "s"); a = wfc.val(w, w.st, s); post(c, w, f"{WF}::{op}({WW})", [s, s], a.add(a.rscale(R(f))), ret=s)
    w = gw(c); s = wfc.wf(w, "s", const=True); t = wfc.wf(w, "t", const=True)
    for st, k, v in c.run(w, f"{WF}::operator+({WW})", [s, t]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); isnew(w, st, v)
        veq(w, st, wfc.val(w, st, v), wfc.val(w, w.pre, s).add(wfc.val(w, w.pre, t)), "post:new wave function is the sum"); w.frame(st, lambda f, o: False, "operator+")
def isnew(w, st, v): w.ex.oblige(st, isinstance(v, Ptr) and v.fam is not None and v.fam not in w.pre.fams and v.fam not in st.dead, "post:result is a new object")
def u_point(c):
    w = gw(c); s, t = two(w); a, b = wfc.val(w, w.st, s), wfc.val(w, w.st, t); post(c, w, f"{WF}::DirectProduct({WW})", [s, t], vec.had(a, b, False))
    w = gw(c); s, t = two(w); a, b = wfc.val(w, w.st, s), wfc.val(w, w.st, t); post(c, w, f"{WF}::DirectProductConjugate({WW})", [s, t], vec.had(a, b, True))
    for fn, cj in (("DirectProduct", False), ("DirectProductConjugate", True)):
        w = gw(c); s = wfc.wf(w, "s", const=True); t = wfc.wf(w, "t", const=True)
        for st, k, v in c.run(w, f"QDLIB::{fn}({WW}, {WW})", [s, t]):
            w.ex.oblige(st, k == 'ret', "post:returns normally"); isnew(w, st, v)
            veq(w, st, wfc.val(w, st, v), vec.had(wfc.val(w, w.pre, s), wfc.val(w, w.pre, t), cj), "post:new wave function is the pointwise product"); w.frame(st, lambda f, o: False, fn)
def u_mismatch(c):
    M = int_sym("M")
    for sig in (f"{WF}::operator+=({WW})", f"{WF}::operator-=({WW})", f"{WF}::DirectProduct({WW})", f"{WF}::DirectProductConjugate({WW})", f"QDLIB::DirectProduct({WW}, {WW})", f"QDLIB::DirectProductConjugate({WW}, {WW})"):
        w = gw(c); s, t = two(w); w.st.assume(b_not(eq(M, N))); o = w.prog.layout(WF)["n_"][0]; w.st.fams["t"].bases[o] = lambda X: M
        for st, k, v in c.run(w, sig, [s, t], expect_ret=False): w.ex.oblige(st, k == 'throw', f"post:{sig.split('(')[0]} refuses wave functions of different size"); w.frame(st, lambda f, o: False, "refused")
def u_reim(c):
    for fn, f in (("Real", "re"), ("Imag", "im")):
        w = gw(c); s = wfc.wf(w, "s"); post(c, w, f"{WF}::{fn}()", [s], vec.nl(f, wfc.val(w, w.st, s)))
# ---- element level: WFLevel
def lev(w, name, L, S=None, const=False, vals=None): return w.vector(name, CX, L, S, const=const, cls=WL, vptr="VT:_ZTVN5QDLIB7WFLevelE", vals={"_IsKspace": P(0), "_spacebuffer": NULL, **(vals or {})})
def ew(c): 
    k = {**lib.mem(), **wfc.contracts()}
    for x in (f"{V}::FastCopy({V}&)", f"{V}::swap({V}&)"): k.pop(x)
    w = c.world(k); w.ex.patterns += wfc.MAPS; return w
def at(w, st, L, S):
    s, i = int_sym("s"), int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, s), lt(s, S), le(0, i), lt(i, L))); return s2, s, i
def u_inner(c):
    for al in (0, 1):
        w = ew(c); L, S = int_sym("L"), int_sym("S"); a = lev(w, "a", L, S, True); b = a if al else lev(w, "b", L, S, True); bn = "a" if al else "b"
        for st, k, v in c.run(w, f"{WL}::operator*({WW})", [a, b]):
            w.ex.oblige(st, k == 'ret', "post:returns normally")
            if k != 'ret': continue
            ki, ks = z3.Int("ki"), z3.Int("ks")
            x, y = w.cat(w.pre, "a", from_z(ks), from_z(ki)), w.cat(w.pre, bn, from_z(ks), from_z(ki)); t = cmul(cconj(x), y)
            for j, nm in ((0, "real"), (1, "imaginary")):
                w.ex.oblige(st, v[j] == loops.SUMS.make(loops.SUMS.make(t[j], ki, P(0), L), ks, P(0), S), f"post:{nm} part of sum conj(a_i) b_i")
            w.frame(st, lambda f, o: False, "operator*")
    w = ew(c); L, M = int_sym("L"), int_sym("M"); w.st.assume(b_not(eq(L, M))); a = lev(w, "a", L, P(1), True); b = lev(w, "b", M, P(1), True)
    for st, k, v in c.run(w, f"{WL}::operator*({WW})", [a, b], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:different sizes refused")
def el(w, st, p, i, s=0):
    v = w.fld(st, p, WL, "v_"); d = w.rd(st, v.fam, 0, tuple(v.ix) + (P(s),)); return tuple(w.rd(st, d.fam, o, tuple(d.ix) + (P(i),)) for o in (0, 8)), d
def u_copy(c):
    w = ew(c); L, M = int_sym("L"), int_sym("M"); w.st.assume(b_and(le(1, L), le(1, M))); a = lev(w, "a", L, P(1)); b = lev(w, "b", M, P(1), True); w.st.fams["b"].dyn = {WL: True}
    for st, k, v in c.run(w, f"{WL}::operator=({WW})", [a, b]):
        if k != 'ret': continue      # out of memory
        w.ex.oblige(st, v == a, "post:returns this"); w.ex.oblige(st, eq(w.fld(st, a, WL, "n_"), M), "post:size copied")
        s2, s, i = at(w, st, M, P(1)); x, d = el(w, s2, a, i); w.ex.oblige(s2, d.fam != "b.d", "post:own storage"); w.ex.oblige(s2, ceq(x, w.cat(w.pre, "b", P(0), i)), "post:elements copied")
        w.frame(st, lambda f, o: f.startswith("a"), "operator=")
    w = ew(c); a = lev(w, "a", int_sym("L"), P(1)); b = wfc.wf(w, "o", const=True) if False else lev(w, "b", int_sym("L"), P(1), True); w.st.fams["b"].dyn = {WL: False}
    for st, k, v in c.run(w, f"{WL}::operator=({WW})", [a, b], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:other kinds refused"); w.frame(st, lambda f, o: False, "refused")
def u_new(c):
    w = ew(c); L = int_sym("L"); w.st.assume(le(1, L)); a = lev(w, "a", L, P(1), True)
    for st, k, v in c.run(w, f"{WL}::NewInstance()", [a]):
        if k != 'ret': continue
        isnew(w, st, v); w.ex.oblige(st, eq(w.fld(st, v, WL, "n_"), L), "post:same size"); w.ex.oblige(st, eq(w.fld(st, v, WL, "_IsKspace"), 0), "post:position space"); w.ex.oblige(st, w.fld(st, v, WL, "_spacebuffer") == NULL, "post:no transformation buffer")
        w.frame(st, lambda f, o: False, "NewInstance")
def rabs(x): return z3.If(x >= 0, x, -x)
def u_reduce(c):
    """cut-off: parts smaller in magnitude than Norm/size*tolerance become zero in a new wave function; the original is untouched"""
    nrm = real_sym("nrm")
    def k_norm(ex, st, args, I, name): return nrm
    k_norm.is_contract = True
    w = ew(c); w.ex.contracts[f"{WF}::Norm()"] = k_norm; L = int_sym("L"); w.st.assume(le(1, L)); w.st.assume(nrm >= 0); a = lev(w, "a", L, P(1), True); tol = real_sym("tol")
    for st, k, v in c.run(w, f"{WL}::Reduce(double)", [a, tol]):
        if k != 'ret': continue      # out of memory
        isnew(w, st, v); s2, s, i = at(w, st, L, P(1)); x, d = el(w, s2, v, i); y = w.cat(w.pre, "a", P(0), i); cut = nrm / z3.ToReal(L.z()) * tol
        w.ex.oblige(st, eq(w.fld(st, v, WL, "n_"), L), "post:same size")
        for j, nm in ((0, "real"), (1, "imaginary")):
            w.ex.oblige(s2, x[j] == z3.If(rabs(y[j]) < cut, R(0), y[j]), f"post:{nm} part kept unless its magnitude is below the cut-off")
        w.frame(st, lambda f, o: False, "Reduce")
def u_restore(c):
    w = ew(c); L, M = int_sym("L"), int_sym("M"); w.st.assume(b_and(le(1, L), le(1, M))); a = lev(w, "a", L, P(1)); b = lev(w, "b", M, P(1), True); w.st.fams["b"].dyn = {WL: True}
    for st, k, v in c.run(w, f"{WL}::Restore({WW})", [a, b]):
        if k != 'ret': continue
        w.ex.oblige(st, eq(w.fld(st, a, WL, "n_"), M), "post:size taken over"); s2, s, i = at(w, st, M, P(1)); x, d = el(w, s2, a, i)
        w.ex.oblige(s2, d.fam != "b.d", "post:own storage"); w.ex.oblige(s2, ceq(x, w.cat(w.pre, "b", P(0), i)), "post:elements restored"); w.frame(st, lambda f, o: f.startswith("a"), "Restore")
def blk(w, st, p, s): v = w.fld(st, p, WL if p.fam == "a" else V, "v_"); return w.rd(st, v.fam, 0, tuple(v.ix) + (s,))
def same(x, y): return b_and(x.fam == y.fam, *[eq(m, n) for m, n in zip(x.ix, y.ix)], eq(x.off, y.off))
def u_ksp(c):
    L, S = int_sym("L"), int_sym("S"); SIG = f"{WF}::IsKspace(bool)"
    for to in (0, 1):
        for buf in (0, 1):
            w = ew(c); fl = int_sym("flag"); w.st.assume(b_and(le(0, fl), le(fl, 1), le(1, L), le(1, S)))
            if buf: b = w.vector("b", CX, L, S, vals={"_StorageLocked": P(0)})
            a = lev(w, "a", L, S, vals={"_IsKspace": fl, "_spacebuffer": b if buf else NULL, "_StorageLocked": P(0)})
            for st, k, v in c.run(w, SIG, [a, bool(to)]):
                if k != 'ret': continue      # out of memory
                sb = w.fld(st, a, WL, "_spacebuffer"); w.ex.oblige(st, sb.fam is not None and sb != a, "post:transformation buffer exists")
                if sb.fam is None: continue
                w.ex.oblige(st, eq(w.fld(st, a, WL, "_IsKspace"), to), "post:representation flag"); w.ex.oblige(st, b_and(eq(w.fld(st, a, WL, "n_"), L * S), eq(w.fld(st, sb, V, "n_"), L * S), eq(w.fld(st, sb, V, "nstrides_"), S)), "post:shape kept, buffer has the same shape")
                for flip in (0, 1):
                    s1 = st.copy(); s1.assume(eq(fl, 1 - to if flip else to))
                    if not w.ex.S.feasible(s1.pc): continue
                    s2, s, i = at(w, s1, L, S); x, y = blk(w, s2, a, s), blk(w, s2, sb, s)
                    if flip:
                        w.ex.oblige(s2, same(y, Ptr("a.d", (s,))), "post:old representation moved to the buffer")
                        w.ex.oblige(s2, same(x, Ptr("b.d", (s,))) if buf else b_not(same(x, Ptr("a.d", (s,)))), "post:buffer became the active representation")
                    else:
                        w.ex.oblige(s2, same(x, Ptr("a.d", (s,))), "post:data kept")
                        w.ex.oblige(s2, same(y, Ptr("b.d", (s,))) if buf else b_not(same(y, Ptr("a.d", (s,)))), "post:buffer kept")
                    w.frame(s2, lambda f, o: f in ("a", "a.v", "b.v") , "IsKspace")
    # a buffer of another shape is resized first
    w = ew(c); L2, S2 = int_sym("L2"), int_sym("S2"); w.st.assume(b_and(le(1, L), le(1, S), le(1, L2), le(1, S2), b_not(eq(L2, L)))); b = w.vector("b", CX, L2, S2, vals={"_StorageLocked": P(0)})
    a = lev(w, "a", L, S, vals={"_IsKspace": P(0), "_spacebuffer": b, "_StorageLocked": P(0)})
    for st, k, v in c.run(w, SIG, [a, True]):
        if k != 'ret': continue
        w.ex.oblige(st, eq(w.fld(st, a, WL, "_IsKspace"), 1), "post:representation flag"); w.ex.oblige(st, b_and(eq(w.fld(st, a, WL, "n_"), L * S), eq(w.fld(st, b, V, "n_"), L * S), eq(w.fld(st, b, V, "nstrides_"), S)), "post:buffer resized to the shape of the wave function")
        s2, s, i = at(w, st, L, S); w.ex.oblige(s2, same(blk(w, s2, b, s), Ptr("a.d", (s,))), "post:old representation moved to the buffer"); w.ex.oblige(s2, b_not(same(blk(w, s2, a, s), Ptr("a.d", (s,)))), "post:fresh active storage")
    for fl in (0, 1):
        w = ew(c); a = lev(w, "a", L, S, True, vals={"_IsKspace": P(fl)})
        for st, k, v in c.run(w, f"{WF}::IsKspace()", [a]): w.ex.oblige(st, eq(v, fl) if not isinstance(v, bool) else v == bool(fl), "post:flag read"); w.frame(st, lambda f, o: False, "IsKspace()")
def u_retire(c):
    """retire and reacquire hand the main storage and the transformation buffer back and get it again (storage itself: V04)"""
    for fn in ("Retire", "Reaquire"):
        for buf in (0, 1):
            calls = []
            def k_st(ex, st, args, I, name):
                f = st.fams[args[0].fam]; st.mem[(f.name, "#n")] = ex.column(st, f, "#n", 'i').write(args[0].ix, col_eval(ex.column(st, f, "#n", 'i'), args[0].ix) + 1); return None
            k_st.is_contract = True
            L, S = int_sym("L"), int_sym("S"); w = ew(c); w.ex.contracts[f"{V}::{fn}Storage()"] = k_st
            b = w.vector("b", CX, L, S) if buf else NULL; a = lev(w, "a", L, S, vals={"_spacebuffer": b})
            for x in ("a", "b"):
                if x in w.st.fams: w.st.fams[x].bases["#n"] = lambda X: P(0)
            for st, k, v in c.run(w, f"{WF}::{fn}()", [a]):
                w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, eq(w.rd(st, "a", "#n", ()), 1), f"post:{fn} main storage once")
                if buf: w.ex.oblige(st, eq(w.rd(st, "b", "#n", ()), 1), f"post:{fn} transformation buffer once")
                w.frame(st, lambda f, o: o == "#n", fn)
def u_ctor(c):
    for sz in (0, 1):
        L = int_sym("L"); w = ew(c); w.st.assume(le(1, L)); lay = w.prog.layout(WL)
        p = Ptr(w.st.fam(Fam("self", 'struct', size=1024, heap=True)).name)
        for st, k, v in c.run(w, f"{WL}::WFLevel({'unsigned long' if sz else ''})", [p] + ([L] if sz else [])):
            if k != 'ret': continue
            w.ex.oblige(st, b_and(eq(w.fld(st, p, WL, "_IsKspace"), 0), w.fld(st, p, WL, "_spacebuffer") == NULL), "post:position space, no buffer"); w.ex.oblige(st, eq(w.fld(st, p, WL, "n_"), L if sz else 0), "post:size")
