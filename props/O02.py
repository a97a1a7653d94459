"""O02: product of operators and the scalar operator."""
from framework import *
import wfc, vec
from wfc import N, veq
ID = "O02"; TITLE = "operator product and scalar operator"
SOURCES = ["qdlib/OProduct.cpp", "qdlib/OList.cpp", "qdlib/OScalar.cpp", "qdlib/ONormalize.cpp", "qdlib/WFLevel.cpp", "qdlib/OSum.cpp"]
SHIMS = {"ops": '#include "qdlib/Operator.h"\n#include "qdlib/OProduct.h"\n#include "qdlib/OScalar.h"\n#include "qdlib/ONormalize.h"\nusing namespace QDLIB;\nint f(OProduct*s, OScalar *q, ONormalize *o, WaveFunction *w){ return sizeof(*s)+sizeof(*w)+sizeof(*q)+sizeof(*o); }\n'}
REPLAY = "O02.cpp"
ASSUMPTIONS = ["every member operator's Apply is a linear map writing only its destination, in-place Apply replaces its argument by that map's value, and ApplyParent may be given the same object twice"]
CLS = "QDLIB::OProduct"; VT = "_ZTVN5QDLIB8OProductE"; WW = "QDLIB::WaveFunction*"; SC = "QDLIB::OScalar"; SVT = "_ZTVN5QDLIB7OScalarE"

def fresh(c, size=None):
    w = c.world(wfc.contracts()); wfc.setup(w)
    n = size if size is not None else int_sym("n"); wfc.op(w, "op", 1, n)
    return w, n, wfc.olist(w, CLS, VT, n)
def oprod(kind, n, v): return vec.prod((kind, "op"), P(0), n, ("as set",), v)
def units(prog, tier):
    return [Unit("product Apply", u_apply), Unit("product in place", u_inplace), Unit("product ApplyParent", u_parent), Unit("product MatrixElement", u_matel), Unit("product Emax/Emin", u_spec), Unit("empty product", u_empty),
            Unit("scalar Apply", u_sapply), Unit("scalar MatrixElement", u_smatel), Unit("scalar Emax/Emin", u_sspec), Unit("scalar Init", u_sinit), Unit("scalar Copy", u_scopy), Unit("normalize", u_norm)]
def u_apply(c):
    w, n, L = fresh(c); w.st.assume(le(1, n)); d = wfc.wf(w, "d"); s = wfc.wf(w, "s", const=True)
    for st, k, v in c.run(w, f"{CLS}::Apply({WW}, {WW})", [L, d, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k == 'ret': veq(w, st, wfc.val(w, st, d), oprod('op', n, wfc.val(w, w.pre, s)), "post:dest = member 0 (member 1 (... src))")
        w.frame(st, lambda f, o: f == "d", "Apply")
def u_inplace(c):
    w, n, L = fresh(c); d = wfc.wf(w, "d")
    for st, k, v in c.run(w, f"{CLS}::Apply({WW})", [L, d]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k == 'ret': veq(w, st, wfc.val(w, st, d), oprod('op', n, wfc.val(w, w.pre, d)), "post:Psi = member 0 (member 1 (... Psi))")
        w.frame(st, lambda f, o: f == "d", "Apply")
def u_parent(c):
    w, n, L = fresh(c); w.st.assume(le(1, n)); d = wfc.wf(w, "d"); s = wfc.wf(w, "s", const=True)
    for st, k, v in c.run(w, f"{CLS}::ApplyParent({WW}, {WW})", [L, d, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k == 'ret': veq(w, st, wfc.val(w, st, d), oprod('parent', n, wfc.val(w, w.pre, s)), "post:dest = product of the members' basic maps")
        w.frame(st, lambda f, o: f == "d", "ApplyParent")
def u_matel(c):
    w, n, L = fresh(c); w.st.assume(le(1, n)); b = wfc.wf(w, "b", const=True); s = wfc.wf(w, "s", const=True)
    for st, k, v in c.run(w, f"{CLS}::MatrixElement({WW}, {WW})", [L, b, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k == 'ret':
            want = vec.inner(wfc.val(w, w.pre, b), oprod('op', n, wfc.val(w, w.pre, s)))
            w.ex.oblige(st, ceq(v, want), "post:<bra| product ket>")
            for f in st.fams.values():
                if f.name not in w.pre.fams and '#val' in f.bases: w.ex.oblige(st, f.name in st.dead, "post:work function released")
        w.frame(st, lambda f, o: False, "MatrixElement")
def u_spec(c):
    for f in ("Emax", "Emin"):
        w, n, L = fresh(c); kz = z3.Int("kk"); a, b = z3.Real("pa"), z3.Real("pb")
        e = wfc.spectral(f, Ptr("op", (n - 1 - P(kz),)))
        nx = cmul((a, b), e); R0 = loops.RECS.define([nx[0], nx[1]], [a, b], kz, [R(1), R(0)])
        for st, k, v in c.run(w, f"{CLS}::{f}()", [L]):
            w.ex.oblige(st, k == 'ret', "post:returns normally")
            if k == 'ret':
                for i in (0, 1): w.ex.oblige(st, v[i] == R0[i](n), f"post:{f} is the product of the members' ({'re' if i == 0 else 'im'})")
            w.frame(st, lambda f, o: False, f)
def u_empty(c):
    for f, a in (("Apply", 2), ("ApplyParent", 2)):
        w, n, L = fresh(c, P(0)); d = wfc.wf(w, "d"); s = wfc.wf(w, "s", const=True)
        for st, k, v in c.run(w, f"{CLS}::{f}({', '.join([WW]*a)})", [L, d, s][:a+1], expect_ret=False):
            w.ex.oblige(st, k == 'throw', f"post:{f} of an empty product is refused")
def scalar(c, buf):
    w = c.world(wfc.contracts()); wfc.setup(w); a, b = real_sym("sr"), real_sym("si")
    S = w.obj("S", SC, {"_value._real": a, "_value._imag": b, "_buf'": (lambda: None) and (Ptr("buf") if buf else NULL)}, vptr="VT:" + SVT)
    if buf: wfc.wf(w, "buf")
    return w, S, (a, b)
def u_sapply(c):
    for al in ("two", "one"):
        w, S, z = scalar(c, False); d = wfc.wf(w, "d"); s = wfc.wf(w, "s", const=True)
        for st, k, v in c.run(w, f"{SC}::Apply({WW}, {WW})" if al == "two" else f"{SC}::Apply({WW})", [S, d] + ([s] if al == "two" else [])):
            w.ex.oblige(st, k == 'ret', "post:returns normally")
            veq(w, st, wfc.val(w, st, d), wfc.val(w, w.pre, s if al == "two" else d).scale(z), "post:scaled by the value"); w.frame(st, lambda f, o: f == "d", "Apply")
def u_smatel(c):
    w, S, z = scalar(c, True); b = wfc.wf(w, "b", const=True); s = wfc.wf(w, "s", const=True)
    for st, k, v in c.run(w, f"{SC}::MatrixElement({WW}, {WW})", [S, b, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        want = vec.c_mul(z, vec.inner(wfc.val(w, w.pre, b), wfc.val(w, w.pre, s)))
        w.ex.oblige(st, ceq(v, want), "post:value times <bra|ket>"); w.frame(st, lambda f, o: f == "buf", "MatrixElement")
def u_sspec(c):
    for f in ("Emax", "Emin"):
        w, S, z = scalar(c, False)
        for st, k, v in c.run(w, f"{SC}::{f}()", [S]): w.ex.oblige(st, ceq(v, z if f == "Emax" else (R(0), R(0))), "post:" + f)
def u_sinit(c):
    w, S, z = scalar(c, False); s = wfc.wf(w, "s", const=True)
    for st, k, v in c.run(w, f"{SC}::Init({WW})", [S, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); p = w.fld(st, S, SC, "_buf'"); w.ex.oblige(st, p.fam is not None and p.fam != "s", "post:own work buffer"); w.frame(st, lambda f, o: f == "S", "Init")
    w, S, z = scalar(c, True); s = wfc.wf(w, "s", const=True)
    for st, k, v in c.run(w, f"{SC}::Init({WW})", [S, s]): w.ex.oblige(st, w.fld(st, S, SC, "_buf'") == Ptr("buf"), "post:second initialisation changes nothing"); w.frame(st, lambda f, o: False, "Init")
    w, S, z = scalar(c, False)
    for st, k, v in c.run(w, f"{SC}::Init({WW})", [S, NULL], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:null refused")
def u_scopy(c):
    for buf in (True, False):
        for meth in ("Copy", "operator="):
            w, S, z = scalar(c, buf); a, b = real_sym("or"), real_sym("oi")
            D = w.obj("D", SC, {"_value._real": a, "_value._imag": b, "_buf'": NULL}, vptr="VT:" + SVT); w.st.fams["S"].dyn = {SC: True}
            for st, k, v in c.run(w, f"{SC}::{meth}(QDLIB::Operator*)", [D, S]):
                w.ex.oblige(st, k == 'ret', "post:returns normally")
                w.ex.oblige(st, ceq((w.fld(st, D, SC, "_value._real"), w.fld(st, D, SC, "_value._imag")), z), "post:value copied")
                p = w.fld(st, D, SC, "_buf'"); w.ex.oblige(st, (p.fam is not None and p.fam != "buf") if buf else p.fam is None, "post:work buffer of its own, if the source has one"); w.frame(st, lambda f, o: f == "D", meth)
    w, S, z = scalar(c, False); D = w.obj("D", SC, {}, vptr="VT:" + SVT); w.st.fams["S"].dyn = {SC: False}
    for st, k, v in c.run(w, f"{SC}::Copy(QDLIB::Operator*)", [D, S], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:other kinds refused"); w.frame(st, lambda f, o: False, "Copy refused")
def u_norm(c):
    NC = "QDLIB::ONormalize"
    for two in (True, False):
        w = c.world(wfc.contracts()); wfc.setup(w); O = w.obj("O", NC, {}, vptr="VT:_ZTVN5QDLIB10ONormalizeE"); d = wfc.wf(w, "d"); s = wfc.wf(w, "s", const=True)
        for st, k, v in c.run(w, f"{NC}::Apply({WW}, {WW})" if two else f"{NC}::Apply({WW})", [O, d] + ([s] if two else [])):
            w.ex.oblige(st, k == 'ret', "post:returns normally"); x = wfc.val(w, w.pre, s if two else d)
            veq(w, st, wfc.val(w, st, d), x.rscale(rdiv(R(1), wfc.norm(x))), "post:divided by its norm"); w.frame(st, lambda f, o: f == "d", "Apply")
