"""O01: the sum of operators."""
from framework import *
import wfc, vec
from wfc import N, veq
ID = "O01"; TITLE = "operator sum is the sum of its members"
SOURCES = ["qdlib/OSum.cpp", "qdlib/OList.cpp", "qdlib/WFLevel.cpp"]
SHIMS = {"ops": '#include "qdlib/Operator.h"\n#include "qdlib/OSum.h"\nusing namespace QDLIB;\nint f(OSum*s, WaveFunction *w){ return sizeof(*s)+sizeof(*w); }\n'}
LAYOUTS = []
REPLAY = "O01.cpp"
ASSUMPTIONS = ["every member operator's Apply is a linear map writing only its destination (the interface contract, proved for the concrete operators in other properties); ApplyAdd adds that map's result"]
CLS = "QDLIB::OSum"; VT = "_ZTVN5QDLIB4OSumE"; WW = "QDLIB::WaveFunction*"

def fresh(c, buf=None, size=None):
    w = c.world(wfc.contracts()); wfc.setup(w)
    n = size if size is not None else int_sym("n"); wfc.op(w, "op", 1, n)
    b = {}
    if buf is not None: b = {"_WFbuf": (lambda X: NULL) if buf == 0 else (lambda X: Ptr("buf", (X[0],)))}
    L = wfc.olist(w, CLS, VT, n, vals=b)
    if buf: wfc.wf(w, "buf", 1, P(128), ret=1)
    return w, n, L
def osum(kind, n, v):
    k = z3.Int("ksum"); return vec.papp((kind, "op"), P(k), ("as set",), v).vsum(k, P(0), n)
def units(prog, tier):
    us = [Unit("Apply(dest,src)", u_apply), Unit("empty", u_empty), Unit("Emax/Emin", u_spec), Unit("other operand kinds", u_opop)]
    for b in (0, 1): us += [Unit(f"Apply(Psi)[buffer {'new' if not b else 'kept'}]", lambda c, b=b: u_inplace(c, b)), Unit(f"ApplyParent[buffer {'new' if not b else 'kept'}]", lambda c, b=b: u_parent(c, b))]
    return us
def u_apply(c):
    w, n, L = fresh(c); w.st.assume(le(1, n)); d = wfc.wf(w, "d"); s = wfc.wf(w, "s", const=True)
    for st, k, v in c.run(w, f"{CLS}::Apply({WW}, {WW})", [L, d, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k == 'ret': veq(w, st, wfc.val(w, st, d), osum('op', n, wfc.val(w, w.pre, s)), "post:dest = sum of members applied to src")
        w.frame(st, lambda f, o: f == "d", "Apply")
def u_inplace(c, b):
    w, n, L = fresh(c, b); w.st.assume(le(1, n)); d = wfc.wf(w, "d")
    for st, k, v in c.run(w, f"{CLS}::Apply({WW})", [L, d]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k == 'ret':
            veq(w, st, wfc.val(w, st, d), osum('op', n, wfc.val(w, w.pre, d)), "post:Psi = sum of members applied to Psi")
            bp = w.rd(st, "L", ('A', w.prog.layout(CLS)["_WFbuf"][0], 0), (P(0),))
            w.ex.oblige(st, bp != NULL and eq(wfc.retired(w, st, bp), 1), "post:work buffer handed back")
        w.frame(st, lambda f, o: f in ("d", "buf") or f == "L", "Apply")
def u_parent(c, b):
    w, n, L = fresh(c, b); w.st.assume(le(1, n)); d = wfc.wf(w, "d"); s = wfc.wf(w, "s", const=True)
    for st, k, v in c.run(w, f"{CLS}::ApplyParent({WW}, {WW})", [L, d, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k == 'ret': veq(w, st, wfc.val(w, st, d), osum('parent', n, wfc.val(w, w.pre, s)), "post:dest = sum of members' basic maps")
        w.frame(st, lambda f, o: f in ("d", "buf", "L"), "ApplyParent")
def u_empty(c):
    for f, a in (("Apply", 2), ("Apply", 1), ("ApplyParent", 2)):
        w, n, L = fresh(c, 1, P(0)); d = wfc.wf(w, "d"); s = wfc.wf(w, "s", const=True)
        for st, k, v in c.run(w, f"{CLS}::{f}({', '.join([WW]*a)})", [L, d, s][:a+1], expect_ret=False):
            w.ex.oblige(st, k == 'throw', f"post:{f} of an empty sum is refused")
    for f in ("Emax", "Emin"):
        w, n, L = fresh(c, 1, P(0))
        for st, k, v in c.run(w, f"{CLS}::{f}()", [L], expect_ret=False): w.ex.oblige(st, k == 'throw', f"post:{f} of an empty sum is refused")
def u_spec(c):
    for f in ("Emax", "Emin"):
        w, n, L = fresh(c); w.st.assume(le(1, n)); kz = z3.Int("kk")
        for st, k, v in c.run(w, f"{CLS}::{f}()", [L]):
            w.ex.oblige(st, k == 'ret', "post:returns normally")
            if k == 'ret':
                for i, nm in enumerate(("re", "im")): w.ex.oblige(st, v[i] == loops.SUMS.make(wfc.spectral(f, Ptr("op", (P(kz),)))[i], kz, P(0), n), f"post:{f} is the sum of the members' ({nm})")
            w.frame(st, lambda f, o: False, f)
def u_opop(c):
    for a in (2, 1):
        w, n, L = fresh(c, 1); x = wfc.op(w, "x")
        for st, k, v in c.run(w, f"{CLS}::Apply({', '.join(['QDLIB::Operator*']*a)})", [L, x, x][:a+1], expect_ret=False):
            w.ex.oblige(st, k == 'throw', "post:refused")
