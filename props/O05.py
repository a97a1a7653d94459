"""O05: operations every operator inherits from the base class."""
from framework import *
import wfc, vec
from wfc import veq
ID = "O05"; TITLE = "inherited operator operations agree with Apply(dest, src)"
SOURCES = ["qdlib/OSum.cpp", "qdlib/OList.cpp", "qdlib/WFLevel.cpp", "qdlib/WaveFunction.cpp"]
SHIMS = {"ops": '#include "qdlib/Operator.h"\n#include "qdlib/OSum.h"\n#include "qdlib/OScalar.h"\nusing namespace QDLIB;\nint f(OSum*s, OScalar *o, WaveFunction *w){ o->Operator::Apply(w); o->Operator::ApplyAdd(w,w); o->Operator::ApplyParent(w,w); o->Operator::MatrixElement(w,w); o->Operator::Expec(w); o->Operator::Clock(0); o->Operator::Clock(); o->Operator::Conj(true); o->Operator::RecalcInternals(true); o->Operator::Apply((Operator*)o); o->Operator::Apply((Operator*)o,(Operator*)o); return sizeof(*s)+sizeof(*w); }\n'}
REPLAY = "O05.cpp"
ASSUMPTIONS = ["Apply(dest, src) of the concrete operator writes O src into dest and nothing else (interface contract)"]
CLS = "QDLIB::Operator"; WW = "QDLIB::WaveFunction*"
def fresh(c, buf, which="_buf"):
    w = c.world(wfc.contracts()); wfc.setup(w)
    O = wfc.op(w, "O", vals={which: Ptr("buf") if buf else NULL})
    if buf: wfc.wf(w, "buf", ret=1)
    return w, O
def released(w, st, O, which, n):
    p = w.fld(st, O, CLS, which); w.ex.oblige(st, p.fam is not None and p.fam not in ("d", "s", "b"), f"post:own work buffer {n}"); w.ex.oblige(st, eq(wfc.retired(w, st, p), 1), f"post:work buffer handed back {n}")
def units(prog, tier):
    us = [Unit("flags", u_flags), Unit("operator operands", u_opop), Unit("ApplyParent", u_parent)]
    for b in (0, 1):
        t = f"[buffer {'kept' if b else 'new'}]"
        us += [Unit("Apply(Psi)" + t, lambda c, b=b: u_inplace(c, b)), Unit("ApplyAdd" + t, lambda c, b=b: u_add(c, b)), Unit("MatrixElement" + t, lambda c, b=b: u_matel(c, b)), Unit("Expec" + t, lambda c, b=b: u_expec(c, b))]
    return us
def own(w, which="_buf"):
    b = w.prog.layout(CLS)[which][0]
    return lambda f, o: f == "buf" or (f == "O" and o == b)
def O_(v, kind='op'): return vec.app((kind, "O", 'as set'), v)
def u_inplace(c, b):
    w, O = fresh(c, b); d = wfc.wf(w, "d")
    for st, k, v in c.run(w, f"{CLS}::Apply({WW})", [O, d]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        veq(w, st, wfc.val(w, st, d), O_(wfc.val(w, w.pre, d)), "post:Psi = O Psi"); released(w, st, O, "_buf", "")
        w.frame(st, lambda f, o: f == "d" or own(w)(f, o), "Apply")
def u_add(c, b):
    w, O = fresh(c, b, "_buf1"); d = wfc.wf(w, "d"); s = wfc.wf(w, "s", const=True)
    lay = w.prog.layout(CLS)
    for st, k, v in c.run(w, f"{CLS}::ApplyAdd({WW}, {WW})", [O, d, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        veq(w, st, wfc.val(w, st, d), wfc.val(w, w.pre, d).add(O_(wfc.val(w, w.pre, s))), "post:dest = dest + O src"); released(w, st, O, "_buf1", "")
        w.frame(st, lambda f, o: f == "d" or own(w, "_buf1")(f, o), "ApplyAdd")
def u_matel(c, b):
    w, O = fresh(c, b); d = wfc.wf(w, "b", const=True); s = wfc.wf(w, "s", const=True)
    for same in (False, True):
        w, O = fresh(c, b); d = wfc.wf(w, "b", const=True); s = d if same else wfc.wf(w, "s", const=True)
        for st, k, v in c.run(w, f"{CLS}::MatrixElement({WW}, {WW})", [O, d, s]):
            w.ex.oblige(st, k == 'ret', "post:returns normally")
            w.ex.oblige(st, ceq(v, vec.inner(wfc.val(w, w.pre, d), O_(wfc.val(w, w.pre, s)))), "post:<bra|O ket>"); released(w, st, O, "_buf", "")
            w.frame(st, own(w), "MatrixElement")
def u_expec(c, b):
    w, O = fresh(c, b); d = wfc.wf(w, "b", const=True)
    for st, k, v in c.run(w, f"{CLS}::Expec({WW})", [O, d]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); x = wfc.val(w, w.pre, d)
        w.ex.oblige(st, v == vec.inner(x, O_(x))[0], "post:Re <psi|O psi>"); w.frame(st, own(w), "Expec")
def u_parent(c):
    w, O = fresh(c, 0); d = wfc.wf(w, "d"); s = wfc.wf(w, "s", const=True)
    for st, k, v in c.run(w, f"{CLS}::ApplyParent({WW}, {WW})", [O, d, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); veq(w, st, wfc.val(w, st, d), O_(wfc.val(w, w.pre, s)), "post:dest = O src"); w.frame(st, lambda f, o: f == "d", "ApplyParent")
def u_flags(c):
    w, O = fresh(c, 0); K = w.obj("K", "QDLIB::QDClock", {}) if False else NULL
    lay = w.prog.layout(CLS)
    for sig, m, a, want in ((f"Conj(bool)", "_conj", [P(1)], 1), ("Conj(bool)", "_conj", [P(0)], 0), ("RecalcInternals(bool)", "_recalc", [P(1)], 1), ("RecalcInternals(bool)", "_recalc", [P(0)], 0)):
        w, O = fresh(c, 0)
        for st, k, v in c.run(w, f"{CLS}::{sig}", [O] + a): w.ex.oblige(st, eq(w.fld(st, O, CLS, m), want), f"post:{sig} stored"); w.frame(st, lambda f, o, oo=lay[m][0]: f == "O" and o == oo, sig)
    w, O = fresh(c, 0); w.st.fam(Fam("clk", 'struct', size=16))
    for st, k, v in c.run(w, f"{CLS}::Clock(QDLIB::QDClock*)", [O, Ptr("clk")]):
        w.ex.oblige(st, w.fld(st, O, CLS, "clock") == Ptr("clk"), "post:clock stored")
        w.frame(st, lambda f, o: f == "O" and o == lay["clock"][0], "Clock")
    w, O = fresh(c, 0); w.st.fam(Fam("clk", 'struct', size=16)); w.st.fams["O"].bases[lay["clock"][0]] = lambda X: Ptr("clk")
    for st, k, v in c.run(w, f"{CLS}::Clock()", [O]): w.ex.oblige(st, v == Ptr("clk"), "post:clock returned"); w.frame(st, lambda f, o: False, "Clock()")
def u_opop(c):
    for a in (1, 2):
        w, O = fresh(c, 0); x = wfc.op(w, "x")
        for st, k, v in c.run(w, f"{CLS}::Apply({', '.join(['QDLIB::Operator*']*a)})", [O, x, x][:a+1], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:refused unless the operator defines it")
