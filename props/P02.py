"""P02: the fourth order Runge-Kutta step."""
from framework import *
import wfc, vec
from wfc import veq
import P01
from O06 import k_opassign
ID = "P02"; TITLE = "Runge-Kutta step is the fourth order Taylor polynomial of the exponential"
SOURCES = ["qdlib/ORK4.cpp", "qdlib/OList.cpp", "qdlib/OSum.cpp", "qdlib/WFLevel.cpp", "tools/QDClock.cpp"]
SHIMS = {"prop": P01.SHIMS["prop"].replace("return ", "ORK4 *r=(ORK4*)s; *r = s; return sizeof(*r)+")}
REPLAY = "P02.cpp"
ASSUMPTIONS = ["the Hamiltonian's Apply is the same linear map during one step (explicit time dependence enters through UpdateTime only)", "the wave function arithmetic used here is exact vector arithmetic (proved for WFLevel in V02)"]
CLS = "QDLIB::ORK4"; VT = "_ZTVN5QDLIB4ORK4E"; WW = "QDLIB::WaveFunction*"
def fl(w, st, L, m): return w.fld(st, L, CLS, m)
def mk(w, name="L", clock=True, H=True, buf=True, hname=None):
    n = int_sym("n" + name); wfc.op(w, "op" + name, 1, n)
    hn = hname or "H" + name
    if H: wfc.op(w, hn)
    if "clk" not in w.st.fams: w.obj("clk", "QDLIB::QDClock", {"_dt": real_sym("dt")})
    v = {m: P01.b01(f"{name}.{m}") for m in ("_isTimedependent", "_hermitian", "_conj", "_recalc", "forward", "imaginary_time")}
    v.update({"clock": Ptr("clk") if clock else NULL, "H": Ptr(hn) if H else NULL, "_c0._real": real_sym(name + ".c0r"), "_c0._imag": real_sym(name + ".c0i")})
    b = "buf" + name
    if buf: wfc.wf(w, b, 1, P(5), ret=1)
    v["_buf'"] = (lambda X: Ptr(b, (X[0],))) if buf else (lambda X: NULL)
    L = wfc.olist(w, CLS, VT, n, ops="op" + name, vals=v, name=name)
    has, va = z3.Function(name + ".has", z3.IntSort(), z3.IntSort()), z3.Function(name + ".ix", z3.IntSort(), z3.IntSort())
    sid = wfc.strid(w, "hamiltonian"); w.st.assume(b_or(eq(from_z(has(sid.z())), 0), b_and(le(0, from_z(va(sid.z()))), lt(from_z(va(sid.z())), n))))   # list invariant (O06)
    wfc.named_map(w, name, w.prog.layout(CLS)["_NamedEntries"][0], lambda k: from_z(has(P(k).z())), lambda k: from_z(va(P(k).z())))
    return n, L
def fresh(c, extra=None, **kw):
    w = c.world(wfc.contracts(extra)); wfc.setup(w)
    return (w,) + mk(w, **kw)
def H_(v): return vec.app(('op', "HL", 'as set'), v)
def taylor(psi, z):
    """sum_{m<=4} (z H)^m / m! psi"""
    t = psi; r = psi; f = 1
    for m in range(1, 5): t = H_(t).scale(z); f *= m; r = r.add(t.rscale(R(1) / R(f)))
    return r
def rel(w, st, tag):
    for i in range(5): w.ex.oblige(st, eq(wfc.retired(w, st, Ptr("bufL", (P(i),))), 1), f"post:work buffer {i} handed back {tag}")
def cur(w, st):
    a, b = fl(w, st, Ptr("L"), "_c0._real"), fl(w, st, Ptr("L"), "_c0._imag"); return (a, b)
def units(prog, tier):
    return [Unit(l, f) for l, f in (("Apply(Psi)", u_apply), ("Apply(dest,src)", u_apply2), ("Init", u_init), ("Init twice", u_init2), ("UpdateTime/Valid", u_misc), ("Copy", u_copy))]
def u_apply(c):
    w, n, L = fresh(c); d = wfc.wf(w, "d"); w.st.assume(b_not(eq(real_sym("dt"), 0)))
    for st, k, v in c.run(w, f"{CLS}::Apply({WW})", [L, d]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k != 'ret': continue
        veq(w, st, wfc.val(w, st, d), taylor(wfc.val(w, w.pre, d), cur(w, w.pre)), "post:Psi = Taylor polynomial of exp(cH) applied to Psi"); rel(w, st, "")
        recalc(w, st); w.frame(st, lambda f, o: f in ("d", "bufL") or o == '#RecalcInternals', "Apply")
def recalc(w, st):
    w.ex.oblige(st, eq(w.rd(st, "HL", '#RecalcInternals', ()) if '#RecalcInternals' in st.fams["HL"].bases else P(1), 1), "post:recalculation of internals enabled again")
def u_apply2(c):
    w, n, L = fresh(c); d = wfc.wf(w, "d"); s = wfc.wf(w, "s", const=True); w.st.assume(b_not(eq(real_sym("dt"), 0)))
    for st, k, v in c.run(w, f"{CLS}::Apply({WW}, {WW})", [L, d, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k != 'ret': continue
        veq(w, st, wfc.val(w, st, d), taylor(wfc.val(w, w.pre, s), cur(w, w.pre)), "post:dest = Taylor polynomial of exp(cH) applied to source"); rel(w, st, "")
        recalc(w, st); w.frame(st, lambda f, o: f in ("d", "bufL") or o == '#RecalcInternals', "Apply")
def named(w, tag="L"):
    """the name "hamiltonian" is known and leads to member j"""
    j = int_sym("hj"); return j
def u_init(c):
    for clock in (1, 0):
        w, n, L = fresh(c, clock=clock, H=False, buf=False); s = wfc.wf(w, "s", const=True)
        for st, k, v in c.run(w, f"{CLS}::Init({WW})", [L, s], expect_ret=bool(clock)):
            sid = wfc.strid(w, "hamiltonian"); has = z3.Function("L.has", z3.IntSort(), z3.IntSort()); ix = z3.Function("L.ix", z3.IntSort(), z3.IntSort())
            known = eq(from_z(has(sid.z())), 1)
            if k == 'throw': continue
            w.ex.oblige(st, known, "post:accepted only with a Hamiltonian"); w.ex.oblige(st, clock and b_not(eq(real_sym("dt"), 0)), "post:accepted only with a clock and a time step")
            w.ex.oblige(st, fl(w, st, L, "H") == Ptr("opL", (from_z(ix(sid.z())),)), "post:Hamiltonian is the named member")
            for i in range(5):
                b = w.rd(st, "L", ('A', w.prog.layout(CLS)["_buf'"][0], 0), (P(i),)); w.ex.oblige(st, isinstance(b, Ptr) and b.fam not in w.pre.fams and b.fam is not None, f"post:work buffer {i} is a new wave function")
def u_init2(c):
    w, n, L = fresh(c); s = wfc.wf(w, "s", const=True)
    for st, k, v in c.run(w, f"{CLS}::Init({WW})", [L, s]): w.ex.oblige(st, k == 'ret', "post:returns normally"); w.frame(st, lambda f, o: False, "second Init")
    w, n, L = fresh(c)
    for st, k, v in c.run(w, f"{CLS}::Init({WW})", [L, NULL], expect_ret=False): w.ex.oblige(st, k == 'throw', "post:null refused"); w.frame(st, lambda f, o: False, "Init(NULL)")
def u_misc(c):
    w, n, L = fresh(c)
    for st, k, v in c.run(w, f"{CLS}::UpdateTime()", [L]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, eq(w.rd(st, "HL", '#UpdateTime', ()) if '#UpdateTime' in st.fams["HL"].bases else P(0), 1), "post:UpdateTime reaches the Hamiltonian"); w.frame(st, lambda f, o: o == '#UpdateTime', "UpdateTime")
    w, n, L = fresh(c, H=False)
    for st, k, v in c.run(w, f"{CLS}::UpdateTime()", [L]): w.ex.oblige(st, k == 'ret', "post:returns normally"); w.frame(st, lambda f, o: False, "UpdateTime without Hamiltonian")
def u_copy(c):
    for fn in ("Copy", "operator="):
        for H in (0, 1):
            for buf in (0, 1):
                w, n, L = fresh(c, {"virt:OP::operator=(QDLIB::Operator*)": k_opassign}, H=False, clock=False, buf=False); n2, M = mk(w, "M", H=H, buf=buf, hname="opM") if False else mk(w, "M", H=H, buf=buf)
                w.st.fams["M"].dyn = {CLS: True, "QDLIB::OPropagator": True, "QDLIB::OList": True}
                for st, k, v in c.run(w, f"{CLS}::{fn}(QDLIB::Operator*)", [L, M], expect_ret=not H):
                    sid = wfc.strid(w, "hamiltonian"); has = z3.Function("M.has", z3.IntSort(), z3.IntSort()); ix = z3.Function("M.ix", z3.IntSort(), z3.IntSort())
                    if k == 'throw':
                        w.ex.oblige(st, b_not(eq(from_z(has(sid.z())), 1)) if H else False, "post:refused only without a named Hamiltonian"); continue
                    h = fl(w, st, L, "H")
                    if H: w.ex.oblige(st, h == w.rd(st, "L", ('A', w.prog.layout(CLS)["_O"][0], 0), (from_z(ix(sid.z())),)), "post:Hamiltonian is the copy's own named member")
                    else: w.ex.oblige(st, h == NULL, "post:no Hamiltonian")
                    for i in range(5):
                        b = w.rd(st, "L", ('A', w.prog.layout(CLS)["_buf'"][0], 0), (P(i),)); w.ex.oblige(st, isinstance(b, Ptr) and b.fam not in w.pre.fams and b.fam is not None if buf else b == NULL, f"post:work buffer {i} is its own")
                    for m in ("forward", "imaginary_time", "_c0._real", "_c0._imag"): w.ex.oblige(st, eq(fl(w, st, L, m), fl(w, w.pre, M, m)), f"post:{m} copied")
                    w.ex.oblige(st, fl(w, st, L, "clock") == Ptr("clk"), "post:clock copied")
