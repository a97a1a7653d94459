"""P01: the exponent and direction of propagators."""
from framework import *
import wfc, vec
from wfc import veq
from O06 import opf, every, k_opassign
ID = "P01"; TITLE = "propagator exponent follows direction, time mode and clock"
SOURCES = ["qdlib/ORK4.cpp", "qdlib/OList.cpp", "qdlib/OSum.cpp", "qdlib/WFLevel.cpp", "tools/QDClock.cpp"]
SHIMS = {"prop": '#include "tools/QDClock.h"\n#include "qdlib/ORK4.h"\nusing namespace QDLIB;\nint f(OPropagator*s, QDClock *q, WaveFunction *w){ s->Forward(); s->Backward(); s->ImaginaryTime(); s->RealTime(); s->Exponent(s->Exponent()); s->OPropagator::Clock(q); s->OPropagator::Conj(true); s->OPropagator::Copy(s); s->OPropagator::Init(w); return sizeof(*s)+sizeof(*q)+(s->OPropagator::Emax()+s->OPropagator::Emin()).real()>0; }\n'}
REPLAY = "P01.cpp"
ASSUMPTIONS = ["member operators obey the interface contract of their own Init/Conj"]
CLS = "QDLIB::OPropagator"; VT = "_ZTVN5QDLIB4ORK4E"; WW = "QDLIB::WaveFunction*"
def fl(w, st, L, m): return w.fld(st, L, CLS, m)
def b01(nm): return ite(z3.Bool(nm), P(1), P(0))
def fresh(c, clock=True, name="L", vals=None, extra=None):
    w = c.world(wfc.contracts(extra)); wfc.setup(w)
    return (w,) + mk(w, clock, name, vals)
def mk(w, clock=True, name="L", vals=None):
    n = int_sym("n" + name); wfc.op(w, "op" + name, 1, n)
    w.obj("clk", "QDLIB::QDClock", {"_dt": real_sym("dt")}) if "clk" not in w.st.fams else None
    v = {m: b01(f"{name}.{m}") for m in ("_isTimedependent", "_hermitian", "_conj", "_recalc", "forward", "imaginary_time")}
    v["clock"] = Ptr("clk") if clock else NULL
    v["_c0._real"] = real_sym(name + ".c0r"); v["_c0._imag"] = real_sym(name + ".c0i"); v.update(vals or {})
    L = wfc.olist(w, CLS, VT, n, ops="op" + name, vals=v, name=name)
    has, va = z3.Function(name + ".has", z3.IntSort(), z3.IntSort()), z3.Function(name + ".ix", z3.IntSort(), z3.IntSort())
    wfc.named_map(w, name, w.prog.layout(CLS)["_NamedEntries"][0], lambda k: from_z(has(P(k).z())), lambda k: from_z(va(P(k).z())))
    return n, L
def c0(w, st, L):
    return fl(w, st, L, "_c0._real"), fl(w, st, L, "_c0._imag")
def want(fw, im, dt):
    """(re, im) of the exponent"""
    s = P(1) if fw else P(-1)
    return (s * dt, P(0)) if im else (P(0), P(0) - s * dt)
def inv(w, st, L, tag, fw=None, im=None):
    """the class invariant tying the exponent to the direction and the time mode"""
    for f in ((0, 1) if fw is None else (fw,)):
        for i in ((0, 1) if im is None else (im,)):
            s = st.copy(); s.assume(b_and(eq(fl(w, st, L, "forward"), f), eq(fl(w, st, L, "imaginary_time"), i)))
            a, b = c0(w, st, L); r = want(f, i, real_sym("dt"))
            w.ex.oblige(s, b_and(eq(a, r[0]), eq(b, r[1])), f"post:exponent of {'forward' if f else 'backward'} {'imaginary' if i else 'real'} time {tag}")
def units(prog, tier):
    return [Unit(l, f) for l, f in (("constructor", u_ctor), ("Clock", u_clock), ("Forward/Backward", u_dir), ("ImaginaryTime/RealTime", u_mode), ("Conj", u_conj), ("Exponent", u_exp), ("Init", u_init), ("Copy", u_copy))]
def u_ctor(c):
    w, n, L = fresh(c)
    for st, k, v in c.run(w, f"{CLS}::OPropagator()", [L]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        w.ex.oblige(st, b_and(eq(fl(w, st, L, "forward"), 1), eq(fl(w, st, L, "imaginary_time"), 0)), "post:forward in real time initially")
        w.ex.oblige(st, fl(w, st, L, "clock") == NULL, "post:no clock"); w.ex.oblige(st, fl(w, st, L, "H") == NULL, "post:no Hamiltonian")
def u_clock(c):
    w, n, L = fresh(c, False)
    for st, k, v in c.run(w, f"{CLS}::Clock(QDLIB::QDClock*)", [L, Ptr("clk")]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, fl(w, st, L, "clock") == Ptr("clk"), "post:clock set")
        inv(w, st, L, "after Clock"); keep(w, st, L, ("forward", "imaginary_time"), "Clock")
        o = w.prog.layout(CLS)["_c0._real"][0]; oc = w.prog.layout("QDLIB::Operator")["clock"][0]; w.frame(st, lambda f, x: f == "L" and x in (o, o + 8, oc) or x == oc, "Clock")
def keep(w, st, L, ms, tag):
    for m in ms: w.ex.oblige(st, eq(fl(w, st, L, m), fl(w, w.pre, L, m)), f"post:{m} unchanged by {tag}")
def u_dir(c):
    for fn, fw in (("Forward", 1), ("Backward", 0)):
        w, n, L = fresh(c)
        for st, k, v in c.run(w, f"{CLS}::{fn}()", [L]): w.ex.oblige(st, k == 'ret', "post:returns normally"); dirpost(w, st, L, n, fn, fw)
        w, n, L = fresh(c, False)
        for st, k, v in c.run(w, f"{CLS}::{fn}()", [L], expect_ret=False): w.ex.oblige(st, k == 'throw', f"post:{fn} without a clock is refused"); w.frame(st, lambda f, o: False, fn)
def dirpost(w, st, L, n, fn, fw):
    w.ex.oblige(st, eq(fl(w, st, L, "forward"), fw), f"post:{fn} sets the direction"); inv(w, st, L, "after " + fn, fw=fw); keep(w, st, L, ("imaginary_time",), fn)
    w.ex.oblige(st, eq(fl(w, st, L, "_conj"), 1 - fw), f"post:{fn} sets the adjoint flag"); every(w, st, n, lambda s, i: eq(opf(w, s, "opL", "_conj", (i,)), 1 - fw), f"post:{fn} sets the adjoint flag of every member")
def u_mode(c):
    for fn, im in (("ImaginaryTime", 1), ("RealTime", 0)):
        w, n, L = fresh(c)
        for st, k, v in c.run(w, f"{CLS}::{fn}()", [L]):
            w.ex.oblige(st, k == 'ret', "post:returns normally"); w.ex.oblige(st, eq(fl(w, st, L, "imaginary_time"), im), f"post:{fn} sets the mode"); inv(w, st, L, "after " + fn, im=im); keep(w, st, L, ("forward", "_conj"), fn)
            o = w.prog.layout(CLS); w.frame(st, lambda f, x: f == "L" and x in (o["_c0._real"][0], o["_c0._imag"][0], o["imaginary_time"][0]), fn)
def u_conj(c):
    for b in (0, 1):
        w, n, L = fresh(c)
        for st, k, v in c.run(w, f"{CLS}::Conj(bool)", [L, bool(b)]): w.ex.oblige(st, k == "ret", "post:returns normally"); dirpost(w, st, L, n, f"Conj({b})", 1 - b)
def u_exp(c):
    w, n, L = fresh(c); z = (real_sym("zr"), real_sym("zi"))
    for st, k, v in c.run(w, f"{CLS}::Exponent(dcomplex)" if False else f"{CLS}::Exponent(QDLIB::dcomplex)", [L, *z]):
        a = c0(w, st, L); w.ex.oblige(st, b_and(eq(a[0], z[0]), eq(a[1], z[1])), "post:Exponent(c) sets the exponent"); o = w.prog.layout(CLS)["_c0._real"][0]; w.frame(st, lambda f, x: f == "L" and x in (o, o + 8), "Exponent(c)")
    w, n, L = fresh(c)
    for st, k, v in c.run(w, f"{CLS}::Exponent()", [L]):
        a = c0(w, w.pre, L); w.ex.oblige(st, b_and(eq(a[0], v[0]), eq(a[1], v[1])), "post:Exponent() returns it"); w.frame(st, lambda f, x: False, "Exponent()")
def u_init(c):
    for clock in (0, 1):
        for psi in (0, 1):
            w, n, L = fresh(c, clock); s = wfc.wf(w, "s", const=True) if psi else NULL
            for st, k, v in c.run(w, f"{CLS}::Init({WW})", [L, s], expect_ret=bool(clock and psi)):
                ok = b_not(eq(real_sym("dt"), 0)) if clock and psi else False
                w.ex.oblige(st, ok if k == 'ret' else (b_not(ok) if ok is not False else True), "post:accepted exactly with a clock, a time step and a wave function")
                if k == 'ret': every(w, st, n, lambda s, i: eq(w.rd(s, "opL", '#Init', (i,)) if '#Init' in s.fams["opL"].bases else P(0), 1), "post:every member initialised")
                w.frame(st, lambda f, x: x == '#Init' and k == 'ret', "Init")
def u_copy(c):
    w, n, L = fresh(c, False, extra={"virt:OP::operator=(QDLIB::Operator*)": k_opassign}); n2, M = mk(w, True, "M"); w.st.fams["M"].dyn = {"QDLIB::OPropagator": True, "QDLIB::OList": True}
    for st, k, v in c.run(w, f"{CLS}::Copy(QDLIB::Operator*)", [L, M]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        for m in ("forward", "imaginary_time", "_conj", "_isTimedependent", "_hermitian"): w.ex.oblige(st, eq(fl(w, st, L, m), fl(w, w.pre, M, m)), f"post:{m} copied")
        w.ex.oblige(st, fl(w, st, L, "clock") == Ptr("clk"), "post:clock copied")
        a, b = c0(w, st, L), c0(w, w.pre, M); w.ex.oblige(st, b_and(eq(a[0], b[0]), eq(a[1], b[1])), "post:exponent copied")
        w.ex.oblige(st, eq(fl(w, st, L, "_size"), n2), "post:as many members")
        w.frame(st, lambda f, x: f != "M" and f != "opM", "Copy")
