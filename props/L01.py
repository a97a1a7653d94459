"""L01: simulation clock and laser field."""
from framework import *
import wfc, vec, lib, fftc, loops, intrin
ID = "L01"; TITLE = "clock and laser field"
SOURCES = ["tools/QDClock.cpp", "qdlib/Laser.cpp", "math/math_functions.cpp"]
SHIMS = {"la": '#include "qdlib/Laser.h"\nusing namespace QDLIB;\nint f(Laser*l, QDClock*c, FFT*f){ f->forward(); f->backward(); *l=*l; l->Scale(1); return l->Nt() + (int)l->Scale() + sizeof(*l) + sizeof(*c) + (l->Dt()>0); }\n'}
REPLAY = "L01.cpp"
ASSUMPTIONS = ["class FFT behaves as proved in F01 (real transforms: opaque functions of the stored data and their length)", "times and field values are mathematical reals"]
CK = "QDLIB::QDClock"; LA = "QDLIB::Laser"; VD = fftc.VD; V = fftc.V; CX = "struct QDLIB::dcomplex"
def clock(w, name="clk", const=True, **kw):
    return w.obj(name, CK, {"_dt": real_sym(name + ".dt"), "_nsteps": int_sym(name + ".steps"), "_step": int_sym(name + ".step"), **kw}, const=const)
def ck(w, st, p, m): return w.fld(st, p, CK, m)
dt, steps, step = real_sym("clk.dt"), int_sym("clk.steps"), int_sym("clk.step")
def units(prog, tier):
    return [Unit("clock " + l, f) for l, f in (("construct", u_cctor), ("values", u_cget), ("set", u_cset), ("copy", u_ccopy), ("sync", u_csync))] + [Unit("field " + l, f) for l, f in (("value", u_get), ("vector potential", u_pot), ("energy", u_energy), ("clock", u_clock), ("copy", u_copy), ("properties", u_prop))] + [Unit(f"spectrum {b}", lambda c, b=b: u_spec(c, b)) for b in (0, 1, 2)] + [Unit(f"power spectrum {b}", lambda c, b=b: u_power(c, b)) for b in (0, 1, 2)] + [Unit(f"time domain {b}", lambda c, b=b: u_time(c, b)) for b in (0, 1)]
# ---- clock
def u_cctor(c):
    for a in ([], [int_sym("n"), real_sym("t")]):
        w = c.world(); p = clock(w, "k", False)
        for st, k, v in c.run(w, f"{CK}::QDClock({'int, double' if a else ''})", [p] + a):
            w.ex.oblige(st, b_and(eq(ck(w, st, p, "_nsteps"), a[0] if a else 0), eq(ck(w, st, p, "_step"), 0)), "post:starts at step 0"); w.ex.oblige(st, ck(w, st, p, "_dt") == (a[1] if a else R(0)), "post:time step length")
            w.frame(st, lambda f, o: f == "k", "QDClock")
def u_cget(c):
    for fn, want in (("Dt", dt), ("Time", z3.ToReal(step.z()) * dt), ("TimeStep", step), ("Steps", steps)):
        w = c.world(); p = clock(w)
        for st, k, v in c.run(w, f"{CK}::{fn}() const", [p]): w.ex.oblige(st, v == want if not isinstance(v, Poly) else eq(v, want), f"post:{fn}"); w.frame(st, lambda f, o: False, fn)
def u_cset(c):
    n, x = int_sym("n"), real_sym("x")
    for fn, a, ch in (("Dt(double)", [x], {"_dt": x}), ("TimeStep(int)", [n], {"_step": n}), ("Steps(int)", [n], {"_nsteps": n}), ("Begin()", [], {"_step": P(0)}), ("End()", [], {"_step": int_sym("k.steps") - 1}), ("operator++()", [], {"_step": int_sym("k.step") + 1}), ("operator--()", [], {"_step": int_sym("k.step") - 1})):
        w = c.world(); p = clock(w, "k", False); w.st.assume(b_and(le(0, int_sym("k.step")), le(0, int_sym("k.steps")), lt(int_sym("k.step"), 2**31 - 1)))
        for st, k, v in c.run(w, f"{CK}::{fn}", [p] + a):
            for m in ("_dt", "_nsteps", "_step"): w.ex.oblige(st, loops.val_eq(ck(w, st, p, m), ch.get(m, ck(w, w.pre, p, m))), f"post:{fn} {m}")
            if "operator" in fn: w.ex.oblige(st, v == p, f"post:{fn} returns the clock")
            w.frame(st, lambda f, o: f == "k", fn)
def u_ccopy(c):
    for al in (0, 1):
        w = c.world(); p = clock(w, "k", False); q = p if al else clock(w)
        for st, k, v in c.run(w, f"{CK}::operator=({CK} const&)", [p, q]):
            for m in ("_dt", "_nsteps", "_step"): w.ex.oblige(st, loops.val_eq(ck(w, st, p, m), ck(w, w.pre, q, m)), f"post:copied {m}")
            w.ex.oblige(st, v == p, "post:returns the clock"); w.frame(st, lambda f, o: f == "k", "operator=")
def u_csync(c):
    w = c.world({**lib.mem()}); p = clock(w, "k", False); q = clock(w); d = real_sym("k.dt"); x = z3.ToReal(step.z()) * dt / d; w.st.assume(b_and(d > 0, x < 2**31 - 1, x > -2**31))
    for st, k, v in c.run(w, f"{CK}::Sync({CK} const&)", [p, q], expect_ret=False):
        ok = x == z3.ToReal(z3.ToInt(x))
        if k == 'throw': w.ex.oblige(st, b_not(ok), "post:refused only if the time is not a multiple of the time step"); w.frame(st, lambda f, o: False, "Sync refused"); continue
        w.ex.oblige(st, ok, "post:accepted only if the time is a multiple of the time step"); w.ex.oblige(st, z3.ToReal(ck(w, st, p, "_step").z()) == x, "post:same time"); w.ex.oblige(st, z3.ToReal(ck(w, st, p, "_step").z()) * d == z3.ToReal(step.z()) * dt, "post:both clocks show the same time")
        w.ex.oblige(st, b_and(eq(ck(w, st, p, "_nsteps"), int_sym("k.steps")), ck(w, st, p, "_dt") == d), "post:the rest is kept"); w.frame(st, lambda f, o: f == "k", "Sync")
# ---- field
n = int_sym("s.n"); sc = real_sym("s.scale"); ldt = real_sym("s.dt")
def world(c, extra=None):
    k = {**lib.mem(), **wfc.contracts(), **fftc.contracts(), "QDLIB::ParamContainer::SetValue(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&, double)": wfc.k_noop, **(extra or {})}
    for x in (f"{V}::FastCopy({V}&)", f"{V}::swap({V}&)"): k.pop(x)
    w = c.world(k); w.ex.patterns += wfc.MAPS; return w
def laser(w, name="s", clk=None, const=False, spec=None, vals=None):
    """spec: None | 'ok' (plan and spectrum of the current size) | 'any'"""
    N = int_sym(name + ".n"); m = int_sym(name + ".m"); m = N if spec == "ok" else m; sp = ff = NULL; w.st.assume(b_and(le(1, N), le(N, P(2**30))))
    if spec:
        w.st.assume(b_and(le(1, m), le(m, P(2**30)))); h = fftc.half(w.st, m)
        sp = w.vector(name + "S", CX, h, P(1), vals={"_StorageLocked": P(0)}); w.st.fams[name + "S"].heap = True
        if spec == 'ok': a = Ptr(name + ".d", (0,))
        else: w.st.fam(Fam("stale", 'array', esize=8, count=P(0), fields={0: 'd'})); w.st.dead = w.st.dead | {"stale"}; a = Ptr("stale")
        f = w.st.fam(Fam(name + "F", 'struct', size=w.prog.layout(fftc.FF)["#size"][0], heap=True, cls=fftc.FF)); f.real = True; lay = w.prog.layout(fftc.FF)
        for mm, v in (("_din", a), ("_cout", Ptr(name + "S.d", (0,)))): f.fields[lay[mm][0]] = 'p'; f.bases[lay[mm][0]] = lambda X, v=v: v
        f.fields['#D'] = 'i'; f.bases['#D'] = lambda X: P(1); ff = Ptr(f.name)
        w.st.fam(Fam("FS:" + f.name, 'array', esize=4, arity=1, fields={'#n': 'i'}, bases={'#n': lambda X: m}))
    p = w.vector(name, "double", N, P(1), const=const, cls=LA, vptr="VT:_ZTVN5QDLIB5LaserE", vals={"_clock": clk if clk is not None else NULL, "_dt": real_sym(name + ".dt"), "_scale": real_sym(name + ".scale"), "_fft": ff, "_spectrum": sp, "_StorageLocked": P(0), **(vals or {})}); return p
def el(w, st, p, i): v = w.fld(st, p, LA, "v_"); b = w.rd(st, v.fam, 0, tuple(v.ix) + (P(0),)); return w.rd(st, b.fam, 0, tuple(b.ix) + (P(i) if not isinstance(i, Poly) else i,))
def old(w, s, i): return w.rd(getattr(w, 'pre', None) or w.st, s + ".d", 0, (P(0), i))
def inrange(w): w.st.assume(b_and(le(0, step), lt(step, steps), le(steps, n), le(1, steps)))
def keep(w, st, p, s, N, tag):
    i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, N))); w.ex.oblige(s2, el(w, s2, p, i) == old(w, s, i), tag)
def u_get(c):
    w = world(c); p = laser(w, clk=clock(w), const=True); inrange(w)
    for st, k, v in c.run(w, f"{LA}::Get()", [p]): w.ex.oblige(st, v == old(w, "s", step) * sc, "post:field at the time step of the clock times the scaling factor"); w.frame(st, lambda f, o: False, "Get")
    w = world(c); p = laser(w, clk=clock(w)); inrange(w); x = real_sym("x"); i = int_sym("i")
    for st, k, v in c.run(w, f"{LA}::Set(double)", [p, x]):
        s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n))); w.ex.oblige(s2, el(w, s2, p, i) == z3.If(as_z(eq(i, step)), x, old(w, "s", i)), "post:only the value at the time step of the clock changes"); w.frame(st, lambda f, o: f == "s.d", "Set")
def as_z(b): return b if isinstance(b, z3.ExprRef) else z3.BoolVal(b)
def u_pot(c):
    w = world(c); p = laser(w, clk=clock(w), const=True); inrange(w); ki = z3.Int("ki")
    for st, k, v in c.run(w, f"{LA}::GetVectorPot()", [p]): w.ex.oblige(st, v == loops.SUMS.make(old(w, "s", from_z(ki)), ki, P(0), step) * ldt, "post:sum of the earlier field values times the time step"); w.frame(st, lambda f, o: False, "GetVectorPot")
def u_energy(c):
    w = world(c); p = laser(w, const=True); ki = z3.Int("ki"); e = old(w, "s", from_z(ki))
    from fractions import Fraction; import math
    c0 = z3.RealVal(str(Fraction(137.0359996) / Fraction(4 * math.pi)))
    for st, k, v in c.run(w, f"{LA}::PulseEnergy()", [p]):
        f = z3.Real("$f"); s = loops.SUMS.make(e * e, ki, P(0), n)
        w.ex.oblige(st, v == CE * sc * sc * s * ldt, "post:c eps0 times the time integral of the squared scaled field"); w.frame(st, lambda f, o: False, "PulseEnergy")
CE = z3.RealVal(str(__import__("fractions").Fraction(137.0359996 / (4 * __import__("math").pi))))
def u_clock(c):
    for null in (0, 1):
        w = world(c); q = NULL if null else clock(w); p = laser(w, clk=Ptr("old", ())); w.st.fam(Fam("old", 'struct', size=16, const=True))
        for st, k, v in c.run(w, f"{LA}::Clock({CK}*)", [p, q], expect_ret=False):
            fits = b_and(dt == ldt, le(steps, n))
            if null: w.ex.oblige(st, k == 'ret' and w.fld(st, p, LA, "_clock").fam == "old", "post:no clock: the old one stays")
            elif k == 'throw': w.ex.oblige(st, b_not(fits), "post:refused only if it does not fit")
            else: w.ex.oblige(st, fits, "post:accepted only with equal time step and enough field values"); w.ex.oblige(st, w.fld(st, p, LA, "_clock") == q, "post:clock taken over")
            w.frame(st, lambda f, o: f == "s", "Clock"); keep(w, st, p, "s", n, "post:field kept")
    w = world(c); p = laser(w, clk=clock(w), const=True)
    for st, k, v in c.run(w, f"{LA}::Clock()", [p]): w.ex.oblige(st, v.fam == "clk", "post:returns the clock"); w.frame(st, lambda f, o: False, "Clock()")
def u_prop(c):
    x = real_sym("x")
    for fn, want in (("Dt()", ldt), ("Nt()", n), ("Scale()", sc)):
        w = world(c); p = laser(w, const=True)
        for st, k, v in c.run(w, f"{LA}::{fn}", [p]): w.ex.oblige(st, loops.val_eq(v, want), f"post:{fn}"); w.frame(st, lambda f, o: False, fn)
    w = world(c); p = laser(w)
    for st, k, v in c.run(w, f"{LA}::Scale(double)", [p, x]): w.ex.oblige(st, w.fld(st, p, LA, "_scale") == x, "post:scale set"); keep(w, st, p, "s", n, "post:the raw field stays"); w.frame(st, lambda f, o: f == "s", "Scale")
def u_copy(c):
    for spec in (None, 'ok', 'any'):
        w = world(c); p = laser(w, spec=spec); q = laser(w, "t", clk=clock(w), const=True); m = int_sym("t.n")
        for st, k, v in c.run(w, f"{LA}::operator=({LA} const&)", [p, q]):
            if k != 'ret': continue
            w.ex.oblige(st, v == p, "post:returns this"); w.ex.oblige(st, eq(w.fld(st, p, LA, "n_"), m), "post:size taken over"); keep(w, st, p, "t", m, "post:field copied")
            w.ex.oblige(st, w.fld(st, p, LA, "v_").fam != w.fld(w.pre, q, LA, "v_").fam, "post:own storage")
            for f in ("_dt", "_scale"): w.ex.oblige(st, w.fld(st, p, LA, f) == w.fld(w.pre, q, LA, f), f"post:{f} taken over")
            w.ex.oblige(st, w.fld(st, p, LA, "_clock") == w.fld(w.pre, q, LA, "_clock"), "post:clock taken over")
            w.ex.oblige(st, w.fld(st, p, LA, "_fft") == NULL and w.fld(st, p, LA, "_spectrum") == NULL, "post:no spectrum of the old field is left"); w.frame(st, lambda f, o: f.startswith(("s", "PB:s", "FS:")), "operator=")
SP = (None, 'ok', 'any')
def spectrum(w, st, p, what, keyv):
    """spectrum object, plan and contents after Spectrum()"""
    s = w.fld(st, p, LA, "_spectrum"); ok = isinstance(s, Ptr) and s.fam is not None and s.fam not in st.dead; w.ex.oblige(st, ok, "post:spectrum exists")
    if not ok: return
    h = fftc.half(st, steps); w.ex.oblige(st, b_and(eq(w.fld(st, s, V, "n_"), h), eq(w.fld(st, s, V, "nstrides_"), 1)), "post:half spectrum"); b = w.fld(st, s, V, "v_"); b = w.rd(st, b.fam, 0, tuple(b.ix) + (P(0),))
    i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, h))); w.ex.oblige(s2, ceq(tuple(w.rd(s2, b.fam, o, tuple(b.ix) + (i,)) for o in (0, 8)), tuple(fftc.value(keyv, o, i) for o in (0, 8))), "post:spectrum = transform of the field")
def setup(c, b, fn):
    w = world(c); p = laser(w, clk=clock(w), spec=SP[b]); inrange(w); return w, p
def u_spec(c, b):
    w, p = setup(c, b, "Spectrum")
    K = fftc.rkey(lambda i: (w.rd(w.st, "s.d", 0, (P(0), P(i))),), steps, "r2c")
    for st, k, v in c.run(w, f"{LA}::Spectrum()", [p]):
        if k != 'ret': continue
        w.ex.oblige(st, v == w.fld(st, p, LA, "_spectrum"), "post:returns the spectrum"); spectrum(w, st, p, "Spectrum", K); w.ex.oblige(st, eq(w.fld(st, p, LA, "n_"), steps), "post:field cut to the steps of the clock"); keep(w, st, p, "s", steps, "post:field kept")
        w.frame(st, lambda f, o: f.startswith(("s", "PB:s", "FS:")), "Spectrum")
def u_power(c, b):
    w, p = setup(c, b, "PowerSpectrum")
    K = fftc.rkey(lambda i: (w.rd(w.st, "s.d", 0, (P(0), P(i))),), steps, "r2c")
    for st, k, v in c.run(w, f"{LA}::PowerSpectrum()", [p]):
        if k != 'ret': continue
        spectrum(w, st, p, "Spectrum", K); h = fftc.half(st, steps); w.ex.oblige(st, v.fam not in w.pre.fams and eq(w.fld(st, v, VD, "n_"), h), "post:new vector, half spectrum"); keep(w, st, p, "s", steps, "post:field kept")
        x = w.fld(st, v, VD, "v_"); x = w.rd(st, x.fam, 0, tuple(x.ix) + (P(0),)); i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, h))); y = w.rd(s2, x.fam, 0, tuple(x.ix) + (i,)); q = [fftc.value(K, o, i) for o in (0, 8)]
        w.ex.oblige(s2, b_and(y >= 0, y * y == q[0] * q[0] + q[1] * q[1]), "post:magnitude of the spectrum"); w.frame(st, lambda f, o: f.startswith(("s", "PB:s", "FS:")), "PowerSpectrum")
def u_time(c, b):
    w, p = setup(c, b, "ToTimeDomain")
    K = None
    if b: h = fftc.half(w.st, n); K = fftc.rkey(lambda i: tuple(w.rd(w.st, "sS.d", o, (P(0), P(i))) for o in (0, 8)), n, "c2r")
    for st, k, v in c.run(w, f"{LA}::ToTimeDomain()", [p]):
        w.ex.oblige(st, k == 'ret', "post:returns")
        if k != 'ret': continue
        if not b: w.frame(st, lambda f, o: False, "ToTimeDomain"); continue
        i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n))); w.ex.oblige(s2, el(w, s2, p, i) == uf_real(K, i), "post:field = backward transform of the spectrum"); w.frame(st, lambda f, o: f.startswith(("s", "FS:")), "ToTimeDomain")
