"""V02: complex scalar arithmetic obeys the field laws / definitions for every pair of operands."""
from framework import *
ID = "V02"; TITLE = "complex scalar arithmetic"
SHIMS = {"cplx": '#include "math/typedefs.h"\n#include "math/dcomplex.h"\n'}
SOURCES = ["math/dcomplex.cpp"]
REPLAY = "V02.cpp"
ASSUMPTIONS = ["division: divisor non-zero; trigonometric identities of acos/cos/sin are axioms of the libm model"]
C = "QDLIB::dcomplex const&"; c = "QDLIB::dcomplex"; d = "double const&"; IM = "QDLIB::Imaginary"
Q = "QDLIB::"
def cdiv(a, b):
    dd = radd(rmul(b[0], b[0]), rmul(b[1], b[1]))
    n = cmul(a, cconj(b)); return (n[0]/dd, n[1]/dd)
IU = (R(0), R(1))
VAL = [  # signature, args, value, precondition
 ("operator+(%s, %s)" % (C, C), "CC", cadd), ("operator+(%s, %s)" % (C, d), "CD", lambda a, b: cadd(a, (b, R(0)))),
 ("operator-(%s, %s)" % (C, C), "CC", csub), ("operator-(%s, %s)" % (C, d), "CD", lambda a, b: csub(a, (b, R(0)))),
 ("operator*(%s, %s)" % (C, C), "CC", cmul), ("operator*(%s, %s)" % (C, d), "CD", csc), ("operator*(%s, %s)" % (d, C), "DC", lambda b, a: csc(a, b)),
 ("operator/(%s, %s)" % (C, C), "CC", cdiv), ("operator/(%s, %s)" % (d, C), "DC", lambda a, b: cdiv((a, R(0)), b)),
 ("operator/(%s, %s)" % (C, d), "CD", lambda a, b: (a[0]/b, a[1]/b)),
 ("conj(%s)" % c, "c", cconj), ("conj(double)", "d", lambda a: a),
 ("dcomplex::conj() const", "C", cconj),
 ("cexpI(double)", "d", lambda p: (intrin.math1("cos", p), intrin.math1("sin", p))),
 ("cexp(%s)" % c, "c", lambda z: csc((intrin.math1("cos", z[1]), intrin.math1("sin", z[1])), intrin.math1("exp", z[0]))),
 ("cabs(%s)" % c, "c", lambda z: intrin.math1("sqrt", radd(rmul(z[0], z[0]), rmul(z[1], z[1])))),
 ("operator*(%s, %s)" % (c, IM), "cI", lambda z: cmul(z, IU)), ("operator*(double, %s)" % IM, "dI", lambda x: (R(0), x)),
 ("operator*(%s, %s)" % (IM, IM), "II", lambda: R(-1)),
 ("Imaginary::operator*(%s)" % C, "TC", lambda z: cmul(IU, z)), ("Imaginary::operator*(double)", "Td", lambda x: (R(0), x)),
 ("dcomplex::real()", "C", lambda z: z[0]), ("dcomplex::imag()", "C", lambda z: z[1]),
]
MOD = [ # in-place: first operand is the destination object
 ("operator+=(QDLIB::dcomplex&, %s)" % C, "CC", cadd), ("operator-=(QDLIB::dcomplex&, %s)" % C, "CC", csub),
 ("operator*=(QDLIB::dcomplex&, %s)" % C, "CC", cmul), ("operator/=(QDLIB::dcomplex&, %s)" % C, "CC", cdiv),
 ("operator*=(QDLIB::dcomplex&, %s)" % d, "CD", csc),
 ("dcomplex::operator=(%s)" % C, "CC", lambda a, b: b), ("dcomplex::operator=(double)", "Cd", lambda a, b: (b, R(0))),
 ("dcomplex::operator=(int)", "Ci", lambda a, b: (b, R(0))), ("dcomplex::operator=(%s)" % IM, "CI", lambda a: IU),
 ("dcomplex::conjugate()", "C", lambda a: cconj(a)), ("dcomplex::real(double)", "Cd", lambda a, b: (b, a[1])), ("dcomplex::imag(double)", "Cd", lambda a, b: (a[0], b)),
 ("dcomplex::dcomplex(double, double)", "Cdd", lambda a, b, e: (b, e)), ("dcomplex::dcomplex(double)", "Cd", lambda a, b: (b, R(0))),
]

def mk(w, kinds, const0):
    args = []; vals = []
    for i, k in enumerate(kinds):
        n = f"a{i}"
        if k == 'C':
            v = (real_sym(n + "r"), real_sym(n + "i"))
            f = Fam(n, 'struct', size=16, fields={0: 'd', 8: 'd'}, bases={0: lambda X, v=v: v[0], 8: lambda X, v=v: v[1]}, const=(i > 0 or const0))
            w.st.fam(f); args.append(Ptr(n)); vals.append(v)
        elif k == 'D':
            v = real_sym(n); w.st.fam(Fam(n, 'struct', size=8, fields={0: 'd'}, bases={0: lambda X, v=v: v}, const=True)); args.append(Ptr(n)); vals.append(v)
        elif k == 'c': v = (real_sym(n + "r"), real_sym(n + "i")); args += list(v); vals.append(v)
        elif k == 'd': v = real_sym(n); args.append(v); vals.append(v)
        elif k == 'i': v = int_sym(n); args.append(v); vals.append(R(v))
        elif k == 'T': w.st.fam(Fam(n, 'struct', size=1)); args.append(Ptr(n))
    return args, vals
def same(a, b): return ceq(a, b) if isinstance(a, tuple) else to_bool(a == b)

def units(prog, tier):
    us = []
    def val(c, s, kinds, f):
        w = c.world(); args, vals = mk(w, kinds, True)
        if "/" in s: w.st.assume(z3.Or(vals[1][0] != 0, vals[1][1] != 0) if isinstance(vals[1], tuple) else vals[1] != 0)
        for st, k, v in c.run(w, Q + s, args):
            w.ex.oblige(st, b_and(k == 'ret', same(v, f(*vals)) if k == 'ret' else False), "post:value")
    def mod(c, s, kinds, f, alias):
        w = c.world(); args, vals = mk(w, kinds, False)
        if alias: args[1] = args[0]; vals[1] = vals[0]
        if "/" in s: w.st.assume(z3.Or(vals[1][0] != 0, vals[1][1] != 0))
        for st, k, v in c.run(w, Q + s, args):
            w.ex.oblige(st, b_and(k == 'ret', ceq((w.rd(st, "a0", 0), w.rd(st, "a0", 8)), f(*vals))), "post:value")
    for s, k, f in VAL: us.append(Unit(s, lambda c, s=s, k=k, f=f: val(c, s, k, f)))
    for s, k, f in MOD:
        us.append(Unit(s, lambda c, s=s, k=k, f=f: mod(c, s, k, f, False)))
        if k == "CC": us.append(Unit(s + "{aliased}", lambda c, s=s, k=k, f=f: mod(c, s, k, f, True)))
    us.append(Unit("cpow", cpow)); us.append(Unit("phase", phase)); us.append(Unit("csqrt", csqrt))
    return us

def cpow(c):
    w = c.world(); n = int_sym("n"); q = int_sym("q")
    for rem, want in ((0, (1, 0)), (1, (0, 1)), (2, (-1, 0)), (3, (0, -1))):
        w = c.world()
        for sgn, cond in (("nonneg", le(0, q)), ("neg", lt(q, 0))):
            w = c.world(); w.st.assume(cond)
            for st, k, v in c.run(w, Q + "cpow(QDLIB::Imaginary, int)", [q * 4 + rem]):
                w.ex.oblige(st, b_and(k == 'ret', ceq(v, (R(want[0]), R(want[1]))) if k == 'ret' else False), f"post:i^n n%4={rem} {sgn}")

def acos_facts(z):
    """libm model: x in [-1,1] -> cos(acos x) = x, sin(acos x) >= 0 ; cos even, sin odd ; double angle"""
    out = []; seen = set(); st = [z] if not isinstance(z, tuple) else list(z); A = {}
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
        if z3.is_app(x) and x.decl().name() == "acos": A[x.get_id()] = x
    for a in A.values():
        x = a.children()[0]; C_, S_ = intrin.math1("cos", a), intrin.math1("sin", a)
        out += [C_ == x, S_ >= 0, S_*S_ + C_*C_ == 1]
        for h in (a, rneg(a)): out += [intrin.math1("cos", h) == C_, intrin.math1("sin", h) == (S_ if h is a else -S_)]
    return out

def phase(c):
    w = c.world(); x, y = real_sym("x"), real_sym("y"); w.st.assume(z3.Or(x != 0, y != 0))
    r = intrin.math1("sqrt", x*x + y*y)
    for st, k, v in c.run(w, Q + "phase(QDLIB::dcomplex)", [x, y]):
        if k != 'ret': w.ex.oblige(st, False, "no-exception"); continue
        for f in acos_facts(v): st.assume(f)
        w.ex.oblige(st, intrin.math1("cos", v) * r == x, "post:|z|cos(phase)=re")
        st.assume(r > 0)
        w.ex.oblige(st, intrin.math1("sin", v) * r == y, "post:|z|sin(phase)=im")

def csqrt(c):
    # modular: the argument function is replaced by its contract (unit phase)
    ph = z3.Real("ph")
    w = c.world(); x, y = real_sym("x"), real_sym("y"); r = intrin.math1("sqrt", x*x + y*y)
    h = rdiv(ph, R(2)); ch, sh = intrin.math1("cos", h), intrin.math1("sin", h)
    def k_phase(ex, st, args, I, name):
        a, b = args; s2 = st.copy()
        s2.assume(z3.Or(a != 0, b != 0)); rr = intrin.math1("sqrt", a*a + b*b)
        s2.assume(intrin.math1("cos", ph)*rr == a); s2.assume(intrin.math1("sin", ph)*rr == b)
        s2.assume(intrin.math1("cos", ph) == ch*ch - sh*sh); s2.assume(intrin.math1("sin", ph) == 2*sh*ch)
        s1 = st.copy(); s1.assume(z3.And(a == 0, b == 0))
        return [(s2, 'ret', ph), (s1, 'ret', z3.Real("nonfinite"))]
    k_phase.is_contract = True
    w.ex.contracts["QDLIB::phase(QDLIB::dcomplex)"] = k_phase
    for st, k, v in c.run(w, Q + "csqrt(QDLIB::dcomplex)", [x, y]):
        if k != 'ret': w.ex.oblige(st, False, "no-exception"); continue
        w.ex.oblige(st, not any(contains(t, z3.Real("nonfinite")) for t in v), "post:finite")
        sq = z3.Real("sq")
        st.assume(sq == intrin.math1("sqrt", r)); st.assume(sq*sq == r); st.assume(r >= 0); st.assume(r*r == x*x+y*y)
        w.ex.oblige(st, v[0]*v[0] - v[1]*v[1] == x, "post:re(s^2)=re")
        w.ex.oblige(st, 2*v[0]*v[1] == y, "post:im(s^2)=im")
