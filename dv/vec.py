"""Vectors as formal complex-linear combinations of atoms (ghost value of a wave function object).
Atoms are nested tuples; index entries are Polys.  Operators are linear maps (the documented contract of Apply)."""
import z3
import laurent
from term import *

ZERO = (R(0), R(0)); ONE = (R(1), R(0))
KAP = z3.Int("vkappa")

def c_add(a, b): return (radd(a[0], b[0]), radd(a[1], b[1]))
def c_mul(a, b): return (rsub(rmul(a[0], b[0]), rmul(a[1], b[1])), radd(rmul(a[0], b[1]), rmul(a[1], b[0])))
def c_neg(a): return (rneg(a[0]), rneg(a[1]))
def c_conj(a): return (a[0], rneg(a[1]))
def c_iszero(a): return all(z3.is_rational_value(x) and x.as_fraction() == 0 for x in a)
def c_eq(a, b):
    r = []
    for x, y in zip(a, b):
        if x.eq(y): continue
        e = z3.simplify(x - y, som=True)
        if z3.is_rational_value(e):
            if e.as_fraction() == 0: continue
            return False
        q = laurent.vanishes(x, y) if laurent.has_div(e) else None
        # equivalent to x == y: with nonzero denominators the difference cancels identically
        r.append(z3.Or(z3.And(*[d != 0 for d in q]), x == y) if q else x == y)
    return b_and(*r)
def c_same(a, b): return all(x.eq(y) for x, y in zip(a, b))

def t_sub(x, ps):
    if isinstance(x, Poly): return from_z(z3.substitute(x.z(), *ps))
    if isinstance(x, VecVal): return x.zsub(ps)
    if isinstance(x, tuple): return tuple(t_sub(y, ps) for y in x)
    if isinstance(x, Z): return Z(z3.substitute(x.e, *ps))
    return x
def t_terms(x, out):
    if isinstance(x, Poly): out.append(x.z())
    elif isinstance(x, VecVal):
        for a, c in x.d.items(): t_terms(a, out); out += list(c)
    elif isinstance(x, tuple):
        for y in x: t_terms(y, out)
    elif isinstance(x, Z): out.append(x.e)
    return out
def t_names(x, out):
    if isinstance(x, str): out.add(x)
    elif isinstance(x, VecVal):
        for a in x.d: t_names(a, out)
    elif isinstance(x, tuple):
        for y in x: t_names(y, out)
    return out
def shape(x):
    """atom with indices erased"""
    if isinstance(x, Poly): return '#'
    if isinstance(x, Z): return '$'
    if isinstance(x, VecVal): return ('V',) + tuple(sorted(str(shape(a)) for a in x.d))
    if isinstance(x, tuple): return tuple(shape(y) for y in x)
    return x

class Z:
    """hashable z3 term inside an atom"""
    __slots__ = ("e",)
    def __init__(s, e): s.e = e
    def __eq__(s, o): return isinstance(o, Z) and s.e.eq(o.e)
    def __hash__(s): return s.e.hash()
    def __repr__(s): return str(s.e)

class VecVal:
    __slots__ = ("d", "_h")
    def __init__(s, d): s.d = d; s._h = None
    @staticmethod
    def zero(): return VecVal({})
    @staticmethod
    def atom(a): return VecVal({a: ONE})
    @staticmethod
    def x(name, *ix): return VecVal({('x', name) + tuple(P(i) for i in ix): ONE})
    def __hash__(s):
        if s._h is None: s._h = hash(frozenset(s.d))
        return s._h
    def __eq__(s, o):
        return isinstance(o, VecVal) and s.d.keys() == o.d.keys() and all(c_same(c, o.d[a]) for a, c in s.d.items())
    def eq(s, o): return s == o
    def __repr__(s): return " + ".join(f"({c[0]},{c[1]})*{a}" for a, c in s.d.items()) or "0"
    def add(s, o):
        d = dict(s.d)
        for a, c in o.d.items():
            n = c_add(d[a], c) if a in d else c
            n = tuple(z3.simplify(x, som=True) if not z3.is_rational_value(x) else x for x in n) if a in d else n
            if c_iszero(n): d.pop(a, None)
            else: d[a] = n
        return VecVal(d)
    def scale(s, c):
        if c_iszero(c): return VecVal({})
        return VecVal({a: c_mul(x, c) for a, x in s.d.items()})
    def rscale(s, r): return s.scale((r, R(0)))
    def sub(s, o): return s.add(o.scale((R(-1), R(0))))
    def map(s, f):
        """linear map given on atoms: f(atom) -> VecVal"""
        r = VecVal({})
        for a, c in s.d.items(): r = r.add(f(a).scale(c))
        return r
    def ite(s, c, o):
        if c is True: return s
        if c is False: return o
        if z3.is_true(c): return s
        if z3.is_false(c): return o
        if s == o: return s
        # linear: the condition goes into the coefficients
        d = {}
        for a in list(s.d) + [a for a in o.d if a not in s.d]:
            x, y = s.d.get(a, ZERO), o.d.get(a, ZERO)
            n = tuple(p if p.eq(q) else z3.If(c, p, q) for p, q in zip(x, y))
            if not c_iszero(n): d[a] = n
        return VecVal(d)
    # ---- interface used by the loop rule
    def zsub(s, ps):
        r = VecVal({})
        for a, c in s.d.items():
            na = t_sub(a, ps); nc = tuple(z3.substitute(x, *ps) for x in c)
            r = r.add(simp_atom(na).scale(nc))
        return r
    def zterms(s): return t_terms(s, [])
    def contains_fn(s, name):
        return name in t_names(s, set()) or any(contains_fn(t, name) for t in s.zterms())
    def has_const(s, c): return any(contains(t, c) for t in s.zterms())
    def split_old(s, old):
        """s = c*OLD + rest with c in {0,1}; None otherwise"""
        (oa, oc), = old.d.items()
        c = s.d.get(oa)
        rest = VecVal({a: x for a, x in s.d.items() if a != oa})
        if rest.contains_fn(oa[1]): return None
        if c is None: return (0, rest)
        if c_same(c, ONE): return (1, rest)
        return None
    def only_own(s, old, hname):
        (oa, oc), = old.d.items()
        def chk(x):
            if x == oa: return True
            if isinstance(x, str): return x != hname
            if isinstance(x, VecVal): return all(chk(a) for a in x.d)
            if isinstance(x, tuple): return all(chk(y) for y in x)
            return True
        return all(chk(a) for a in s.d) and not any(contains_fn(t, hname) for t in s.zterms())
    def replace_old(s, old, new):
        (oa, oc), = old.d.items()
        return replace_atom(s, oa, new)
    def vsum(s, kz, lo, hi):
        lo, hi = P(lo), P(hi)
        if lo == hi: return VecVal({})
        b = s.zsub([(kz, KAP)])
        # constant-in-k factors stay inside; canonical
        return VecVal({('vsum', b, lo, hi): ONE})
    def vec_eq(s, o): return vec_eq(s, o)

def body_at(a, i): return a[1].zsub([(KAP, P(i).z())])

def simp_atom(a):
    if a[0] == 'vsum' and (a[3] - a[2]).is_const() and (a[3]-a[2]).const() == 0: return VecVal({})
    if a[0] == 'prod' and a[2] == a[3]: return VecVal.atom(a[5])
    if a[0] == 'ite':
        c = z3.simplify(a[1].e)
        if z3.is_true(c): return a[2]
        if z3.is_false(c): return a[3]
    return VecVal.atom(a)

def replace_atom(v, oa, new):
    """substitute VecVal `new` for the atom oa (linear in app/prod/had positions)"""
    def rep(a):
        if a == oa: return new
        k = a[0]
        if k in ('app',): return app(a[1], rep(a[2]))
        if k == 'prod': return prod(a[1], a[2], a[3], a[4], rep(a[5]))
        if k == 'vsum': return VecVal({('vsum', replace_atom(a[1], oa, new), a[2], a[3]): ONE})
        if k == 'ite': return replace_atom(a[2], oa, new).ite(a[1].e, replace_atom(a[3], oa, new))
        if k == 'had': return had(rep(a[1]), rep(a[2]), a[3])
        if k == 'nl': return nl(a[1], *[replace_atom(x, oa, new) if isinstance(x, VecVal) else x for x in a[2:]])
        return VecVal.atom(a)
    return v.map(rep)

def app(op, v):
    """linear operator op (tuple: name, indices..., flags) applied to v"""
    def f(a):
        if a[0] == 'vsum': return VecVal({('vsum', app(op, a[1]), a[2], a[3]): ONE})
        if a[0] == 'ite': return app(op, a[2]).ite(a[1].e, app(op, a[3]))
        return VecVal.atom(('app', op, a))
    return v.map(f)

def papp(fam, i, flags, v):
    """operator family member fam[i] applied; adjacent members fuse into a product  fam[lo] fam[lo+1] ... fam[hi-1] v"""
    return prod(fam, P(i), P(i) + 1, flags, v)
def prod(fam, lo, hi, flags, v):
    def f(a):
        if lo == hi: return VecVal.atom(a)
        if a[0] == 'prod' and a[1] == fam and a[4] == flags and a[2] == hi:
            return VecVal.atom(('prod', fam, lo, a[3], flags, a[5]))
        if a[0] == 'vsum': return VecVal({('vsum', prod(fam, lo, hi, flags, a[1]), a[2], a[3]): ONE})
        if a[0] == 'ite': return prod(fam, lo, hi, flags, a[2]).ite(a[1].e, prod(fam, lo, hi, flags, a[3]))
        return VecVal.atom(('prod', fam, lo, hi, flags, a))
    return v.map(f)

def diag(name, v): return app(('diag', name), v)

def had(a, b, conj):
    """elementwise product (conj(a)*b when conj)"""
    r = VecVal({})
    for x, c in a.d.items():
        for y, e in b.d.items():
            cc = c_mul(c_conj(c) if conj else c, e)
            p = (x, y)
            if not conj and repr(y) < repr(x): p = (y, x)
            r = r.add(VecVal({('had', p[0], p[1], conj): cc}))
    return r

def nl(name, *args): return VecVal.atom(('nl', name) + tuple(args))

def norm(v):
    """try to simplify vsum atoms with constant small ranges"""
    r = VecVal({})
    for a, c in v.d.items():
        if a[0] == 'vsum':
            n = a[3] - a[2]
            if n.is_const():
                t = VecVal({})
                if n.const() > 8: r = r.add(VecVal({a: c})); continue
                for j in range(max(0, n.const())): t = t.add(body_at(a, a[2] + j))
                r = r.add(t.scale(c)); continue
            # pull scalar-constant bodies apart: vsum(b1+b2) = vsum(b1)+vsum(b2)
            if len(a[1].d) > 1:
                for x, y in a[1].d.items(): r = r.add(VecVal({('vsum', VecVal({x: y}), a[2], a[3]): c}))
                continue
            if len(a[1].d) == 0: continue
            p = point(a)
            if p is not None: r = r.add(p.scale(c)); continue
        r = r.add(VecVal({a: c}))
    return r

def point(a):
    """sum whose terms vanish except at one index: the term there (if inside the range), else None"""
    (x, c), = a[1].d.items()
    if 'vsum' in str(shape(x)) or not (z3.is_rational_value(c[1]) and z3.simplify(c[1] == 0).eq(z3.BoolVal(True))): return None
    gs = []; e = c[0]
    while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        z, u, v = e.children()
        if z3.is_rational_value(v) and v.numerator_as_long() == 0: gs.append(z); e = u
        elif z3.is_rational_value(u) and u.numerator_as_long() == 0: gs.append(z3.Not(z)); e = v
        else: return None
    i = 0
    while i < len(gs):
        g = gs[i]
        if z3.is_and(g): gs[i:i+1] = g.children()
        elif z3.is_not(g) and z3.is_not(g.arg(0)): gs[i] = g.arg(0).arg(0)
        elif z3.is_not(g) and z3.is_or(g.arg(0)): gs[i:i+1] = [z3.Not(q) for q in g.arg(0).children()]
        else: i += 1
    for g in gs:
        if z3.is_eq(g) and g.arg(0).sort() == z3.IntSort():
            d = from_z(g.arg(0)) - from_z(g.arg(1)); kid = atom_of(KAP); cf = d.coef(kid)
            if cf is None or not cf[0].is_const() or abs(cf[0].const()) != 1: continue
            t = cf[1] * (-cf[0].const())
            if kid in t.atoms() or KAP.decl().name() in {str(q) for q in z3util(t.z())}: continue
            ps = [(KAP, t.z())]; rest = [z3.substitute(q, *ps) for q in gs if q is not g] + [to_bool(le(a[2], t)), to_bool(lt(t, a[3]))]
            return VecVal({x: (e, c[1])}).zsub(ps).ite(z3.And(*[tidy(q) for q in rest]), VecVal({}))
    return None
def tidy(e): return z3.simplify(e, som=True) if not z3.is_rational_value(e) else e
def vtidy(v): return VecVal({a: tuple(tidy(x) for x in c) for a, c in v.d.items()})
def z3util(e):
    out, st, seen = [], [e], set()
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(t)
        st += t.children()
    return out

def _coef_cond(cs, seen):
    for e in cs:
        st = [e]
        while st:
            t = st.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_ITE: return t.arg(0)
                st += t.children()
    return None
def find_ite(v):
    for a in v.d:
        x = _fi(a)
        if x is not None: return x
    return None
def _fi(a):
    if isinstance(a, VecVal):
        return None
    if isinstance(a, tuple):
        if a and a[0] == 'ite': return a[1].e
        if a and a[0] == 'vsum': return None
        for y in a:
            r = _fi(y)
            if r is not None: return r
    return None
def cut_ite(v, c, val):
    def rep(a):
        if a[0] == 'ite' and a[1].e.eq(c): return cut_ite(a[2] if val else a[3], c, val)
        if a[0] == 'ite': return cut_ite(a[2], c, val).ite(a[1].e, cut_ite(a[3], c, val))
        if a[0] == 'app': return app(a[1], rep(a[2]))
        if a[0] == 'prod': return prod(a[1], a[2], a[3], a[4], rep(a[5]))
        if a[0] == 'had': return had(rep(a[1]), rep(a[2]), a[3])
        return VecVal.atom(a)
    return v.map(rep)

def vec_eq(a, b, depth=0):
    """sufficient condition (z3 Bool) for equality"""
    a, b = norm(a), norm(b)
    d = a.sub(b)
    if not d.d: return z3.BoolVal(True)
    c = find_ite(a)
    if c is None: c = find_ite(b)
    if c is not None and depth < 10:
        x = vec_eq(cut_ite(a, c, True), cut_ite(b, c, True), depth+1)
        y = vec_eq(cut_ite(a, c, False), cut_ite(b, c, False), depth+1)
        return z3.And(z3.Implies(c, x), z3.Implies(z3.Not(c), y))
    left = {k: v for k, v in a.d.items()}; right = {k: v for k, v in b.d.items()}
    conds = []
    rest = [cs for m, o in ((left, right), (right, left)) for k, cs in m.items() if k not in o]
    if rest: rest += [cs for m, o in ((left, right), (right, left)) for k, cs in m.items() if k in o and not all(x.eq(y) for x, y in zip(cs, o[k]))]
    c = _coef_cond([x for cs in rest for x in cs], set()) if depth < 10 else None
    if c is None:
        for k in list(left):
            if k in right:
                e = c_eq(left[k], right[k])
                conds.append(to_bool(e)); del left[k], right[k]
    if c is not None:
        def cut(m, val):
            r = {}
            for k, cs in m.items():
                n = tuple(z3.simplify(z3.substitute(x, (c, z3.BoolVal(val)))) for x in cs)
                if not c_iszero(n): r[k] = n
            return VecVal(r)
        x = vec_eq(cut(left, True), cut(right, True), depth+1); y = vec_eq(cut(left, False), cut(right, False), depth+1)
        return z3.And(*conds, z3.Implies(c, x), z3.Implies(z3.Not(c), y))
    # remaining: pair by shape, equality of indices
    def vsums(m): return [k for k in m if k[0] == 'vsum']
    if depth < 9:
        for k in vsums(left):
            for q in vsums(right):
                if str(shape(k[1])) != str(shape(q[1])): continue
                n1, n2 = k[3]-k[2], q[3]-q[2]
                dd = n1 - n2
                if dd == Poly({}):
                    i = fresh_int("vs")
                    be = vec_eq(body_at(k, i).scale(left[k]), body_at(q, i + (q[2]-k[2])).scale(right[q]), depth+1)
                    if not z3.is_true(z3.simplify(be)):       # the same terms in the opposite order
                        rv = vec_eq(vtidy(body_at(k, i)).scale(left[k]), vtidy(body_at(q, q[3] - 1 - (i - k[2]))).scale(right[q]), depth+1)
                        if valid(rv): be = z3.BoolVal(True)
                    if z3.is_false(z3.simplify(be)): continue
                    conds.append(z3.ForAll([i.z()], z3.Implies(z3.And(k[2].z() <= i.z(), i.z() < k[3].z()), be)) if not z3.is_true(z3.simplify(be)) else z3.BoolVal(True))
                    del left[k], right[q]; break
                if dd.is_const() and 0 < abs(dd.const()) <= 3:
                    # unfold the longer sum at either end
                    big, small, isl = (k, q, True) if dd.const() > 0 else (q, k, False)
                    n = abs(dd.const()); alts = []
                    for end in (0, 1):
                        side = dict(left if isl else right); cf = side.pop(big); V = VecVal(side)
                        if end: nk = ('vsum', big[1], big[2], big[3]-n); at = big[3]-n
                        else: nk = ('vsum', big[1], big[2]+n, big[3]); at = big[2]
                        for j in range(n): V = V.add(body_at(big, at+j).scale(cf))
                        V = V.add(VecVal({nk: cf}))
                        L, Rr = (V, VecVal(right)) if isl else (VecVal(left), V)
                        e = vec_eq(L, Rr, depth+1)
                        if z3.is_false(z3.simplify(e)): continue
                        alts.append(e)
                    conds.append(to_bool(le(big[2], big[3]-n)))
                    return z3.And(*conds, z3.Or(*alts))
    for k in list(left):
        for q in list(right):
            if str(shape(k)) == str(shape(q)):
                ie = idx_eq(k, q)
                if ie is None: continue
                conds.append(z3.And(to_bool(ie), to_bool(c_eq(left[k], right[q]))))
                del left[k], right[q]; break
    for k, c in list(left.items()) + list(right.items()):
        conds.append(to_bool(c_eq(c, ZERO)))
    return z3.And(*conds) if conds else z3.BoolVal(True)

def valid(e):
    e = z3.simplify(e)
    if z3.is_true(e) or z3.is_false(e): return z3.is_true(e)
    s = z3.Solver(); s.set("rlimit", 300000); s.add(z3.Not(e)); return s.check() == z3.unsat
def idx_eq(a, b):
    if isinstance(a, Poly): return eq(a, b) if isinstance(b, Poly) else None
    if isinstance(a, Z): return a.e == b.e if isinstance(b, Z) and a.e.sort() == b.e.sort() else None
    if isinstance(a, VecVal):
        if not isinstance(b, VecVal): return None
        return vec_eq(a, b, 3)
    if isinstance(a, tuple):
        if not isinstance(b, tuple) or len(a) != len(b): return None
        r = []
        for x, y in zip(a, b):
            e = idx_eq(x, y)
            if e is None: return None
            r.append(e)
        return b_and(*r)
    return True if a == b else None

def inner(a, b):
    """<a|b> : conjugate-linear in a.  atoms' inner products are uninterpreted, with <y|x> = conj <x|y>"""
    re, im = R(0), R(0)
    for x, c in a.d.items():
        for y, e in b.d.items():
            cc = c_mul(c_conj(c), e)
            p, q, sg = x, y, 1
            if repr(q) < repr(p): p, q, sg = q, p, -1
            ix = [t for t in t_terms((p, q), [])]
            nm = f"<{shape(p)}|{shape(q)}>"
            r0 = uf_real("re" + nm, *ix) if ix else z3.Real("re" + nm)
            i0 = uf_real("im" + nm, *ix) if ix else z3.Real("im" + nm)
            if p == q: i0 = R(0)
            elif sg < 0: i0 = rneg(i0)
            t = c_mul(cc, (r0, i0))
            re, im = radd(re, t[0]), radd(im, t[1])
    return (re, im)
