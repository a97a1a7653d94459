"""Linear normal form of finite sums and of simple recursions, tried when an obligation is not proved as it stands: index-free factors leave the sum, a recursion
x' = x f(k) is a product, x' = x + g(k) a sum, (x,y)' = (x,y)(a + i b) a complex product.  Every rewriting is an identity of real arithmetic; where a term is cancelled against
a divisor, the solver first proves it nonzero over the range of the index."""
import itertools, z3
from term import *
from solve import limit
import laurent, loops

KZ = z3.Int("$lin")
def is_ite(x): return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE
def first_ite(e, seen):
    if e.get_id() in seen or not z3.is_app(e): return None
    seen.add(e.get_id())
    if not z3.is_arith(e): return None
    if is_ite(e): return e
    for c in e.children():
        r = first_ite(c, seen)
        if r is not None: return r
    return None
def leaves(e, cond=(), budget=None):
    """[(conditions, ite-free term)], or None when there are too many"""
    budget = budget if budget is not None else [12]; t = first_ite(e, set())
    if t is None:
        budget[0] -= 1; return [(cond, e)] if budget[0] >= 0 else None
    a = leaves(z3.substitute(e, (t, t.arg(1))), cond + (t.arg(0),), budget)
    b = a and leaves(z3.substitute(e, (t, t.arg(2))), cond + (z3.Not(t.arg(0)),), budget)
    return a + b if b else None
def free_ite(e, kz):
    """a condition of e that does not depend on the index"""
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        if is_ite(x) and z3.is_arith(x) and not contains(x.arg(0), kz): return x.arg(0)
        st.extend(x.children())
    return None
def assume_cond(e, c, val):
    out = []; st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        if is_ite(x) and x.arg(0).eq(c): out.append((x, x.arg(1) if val else x.arg(2)))
        st.extend(x.children())
    return z3.substitute(e, *out) if out else e
def conjuncts(c):
    if z3.is_and(c): return [x for k in c.children() for x in conjuncts(k)]
    if z3.is_not(c) and z3.is_or(c.arg(0)): return [x for k in c.arg(0).children() for x in conjuncts(z3.simplify(z3.Not(k)))]
    return [c]
def mono(m, terms):
    """term of a monomial"""
    n = [terms[t] for t, p in m for _ in range(max(p, 0))]; d = [terms[t] for t, p in m for _ in range(max(-p, 0))]
    r = z3.Product(n) if n else R(1)
    return r / z3.Product(d) if d else r
class Lin:
    def __init__(s, pc): s.pc = [p for p in pc if not isinstance(p, bool)]; s.cache = {}; s.n = 0
    def nonzero(s, dens, conds, lo, hi):
        for d in dens:
            q = limit(z3.Solver(), 2000); q.add(*s.pc); q.add(*conds)
            if lo is not None: q.add(KZ >= lo, KZ < hi)
            q.add(d == 0)
            if q.check() != z3.unsat: return False
        return True
    def entails(s, hyps, g):
        q = limit(z3.Solver(), 1000); q.add(*s.pc); q.add(*hyps); q.add(z3.Not(g)); return q.check() == z3.unsat
    def restrict(s, cs, lo, hi):
        """the range with its conditions on the index turned into limits where they are comparisons: (remaining conditions, lo, hi)"""
        cs = [x for c in cs for x in conjuncts(z3.simplify(c))]; kid = next(iter(from_z(KZ).atoms())); rest = []
        for c in cs:
            neg = z3.is_not(c); a = c.arg(0) if neg else c
            if not (z3.is_le(a) or z3.is_ge(a)) or not z3.is_int(a.arg(0)): rest.append(c); continue
            d = from_z(a.arg(0)) - from_z(a.arg(1)); d = d if z3.is_le(a) else P(0) - d; cf = d.coef(kid)      # d <= 0
            if cf is None or not cf[0].is_const() or abs(cf[0].const()) != 1 or contains(cf[1].z(), KZ): rest.append(c); continue
            up = cf[0].const() == 1; t = P(0) - cf[1] if up else cf[1]          # index <= t, index >= t
            if neg: up = not up; t = t + 1 if not up else t                     # index > t: from t + 1, index < t
            elif up: t = t + 1
            tz = t.z()
            if s.entails([], z3.And(lo <= tz, tz <= hi)): lo, hi = (lo, tz) if up else (tz, hi)
            elif s.entails([], tz >= hi if up else tz <= lo): pass
            else: rest.append(c)
        return [c for c in rest if not s.entails([KZ >= lo, KZ < hi], c)], lo, hi
    def sum(s, e, lo, hi):
        """sum_{KZ=lo}^{hi-1} e"""
        c = free_ite(e, KZ)
        if c is not None: return z3.If(c, s.sum(assume_cond(e, c, True), lo, hi), s.sum(assume_cond(e, c, False), lo, hi))
        ls = leaves(e)
        if ls is None: return loops.SUMS.make(e, KZ, from_z(lo), from_z(hi))
        tot = R(0)
        for cs, t in ls:
            den, cache = {}, {}
            laurent.CANCEL.clear()
            if not (z3.is_rational_value(t) and t.as_fraction() == 0): cs, lo_, hi_ = s.restrict(cs, lo, hi)
            else: continue
            try: nf = laurent.norm(t, den, cache)
            except laurent.TooBig: nf = None
            at = {k[1]: v[0] for k, v in cache.items() if isinstance(k, tuple)}
            if nf is None or not s.nonzero([at[x] for x in laurent.CANCEL], cs, lo_, hi_): nf = {((t.get_id(), 1),): 1}; terms = {t.get_id(): t}
            else: terms = at
            for m, q in nf.items():
                free = tuple(x for x in m if not contains(terms[x[0]], KZ)); dep = tuple(x for x in m if contains(terms[x[0]], KZ))
                d = mono(dep, terms)
                if cs: d = z3.If(z3.And(*cs) if len(cs) > 1 else cs[0], d, R(0))
                tot = tot + R(q) * mono(free, terms) * loops.SUMS.make(d, KZ, from_z(lo_), from_z(hi_))
        return tot
    def prod(s, e, lo, hi):
        c = free_ite(e, KZ)
        if c is not None: return z3.If(c, s.prod(assume_cond(e, c, True), lo, hi), s.prod(assume_cond(e, c, False), lo, hi))
        real = z3.is_real(e); F = loops.RPRODS if real else loops.PRODS; one = R(1) if real else z3.IntVal(1); ls = leaves(e); tot = one
        for cs, t in ls if ls is not None else [((), e)]:
            t = z3.simplify(t, som=True) if ls is not None else t
            if t.eq(one): continue
            cs, lo_, hi_ = s.restrict(cs, lo, hi) if cs else (cs, lo, hi)
            r = F.make(z3.If(z3.And(*cs) if len(cs) > 1 else cs[0], t, one) if cs else t, KZ, from_z(lo_), from_z(hi_)); tot = tot * (r.z() if isinstance(r, Poly) else r)
        return tot
    def rec(s, a):
        d, j, kk, ini, ps = loops.RECS.parts(a); Rs = d[3]
        B = [z3.substitute(b, (loops.RECS.kappa, KZ), *list(zip(d[1], ps))) for b in d[2]]; me = Rs[j]; others = [r for r in Rs if not r.eq(me)]; b = B[j]
        if not any(contains(b, o) for o in others):
            f = loops.real_factor(b, me)
            if f is not None and not any(contains(f, r) for r in Rs): return ini[j] * s.prod(f, z3.IntVal(0), kk)
            f = loops.split_linear(b, me)
            if f is not None and f[0] == 1 and not any(contains(f[1], r) for r in Rs): return z3.If(kk <= 0, ini[j], ini[j] + s.sum(f[1], z3.IntVal(0), kk))
        if len(Rs) == 2:
            den, cache = {}, {}
            try: n = [laurent.norm(x, den, cache) for x in B]
            except laurent.TooBig: return None
            ids = [r.get_id() for r in Rs]; terms = {k[1] if isinstance(k, tuple) else k: v[0] for k, v in cache.items()}
            def coef(nf, i):
                out = {}
                for m, q in nf.items():
                    if any(t == ids[i] and p == 1 for t, p in m): out[tuple(x for x in m if x[0] != ids[i])] = q
                return out
            def sub(nf): return all(sum(1 for t, p in m if t in ids and p == 1) == 1 and not any(contains(terms[t], r) for t, p in m if t not in ids for r in Rs) for m in nf)
            if den or not all(map(sub, n)): return None
            M = [[coef(n[x], y) for y in (0, 1)] for x in (0, 1)]; neg = lambda f: {m: -q for m, q in f.items()}
            val = lambda f: z3.Sum([R(q) * mono(m, terms) for m, q in f.items()]) if f else R(0)
            if M[0][0] == M[1][1] and M[0][1] == neg(M[1][0]):          # (x + i y)(a + i b)
                pr, pi = CPRODS.make(val(M[0][0]), val(M[1][0]), z3.IntVal(0), kk)
                return ini[0] * pr - ini[1] * pi if j == 0 else ini[1] * pr + ini[0] * pi
        return None
    def rewrite(s, f):
        """f with its sums, products and recursions in normal form (innermost first)"""
        k = f.get_id()
        if k in s.cache: return s.cache[k][1]
        r = f
        if z3.is_app(f) and f.num_args():
            ch = [s.rewrite(c) for c in f.children()]
            ds = [(y, x) for x, y in zip(ch, f.children()) if not x.eq(y)]
            if ds: r = z3.substitute(f, *ds)
            n = r.decl().name(); q = None
            if n.startswith("sum#"): q = s.sum(loops.SUMS.body_at(r, KZ), r.arg(0), r.arg(1))
            elif n.startswith("iprod#"): q = s.prod(loops.PRODS.body_at(r, KZ), r.arg(0), r.arg(1))
            elif n.startswith("rprod#"): q = s.prod(loops.RPRODS.body_at(r, KZ), r.arg(0), r.arg(1))
            elif n.startswith("rec#"): q = s.rec(r)
            if q is not None and not q.eq(r): r = q; s.n += 1
        s.cache[k] = (f, r); return r

class CProds:
    """finite complex products (pairs re, im); commutative, so the direction of the product does not matter"""
    def __init__(s): s.defs = {}; s.bykey = {}; s.kappa = z3.Int("kappac"); s.eqcache = {}
    def make(s, a, b, lo, hi):
        a, b = z3.simplify(a, som=True), z3.simplify(b, som=True); fc = dict(free_consts(a)); fc.update(free_consts(b)); kn = KZ.decl().name(); ps = [fc[n] for n in sorted(fc) if n != kn]; gen = []; sub = [(KZ, s.kappa)]
        for j, p in enumerate(ps):
            q = z3.Const(f"$c{j}_{p.sort().name()[0]}", p.sort()); gen.append(q); sub.append((p, q))
        A, B = (z3.simplify(z3.substitute(x, *sub), som=True) for x in (a, b)); key = (A.get_id(), B.get_id())
        if key not in s.bykey:
            i = len(s.bykey); fs = [z3.Function(f"cprod#{i}.{x}", z3.IntSort(), z3.IntSort(), *[q.sort() for q in gen], z3.RealSort()) for x in ("re", "im")]
            s.bykey[key] = (fs, gen, (A, B))
            for f in fs: s.defs[f.name()] = s.bykey[key]
        return [f(lo, hi, *ps) for f in s.bykey[key][0]]
    def at(s, d, ps, i): return [z3.substitute(x, (s.kappa, i), *list(zip(d[1], ps))) for x in d[2]]
    def axioms(s, fs):
        seen = set(); st = [f for f in fs if not isinstance(f, bool)]; info = {}
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() and x.decl().name().startswith("cprod#"):
                    d = s.defs[x.decl().name()]; ch = x.children(); info[(id(d),) + tuple(c.get_id() for c in ch)] = (d, ch[0], ch[1], ch[2:])
                st.extend(x.children())
        out = []; L = list(info.values()); val = lambda t: [f(t[1], t[2], *t[3]) for f in t[0][0]]
        for t in L:
            r, i = val(t); out.append(z3.Implies(t[2] <= t[1], z3.And(r == 1, i == 0)))
            n = from_z(t[2]) - from_z(t[1])
            if n.is_const() and 0 < n.const() <= 6:
                x = [R(1), R(0)]
                for k in range(n.const()):
                    y = s.at(t[0], t[3], (from_z(t[1]) + k).z()); x = [x[0]*y[0] - x[1]*y[1], x[0]*y[1] + x[1]*y[0]]
                out.append(z3.And(r == x[0], i == x[1]))
        for t, u in itertools.combinations(L, 2):
            if not (from_z(t[2]) - from_z(t[1])) == (from_z(u[2]) - from_z(u[1])): continue
            i = z3.Int(fresh_name("sk")); A = s.at(t[0], t[3], i)
            for j in (i + u[1] - t[1], u[2] - 1 + t[1] - i):
                B = s.at(u[0], u[3], z3.simplify(j)); g = z3.And(*[a == b for a, b in zip(A, B)])
                ok = z3.is_true(z3.simplify(g, som=True))
                if not ok:
                    q = limit(z3.Solver(), 2000); q.add(i >= t[1], i < t[2], z3.Not(g)); ok = q.check() == z3.unsat
                if ok: out += [a == b for a, b in zip(val(t), val(u))]; break
        return out
CPRODS = CProds()

def constants(fs):
    out = {}; st = [f for f in fs]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_rational_value(x): out[x.get_id()] = x
        st.extend(x.children())
    return out.values()
def snap(fs):
    """replacements that identify constants equal up to rounding (the compiler folds products of constants in floating point)"""
    vs = sorted(constants(fs), key=lambda x: abs(x.as_fraction())); out = []; last = None
    for x in vs:
        f = x.as_fraction()
        if last is not None and f * last.as_fraction() > 0 and abs(f - last.as_fraction()) * 2**50 < abs(f): out.append((x, last))
        else: last = x
    return out
def sides(f):
    """the formula with the sides of its equalities in normal form"""
    if z3.is_app(f) and z3.is_bool(f):
        if z3.is_eq(f) and z3.is_real(f.arg(0)): return z3.simplify(f.arg(0), som=True) == z3.simplify(f.arg(1), som=True)
        ch = [sides(c) for c in f.children()]; ds = [(y, x) for x, y in zip(ch, f.children()) if not x.eq(y)]
        return z3.substitute(f, *ds) if ds else f
    return f
def retry(S, pc, goal):
    """second attempt at an obligation, in normal form"""
    import os
    L = Lin(pc); pc2 = [L.rewrite(p) if not z3.is_quantifier(p) else p for p in pc]; g = L.rewrite(goal)
    if not L.n and not snap([sides(goal)]): return False
    old = [(x, getattr(x, "under", False)) for x in (loops.SUMS, loops.RPRODS)]
    for x, _ in old: x.under = True
    try:
        fs = list(pc2) + [g]; ax = S.axioms_for(fs) + CPRODS.axioms(fs)
    finally:
        for x, v in old: x.under = v
    eqs = [(a.arg(0), a.arg(1)) for a in ax if z3.is_eq(a) and z3.is_real(a.arg(0)) and a.arg(0).num_args()]
    h = sides(z3.substitute(g, *eqs)); cs = snap([h]); h = z3.simplify(z3.substitute(h, *cs), som=True)
    if z3.is_true(h): return True
    q = limit(z3.Solver(), 5000); q.add(*pc2); q.add(*ax); q.add(z3.Not(h))
    if os.environ.get("DV_LIN"): print("[linear]", h, eqs[:6], cs, ax[-6:])
    return q.check() == z3.unsat
