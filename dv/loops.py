"""Loop rule.  For every loop the verifier infers a closed form of the state after k iterations (k ghost),
then *checks* it as an inductive invariant (initiation by construction at k=0, preservation k -> k+1 as obligations)."""
import itertools, z3
from term import *
from term import _atoms
from mem import *
from solve import *

MAXUNROLL = 40

def do_loop(ex, st0, vals0, fr, h, frm):
    F = fr.F; body = F.loops[h]
    vals = dict(vals0)
    ex.phis(st0, vals, fr, frm, h)
    r = try_unroll(ex, st0, vals, fr, h, frm, body)
    if r is not None: return r
    return symbolic(ex, st0, vals, fr, h, frm, body)

def one_iter(ex, st, vals, fr, h, body, k=None, uid=None):
    ex.loopks.append((k, uid))
    try: return ex.run(st, fr, vals, h, -1, None, (h, body))
    finally: ex.loopks.pop()

def try_unroll(ex, st0, vals, fr, h, frm, body):
    """concrete unrolling of loops whose trip count the path condition decides"""
    def attempt(limit):
        res = []; cur = [(st0.copy(), dict(vals))]
        for it in range(limit):
            nxt = []
            for s, v in cur:
                outs = one_iter(ex, s, dict(v), fr, h, body)
                kinds = set(o[0] for o in outs)
                if 'back' in kinds and 'exit' in kinds: return None
                for o in outs:
                    if o[0] == 'back':
                        v2 = dict(o[2]); ex.phis(o[1], v2, fr, o[3], h); nxt.append((o[1], v2))
                    else: res.append(o)
            cur = nxt
            if not cur: return res
            if len(cur) > 64: return None
        return None
    # cheap look-ahead: is the first header decision already undecided?
    if ex.quiet:
        return attempt(MAXUNROLL)
    ex.quiet += 1; so = len(ex.obls)
    try:
        r = attempt(MAXUNROLL)
    except Unsupported:
        r = None
    finally:
        ex.quiet -= 1
    if r is None: return None
    return attempt(MAXUNROLL)

# -------------------------------------------------------------------------------------------------
class Sums:
    """finite sums as uninterpreted functions with definitional axioms"""
    under = False
    loose = False           # also compare sums whose limits are equal only under the assumptions
    def __init__(self):
        self.defs = {}     # id -> (fn, kappa, params, body)
        self.bykey = {}
        self.kappa = z3.Int("kappa")
        self.eqcache = {}
    def make(self, g, kz, lo, hi):
        """sum_{k=lo}^{hi-1} g(k)"""
        lo, hi = P(lo), P(hi)
        if lo == hi: return R(0)
        if not self.loose: g = z3.simplify(g, som=True)
        if z3.is_rational_value(g) and g.as_fraction() == 0: return R(0)
        fc = free_consts(g); kn = kz.decl().name()
        for n in sorted(fc):       # g depends on kz + c only: the same sum with shifted limits
            if n == kn or fc[n].sort() != z3.IntSort(): continue
            h = z3.simplify(z3.substitute(g, (kz, kz - fc[n])), som=True)
            if n not in free_consts(h): g = h; lo, hi = lo + from_z(fc[n]), hi + from_z(fc[n]); break
        fc = free_consts(g)
        ps = [fc[n] for n in sorted(fc) if n != kn]
        sub = [(kz, self.kappa)]
        gen = []
        for j, p in enumerate(ps):
            q = z3.Const(f"$p{j}_{p.sort().name()[0]}", p.sort()); gen.append(q); sub.append((p, q))
        body = z3.substitute(g, *sub)
        if not self.loose: body = z3.simplify(body, som=True)
        key = body.get_id()
        d = self.bykey.get(key)
        if d is None:
            i = len(self.defs)
            f = z3.Function(f"sum#{i}", z3.IntSort(), z3.IntSort(), *[q.sort() for q in gen], z3.RealSort())
            d = (f, gen, body); self.defs[f"sum#{i}"] = d; self.bykey[key] = d
        return d[0](lo.z(), hi.z(), *ps)
    def body_at(self, app, i):
        f, gen, body = self.defs[app.decl().name()]
        ch = app.children()
        return z3.substitute(body, (self.kappa, i), *[(q, a) for q, a in zip(gen, ch[2:])])
    def apps(self, fs):
        out = {}; seen = set(); st = list(fs)
        while st:
            x = st.pop()
            if isinstance(x, bool): continue
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(x):
                if x.num_args() and x.decl().name().startswith("sum#"): out[i] = x
                st.extend(x.children())
        return list(out.values())
    def axioms(self, fs):
        A = self.apps(fs)
        if not A: return []
        out = []
        info = [(a, from_z(a.children()[0]), from_z(a.children()[1])) for a in A]
        for a, lo, hi in info:
            out.append(z3.Implies(hi.z() <= lo.z(), a == 0))
            if self.nonneg(a): out.append(a >= 0)
            n = hi - lo
            if n.is_const() and 0 < n.const() <= 6:
                out.append(a == z3.Sum([self.body_at(a, (lo + j).z()) for j in range(n.const())]))
        # unfold: neighbours with the same function and params
        for x in range(len(info)):
            a, lo, hi = info[x]
            for y in range(len(info)):
                if x == y: continue
                b, lo2, hi2 = info[y]
                if a.decl().eq(b.decl()) and all(p.eq(q) for p, q in zip(a.children()[2:], b.children()[2:])):
                    if lo == lo2 and (hi2 - hi).is_const() and 0 < (hi2 - hi).const() <= 3:
                        s = a
                        for j in range((hi2-hi).const()): s = s + self.body_at(a, (hi + j).z())
                        out.append(z3.Implies(lo.z() <= hi.z(), b == s))
                    if hi == hi2 and (lo - lo2).is_const() and 0 < (lo - lo2).const() <= 3:
                        s = a
                        for j in range((lo-lo2).const()): s = s + self.body_at(a, (lo2 + j).z())
                        out.append(z3.Implies(lo.z() <= hi.z(), b == s))
        # adjacent intervals of the same sum
        for x in range(len(info)):
            a, lo, hi = info[x]
            for y in range(len(info)):
                b, lo2, hi2 = info[y]
                if x == y or lo2 != hi or not a.decl().eq(b.decl()) or not all(p.eq(q) for p, q in zip(a.children()[2:], b.children()[2:])): continue
                for c, lo3, hi3 in info:
                    if lo3 == lo and hi3 == hi2 and c.decl().eq(a.decl()) and all(p.eq(q) for p, q in zip(a.children()[2:], c.children()[2:])):
                        out.append(z3.Implies(z3.And(lo.z() <= hi.z(), hi.z() <= hi2.z()), c == a + b))
        # extensional equality (shift and reversal)
        for x in range(len(info)):
            for y in range(x):
                a, lo, hi = info[x]; b, lo2, hi2 = info[y]
                if a.eq(b): continue
                n1 = hi - lo; n2 = hi2 - lo2; d = n1 - n2
                if d == Poly({}):
                    out += self.match(a, lo, hi, b, lo2, hi2, fs)
                elif self.loose and not d.is_const() and lo == lo2: out += [z3.Implies(hi.z() == hi2.z(), x) for x in self.match(a, lo, hi, b, lo2, hi2, fs)]
                elif d.is_const() and 0 < abs(d.const()) <= 2:
                    # unfold the longer one at either end, then match
                    if d.const() < 0: a, lo, hi, b, lo2, hi2 = b, lo2, hi2, a, lo, hi
                    c = abs(d.const())
                    af = a.decl()(*([(lo + c).z()] + a.children()[1:]))
                    ab = a.decl()(*([lo.z(), (hi - c).z()] + a.children()[2:]))
                    sf = af; sb = ab
                    for j in range(c):
                        sf = sf + self.body_at(a, (lo + j).z()); sb = sb + self.body_at(a, (hi - 1 - j).z())
                    ok = z3.And(lo2.z() <= hi2.z())
                    m1 = self.match(af, lo + c, hi, b, lo2, hi2, fs)
                    if m1: out += m1 + [z3.Implies(ok, a == sf)]
                    m2 = self.match(ab, lo, hi - c, b, lo2, hi2, fs)
                    if m2: out += m2 + [z3.Implies(ok, a == sb)]
        return out
    def nonneg(self, a):
        # a sum of terms that are non-negative for every parameter value
        nm = a.decl().name(); r = self.__dict__.setdefault("nn", {}).get(nm)
        if r is None:
            s = limit(z3.Solver(), 1500); s.add(self.defs[nm][2] < 0)
            r = self.nn[nm] = s.check() == z3.unsat
        return r
    def match(self, a, lo, hi, b, lo2, hi2, fs):
        if a.eq(b): return [z3.BoolVal(True)]
        key = (a.get_id(), b.get_id()) + (("under",) if self.under else ())
        r = self.eqcache.get(key)
        if r is not None: return r[0]
        self.eqcache[key] = ([], a, b)
        i = z3.Int(fresh_name("sk"))
        A = self.body_at(a, i)
        res = []
        for B in (self.body_at(b, i + (lo2 - lo).z()), self.body_at(b, (hi2 - 1 + lo).z() - i)):
            e = z3.simplify(A == B, som=True)
            if z3.is_true(e): res = [a == b]; break
            if z3.is_false(e): continue
            s = limit(z3.Solver(), 3000)
            s.add(i >= lo.z(), i < hi.z(), z3.Not(A == B))
            for ax in self.axioms([A, B]) if self.apps([A, B]) else []: s.add(ax)
            if s.check() == z3.unsat: res = [a == b]; break
            if (self.loose or self.under) and len(fs) > 1:          # ... under the assumptions of this obligation
                hyp = [f for f in fs[:-1] if not isinstance(f, bool) and not z3.is_quantifier(f)]; s.add(*hyp)
                if s.check() == z3.unsat: res = [z3.Implies(z3.And(*hyp), a == b)]; break
        if (self.loose or self.under) and not res:
            del self.eqcache[key]; n = self.tried[key] = self.__dict__.setdefault("tried", {}).get(key, 0) + 1
            if n < 6: return res
        self.eqcache[key] = (res, a, b)
        return res

SUMS = Sums()

class Prods(Sums):
    """finite integer products as uninterpreted functions with definitional axioms (empty product = 1)"""
    pre = "iprod#"; sort = staticmethod(z3.IntSort); least = True
    def __init__(self):
        super().__init__(); self.kappa = z3.Int("kappaprod")
    def make(self, g, kz, lo, hi):
        """prod_{k=lo}^{hi-1} g(k), as a Poly"""
        lo, hi = P(lo), P(hi)
        one = R(1) if self.pre == "rprod#" else P(1)
        if lo == hi: return one
        g = g if self.pre == "rprod#" else P(g).z()
        if not self.loose: g = z3.simplify(g, som=True)
        if z3.is_int_value(g) and g.as_long() == 1 or z3.is_rational_value(g) and g.as_fraction() == 1: return one
        fc = free_consts(g); kn = kz.decl().name()
        ps = [fc[n] for n in sorted(fc) if n != kn]; sub = [(kz, self.kappa)]; gen = []
        for j, p in enumerate(ps):
            q = z3.Const(f"$p{j}_{p.sort().name()[0]}", p.sort()); gen.append(q); sub.append((p, q))
        body = z3.substitute(g, *sub); body = body if self.loose else z3.simplify(body, som=True); d = self.bykey.get(body.get_id())
        if d is None:
            i = len(self.defs); f = z3.Function(f"{self.pre}{i}", z3.IntSort(), z3.IntSort(), *[q.sort() for q in gen], self.sort())
            d = (f, gen, body); self.defs[f"{self.pre}{i}"] = d; self.bykey[body.get_id()] = d
        r = d[0](lo.z(), hi.z(), *ps); return r if self.pre == "rprod#" else from_z(r)
    def apps(self, fs):
        out = {}; seen = set(); st = list(fs)
        while st:
            x = st.pop()
            if isinstance(x, bool): continue
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_quantifier(x): continue
            if z3.is_app(x):
                if x.num_args() and x.decl().name().startswith(self.pre): out[i] = x
                st.extend(x.children())
        return list(out.values())
    def axioms(self, fs):
        A = self.apps(fs)
        if not A: return []
        out = []; info = [(a, from_z(a.children()[0]), from_z(a.children()[1])) for a in A]
        same = lambda a, b: a.decl().eq(b.decl()) and all(p.eq(q) for p, q in zip(a.children()[2:], b.children()[2:]))
        for a, lo, hi in info:
            out.append(z3.Implies(hi.z() <= lo.z(), a == 1)); j = z3.Int("$jp")
            if self.least: out.append(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(lo.z() <= j, j < hi.z()), self.body_at(a, j) >= 1)), a >= 1))
            n = hi - lo
            if n.is_const() and 0 < n.const() <= 6:
                p = self.body_at(a, lo.z())
                for t in range(1, n.const()): p = p * self.body_at(a, (lo + t).z())
                out.append(a == p)
        for a, lo, hi in info:
            for b, lo2, hi2 in info:
                if a.eq(b) or not same(a, b): continue
                for d, at in (((hi2 - hi), hi) if lo == lo2 else (None, None), ((lo - lo2), lo2) if hi == hi2 else (None, None)):
                    if d is not None and d.is_const() and 0 < d.const() <= 3:
                        p = a
                        for t in range(d.const()): p = p * self.body_at(a, (at + t).z())
                        out.append(z3.Implies(lo.z() <= hi.z(), b == p))
                if lo2 == hi:
                    for c, lo3, hi3 in info:
                        if lo3 == lo and hi3 == hi2 and same(a, c): out.append(z3.Implies(z3.And(lo.z() <= hi.z(), hi.z() <= hi2.z()), c == a * b))
        for x in range(len(info)):
            for y in range(x):
                a, lo, hi = info[x]; b, lo2, hi2 = info[y]
                if a.eq(b): continue
                if (hi - lo) == (hi2 - lo2): out += self.match(a, lo, hi, b, lo2, hi2, fs)
                elif self.loose and not ((hi - lo) - (hi2 - lo2)).is_const() and lo == lo2: out += [z3.Implies(hi.z() == hi2.z(), x) for x in self.match(a, lo, hi, b, lo2, hi2, fs)]
        return out
PRODS = Prods()

class RealProds(Prods):
    """the same over the reals"""
    pre = "rprod#"; sort = staticmethod(z3.RealSort); least = False
RPRODS = RealProds()

def real_factor(v, old):
    """v = old * g (reals), also through if-then-else: g, or None"""
    if v.eq(old): return R(1)
    if not contains(v, old): return None
    k = v.decl().kind(); ch = v.children()
    if k == z3.Z3_OP_MUL:
        at = [i for i, x in enumerate(ch) if contains(x, old)]
        if len(at) != 1: return None
        g = real_factor(ch[at[0]], old)
        for i, x in enumerate(ch):
            if i != at[0] and g is not None: g = rmul(g, x)
        return g
    if k == z3.Z3_OP_ITE and not contains(ch[0], old):
        a, b = real_factor(ch[1], old), real_factor(ch[2], old)
        return None if a is None or b is None else ite(ch[0], a, b)
    return None


class Recs:
    """primitive recursions  r(0) = init,  r(k+1) = body(k, r(k))  over groups of reals, as uninterpreted functions with definitional axioms"""
    def __init__(self):
        self.defs = {}; self.bykey = {}; self.eqcache = {}
        self.kappa = z3.Int("kapparec")
    def define(self, bodies, phs, kz, inits):
        """bodies: next values as terms over the placeholder constants phs and kz.  -> list of functions kk -> term"""
        fc = {}
        for b in bodies: fc.update(free_consts(b))
        names = {p.decl().name() for p in phs} | {kz.decl().name()}
        ps = [fc[n] for n in sorted(fc) if n not in names]
        sub = [(kz, self.kappa)]
        R_ = [z3.Real(f"$r{j}") for j in range(len(phs))]; sub += list(zip(phs, R_))
        gen = []
        for j, p in enumerate(ps):
            q = z3.Const(f"$q{j}_{p.sort().name()[0]}", p.sort()); gen.append(q); sub.append((p, q))
        B = [z3.simplify(z3.substitute(b, *sub), som=True) for b in bodies]
        key = tuple(b.get_id() for b in B)
        d = self.bykey.get(key)
        if d is None:
            i = len(self.bykey)
            fs = [z3.Function(f"rec#{i}.{j}", z3.IntSort(), *([z3.RealSort()] * len(phs)), *[q.sort() for q in gen], z3.RealSort()) for j in range(len(phs))]
            d = (fs, gen, B, R_); self.bykey[key] = d
            for j, f in enumerate(fs): self.defs[f.name()] = (d, j)
        return [(lambda kk, f=f: f(P(kk).z(), *inits, *ps)) for f in d[0]]
    def parts(self, a):
        d, j = self.defs[a.decl().name()]; ch = a.children(); m = len(d[0])
        return d, j, ch[0], ch[1:1+m], ch[1+m:]
    def step(self, d, kk, inits, ps):
        """values at kk+1 from those at kk"""
        cur = [f(kk, *inits, *ps) for f in d[0]]
        return [z3.substitute(b, (self.kappa, kk), *list(zip(d[3], cur)), *list(zip(d[1], ps))) for b in d[2]]
    def apps(self, fs):
        out = {}; seen = set(); st = list(fs)
        while st:
            x = st.pop()
            if isinstance(x, bool): continue
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(x):
                if x.num_args() and x.decl().name().startswith("rec#"): out[i] = x
                st.extend(x.children())
        return list(out.values())
    def axioms(self, fs):
        A = self.apps(fs)
        if not A: return []
        out = []; info = []; seen = set()
        for a in A:
            d, j, kk, ini, ps = self.parts(a)
            out.append(z3.Implies(kk <= 0, a == ini[j]))
            p = from_z(kk)
            info.append((a, d, j, p, ini, ps))
            if p.is_const() and 0 < p.const() <= 6:
                for t in range(p.const()):
                    nx = self.step(d, z3.IntVal(t), ini, ps)
                    for f, v in zip(d[0], nx): out.append(f(z3.IntVal(t + 1), *ini, *ps) == v)
                for f, i0 in zip(d[0], ini): out.append(f(z3.IntVal(0), *ini, *ps) == i0)
        for a, d, j, p, ini, ps in info:
            for b, d2, j2, p2, ini2, ps2 in info:
                if d is d2 and (p2 - p) == P(1) and all(x.eq(y) for x, y in zip(list(ini) + list(ps), list(ini2) + list(ps2))):
                    nx = self.step(d, p.z(), ini, ps)
                    out.append(z3.Implies(p.z() >= 0, b == nx[j2]))
        for x in range(len(info)):
            for y in range(x):
                a, d, j, p, ini, ps = info[x]; b, d2, j2, p2, ini2, ps2 = info[y]
                if a.eq(b) or p != p2 or len(d[0]) != len(d2[0]): continue
                for pm in itertools.permutations(range(len(d[0]))) if len(d[0]) <= 3 else [tuple(range(len(d[0])))]:
                    if pm[j] == j2 and self.same(d, ini, ps, d2, ini2, ps2, pm): out.append(a == b); break
        return out
    def same(self, d, ini, ps, d2, ini2, ps2, pm):
        """component j of the first recursion equals component pm[j] of the second (checked by induction)"""
        key = tuple(x.get_id() for x in list(ini) + list(ps) + list(ini2) + list(ps2)) + (id(d), id(d2), pm)
        r = self.eqcache.get(key)
        if r is not None: return r[0]
        self.eqcache[key] = (False, (ini, ps, ini2, ps2))
        kk = z3.Int(fresh_name("rk")); m = len(d[0])
        r1 = [z3.Real(fresh_name("ra")) for _ in range(m)]; r2 = [None] * m
        for j in range(m): r2[pm[j]] = r1[j]
        A = [z3.substitute(b, (self.kappa, kk), *list(zip(d[3], r1)), *list(zip(d[1], ps))) for b in d[2]]
        B = [z3.substitute(b, (self.kappa, kk), *list(zip(d2[3], r2)), *list(zip(d2[1], ps2))) for b in d2[2]]
        g = z3.And(*[ini[j] == ini2[pm[j]] for j in range(m)], *[A[j] == B[pm[j]] for j in range(m)])
        s = limit(z3.Solver(), 3000); s.add(kk >= 0, z3.Not(g))
        ok = z3.is_true(z3.simplify(g, som=True)) or s.check() == z3.unsat
        self.eqcache[key] = (ok, (ini, ps, ini2, ps2))
        return ok
RECS = Recs()

# -------------------------------------------------------------------------------------------------
def split_linear(v, old):
    """v = c*old + rest with c in {0,1} uniformly; returns (c, rest) or None.  v z3 Real term"""
    if v.eq(old): return (1, R(0))
    if not contains(v, old): return (0, v)
    k = v.decl().kind(); ch = v.children()
    if k == z3.Z3_OP_ADD:
        c = 0; rs = []
        for x in ch:
            r = split_linear(x, old)
            if r is None: return None
            c += r[0]; rs.append(r[1])
        if c > 1: return None
        s = R(0)
        for x in rs: s = radd(s, x)
        return (c, s)
    if k == z3.Z3_OP_SUB:
        r0 = split_linear(ch[0], old)
        if r0 is None: return None
        s = r0[1]
        for x in ch[1:]:
            r = split_linear(x, old)
            if r is None or r[0] != 0: return None
            s = rsub(s, r[1])
        return (r0[0], s)
    if k == z3.Z3_OP_ITE:
        a = split_linear(ch[1], old); b = split_linear(ch[2], old)
        if a is None or b is None or a[0] != b[0] or contains(ch[0], old): return None
        return (a[0], ite(ch[0], a[1], b[1]))
    s = z3.simplify(v, som=True)
    if not s.eq(v): return split_linear(s, old)
    return None

def zsub(v, pairs):
    """substitute in a value; pairs: (z3 const, replacement z3/Poly)"""
    ps = [(a, b.z() if isinstance(b, Poly) else b) for a, b in pairs]
    if isinstance(v, Poly): return from_z(z3.substitute(v.z(), *ps))
    if isinstance(v, bool): return v
    if isinstance(v, z3.ExprRef): return z3.substitute(v, *ps)
    if hasattr(v, "zsub"): return v.zsub(ps)
    if isinstance(v, Ptr): return Ptr(v.fam, [zsub(i, pairs) for i in v.ix], zsub(v.off, pairs)) if v.fam else v
    return v

def val_contains_fn(v, name):
    if isinstance(v, Poly): return contains_fn(v.z(), name)
    if isinstance(v, z3.ExprRef): return contains_fn(v, name)
    if hasattr(v, "contains_fn"): return v.contains_fn(name)
    if isinstance(v, Ptr): return any(contains_fn(i.z(), name) for i in v.ix) or contains_fn(v.off.z(), name)
    return False
def val_has_const(v, c):
    if isinstance(v, Poly): return contains(v.z(), c)
    if isinstance(v, z3.ExprRef): return contains(v, c)
    if hasattr(v, "has_const"): return v.has_const(c)
    if isinstance(v, Ptr): return any(contains(i.z(), c) for i in v.ix) or contains(v.off.z(), c)
    return False

def orig_col(ex, st, key, c):
    """the column as it was before its first access"""
    fam = st.fams[key[0]]; b = fam.bases.get(key[1])
    if key[1] == '#dead': b = c.base
    if b is None: b = c.base if c.kind == 'v' else ex.default_base(fam, key[1], c.kind)
    return Column(c.kind, b)

class Hv:
    """havoced column: fresh base"""
    def __init__(s, kind, key, arity):
        s.kind = kind; s.name = fresh_name(f"H[{key[0].split('!')[0]}.{key[1]}]"); s.arity = arity
    def at(s, X):
        if s.kind == 'd': return uf_real(s.name, *X) if X else z3.Real(s.name)
        if s.kind == 'i': return uf_int(s.name, *X) if X else Poly.atom(z3.Int(s.name))
        if s.kind == 'v':
            import vec; return vec.VecVal.atom(('H', s.name) + tuple(X))
        raise Unsupported(f"loop modifies pointer column {s.name}")

def col_arity(col, fam, field):
    for u in col.ups: return len(u.comps)
    n = fam.arity
    if fam.kind == 'array': n += len(fam.radix) if fam.radix else 1
    if isinstance(field, tuple): n += 1
    return n

def fresh_X(n): return tuple(fresh_int("x") for _ in range(n))

def symbolic(ex, st0, vals0, fr, h, frm, body):
    F = fr.F
    ex.loopstats["loops"] += 1
    ckey = (fr.chain, h)
    puid = next((u for kk, u in reversed(ex.loopks) if kk is not None), None)
    uid = f"{puid}/{_short(F.name)}.{h}" if puid else f"{_short(F.name)}.{h}~{fresh_name('L')}"
    while uid in st0.trace: uid += "+"
    st0 = st0.copy(); st0.trace = st0.trace + (uid,)
    cache = ex.__dict__.setdefault("loopcache", {})
    phis = [I for I in F.blocks[h].ins if I.op == 'phi']
    init = {I.res[1]: vals0[I.res[1]] for I in phis}
    M = set(cache.get(ckey, ()))
    bad = ex.__dict__.setdefault("loopbad", {}).setdefault(ckey, set())
    M = {k for k in M if k[0] in st0.fams}
    st0 = st0.copy()
    # ---------------- detection
    nprobe = 0
    while True:
        nprobe += 1
        if nprobe > 8: raise Unsupported("loop detection diverges")
        hv = {}; stH = st0.copy()
        for key in M:
            c = st0.mem.get(key)
            if c is None: continue
            fam = st0.fams[key[0]]
            if c.kind == 'p': continue
            H = Hv(c.kind, key, col_arity(c, fam, key[1])); hv[key] = H
            stH.mem[key] = Column(c.kind, H.at)
        vH = dict(vals0); ph = {}
        for I in phis:
            v = init[I.res[1]]; ph[I.res[1]] = havoc_val(v, I); vH[I.res[1]] = ph[I.res[1]]
        ex.quiet += 1
        try:
            for up in (True, False):      # guess for the probe only: counters do not go below (or above) their start
                stG = stH.copy(); some = False
                for I in phis:
                    p = ph[I.res[1]]; v = init[I.res[1]]
                    if isinstance(p, Poly) and p != v: stG.assume(le(v, p) if up else le(p, v)); some = True
                if up: guess_counters(stG, st0, hv)
                try: outs = one_iter(ex, stG, dict(vH), fr, h, body)
                except Unsupported: outs = []
                if not some or any(o[0] == 'back' for o in outs): break
            if not any(o[0] == 'back' for o in outs): outs = one_iter(ex, stH.copy(), dict(vH), fr, h, body)
        finally: ex.quiet -= 1
        new = set(); changed = False
        for o in outs:
            if o[0] != 'back': continue
            for key, c in o[1].mem.items():
                if key[0] not in st0.fams: continue
                c0 = stH.mem.get(key)
                if c0 is None:
                    # first touched inside the loop: materialise its content before the loop
                    st0.mem[key] = orig_col(ex, st0, key, c); changed = True
                    if c.ups: new.add(key)
                    continue
                if c is not c0 and (c.ups != c0.ups or c.base is not c0.base): new.add(key)
        if new <= M and not changed: break
        M |= new
    cache[ckey] = set(M)
    M = {k for k in M if k in st0.mem}
    backs = [o for o in outs if o[0] == 'back']
    if not backs:
        # body never loops back: run once, loudly
        return one_iter(ex, st0, dict(vals0), fr, h, body)
    # ---------------- linear integer phis / pointers
    nexts = []
    for o in backs:
        v2 = dict(o[2]); ex.phis(o[1], v2, fr, o[3], h); nexts.append(v2)
    havoc_consts = set()
    for I in phis:
        p = ph[I.res[1]]
        if isinstance(p, Poly): havoc_consts.update(_atoms[a].get_id() for a in p.atoms() if p != init[I.res[1]])
        elif isinstance(p, z3.ExprRef) and not z3.is_rational_value(p) and not p.eq(init[I.res[1]]): havoc_consts.add(p.get_id())
    hvnames = [H.name for H in hv.values()]
    inner_lo = _mark
    def invariant(v):
        z = v.z() if isinstance(v, Poly) else v
        for c in free_consts(z).values():
            if c.get_id() in havoc_consts: return False
            if c.decl().name() in hvnames: return False
        if any(contains_fn(z, n) for n in hvnames): return False
        return True
    k = fresh_int("k"); kz = k.z(); kid = list(k.atoms())[0]
    lin = {}      # res -> delta
    for I in phis:
        r = I.res[1]; p = ph[r]
        if isinstance(p, Poly):
            d = nexts[0][r] - p
            if all((n[r] - p) == d for n in nexts) and invariant(d) and not _body_fresh(d, st0, ex): lin[r] = d
        elif isinstance(p, Ptr) and p.fam is not None:
            ns = [n[r] for n in nexts]
            if all(isinstance(x, Ptr) and x == p for x in ns): lin[r] = None   # unchanged
            elif all(isinstance(x, Ptr) and x.fam == p.fam and x.ix == p.ix for x in ns):
                d = ns[0].off - p.off
                if all((x.off - p.off) == d for x in ns) and invariant(d): lin[r] = d
                else: return shapes(ex, st0, vals0, fr, h, body)
            else:
                return shapes(ex, st0, vals0, fr, h, body)
        elif isinstance(p, Ptr):
            if all(n[r] == p for n in nexts): lin[r] = None
            else: return shapes(ex, st0, vals0, fr, h, body)
    def closed_phi(r, kk):
        v = init[r]; d = lin[r]
        if d is None: return v
        if isinstance(v, Ptr): return v.add(d * kk)
        return v + d * kk
    scal = {}; cols = {}
    for refine in range(4):
        ncl = len(scal) + len(cols)
        # ---------------- second probe in terms of k (repeated while loop-allocated objects are being discovered)
        for _round in range(6):
            stH = st0.copy(); hv = {}
            stH.assume(le(0, k))
            for key in M:
                c = st0.mem[key]; fam = st0.fams[key[0]]
                if key in cols: stH.mem[key] = cols[key](k); continue      # already in closed form (later refinement rounds)
                if c.kind == 'p': continue
                H = Hv(c.kind, key, col_arity(c, fam, key[1])); hv[key] = H
                stH.mem[key] = Column(c.kind, H.at)
            vH = dict(vals0); ph = {}
            for I in phis:
                r = I.res[1]
                ph[r] = closed_phi(r, k) if r in lin else scal[r](k) if r in scal else havoc_val(init[r], I)
                vH[r] = ph[r]
            hvnames = [H.name for H in hv.values()]
            ex.quiet += 1
            try:
                try: outs = one_iter(ex, stH.copy(), dict(vH), fr, h, body, k, uid)
                except Unsupported:
                    if not guess_counters(stH, st0, hv): raise
                    outs = one_iter(ex, stH.copy(), dict(vH), fr, h, body, k, uid)
            finally: ex.quiet -= 1
            backs = [o for o in outs if o[0] == 'back']
            grow = False
            for o in outs:
                for fn, fam in o[1].fams.items():
                    if fn not in st0.fams and uid in fn: st0.fams[fn] = fam; grow = True
            for o in backs:
                for key, c in o[1].mem.items():
                    if key[0] not in st0.fams or key in M: continue
                    c0 = stH.mem.get(key)
                    if c0 is None:
                        st0.mem[key] = orig_col(ex, st0, key, c); grow = True
                        if c.ups: M.add(key)
                    elif c is not c0 and (c.ups != c0.ups or c.base is not c0.base): M.add(key); grow = True
            if not grow: break
        nexts = []
        for o in backs:
            v2 = dict(o[2]); ex.phis(o[1], v2, fr, o[3], h); nexts.append(v2)
        n0 = len(stH.pc)
        # trip-count candidates
        Ts = []
        for o in backs:
            for c in o[1].pc[n0:]:
                for T in trip(c, kid):
                    if any(contains_fn(T.z(), n) for n in hvnames): continue
                    if T not in Ts and not _newer(T, kid): Ts.append(T)
        facts = []
        bounds = []
        common = None
        for T in Ts:
            # must bound every back path
            if all(any(T == T2 for c in o[1].pc[n0:] for T2 in trip(c, kid)) for o in backs):
                bounds.append(T)
        # also exact trip counts from != conditions are covered by trip()
        ex.wst = backs[0][1]
        # ---------------- synthesis for scalars (phis) and columns
        path_conds = [b_and(*_distinguishing(o[1].pc[n0:], [b[1].pc[n0:] for b in backs])) for o in backs]
        for I in phis:
            r = I.res[1]
            if r in lin or r in scal or ('phi', r) in bad: continue
            p = ph[r]
            v = nexts[0][r]
            for pcnd, n in list(zip(path_conds, nexts))[1:]:
                if same_val(n[r], v): continue
                v = ite(pcnd, n[r], v)
            if __import__('os').environ.get('DV_DEBUG'): print('  [scal]', p, v, [q for rr, q in ph.items() if rr not in lin and rr not in scal and rr != r], hvnames)
            f = accel_scalar(ex, p, v, init[r], k, kid, hvnames, [q for rr, q in ph.items() if rr not in lin and rr not in scal and rr != r])
            if f is None and isinstance(p, Poly) and all(isinstance(n[r], Poly) and ex.S.decide(o[1].pc + [to_bool(eq(p, init[r]))], eq(n[r], init[r])) is True for o, n in zip(backs, nexts)): f = lambda kk, v=init[r]: v
            if f is not None: scal[r] = f
        for key in M:
            c0 = st0.mem[key]
            if key in bad or key in cols: continue
            peers = [(hv[k2], st0.mem[k2], [u2.comps for o in backs for u2 in o[1].mem[k2].ups]) for k2 in M if k2 != key and k2 in hv and c0.kind != 'p' and st0.mem[k2].kind == c0.kind]
            f = accel_column(ex, key, c0, hv.get(key), stH, backs, path_conds, k, kid, hvnames, [q for rr, q in ph.items() if rr not in lin and rr not in scal], st0, peers)
            if f is not None: cols[key] = f
            elif __import__('os').environ.get('DV_DEBUG'): print('  [col none]', F.name, key, [[(u.comps, u.guard, str(u.val(fresh_X(len(u.comps))))) for u in o[1].mem[key].ups] for o in backs], [str(x) for x in path_conds])
        grp = accel_group(ex, st0, stH, M, cols, scal, lin, bad, hv, ph, init, backs, nexts, path_conds, k, kid)
        for key, f in grp.items():
            if key[0] == 'phi': scal[key[1]] = f
            else: cols[key] = f
        # refinement: columns whose addresses or values go through others just closed (loop counters kept in memory)
        if len(scal) + len(cols) == ncl or all(key in cols or key in bad for key in M): break
    # contract supplied invariants
    hints = []
    info = dict(F=F, h=h, st0=st0, init=init, lin=lin, M=M, k=k, fr=fr, phis=phis)
    for hf in ex.loophints:
        r = hf(ex, info)
        if not r: continue
        for key, f in r.get("cols", {}).items():
            if key in M and key not in bad: cols[key] = f
        for rr, f in r.get("phis", {}).items(): scal[rr] = f
        hints += r.get("facts", [])
    hints = [x for i, x in enumerate(hints) if ('fact', getattr(x, 'name', i)) not in bad]
    # ---------------- verification (or, in quiet mode, trust the candidate)
    attempts = 0
    while True:
        attempts += 1
        stV = st0.copy(); vV = dict(vals0)
        stV.assume(le(0, k))
        nobl = len(ex.obls); nacc = len(ex.acclog) if ex.acclog is not None else 0
        for T in bounds:
            if ex.S.decide(st0.pc, le(0, T)) is True: stV.assume(le(k, T))
            else: stV.assume(b_or(eq(k, 0), le(k, T)))
        def put(stx, vx, kk, free):
            for key in M:
                c0 = st0.mem[key]
                if c0.kind == 'p':
                    # pointers written in the loop: contents unknown afterwards
                    if key in cols: stx.mem[key] = cols[key](kk)
                    else: stx.mem[key] = Column('p', _unknown_ptr(key))
                elif key in cols: stx.mem[key] = cols[key](kk)
                else: stx.mem[key] = free.setdefault(key, Column(c0.kind, Hv(c0.kind, key, col_arity(c0, st0.fams[key[0]], key[1])).at))
            for I in phis:
                r = I.res[1]
                if r in lin: vx[r] = closed_phi(r, kk)
                elif r in scal: vx[r] = scal[r](kk)
                else: vx[r] = free.setdefault(('phi', r), havoc_val(init[r], I))
        free = {}
        put(stV, vV, k, free)
        for hf in hints: stV.assume(hf(stV, vV, k))
        if ex.quiet:
            outs = one_iter(ex, stV.copy(), dict(vV), fr, h, body, k, uid)
            break
        n1 = len(stV.pc)
        outs = one_iter(ex, stV.copy(), dict(vV), fr, h, body, k, uid)
        dropped = False
        backs = [o for o in outs if o[0] == 'back']
        for o in backs:
            for key, c in o[1].mem.items():
                if key[0] in st0.fams and key not in M and key in st0.mem and c is not st0.mem[key] and c.ups != st0.mem[key].ups: raise Unsupported(f"loop writes {key} unnoticed")
                if key[0] in st0.fams and key not in M and key not in st0.mem and c.ups: raise Unsupported(f"loop writes {key} unnoticed")
            if o[1].dead != st0.dead: raise Unsupported("loop releases a region allocated outside it")
        tag = f"{_short(F.name)}#loop{_ordinal(F, h)}"
        for hf in hints:
            # initiation
            sti = st0.copy(); vi = dict(vals0); put(sti, vi, P(0), {})
            g = hf(sti, vi, P(0))
            r, be, t, m = ex.S.prove(sti.pc, to_bool(g))
            if r != "proved": hints = [x for x in hints if x is not hf]; dropped = True
            else: ex._rec(f"loop-inv-init:{tag}:{getattr(hf,'name','fact')}", r, be, t)
        k1 = k + 1
        for T in list(bounds):      # k <= T (or k = 0) is itself inductive
            rs = [ex.S.prove(o[1].pc, to_bool(le(k1, T)), timeout=6000, cvc=False) for o in backs]
            if any(r[0] != "proved" for r in rs): bounds.remove(T); dropped = True
            elif rs: ex._rec(f"loop-inv:{tag}:iterations bounded", *rs[0][:3])
        for o in backs:
            v2 = dict(o[2]); ex.phis(o[1], v2, fr, o[3], h)
            chk = []
            for r in list(scal):
                stx = o[1]; want = scal[r](k1)
                chk.append((('phi', r), val_eq(v2[r], want), stx))
            for r in lin:
                chk.append((('lin', r), val_eq(v2[r], closed_phi(r, k1)), o[1]))
            for key in list(cols):
                want = cols[key](k1); have = o[1].mem[key]
                fam = st0.fams[key[0]]
                X = fresh_X(col_arity(have if have.ups else st0.mem[key], fam, key[1]))
                stx = o[1].copy(); add_bounds(stx, fam, key[1], X)
                if have.kind == 'p':
                    chk.append((key, ptr_col_eq(ex, stx, have, want, X), stx)); continue
                a = col_eval(have, X); b = col_eval(want, X)
                chk.append((key, val_eq(a, b), stx))
            for name, g, stx in chk:
                r, be, t, m = ex.S.prove(stx.pc + sum_defs(ex, k), g, timeout=6000, cvc=False)
                if r != "proved":
                    import os
                    if os.environ.get("DV_DEBUG"): print("  [loop drop]", tag, name, r, str(g)[:int(os.environ.get("DV_GLEN", 300))])
                    bad.add(name)
                    if name[0] == 'phi': scal.pop(name[1], None)
                    elif name[0] == 'lin':
                        raise Unsupported("linear phi failed")
                    else: cols.pop(name, None)
                    dropped = True
                else: ex._rec(f"loop-inv:{tag}:{_kname(name)}", r, be, t)
            for hf in list(hints):
                g = hf(o[1], v2, k1)
                r, be, t, m = ex.S.prove(o[1].pc, to_bool(g), timeout=10000)
                if r != "proved":
                    hints = [x for x in hints if x is not hf]; dropped = True
                    bad.add(('fact', getattr(hf, 'name', '?')))
                else: ex._rec(f"loop-inv:{tag}:{getattr(hf,'name','fact')}", r, be, t)
            # ghost state must be unchanged
            if o[1].gh != st0.gh: raise Unsupported("ghost state changed in loop")
        if not dropped: break
        del ex.obls[nobl:]
        if ex.acclog is not None: del ex.acclog[nacc:]
        if attempts > 6 + len(Ts): raise Unsupported("loop invariants do not stabilise")
    if not ex.quiet and not bounds: ex.oblige(st0, False, f"loop-term:{_short(F.name)}#loop{_ordinal(F, h)} ends (no bound on the number of iterations found)")
    ex.loopstats["closed_forms"] += len(cols) + len(scal) + len(lin)
    # ---------------- exits
    early = any(o[0] == 'exit' and o[4] != h for o in outs)          # left from inside: the completed iterations did not take that way
    hist = history(outs, n1, kid) if (early or getattr(ex, "loophist", False)) and not ex.quiet else None
    res = []
    for o in outs:
        if o[0] == 'back': continue
        if hist is not None: o[1].assume(hist(k))
        if o[0] == 'exit' and bounds and o[4] == h:
            hit = None
            for T in bounds:
                if ex.S.decide(o[1].pc, b_or(eq(k, T), b_and(eq(k, 0), le(T, 0)))) is True: hit = T; break
            if hit is not None:
                nonneg = ex.S.decide(st0.pc, le(0, hit)) is True
                for kk, cnd in ([(hit, True)] if nonneg else [(hit, lt(0, hit)), (P(0), le(hit, 0))]):
                    s2 = st0.copy(); v2 = dict(vals0); s2.assume(cnd)
                    if cnd is not True and not ex.S.feasible(s2.pc): continue
                    put(s2, v2, kk, free)
                    for T in bounds:
                        if T is not hit:
                            if ex.S.decide(st0.pc, le(0, T)) is True: s2.assume(le(kk, T))
                    for hf in hints: s2.assume(hf(s2, v2, kk))
                    if hist is not None: s2.assume(hist(kk))
                    ex.quiet += 1
                    try: o2 = one_iter(ex, s2, v2, fr, h, body, kk, uid)
                    finally: ex.quiet -= 1
                    res += [x for x in o2 if x[0] == 'exit' and x[4] == h]
                continue
        res.append(o)
    if not res and not ex.quiet: raise Unsupported(f"loop of {_short(F.name)} has no reachable exit")
    # de-duplicate exits re-run from the same header edge
    return _dedup(res)

def guess_counters(stG, st0, hv):
    """for the (quiet, later re-checked) probes only: integer cells do not go below their start"""
    n = 0
    for key, H in hv.items():
        if H.kind == 'i' and H.arity == 0: stG.assume(le(col_eval(st0.mem[key], ()), H.at(()))); n += 1
    return n

def history(outs, n1, kid):
    """every completed earlier iteration j took a back path: forall 0 <= j < kk: G(j), with G the disjunction of the back-path conditions (conjuncts over values fixed before the loop)"""
    kz = _atoms[kid]; lim = int(kz.decl().name().rsplit('!', 1)[1])
    def old(c):
        st = [c]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): return False
            if z3.is_app(x):
                n = x.decl().name()
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in n:
                    t = n.rsplit('!', 1)[1]
                    if not t.isdigit() or int(t) > lim: return False
                st += x.children()
        return True
    G = []
    for o in outs:
        if o[0] == 'back': G.append(z3.And(*[c for c in o[1].pc[n1:] if old(c)]))
    if not G: return None
    g = z3.simplify(z3.Or(*G))
    if z3.is_true(g): return None
    def at(kk):
        j = z3.Int(fresh_name("jh"))
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < P(kk).z()), z3.substitute(g, (kz, j))))
    return at

def _dedup(res):
    out = []
    for o in res:
        if o[0] == 'exit' and any(p[0] == 'exit' and p[3] == o[3] and p[4] == o[4] and len(p[1].pc) == len(o[1].pc) and all(a.eq(b) for a, b in zip(p[1].pc, o[1].pc)) for p in out):
            continue
        out.append(o)
    return out

def sum_defs(ex, k): return []

def _kname(n):
    return f"{str(n[0]).split('!')[0]}.{n[1]}"
def _short(n):
    from prog import demangle
    d = demangle(n); i = d.find('('); d = d[:i] if i > 0 else d
    return d.replace("QDLIB::", "")
def _ordinal(F, h):
    return sorted(F.loops).index(h)
_mark = 0
def _unknown_ptr(key):
    def f(X): raise Unsupported(f"pointer column {key} after loop")
    return f

def _body_fresh(d, st0, ex): return False
def _newer(T, kid):
    # reject bounds mentioning ghost/fresh ints created after k (inner loop counters)
    for a in T.atoms():
        e = _atoms[a]
        if z3.is_const(e):
            n = e.decl().name()
            if '!' in n:
                try:
                    if int(n.rsplit('!', 1)[1]) > int(_atoms[kid].decl().name().rsplit('!', 1)[1]): return True
                except ValueError: pass
    return False

def havoc_val(v, I):
    if isinstance(v, Poly): return fresh_int("h")
    if isinstance(v, (bool, z3.BoolRef)): return fresh_bool("h")
    if isinstance(v, z3.ExprRef): return fresh_real("h")
    return v

def _distinguishing(pc, allpcs):
    """conjuncts not shared by every back path"""
    if len(allpcs) == 1: return []
    own = lambda p: [c for c in p if not all(any(c.eq(d) for d in q) for q in allpcs)]
    mine = own(pc); ids = [c.get_id() for c in pc]; neg = {c.get_id(): z3.simplify(z3.Not(c)) for c in mine}; out = []
    for q in allpcs:
        if [c.get_id() for c in q] == ids: continue
        other = [z3.simplify(d) for d in own(q)]
        c = next((c for c in mine if any(neg[c.get_id()].eq(d) for d in other)), None)
        if c is None: return mine                        # no branch condition tells these two apart
        if not any(c.eq(x) for x in out): out.append(c)
    return out

def trip(c, kid):
    """from a loop-continuation condition c: candidate T with  c(k) => k+1 <= T"""
    out = []
    if not z3.is_app(c): return out
    if z3.is_and(c):
        for x in c.children(): out += trip(x, kid)
        return out
    neg = False
    if z3.is_not(c): neg = True; c = c.children()[0]
    kd = c.decl().kind()
    if kd not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT): return out
    a, b = c.children()[:2]
    if not z3.is_int(a): return out
    a, b = from_z(a), from_z(b)
    if kd == z3.Z3_OP_EQ:
        if not neg: return out
        op = 'ne'
    elif kd == z3.Z3_OP_DISTINCT:
        if neg: return out
        op = 'ne'
    else: op = {z3.Z3_OP_LE: 'le', z3.Z3_OP_LT: 'lt', z3.Z3_OP_GE: 'ge', z3.Z3_OP_GT: 'gt'}[kd]
    if neg and op != 'ne': op = {'le': 'gt', 'lt': 'ge', 'ge': 'lt', 'gt': 'le'}[op]
    d = a - b                         # d op 0
    cf = d.coef(kid)
    if cf is None or not cf[0].is_const(): return out
    m = cf[0].const(); r = cf[1]
    if m == 0: return out
    if op == 'ne':
        if abs(m) == 1: out.append(r * (-m))
        return out
    if op in ('ge', 'gt'): m, r = -m, -r; op = 'le' if op == 'ge' else 'lt'
    # m*k + r (< | <=) 0
    if m < 0: return out
    if m == 1: out.append(-r if op == 'lt' else -r + 1)
    else:
        # k < -r/m  -> k+1 <= ceil(-r/m); express when divisible only
        q = (-r).divc(m)
        if q is not None:
            T = q[0] + (1 if q[1] else 0)
            if op == 'le' and not q[1]: T = T + 1
            out.append(T)
    return out

def ptr_alts(col, X):
    try: v = col_eval(col, X)
    except AltPtr as a:
        out = []; neg = True
        for c, x in a.alts: out.append((b_and(neg, c), x)); neg = b_and(neg, b_not(c))
        out.append((neg, a.dflt)); r = []
        for c, x in out:
            if isinstance(x, Maybe): r += [(b_and(c, c2), x2) for c2, x2 in x.alts]
            else: r.append((c, x))
        return r
    if isinstance(v, Maybe): return list(v.alts)
    return [(True, v)]
def ptr_col_eq(ex, st, a, b, X):
    try: A, B = ptr_alts(a, X), ptr_alts(b, X)
    except Unsupported: return z3.BoolVal(False)
    r = []
    for c, x in A:
        for d, y in B:
            g = b_and(c, d)
            if g is False: continue
            r.append(z3.Implies(to_bool(g), to_bool(val_eq(x, y))))
    return z3.And(*r) if r else z3.BoolVal(True)

def val_eq(a, b):
    if isinstance(a, tuple): return z3.And([to_bool(val_eq(x, y)) for x, y in zip(a, b)])
    if isinstance(a, Poly) or isinstance(b, Poly): return to_bool(eq(a, b))
    if isinstance(a, (bool, z3.BoolRef)): return to_bool(a) == to_bool(b)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.fam == b.fam:
            return z3.And([to_bool(eq(x, y)) for x, y in zip(a.ix, b.ix)] + [to_bool(eq(a.off, b.off))])
        return z3.BoolVal(a == b)
    if hasattr(a, "vec_eq"): return a.vec_eq(b)
    return a == b

def add_bounds(st, fam, field, X):
    """assume the skolem index lies inside the region"""
    ar = fam.arity
    if fam.ixok is not None: st.assume(fam.ixok(X[:ar]))
    if fam.kind == 'array' and not str(field).startswith('#'):
        if fam.radix:
            for x, (s, e) in zip(X[ar:], fam.radix): st.assume(b_and(le(0, x), lt(x, e)))
        else:
            c = fam.countf(X[:ar])
            if c is not None: st.assume(b_and(le(0, X[ar]), lt(X[ar], c)))
    elif isinstance(field, tuple):
        for (s, es, cnt) in fam.arrays:
            if s == field[1]: st.assume(b_and(le(0, X[-1]), lt(X[-1], P(cnt))))

def accel_scalar(ex, p, v, init, k, kid, hvnames, others):
    """phi recurrence p -> v.  returns closed form fn(kk) or None"""
    kz = k.z()
    if isinstance(p, z3.ExprRef) and not isinstance(p, z3.BoolRef):
        if any(contains(v, o if not isinstance(o, Poly) else o.z()) for o in others if isinstance(o, (Poly, z3.ExprRef)) and _isfreshconst(o)): return None
        if any(contains_fn(v, n) for n in hvnames): return None
        r = split_linear(v, p)
        if r is None: return None
        if r[0] == 1:
            g = r[1]
            if _has_newer(g, kid): return None
            return lambda kk: radd(init, SUMS.make(g, kz, 0, kk))
        if r[0] == 0:
            if _has_newer(v, kid): return None
            return lambda kk: ite(eq(kk, 0), init, zsub(v, [(kz, kk - 1)]))
    if isinstance(p, Poly):
        if _isfreshconst(p):
            pz = p.z()
            if any(contains(v.z(), o.z() if isinstance(o, Poly) else o) for o in others if _isfreshconst(o)): return None
            if any(contains_fn(v.z(), n) for n in hvnames): return None
            if not contains(v.z(), pz) and not _has_newer(v.z(), kid):
                return lambda kk: ite(eq(kk, 0), init, zsub(v, [(kz, kk - 1)]))
            ab = absorbing(v.z(), pz)
            if ab is not None and not contains(ab[0], pz) and not _has_newer(ab[0], kid) and not any(contains_fn(ab[0], n) for n in hvnames) and not any(contains(ab[0], o.z() if isinstance(o, Poly) else o) for o in others if _isfreshconst(o)):
                return lambda kk: ite(_some(ab[0], kz, kk), from_z(ab[1]), init)
            g = prod_factor(v, p, kid, hvnames)
            if g is not None: return lambda kk: P(init) * PRODS.make(g, kz, 0, kk)
        return None
    if isinstance(p, z3.BoolRef):
        vb = to_bool(v); ab = absorbing(vb, p)
        if ab is not None and not contains(ab[0], p) and not _has_newer(ab[0], kid) and not any(contains_fn(ab[0], n) for n in hvnames) and not any(contains(ab[0], o.z() if isinstance(o, Poly) else o) for o in others if _isfreshconst(o)):
            return lambda kk: ite(_some(ab[0], kz, kk), ab[1], init)
        if contains(vb, p) or any(contains_fn(vb, n) for n in hvnames) or _has_newer(vb, kid): return None
        if any(contains(vb, o.z() if isinstance(o, Poly) else o) for o in others if _isfreshconst(o)): return None
        return lambda kk: ite(eq(kk, 0), init, zsub(vb, [(kz, kk - 1)]))
    return None

def absorbing(v, p):
    """v = if c then C else p with a constant C (flags that are set once and stay): (c, C)"""
    if v.eq(p): return (z3.BoolVal(False), None)
    if not z3.is_app(v): return None
    kd = v.decl().kind()
    if z3.is_bool(v) and kd == z3.Z3_OP_AND and any(x.eq(p) for x in v.children()): return (z3.Not(z3.And(*[x for x in v.children() if not x.eq(p)])), z3.BoolVal(False))
    if z3.is_bool(v) and kd == z3.Z3_OP_OR and any(x.eq(p) for x in v.children()): return (z3.Or(*[x for x in v.children() if not x.eq(p)]), z3.BoolVal(True))
    if kd != z3.Z3_OP_ITE:
        return (z3.BoolVal(True), v) if z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v) else None
    c, a, b = v.children(); x, y = absorbing(a, p), absorbing(b, p)
    if x is None or y is None: return None
    if x[1] is not None and y[1] is not None and not x[1].eq(y[1]): return None
    return (z3.simplify(z3.If(c, x[0], y[0])), x[1] if x[1] is not None else y[1])
def _some(c, kz, kk):
    j = z3.Int(fresh_name("ja")); return z3.Exists([j], z3.And(j >= 0, j < P(kk).z(), z3.substitute(c, (kz, j))))
def prod_factor(v, p, kid, names=()):
    """v = p * g with g a function of the loop counter only (integers); also through if-then-else"""
    if not isinstance(v, Poly): return None
    (pm, pc), = p.t.items() if len(p.t) == 1 else ((None, None),)
    if pm is None or len(pm) != 1 or pc != 1: return None
    pz = p.z()
    def fac(e):
        if e.eq(pz): return P(1)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and not contains(e.arg(0), pz):
            a, b = fac(e.arg(1)), fac(e.arg(2))
            return None if a is None or b is None else ite(e.arg(0), a, b)
        q = from_z(e); c = q.coef(pm[0])
        if c is not None and c[1] == Poly({}) and not contains(c[0].z(), pz): return c[0]
        if len(q.t) == 1 and not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE):      # one monomial with a conditional atom
            (m, n), = q.t.items()
            for i, x in enumerate(m):
                if z3.is_app(_atoms[x]) and _atoms[x].decl().kind() == z3.Z3_OP_ITE and contains(_atoms[x], pz):
                    g = fac(_atoms[x]); r = Poly({m[:i] + m[i+1:]: n})
                    if g is not None and not contains(r.z(), pz): return g * r
        return None
    g = fac(v.z())
    if g is None or _has_newer(g.z(), kid) or any(contains_fn(g.z(), n) for n in names): return None
    return g
def _isfreshconst(o):
    z = o.z() if isinstance(o, Poly) else o
    return z3.is_const(z) and z.decl().kind() == z3.Z3_OP_UNINTERPRETED

def _has_newer(z, kid):
    """term mentions fresh symbols created after k (inner ghost counters etc.) -> not a function of k"""
    kn = int(_atoms[kid].decl().name().rsplit('!', 1)[1])
    for n in free_consts(z):
        if '!' in n and not n.startswith('H['):
            try:
                if int(n.rsplit('!', 1)[1]) > kn: return True
            except ValueError: pass
    return False

def accel_group(ex, st0, stH, M, cols, scal, lin, bad, hv, ph, init, backs, nexts, path_conds, k, kid):
    """mutually dependent real scalars (phis and single memory cells): closed form by primitive recursion"""
    items = {}
    def merge(vs):
        v = vs[0]
        for pc_, x in list(zip(path_conds, vs))[1:]:
            if not same_val(x, v): v = ite(pc_, x, v)
        return v
    for r, p in ph.items():
        if r in lin or r in scal or ('phi', r) in bad: continue
        if isinstance(p, z3.ExprRef) and not isinstance(p, z3.BoolRef) and _isfreshconst(p): items[('phi', r)] = (p, merge([n[r] for n in nexts]), init[r])
    for key in M:
        if key in cols or key in bad or key not in hv: continue
        c0 = st0.mem[key]
        if c0.kind != 'd' or hv[key].arity != 0: continue
        H = hv[key].at(())
        items[key] = (H, merge([col_eval(o[1].mem[key], ()) for o in backs]), col_eval(c0, ()))
    if not items: return {}
    for _ in range(len(items) + 1):
        phs = {i: t[0] for i, t in items.items()}
        okn = {p.decl().name() for p in phs.values()}
        drop = []
        for i, (p, v, i0) in items.items():
            v = v if isinstance(v, z3.ExprRef) else R(v)
            hvn = [H.name for H in hv.values() if H.name not in okn]
            others = [q for r, q in ph.items() if r not in lin and _isfr(q) and not any(q is x or (isinstance(q, z3.ExprRef) and q.eq(x)) for x in phs.values())]
            if any(contains_fn(v, n) for n in hvn) or any(contains(v, q.z() if isinstance(q, Poly) else q) for q in others) or _has_newer_except(v, kid, okn): drop.append(i)
        if not drop: break
        for i in drop: del items[i]
    if not items: return {}
    ids = list(items); kz = k.z()
    fs = RECS.define([items[i][1] for i in ids], [items[i][0] for i in ids], kz, [items[i][2] for i in ids])
    out = {}
    for i, f in zip(ids, fs):
        if i[0] == 'phi': out[i] = f
        else:
            c0 = st0.mem[i]
            out[i] = lambda kk, c0=c0, f=f: c0 if P(kk) == P(0) else c0.write((), f(kk))
    return out
def _isfr(o):
    return isinstance(o, (Poly, z3.ExprRef)) and _isfreshconst(o)
def _has_newer_except(z, kid, okn):
    kn = int(_atoms[kid].decl().name().rsplit('!', 1)[1])
    for n in free_consts(z):
        if '!' in n and not n.startswith('H[') and n not in okn:
            try:
                if int(n.rsplit('!', 1)[1]) > kn: return True
            except ValueError: pass
    return False

def _prune(x):
    if not z3.is_app(x) or not x.num_args(): return x
    if x.decl().kind() == z3.Z3_OP_ITE:
        if z3.is_true(x.arg(0)): return _prune(x.arg(1))
        if z3.is_false(x.arg(0)): return _prune(x.arg(2))
    ch = [_prune(c) for c in x.children()]
    return x if all(a.eq(b) for a, b in zip(ch, x.children())) else x.decl()(*ch)

def accel_column(ex, key, c0, H, stH, backs, path_conds, k, kid, hvnames, freephis, st0, peers=()):
    """closed form of a column after kk iterations: fn(kk) -> Column, or None"""
    kz = k.z()
    # gather per-path updates; merge across paths by footprint
    paths = []
    for o, pcnd in zip(backs, path_conds):
        c = o[1].mem[key]
        ups = list(c.ups)
        if c0.kind == 'p' and len(c0.ups) and ups[:len(c0.ups)] == list(c0.ups): ups = ups[len(c0.ups):]
        paths.append((pcnd, ups))
    merged = []
    if c0.kind == 'p' and len(paths) > 1:
        for pcnd, ups in paths:
            for u in ups:
                if u.guard is not None: return None
                merged.append((None, Upd(u.comps, (lambda X, pcnd=pcnd: pcnd), u.val)))
    elif len(paths) == 1: merged = [(None, u) for u in paths[0][1]]
    else:
        groups = []
        for pcnd, ups in paths:
            for u in ups:
                if u.guard is not None: return None
                sig = tuple((c[0],) + tuple(c[1:]) for c in u.comps)
                for g in groups:
                    if g[0] == sig: g[1].append((pcnd, u)); break
                else: groups.append((sig, [(pcnd, u)]))
        twice = any(len(ups) > 1 for _, ups in paths)
        if H is not None and len(groups) == 1 and twice and all(c[0] == 'eq' for c in groups[0][0]):
            # several writes to the same cell on a path: net value of each path
            comps = groups[0][1][0][1].comps; own = tuple(c[1] for c in comps); v = None
            for pcnd, ups in reversed(paths):
                x = col_eval(Column(c0.kind, H.at, tuple(ups)), own)
                v = x if v is None else vite(c0.kind, pcnd, x, v)
            merged.append((None, Upd(comps, None, lambda X, v=v: v))); groups = []
        elif H is not None and len(groups) == 1 and twice:
            # several writes of the same block on a path: the last one (it has read the others)
            def val(X, g=groups[0][1][0][1], paths=paths):
                own = tuple(c[1] if c[0] == 'eq' else x for c, x in zip(g.comps, X)); inside = to_bool(g.cond(X)); v = None
                for pcnd, ups in reversed(paths):
                    x = ups[-1].val(X) if ups else H.at(own)
                    if isinstance(x, z3.ExprRef): x = z3.substitute(x, (inside, z3.BoolVal(True))); x = _prune(x)
                    v = x if v is None else vite(c0.kind, pcnd, x, v)
                return v
            merged.append((None, Upd(groups[0][1][0][1].comps, None, val))); groups = []
        for sig, lst in groups:
            def val(X, lst=lst):
                own = tuple(c[1] if c[0] == 'eq' else x for c, x in zip(lst[0][1].comps, X))
                v = H.at(own)
                if len(lst) == len(paths): 
                    v = lst[-1][1].val(X); rest = lst[:-1]
                else: rest = lst
                for pcnd, u in reversed(rest):
                    v = vite(c0.kind, pcnd, u.val(X), v)
                return v
            merged.append((None, Upd(lst[0][1].comps, None, val)))
    acc = []
    for _, u in merged:
        a = accel_upd(ex, key, u, c0, H, k, kid, kz, [n for n in hvnames if H is None or n != H.name], freephis, peers)
        if a is None: return None
        acc.append(a)
    def closed(kk):
        col = c0
        if P(kk) == P(0): return c0
        for a in acc: col = col.bulk(a(P(kk)))
        return col
    return closed

def accel_upd(ex, key, u, c0, H, k, kid, kz, others, freephis, peers=()):
    comps = u.comps; n = len(comps)
    dep = [i for i, c in enumerate(comps) if c[0] == 'eq' and kid in _deep_atoms(c[1], kid)]
    for c in comps:
        for p in c[1:]:
            if _has_newer(p.z(), kid): return None
            if any(contains_fn(p.z(), nm) for nm in others + ([H.name] if H else [])): return None
    X = fresh_X(n)
    own = tuple(c[1] if c[0] == 'eq' else x for c, x in zip(comps, X))
    v = u.val(own)
    if isinstance(v, (FnP, AbsFn, Maybe)): return None
    OLDv = H.at(own) if H else None
    gd = u.guard(own) if u.guard is not None else True
    fvs = [p.z() if isinstance(p, Poly) else p for p in freephis if _isfreshconst(p)]
    for t in fvs:
        if val_has_const(v, t) or (gd is not True and contains(to_bool(gd), t)): return None
    jp = []          # peer columns read at the own index only: substituted by their pre-loop value (checked inductively afterwards)
    for Hp, cp, pcomps in peers:
        if c0.kind in 'di' and val_contains_fn(v, Hp.name) and Hp.arity == n and any(tuple(pc) == tuple(comps) for pc in pcomps):
            Op = Hp.at(own)
            if only_own(v, Op, Hp.name): jp.append((Op, cp))
    jnames = {Op.z().decl().name() if isinstance(Op, Poly) else Op.decl().name() for Op, _ in jp}
    for nm in others:
        if nm in jnames and (dep or getattr(ex, 'witness', None)) and not (gd is not True and contains_fn(to_bool(gd), nm)): continue
        if val_contains_fn(v, nm) or (gd is not True and contains_fn(to_bool(gd), nm)): return None
    if gd is not True and (_has_newer(to_bool(gd), kid) and not _only(to_bool(gd), kid, X)): return None
    if _val_newer(v, kid, X): return None
    if len(dep) > 1:
        # pick one; the others become functions of it only if they do not depend on k after substitution
        pass
    if getattr(ex, "witness", None) and (dep or (H or gd is not True) and (gd is not True and contains(to_bool(gd), kz) or any(kid in _deep_atoms(p, kid) for cc in comps for p in cc[1:]))):
        f = by_witness(ex, u, comps, gd, v, OLDv, c0, H, X, k, kid, kz, dep, jp)
        if f is not None: return f
    if dep:
        c = dep[0]
        cf = comps[c][1].coef(kid)
        if cf is None or not cf[0].is_const(): return None
        a = cf[0].const(); b = cf[1]
        if kid in b.atoms() or abs(a) < 1: return None
        OLD = OLDv
        def closed(kk):
            def inv(Y):
                d = (Y[c] - b) * (1 if a > 0 else -1)
                if abs(a) == 1: return d
                q = d.divc(abs(a))
                if q is not None and q[1] == 0: return q[0]
                return Poly.atom(d.z() / abs(a))
            ncomps = []; 
            lo, hi = (b, b + kk*a) if a > 0 else (b + kk*a + 1, b + 1)
            if abs(a) != 1:
                if a > 0: lo, hi = b, b + (kk-1)*a + 1
                else: lo, hi = b + (kk-1)*a, b + 1
            extra = []
            for i, cc in enumerate(comps):
                if i == c: ncomps.append(('rng', lo, hi))
                elif any(kid in _deep_atoms(p, kid) for p in cc[1:]):
                    ncomps.append(('any',)); extra.append((i, cc))
                else: ncomps.append(cc)
            def subs(Y):
                ps = [(kz, inv(Y))]
                for i in range(n): ps.append((X[i].z(), Y[i]))
                return ps
            def guard(Y):
                gs = []
                if abs(a) != 1: gs.append(to_bool(eq(Poly.atom((Y[c] - b).z() % abs(a)), 0)))
                for i, cc in extra:
                    if cc[0] == 'eq': gs.append(eq(Y[i], zsub(cc[1], [(kz, inv(Y))])))
                    elif cc[0] == 'rng':
                        gs.append(le(zsub(cc[1], [(kz, inv(Y))]), Y[i])); gs.append(lt(Y[i], zsub(cc[2], [(kz, inv(Y))])))
                if gd is not True: gs.append(zsub(to_bool(gd), subs(Y)))
                return b_and(*gs)
            needg = bool(extra) or gd is not True or abs(a) != 1
            def val(Y):
                w = repl_old(v, OLD, c0, Y, c0.kind, H) if H else v
                if w is None: raise Unsupported("non-map loop")
                for Op, cp in jp: w = repl_old(w, Op, cp, Y, cp.kind, None)
                return zsub(w, subs(Y))
            return Upd(ncomps, guard if needg else None, val)
        # the value may read the column only at its own index
        if not H: return closed
        if not only_own(v, OLD, H.name): return None
        if gd is not True and contains_fn(to_bool(gd), H.name): return None
        return closed
    # no component depends on k: scalar-like cell (per index)
    if not H or jp: return None
    if any(kid in _deep_atoms(p, kid) for cc in comps for p in cc[1:]): return None
    if gd is not True and (contains(to_bool(gd), kz) or contains_fn(to_bool(gd), H.name)): return None
    if not only_own(v, OLDv, H.name): return None
    kind = c0.kind
    if kind == 'd':
        r = split_linear(v, OLDv)
        if r is None:
            g = real_factor(v, OLDv)
            if g is None or gd is not True or n == 0: return None          # (single cells: recursions)
            return lambda kk: Upd(comps, None, lambda Y: rmul(col_eval(c0, Y), RPRODS.make(zsub(g, [(X[i].z(), Y[i]) for i in range(n)]), kz, 0, kk)))
        if r[0] == 1:
            g = r[1]
            def closed(kk):
                def val(Y):
                    gg = zsub(g, [(X[i].z(), Y[i]) for i in range(n)])
                    return radd(col_eval(c0, Y), SUMS.make(gg, kz, 0, kk))
                return Upd(comps, (lambda Y: zsub(to_bool(gd), [(X[i].z(), Y[i]) for i in range(n)])) if gd is not True else None, val)
            return closed
        rest = r[1]
    elif kind == 'i':
        d = v - OLDv
        if not contains(d.z(), OLDv.z()):
            if contains(d.z(), kz):
                return None
            def closed(kk):
                return Upd(comps, None, lambda Y: P(col_eval(c0, Y)) + zsub(d, [(X[i].z(), Y[i]) for i in range(n)]) * kk) if gd is True else None
            return closed if gd is True else None
        if contains(v.z(), OLDv.z()):
            g = prod_factor(v, OLDv, kid, [H.name]) if len(OLDv.t) == 1 else None
            if g is None or gd is not True: return None
            return lambda kk: Upd(comps, None, lambda Y: P(col_eval(c0, Y)) * PRODS.make(zsub(g, [(X[i].z(), Y[i]) for i in range(n)]), kz, 0, kk))
        rest = v
    elif kind == 'v':
        pr = prod_step(v, OLDv, k, kid)
        if pr is not None:
            fam_, b_, fl_ = pr
            import vec
            def closed(kk):
                return Upd(comps, None, lambda Y: vec.prod(fam_, b_ - kk + 1, b_ + 1, fl_, col_eval(c0, Y)))
            return closed if gd is True and n == 0 else None
        r = v.split_old(OLDv)
        if r is None: return None
        if r[0] == 1:
            g = r[1]
            def closed(kk):
                def val(Y):
                    gg = g.zsub([(X[i].z(), Y[i].z()) for i in range(n)])
                    return col_eval(c0, Y).add(gg.vsum(kz, P(0), kk))
                return Upd(comps, (lambda Y: zsub(to_bool(gd), [(X[i].z(), Y[i]) for i in range(n)])) if gd is not True else None, val)
            return closed
        rest = v
    else: return None
    def closed(kk):
        def guard(Y):
            gs = [lt(0, kk)]
            if gd is not True: gs.append(zsub(to_bool(gd), [(X[i].z(), Y[i]) for i in range(n)]))
            return b_and(*gs)
        def val(Y):
            return zsub(rest, [(kz, kk - 1)] + [(X[i].z(), Y[i]) for i in range(n)])
        return Upd(comps, guard, val)
    return closed

def by_witness(ex, u, comps, gd, v, OLD, c0, H, X, k, kid, kz, dep, jp):
    """closed form of a write whose iteration is a function of the element it touches: one of the candidate functions ex.witness that the solver confirms
    (a candidate only: the resulting closed form is verified like every other)"""
    n = len(comps)
    def linear(p):
        cf = p.coef(kid); return cf is not None and cf[0].is_const() and cf[0].const() != 0 and kid not in _deep_atoms(cf[1], kid)
    if dep and all(c[0] == 'eq' and linear(c[1]) for c in comps if any(kid in _deep_atoms(p, kid) for p in c[1:])): return None
    if H and (not only_own(v, OLD, H.name) or gd is not True and contains_fn(to_bool(gd), H.name)): return None
    st = ex.wst; touched = u.cond(X)
    for W in ex.witness:
        w = W(X)
        if w is None: continue
        r = ex.S.prove(st.pc + [to_bool(touched), to_bool(le(0, k))], to_bool(eq(w, k)), timeout=4000, cvc=False)
        if __import__('os').environ.get('DV_DEBUG'): print('  [witness]', str(w), r[0], str(touched)[:150])
        if r[0] != "proved": continue
        def closed(kk, W=W):
            def subs(Y): return [(kz, W(Y))] + [(X[i].z(), Y[i]) for i in range(n)]
            def guard(Y):
                gs = [le(0, W(Y)), lt(W(Y), kk)]
                for x, cc in zip(Y, comps):
                    if cc[0] == 'eq': gs.append(eq(x, zsub(cc[1], subs(Y))))
                    elif cc[0] == 'rng': gs += [le(zsub(cc[1], subs(Y)), x), lt(x, zsub(cc[2], subs(Y)))]
                if gd is not True: gs.append(zsub(to_bool(gd), subs(Y)))
                return b_and(*gs)
            def val(Y):
                q = repl_old(v, OLD, c0, Y, c0.kind, H) if H else v
                if q is None: raise Unsupported("non-map loop")
                for Op, cp in jp: q = repl_old(q, Op, cp, Y, cp.kind, None)
                return zsub(q, subs(Y))
            return Upd([('any',)]*n, guard, val)
        return closed
    return None
def prod_step(v, old, k, kid):
    """v = O[b-k] old  for an operator family O"""
    if len(v.d) != 1 or len(old.d) != 1: return None
    (a, c), = v.d.items(); (oa, oc), = old.d.items()
    import vec
    if not vec.c_same(c, vec.ONE) or a[0] != 'prod' or a[5] != oa or a[3] != a[2] + 1: return None
    cf = a[2].coef(kid)
    if cf is None or not cf[0].is_const() or cf[0].const() != -1: return None
    return a[1], cf[1], a[4]
def _deep_atoms(p, kid):
    s = set(p.atoms())
    kzc = _atoms[kid]
    for a in list(s):
        if a != kid and contains(_atoms[a], kzc): s.add(kid)
    return s

def _val_newer(v, kid, X):
    if isinstance(v, Poly): z = [v.z()]
    elif isinstance(v, z3.ExprRef): z = [v]
    elif hasattr(v, "zterms"): z = v.zterms()
    elif isinstance(v, Ptr): z = [i.z() for i in v.ix] + [v.off.z()]
    else: return False
    names = {x.z().decl().name() for x in X}
    kn = int(_atoms[kid].decl().name().rsplit('!', 1)[1])
    for t in z:
        for n in free_consts(t):
            if '!' in n and n not in names and not n.startswith('H['):
                try:
                    if int(n.rsplit('!', 1)[1]) > kn: return True
                except ValueError: pass
    return False
def _only(z, kid, X):
    return not _val_newer(z, kid, X)

def only_own(v, OLD, hname):
    """v reads the havoced column only at the own index"""
    if isinstance(v, Poly):
        t = z3.substitute(v.z(), (OLD.z(), z3.Int("$old"))); return not contains_fn(t, hname)
    if isinstance(v, z3.ExprRef):
        t = z3.substitute(v, (OLD, z3.Real("$old"))); return not contains_fn(t, hname)
    if hasattr(v, "only_own"): return v.only_own(OLD, hname)
    return True
def repl_old(v, OLD, c0, Y, kind, H):
    """replace own reads by the pre-loop value at Y (Y expressed later through subs)"""
    old = col_eval(c0, Y)
    if isinstance(v, Poly): return from_z(z3.substitute(v.z(), (OLD.z(), P(old).z())))
    if isinstance(v, z3.ExprRef): return z3.substitute(v, (OLD, old))
    if hasattr(v, "replace_old"): return v.replace_old(OLD, old)
    return v

def shapes(ex, st0, vals0, fr, h, body):
    raise Unsupported(f"pointer recurrence in loop of {_short(fr.F.name)}")
