"""Terms: integer polynomials over z3 Int atoms, reals as z3 terms, booleans."""
import z3, math
from fractions import Fraction

_atoms = []            # id -> z3 Int expr
_atom_id = {}          # z3 ast id -> atom id

def atom_of(e):
    k = e.get_id()
    r = _atom_id.get(k)
    if r is None:
        r = len(_atoms); _atoms.append(e); _atom_id[k] = r
    return r

class Poly:
    __slots__ = ("t", "_z", "_k")
    def __init__(self, t):
        self.t = t; self._z = None; self._k = None
    @staticmethod
    def c(n): return Poly({(): n} if n else {})
    @staticmethod
    def atom(e): return Poly({(atom_of(e),): 1})
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def const(self):
        return self.t.get((), 0)
    def key(self):
        if self._k is None: self._k = tuple(sorted(self.t.items()))
        return self._k
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __hash__(self): return hash(self.key())
    def __add__(self, o):
        o = P(o); t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n: t[m] = n
            else: t.pop(m, None)
        return Poly(t)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def __mul__(self, o):
        o = P(o); t = {}
        for m, c in self.t.items():
            for m2, c2 in o.t.items():
                mm = tuple(sorted(m + m2)); n = t.get(mm, 0) + c*c2
                if n: t[mm] = n
                else: t.pop(mm, None)
        return Poly(t)
    __rmul__ = __mul__
    def divc(self, n):
        """exact division by const n with remainder only in constant part -> (poly, rem) or None"""
        t = {}; rem = 0
        for m, c in self.t.items():
            if m == ():
                q, rem = divmod(c, n)
                if q: t[m] = q
            else:
                if c % n: return None
                t[m] = c // n
        return Poly(t), rem
    def z(self):
        if self._z is None:
            if not self.t: self._z = z3.IntVal(0)
            else:
                parts = []
                for m, c in sorted(self.t.items()):
                    if m == (): parts.append(z3.IntVal(c)); continue
                    e = _atoms[m[0]]
                    for a in m[1:]: e = e * _atoms[a]
                    parts.append(e if c == 1 else z3.IntVal(c) * e)
                self._z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        return self._z
    def atoms(self):
        s = set()
        for m in self.t: s.update(m)
        return s
    def coef(self, aid):
        """decompose as a*atom + b with a, b Polys; None if nonlinear in atom"""
        a = {}; b = {}
        for m, c in self.t.items():
            n = m.count(aid)
            if n == 0: b[m] = c
            elif n == 1:
                l = list(m); l.remove(aid); a[tuple(l)] = c
            else: return None
        return Poly(a), Poly(b)
    def subst(self, mp):
        """mp: atom id -> Poly"""
        r = Poly({})
        for m, c in self.t.items():
            x = Poly.c(c)
            for a in m:
                if a in mp: x = x * mp[a]
                else:
                    e = _atoms[a]
                    x = x * Poly({(a,): 1})
            r = r + x
        return r
    def divpoly(self, d):
        """exact monomial division self/d where d is a single monomial"""
        if len(d.t) != 1: return None
        (dm, dc), = d.t.items()
        t = {}
        for m, c in self.t.items():
            l = list(m)
            for a in dm:
                if a in l: l.remove(a)
                else: return None
            if c % dc: return None
            t[tuple(l)] = c // dc
        return Poly(t)
    def __repr__(self):
        return str(self.z())

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): return Poly.c(int(x))
    if isinstance(x, int): return Poly.c(x)
    if z3.is_int_value(x): return Poly.c(x.as_long())
    return from_z(x)

def from_z(e):
    """z3 Int expr -> Poly (structural for + * - and numerals)"""
    if z3.is_int_value(e): return Poly.c(e.as_long())
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD:
        r = Poly({})
        for c in e.children(): r = r + from_z(c)
        return r
    if k == z3.Z3_OP_SUB:
        ch = e.children(); r = from_z(ch[0])
        for c in ch[1:]: r = r - from_z(c)
        return r
    if k == z3.Z3_OP_UMINUS: return -from_z(e.children()[0])
    if k == z3.Z3_OP_MUL:
        r = Poly.c(1)
        for c in e.children(): r = r * from_z(c)
        return r
    return Poly.atom(e)

_ctr = [0]
def fresh_name(p):
    _ctr[0] += 1
    return f"{p}!{_ctr[0]}"
def fresh_int(p="i"): return Poly.atom(z3.Int(fresh_name(p)))
def fresh_real(p="r"): return z3.Real(fresh_name(p))
def fresh_bool(p="b"): return z3.Bool(fresh_name(p))
def int_sym(n): return Poly.atom(z3.Int(n))
def real_sym(n): return z3.Real(n)

_PI = Fraction(math.pi)
def literal(x):
    """the real number a floating point literal (or a compile-time folded constant) stands for: a simple fraction, a rational multiple of pi, the shortest decimal, all only if they round to exactly this double"""
    for base in (Fraction(1), _PI):
        f = (Fraction(x) / base).limit_denominator(1000) * base
        if abs(f) < 10**12 and f != 0 and float(f) == x: return f
    f = Fraction(repr(x))
    return f if len(repr(x).replace('-', '').replace('.', '')) <= 12 else Fraction(x)
def R(x):
    """python number -> exact z3 real"""
    if isinstance(x, Poly): return z3.ToReal(x.z()) if not x.is_const() else z3.RealVal(x.const())
    if isinstance(x, (int,)): return z3.RealVal(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x): return z3.Real("nonfinite")
        f = literal(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)
    if isinstance(x, Fraction): return z3.RealVal(f"{x.numerator}/{x.denominator}")
    return x

# ---- real arithmetic with light constant folding --------------------------
def _cv(a): return a.as_fraction() if z3.is_rational_value(a) else None
def radd(a, b):
    x, y = _cv(a), _cv(b)
    if x is not None and y is not None: return R(x+y)
    if x == 0: return b
    if y == 0: return a
    return a + b
def rsub(a, b):
    x, y = _cv(a), _cv(b)
    if x is not None and y is not None: return R(x-y)
    if y == 0: return a
    if x == 0: return -b
    return a - b
def rmul(a, b):
    x, y = _cv(a), _cv(b)
    if x is not None and y is not None: return R(x*y)
    if x == 0 or y == 0: return R(0)
    if x == 1: return b
    if y == 1: return a
    if x == -1: return -b
    if y == -1: return -a
    return a * b
def rdiv(a, b):
    x, y = _cv(a), _cv(b)
    if y is not None and y != 0:
        if x is not None: return R(x/y)
        if y == 1: return a
        return rmul(R(Fraction(1)/y), a)
    return a / b
def rneg(a):
    x = _cv(a)
    return R(-x) if x is not None else -a

def to_bool(b):
    if isinstance(b, bool): return z3.BoolVal(b)
    return b
def b_not(b):
    if isinstance(b, bool): return not b
    return z3.Not(b)
def b_and(*bs):
    r = []
    for b in bs:
        if b is True: continue
        if b is False: return False
        if z3.is_true(b): continue
        if z3.is_false(b): return False
        r.append(b)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def b_or(*bs):
    r = []
    for b in bs:
        if b is False: continue
        if b is True: return True
        if z3.is_true(b): return True
        if z3.is_false(b): continue
        r.append(b)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)

def cmp(op, a, b):
    """integer comparison of Polys; python bool when decidable"""
    d = a - b
    if d.is_const():
        c = d.const()
        return {'eq': c == 0, 'ne': c != 0, 'slt': c < 0, 'sle': c <= 0, 'sgt': c > 0, 'sge': c >= 0,
                'ult': c < 0, 'ule': c <= 0, 'ugt': c > 0, 'uge': c >= 0}[op]
    x, y = a.z(), b.z()
    if op == 'eq': return x == y
    if op == 'ne': return x != y
    if op in ('slt', 'ult'): return x < y
    if op in ('sle', 'ule'): return x <= y
    if op in ('sgt', 'ugt'): return x > y
    return x >= y
def eq(a, b): return cmp('eq', P(a), P(b))
def lt(a, b): return cmp('slt', P(a), P(b))
def le(a, b): return cmp('sle', P(a), P(b))

def ite(c, a, b):
    """value-level if-then-else on Poly / real / bool"""
    if c is True: return a
    if c is False: return b
    if isinstance(c, z3.BoolRef):
        if z3.is_true(c): return a
        if z3.is_false(c): return b
    if isinstance(a, Poly) or isinstance(b, Poly):
        a, b = P(a), P(b)
        if a == b: return a
        return Poly.atom(z3.If(c, a.z(), b.z()))
    if isinstance(a, (bool, z3.BoolRef)):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b: return a
            return c if a else b_not(c)
        return z3.If(c, to_bool(a), to_bool(b))
    if a.eq(b): return a
    return z3.If(c, a, b)

# uninterpreted math functions ------------------------------------------------
_uf = {}
def uf_real(name, *args):
    k = (name, tuple('I' if isinstance(a, Poly) or z3.is_int(a) else 'R' for a in args))
    f = _uf.get(k)
    if f is None:
        f = z3.Function(name, *[z3.IntSort() if s == 'I' else z3.RealSort() for s in k[1]], z3.RealSort())
        _uf[k] = f
    return f(*[a.z() if isinstance(a, Poly) else a for a in args])
def uf_int(name, *args):
    k = (name, 'int', tuple('I' if isinstance(a, Poly) or z3.is_int(a) else 'R' for a in args))
    f = _uf.get(k)
    if f is None:
        f = z3.Function(name, *[z3.IntSort() if s == 'I' else z3.RealSort() for s in k[2]], z3.IntSort())
        _uf[k] = f
    return Poly.atom(f(*[a.z() if isinstance(a, Poly) else a for a in args]))
def uf_bool(name, *args):
    k = (name, 'bool', tuple('I' if isinstance(a, Poly) or z3.is_int(a) else 'R' for a in args))
    f = _uf.get(k)
    if f is None:
        f = z3.Function(name, *[z3.IntSort() if s == 'I' else z3.RealSort() for s in k[2]], z3.BoolSort())
        _uf[k] = f
    return f(*[a.z() if isinstance(a, Poly) else a for a in args])

def free_consts(e, acc=None, seen=None):
    """0-ary uninterpreted constants occurring in a z3 term"""
    if acc is None: acc = {}; seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[x.decl().name()] = x
            else: st.extend(x.children())
    return acc
def contains(e, sub):
    sid = sub.get_id(); st = [e]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i == sid: return True
        if i in seen: continue
        seen.add(i); st.extend(x.children())
    return False
def contains_fn(e, name):
    st = [e]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().name() == name: return True
            st.extend(x.children())
    return False
