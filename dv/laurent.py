"""Exact normal form of real terms as Laurent polynomials: an equality whose difference cancels holds wherever the cancelled denominators are nonzero."""
from fractions import Fraction
import z3
LIM = 4000
CANCEL = set()         # terms that were cancelled against a divisor
class TooBig(Exception): pass

def norm(e, den, cache):
    k = e.get_id()
    if k in cache: return cache[k][1]
    r = _norm(e, den, cache); cache[k] = (e, r); return r
def _mul(a, b):
    if len(a) * len(b) > LIM: raise TooBig
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            d = dict(m)
            for t, p in n:
                q = d.get(t, 0) + p
                if p * d.get(t, 0) < 0: CANCEL.add(t)
                if q: d[t] = q
                else: d.pop(t, None)
            key = tuple(sorted(d.items())); v = r.get(key, 0) + x * y
            if v: r[key] = v
            else: r.pop(key, None)
    return r
def _add(a, b, s=1):
    r = dict(a)
    for m, y in b.items():
        v = r.get(m, 0) + s * y
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def _norm(e, den, cache):
    if z3.is_rational_value(e):
        f = e.as_fraction(); return {(): Fraction(f)} if f else {}
    if z3.is_app(e):
        k = e.decl().kind(); ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch: r = _add(r, norm(c, den, cache))
            return r
        if k == z3.Z3_OP_SUB:
            r = norm(ch[0], den, cache)
            for c in ch[1:]: r = _add(r, norm(c, den, cache), -1)
            return r
        if k == z3.Z3_OP_UMINUS: return _add({}, norm(ch[0], den, cache), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch: r = _mul(r, norm(c, den, cache))
            return r
        if k == z3.Z3_OP_DIV:
            return _mul(norm(ch[0], den, cache), inverse(ch[1], den, cache))
    cache[('keep', e.get_id())] = (e, None)
    return {((e.get_id(), 1),): Fraction(1)}

def inverse(e, den, cache):
    k = e.decl().kind()
    if k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in e.children(): r = _mul(r, inverse(c, den, cache))
        return r
    if k == z3.Z3_OP_DIV:
        den[e.arg(1).get_id()] = e.arg(1); return _mul(inverse(e.arg(0), den, cache), norm(e.arg(1), den, cache))
    d = norm(e, den, cache)
    if len(d) == 1:
        (m, x), = d.items()
        if m: den[e.get_id()] = e
        return {tuple((t, -p) for t, p in m): 1 / x}
    den[e.get_id()] = e
    s = z3.simplify(e, som=True); cache[('keep', s.get_id())] = (s, None)
    return {((s.get_id(), -1),): Fraction(1)}

def has_div(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen: return False
    seen.add(e.get_id())
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)): return True
        return any(has_div(c, seen) for c in e.children())
    return False
def vanishes(x, y):
    """None, or the list of denominators under whose being nonzero x == y"""
    den, cache = {}, {}
    try: d = _add(norm(x, den, cache), norm(y, den, cache), -1)
    except TooBig: return None
    return None if d else list(den.values())
