"""Memory model: disjoint regions ("families", possibly indexed by ghost ints), each split into columns."""
import z3
from term import *
from solve import Unsupported

class Ptr:
    __slots__ = ("fam", "ix", "off")
    def __init__(s, fam, ix=(), off=None):
        s.fam = fam; s.ix = tuple(P(i) for i in ix); s.off = off if off is not None else Poly.c(0)
    def add(s, d): return Ptr(s.fam, s.ix, s.off + d)
    def __repr__(s): return f"&{s.fam}{list(s.ix) if s.ix else ''}+{s.off}"
    def __eq__(s, o): return isinstance(o, Ptr) and s.fam == o.fam and s.ix == o.ix and s.off == o.off
    def __hash__(s): return hash((s.fam, s.ix, s.off))
NULL = Ptr(None)

class FnP:
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __repr__(s): return f"fn:{s.name}"
    def __eq__(s, o): return isinstance(o, FnP) and o.name == s.name
    def __hash__(s): return hash(s.name)
class AbsFn:
    __slots__ = ("cls", "slot")
    def __init__(s, c, k): s.cls = c; s.slot = k
    def __eq__(s, o): return isinstance(o, AbsFn) and (o.cls, o.slot) == (s.cls, s.slot)
    def __hash__(s): return hash((s.cls, s.slot))

def same_val(a, b):
    """syntactic equality of values"""
    if a is b: return True
    if isinstance(a, (Poly, Ptr, FnP, AbsFn)) or isinstance(b, (Poly, Ptr, FnP, AbsFn)): return a == b
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        x, y = to_bool(a), to_bool(b); return x.eq(y)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    return a == b

class Upd:
    """one (bulk) write: comps = per index component ('eq',Poly) | ('rng',lo,hi) | ('any',)"""
    __slots__ = ("comps", "guard", "val")
    def __init__(s, comps, guard, val): s.comps = tuple(comps); s.guard = guard; s.val = val
    def cond(s, X):
        cs = []
        for c, x in zip(s.comps, X):
            if c[0] == 'eq': cs.append(eq(x, c[1]))
            elif c[0] == 'rng': cs.append(le(c[1], x)); cs.append(lt(x, c[2]))
        if s.guard is not None: cs.append(s.guard(X))
        return b_and(*cs)

class Column:
    __slots__ = ("kind", "base", "ups", "log", "tag")
    def __init__(s, kind, base, ups=(), log=None, tag=None):
        s.kind = kind; s.base = base; s.ups = ups; s.log = log; s.tag = tag
    def write(s, ix, v):
        # drop an overwritten identical point write
        ups = s.ups
        if ups and all(c[0] == 'eq' for c in ups[-1].comps) and ups[-1].guard is None and \
           all(c[1] == i for c, i in zip(ups[-1].comps, ix)):
            ups = ups[:-1]
        return Column(s.kind, s.base, ups + (Upd([('eq', i) for i in ix], None, lambda X, v=v: v),), s.log, s.tag)
    def bulk(s, u): return Column(s.kind, s.base, s.ups + (u,), s.log, s.tag)

def vite(kind, c, a, b):
    if kind == 'v':
        return a.ite(c, b)
    return ite(c, a, b)

def col_eval(col, X, decide=None):
    """value of column at index tuple X; scalars/vectors only (conditional values become ite)"""
    conds = []
    v = None
    for u in reversed(col.ups):
        c = u.cond(X)
        if not isinstance(c, bool) and decide is not None:
            d = decide(c)
            if d is not None: c = d
        if c is False: continue
        if c is True:
            v = u.val(X); break
        conds.append((c, u))
    if v is None: v = col.base(X)
    if col.kind == 'p':
        if conds: raise AltPtr([(c, u.val(X)) for c, u in conds], v)
        return v
    for c, u in reversed(conds):
        v = vite(col.kind, c, u.val(X), v)
    return v

class AltPtr(Exception):
    def __init__(s, alts, dflt): s.alts = alts; s.dflt = dflt

class Maybe:
    """conditional pointer value: list of (cond, value)"""
    __slots__ = ("alts",)
    def __init__(s, alts): s.alts = alts

class Fam:
    """region family. kind: 'struct' (fixed byte offsets) or 'array' (count elements of esize bytes)"""
    def __init__(s, name, kind, size=None, esize=None, count=None, fields=None, arrays=None, bases=None, radix=None, heap=False, const=False, arity=0, cls=None, ixok=None):
        s.name = name; s.kind = kind; s.size = size; s.esize = esize; s.count = count
        s.fields = fields or {}      # field offset -> kind
        s.arrays = arrays or []      # (start, esize, count) inside a struct
        s.bases = bases or {}        # field -> base fn(X)
        s.radix = radix              # list of (stride Poly, extent Poly) for flat multi-dim arrays
        s.heap = heap; s.const = const; s.arity = arity; s.cls = cls
        s.ixok = ixok                # fn(ix)-> bool: which family members exist
    def countf(s, ix):
        return s.count(ix) if callable(s.count) else s.count

KSIZE = {'d': 8, 'p': 8}

class State:
    __slots__ = ("pc", "mem", "fams", "dead", "gh", "trace")
    def __init__(s):
        s.pc = []; s.mem = {}; s.fams = {}; s.dead = frozenset(); s.gh = {}; s.trace = ()
    def copy(s):
        n = State(); n.pc = list(s.pc); n.mem = dict(s.mem); n.fams = dict(s.fams); n.dead = s.dead
        n.gh = dict(s.gh); n.trace = s.trace
        return n
    def assume(s, c):
        if c is True: return
        s.pc.append(to_bool(c))
    def fam(s, f): s.fams[f.name] = f; return f
