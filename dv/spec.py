"""Specification helpers: object shapes (class invariants as preconditions), aliasing patterns, postcondition and frame obligations."""
import z3
from term import *
from mem import *
from solve import *
from exec import *
from prog import *
import loops, intrin

def new_solver():
    S = Solver()
    S.extra_axioms.append(loops.SUMS.axioms); S.extra_axioms.append(loops.RECS.axioms); S.extra_axioms.append(loops.PRODS.axioms); S.extra_axioms.append(loops.RPRODS.axioms)
    S.extra_axioms.append(intrin.math_axioms)
    return S

class World:
    def __init__(w, prog, ex):
        w.prog = prog; w.ex = ex; w.st = State(); w.pre_cols = {}
    # ---- generic objects
    def obj(w, name, cls, vals=None, const=False, vptr=None):
        """object of class cls with the given member values {member: Poly/real/Ptr/fn}"""
        lay = w.prog.layout(cls)
        f = Fam(name, 'struct', size=lay["#size"][0], const=const, cls=cls)
        for m, (o, t) in lay.items():
            if m == "#size": continue
            mt = re.match(r"(.*?)\[(\d+)\](\[(\d+)\])?$", t)
            if mt:
                n = int(mt.group(2)) * int(mt.group(4) or 1); es = ESZ(mt.group(1).strip())
                if es and n > 1:
                    f.arrays.append((o, es, n)); f.fields[('A', o, 0)] = KIND(mt.group(1).strip())
            else:
                k = KIND(t)
                if k: f.fields[o] = k
        for m, v in (vals or {}).items():
            if m not in lay: raise ExtractError(f"no member {m} in {cls}")
            o, t = lay[m]
            if callable(v): f.bases[('A', o, 0)] = v
            else: f.bases[o] = (lambda X, v=v: v)
        if vptr: f.bases[0] = lambda X: Ptr(vptr, (), P(16) if vptr.startswith("VT:") else P(0))
        w.st.fam(f)
        return Ptr(name)
    def fld(w, st, p, cls, m):
        """read member of object p in state st (pure, no obligations)"""
        o, t = w.prog.layout(cls)[m]
        return w.rd(st, p.fam, o, tuple(p.ix))
    def rd(w, st, fam, field, X=()):
        f = st.fams[fam]
        c = st.mem.get((fam, field))
        if c is None:
            b = f.bases.get(field)
            if b is None: b = w.ex.default_base(f, field, f.fields.get(field, 'd'))
            return b(tuple(X))
        return col_eval(c, tuple(P(x) for x in X), lambda q: w.ex.S.decide(st.pc, q))
    # ---- QDLIB::Vector<T>
    def vector(w, name, T, n, strides=None, const=False, cls=None, vals=None, vptr=None, base=None):
        """well-formed vector: v_[s] points to its own block of stride_size elements (s < nstrides)"""
        cls = cls or f"QDLIB::Vector<{T}>"
        strides = P(1) if strides is None else strides
        v = w.vparts(name, T, n, strides, const, base); v.update(vals or {})
        p = w.obj(name, cls, v, const=const, vptr=vptr)
        return p
    def vparts(w, name, T, n, strides=None, const=False, base=None, prefix=""):
        """storage of a well-formed vector, and the values of its members (also for a vector that is itself a member: prefix 'member.')"""
        strides = P(1) if strides is None else strides
        es = {'double': 8, 'struct QDLIB::dcomplex': 16, 'int': 4}[T]
        v = {"nstrides_": strides, "stride_size_": n, "n_": n * strides, "_mpirank": P(0), "_mpisize": P(1),
             "isRef_": P(0), "_StorageLocked": P(0), "v_": Ptr(name + ".v"), "_StrideRefObj": Ptr(name + ".ro"), "_SourceStride": Ptr(name + ".ss")}
        w.st.fam(Fam(name + ".v", 'array', esize=8, count=strides, fields={0: 'p'}, bases={0: lambda X: Ptr(name + ".d", (X[0],))}, const=const, heap=True))
        w.st.fam(Fam(name + ".ro", 'array', esize=8, count=strides, fields={0: 'p'}, bases={0: lambda X: NULL}, const=const, heap=True))
        w.st.fam(Fam(name + ".ss", 'array', esize=4, count=strides, fields={0: 'i'}, bases={0: lambda X: P(-1)}, const=const, heap=True))
        flds = {8: {0: 'd'}, 16: {0: 'd', 8: 'd'}, 4: {0: 'i'}}[es]
        d = Fam(name + ".d", 'array', esize=es, count=n, fields=flds, arity=1, const=const, heap=True,
                ixok=lambda ix: b_and(le(0, ix[0]), lt(ix[0], strides)))
        if base:
            for o, fn in base.items(): d.bases[o] = fn
        w.st.fam(d)
        w.st.assume(le(0, n)); w.st.assume(le(1, strides))
        return {prefix + k: x for k, x in v.items()}
    def cat(w, st, name, s, i):
        """complex element (re, im) of vector data"""
        return (w.rd(st, name + ".d", 0, (P(s), P(i))), w.rd(st, name + ".d", 8, (P(s), P(i))))
    def dat(w, st, name, s, i):
        return w.rd(st, name + ".d", 0, (P(s), P(i)))
    # ---- running
    def snapshot(w):
        w.pre = w.st.copy()
    def run(w, fn, args):
        w.snapshot()
        w.outs = w.ex.call_fn(w.st.copy(), fn, args)
        return w.outs
    def frame(w, st, allowed, tag):
        """every pre-existing region outside `allowed` must be unwritten (or rewritten with its old value)"""
        for (fam, field), c in list(st.mem.items()):
            if fam not in w.pre.fams or fam.startswith("G:"): continue
            if allowed(fam, field): continue
            c0 = w.pre.mem.get((fam, field))
            if c0 is c or not c.ups or (c0 is not None and c.ups == c0.ups): continue
            X = loops.fresh_X(loops.col_arity(c, w.pre.fams[fam], field))
            s2 = st.copy(); loops.add_bounds(s2, w.pre.fams[fam], field, X)
            if c.kind == "p":
                try: a = col_eval(c, X, lambda q: w.ex.S.decide(s2.pc, q)); b = w.rd(w.pre, fam, field, X)
                except AltPtr: w.ex.oblige(s2, False, f"frame:{tag}:{fam}.{field}"); continue
                w.ex.oblige(s2, loops.val_eq(a, b), f"frame:{tag}:{fam}.{field}")
            else:
                w.ex.oblige(s2, loops.val_eq(col_eval(c, X), w.rd(w.pre, fam, field, X)), f"frame:{tag}:{fam}.{field}")

def KIND(t):
    t = t.strip()
    if t.endswith("*") or t.endswith("&") or t == "fftw_plan": return 'p'
    if t in ("double", "float"): return 'd'
    if t in ("int", "lint", "size_type", "_Bool", "bool", "size_t", "unsigned int", "long", "unsigned long", "lluint", "short", "char", "llint", "unsigned int"): return 'i'
    if t in ("dVec", "cVec", "dMat", "cMat") or "std::" in t or t.startswith("class") or t.startswith("struct"): return None
    return 'i'
def ESZ(t):
    k = KIND(t)
    if k in 'dp' if k else False: return 8
    if k == 'i': return 1 if t in ("_Bool", "bool", "char") else 8 if t in ("long", "size_t", "unsigned long", "lluint") else 4
    return None

# complex arithmetic on (re, im) pairs of z3 reals
def cadd(a, b): return (radd(a[0], b[0]), radd(a[1], b[1]))
def csub(a, b): return (rsub(a[0], b[0]), rsub(a[1], b[1]))
def cmul(a, b): return (rsub(rmul(a[0], b[0]), rmul(a[1], b[1])), radd(rmul(a[0], b[1]), rmul(a[1], b[0])))
def csc(a, r): return (rmul(a[0], r), rmul(a[1], r))
def cconj(a): return (a[0], rneg(a[1]))
def ceq(a, b): return b_and(to_bool(a[0] == b[0]), to_bool(a[1] == b[1]))

def induct(w, st, e, spec, D, tag):
    """e (a closed form over recursions that run to D) equals spec(D): proved by induction over the number of steps"""
    A = [a for a in loops.RECS.apps([e]) if from_z(a.children()[0]) == P(D)] if not isinstance(e, (int, float)) else []
    if not A: w.ex.oblige(st, loops.val_eq(e, spec(D)), tag); return
    k = int_sym("ik"); at = lambda kk: z3.substitute(e, *[(a, a.decl()(P(kk).z(), *a.children()[1:])) for a in A])
    s = st.copy(); s.assume(b_and(le(0, k), lt(k, D)))
    w.ex.oblige(st, b_and(le(0, D), loops.val_eq(at(0), spec(0))), tag + " (start)"); s.assume(loops.val_eq(at(k), spec(k))); w.ex.oblige(s, loops.val_eq(at(k + 1), spec(k + 1)), tag + " (step)")
