"""V04: strided vector container, for every length, stride count and content."""
from framework import *
import lib
ID = "V04"; TITLE = "strided vector container"
MEM = ["Vector<T>& Vector<T>::newsize(lint)", "Vector<T>& Vector<T>::newsize(lint, lint)", "Vector<T>& Vector<T>::operator=(const Vector<T>&)", "Vector<T>& Vector<T>::operator=(const T&)",
  "void Vector<T>::operator*=(const T&)", "bool Vector<T>::swap(Vector<T>&)", "void Vector<T>::FastCopy(Vector<T>&)", "bool Vector<T>::StrideCopy(Vector<T>&, lint, lint)", "Vector<T>& Vector<T>::CopySub(Vector<T>&, lint, lint)",
  "void Vector<T>::RetireStorage()", "void Vector<T>::ReaquireStorage()", "T& Vector<T>::operator[](lint)", "const T& Vector<T>::operator[](lint) const", "bool Vector<T>::StrideRef(Vector<T>&, lint, lint)", "void Vector<T>::downsize(int)",
  "void Vector<T>::LockStorage()", "void Vector<T>::UnLockStorage()", "lint Vector<T>::size() const", "lint Vector<T>::lsize() const", "lint Vector<T>::strides() const", "lint Vector<T>::start() const", "lint Vector<T>::stop() const", "size_t Vector<T>::sizeBytes() const", "T* Vector<T>::begin(lint) const",
  "Vector<T>::Vector()", "Vector<T>::Vector(lint)", "Vector<T>::Vector(lint, lint)", "Vector<T>::Vector(lint, const T&)", "Vector<T>::Vector(lint, const T*)", "Vector<T>::Vector(const Vector<T>&)", "Vector<T>::~Vector()"]
FUN = ["T dot_prod(const Vector<T>&, const Vector<T>&)", "double norm(const Vector<T>&)", "Vector<T> operator+(const Vector<T>&, const Vector<T>&)", "Vector<T> operator-(const Vector<T>&, const Vector<T>&)",
  "Vector<T> elementwise_mult(const Vector<T>&, const Vector<T>&)", "Vector<T> operator*(const T&, const Vector<T>&)", "void operator+=(Vector<T>&, const T)", "void operator-=(Vector<T>&, const T)", "Vector<T> operator+=(Vector<T>&, const Vector<T>&)", "Vector<T> operator-=(Vector<T>&, const Vector<T>&)"]
def _inst():
    out = []
    for T in ("double", "dcomplex"):
        for d in MEM + FUN:
            if T == "dcomplex" and d.startswith(("double norm",)): continue
            if T == "double" and d.startswith("Vector<T> operator*("): continue
            out.append("template " + d.replace("Vector<T>", f"Vector<{T}>").replace("(T ", f"({T} ").replace("const T&", f"const {T}&").replace("const T*", f"const {T}*").replace("const T)", f"const {T})").replace("T& ", f"{T}& ").replace("T* ", f"{T}* ").replace("T dot", f"{T} dot") + ";")
    return "\n".join(out)
SHIMS = {"vecc": '#include "math/typedefs.h"\n#include "math/dcomplex.h"\n#include "math/Vector.h"\nnamespace QDLIB {\n' + _inst() + '\n}\nstruct dv_use { QDLIB::Vector<double> a; QDLIB::Vector<QDLIB::dcomplex> b; };\nQDLIB::dcomplex dv_q(const QDLIB::cVec &a, const QDLIB::cVec &b) { return QDLIB::operator*(a, b); }\ndv_use *dv_p() { return new dv_use(); }\n'}
SOURCES = []
REPLAY = "V04.cpp"
ASSUMPTIONS = ["class invariant: length = strides * stride size; every stride owns its block (vectors produced by the constructors and resizing operations)", "whole-vector arithmetic operators are specified for operands with one stride"]
D = "double"; C = "QDLIB::dcomplex"
LV = {D: "double", C: "struct QDLIB::dcomplex"}
def comps(T): return (0,) if T == D else (0, 8)
def es(T): return 8 if T == D else 16
def cls(T): return f"QDLIB::Vector<{LV[T]}>"
def nm(T): return f"QDLIB::Vector<{T}>"
def teq(a, b): return b_and(*[to_bool(x == y) for x, y in zip(a, b)])
def mul(a, b): return (rmul(a[0], b[0]),) if len(a) == 1 else cmul(a, b)
def el(w, st, p, T, s, i):
    """element i of stride s of the vector object p, through its stride table"""
    v = w.fld(st, p, cls(T), "v_"); d = w.rd(st, v.fam, 0, tuple(v.ix) + (P(s),))
    if not isinstance(d, Ptr) or d.fam is None or d.fam.startswith("U:"): raise Unsupported("stride table entry " + str(d))
    x = P(i)
    if not (d.off == P(0)):
        q = d.off.divc(es(T))
        if q is None or q[1]: raise Unsupported("misaligned stride")
        x = x + q[0]
    return tuple(w.rd(st, d.fam, o, tuple(d.ix) + (x,)) for o in comps(T))
def blk(w, st, p, T, s):
    v = w.fld(st, p, cls(T), "v_"); return w.rd(st, v.fam, 0, tuple(v.ix) + (P(s),))
def live(st, f, ix):
    return f not in st.dead
def shape(w, st, p, T, L, S, tag):
    o = w.ex.oblige
    o(st, eq(w.fld(st, p, cls(T), "n_"), L*S), f"post:{tag} length"); o(st, eq(w.fld(st, p, cls(T), "nstrides_"), S), f"post:{tag} strides")
    o(st, eq(w.fld(st, p, cls(T), "stride_size_"), L), f"post:{tag} stride size")
def vec(w, name, T, L, S=None, **k): return w.vector(name, LV[T], L, S, **k)
def scal(w, T):
    w.st.fam(Fam("x", 'struct', size=es(T), fields={o: 'd' for o in comps(T)}, bases={o: (lambda X, o=o: real_sym(f"x{o}")) for o in comps(T)}, const=True))
    return tuple(real_sym(f"x{o}") for o in comps(T))
def own(w, st, p, T, s, others, tag):
    b = blk(w, st, p, T, s)
    w.ex.oblige(st, b.fam not in others, f"post:{tag} own storage")
    f = st.fams.get(b.fam)
    w.ex.oblige(st, f is not None and b.fam not in st.dead, f"post:{tag} storage live")
    if f is not None and f.count is not None:
        L = w.fld(st, p, cls(T), "stride_size_")
        w.ex.oblige(st, eq(f.countf(b.ix) * (f.esize or 1), L*es(T)), f"post:{tag} stride block holds stride-size elements")

def units(prog, tier):
    us = []
    for T in (D, C):
        t = "dbl" if T == D else "cplx"
        for f in (u_ctor, u_ctorv, u_copyctor, u_newsize, u_assign, u_fastcopy, u_fill, u_scale, u_swap, u_stridecopy, u_copysub, u_retire, u_index, u_arith, u_inplace, u_scalar, u_dot, u_destroy, u_strideref):
            if f is u_copyctor or f is u_assign or f is u_fastcopy:
                us.append(Unit(f"{f.__name__[2:]}[{t}]", lambda c, f=f, T=T: f(c, T))); continue
            us.append(Unit(f"{f.__name__[2:]}[{t}]", lambda c, f=f, T=T: f(c, T)))
    us.append(Unit("norm[dbl]", u_norm))
    return us

def raw(w, T): return w.obj("V", cls(T), {})
def LS(w):
    L, S = int_sym("L"), int_sym("S"); w.st.assume(le(1, L)); w.st.assume(le(1, S)); return L, S
def at(w, st, L, S):
    s, i = int_sym("s"), int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, s), lt(s, S), le(0, i), lt(i, L))); return s2, s, i

def u_ctor(c, T):
    w = c.world(lib.mem()); L, S = LS(w); p = raw(w, T)
    for st, k, v in c.run(w, nm(T) + "::Vector(int, int)", [p, L*S, S]):
        if k == 'ret':
            shape(w, st, p, T, L, S, "ctor"); s2, s, i = at(w, st, L, S); own(w, s2, p, T, s, (), "ctor")
            a = int_sym("a"); s2.assume(b_and(le(0, a), lt(a, S), b_not(eq(a, s)))); x, y = blk(w, s2, p, T, s), blk(w, s2, p, T, a)
            w.ex.oblige(s2, b_not(b_and(x.fam == y.fam, *[eq(m, n) for m, n in zip(x.ix, y.ix)])), "post:ctor strides are disjoint blocks")
    w = c.world(lib.mem()); L, S = LS(w); p = raw(w, T)
    for st, k, v in c.run(w, nm(T) + "::Vector(int)", [p, L]):
        if k == 'ret': shape(w, st, p, T, L, P(1), "ctor"); own(w, st, p, T, 0, (), "ctor")
    w = c.world(lib.mem()); p = raw(w, T)
    for st, k, v in c.run(w, nm(T) + "::Vector()", [p]): shape(w, st, p, T, P(0), P(1), "empty")
def u_ctorv(c, T):
    w = c.world(lib.mem()); L, S = LS(w); p = raw(w, T); x = scal(w, T)
    for st, k, v in c.run(w, nm(T) + f"::Vector(int, {T} const&)", [p, L, Ptr("x")]):
        if k != 'ret': continue
        shape(w, st, p, T, L, P(1), "fill ctor"); s2, s, i = at(w, st, L, P(1)); own(w, s2, p, T, 0, (), "fill ctor"); w.ex.oblige(s2, teq(el(w, s2, p, T, 0, i), x), "post:fill ctor element")
    w = c.world(lib.mem()); L, S = LS(w); p = raw(w, T)
    w.st.fam(Fam("arr", 'array', esize=es(T), count=L, fields={o: 'd' for o in comps(T)}, const=True))
    for st, k, v in c.run(w, nm(T) + f"::Vector(int, {T} const*)", [p, L, Ptr("arr")]):
        if k != 'ret': continue
        shape(w, st, p, T, L, P(1), "array ctor"); s2, s, i = at(w, st, L, P(1)); own(w, s2, p, T, 0, ("arr",), "array ctor")
        w.ex.oblige(s2, teq(el(w, s2, p, T, 0, i), tuple(w.rd(w.pre, "arr", o, (i,)) for o in comps(T))), "post:array ctor element")
def src(w, st, T, s, i): return tuple(w.rd(st, "A.d", o, (P(s), P(i))) for o in comps(T))
def copied(w, st, p, T, L, S, tag):
    shape(w, st, p, T, L, S, tag); s2, s, i = at(w, st, L, S); own(w, s2, p, T, s, ("A.d",), tag)
    w.ex.oblige(s2, teq(el(w, s2, p, T, s, i), src(w, w.pre, T, s, i)), f"post:{tag} element")
def u_copyctor(c, T):
    w = c.world(lib.mem()); L, S = LS(w); p = raw(w, T); a = vec(w, "A", T, L, S, const=True)
    for st, k, v in c.run(w, nm(T) + f"::Vector({nm(T)} const&)", [p, a]):
        if k == 'ret': copied(w, st, p, T, L, S, "copy ctor")
def u_newsize(c, T):
    for form in (1, 2):
        w = c.world(lib.mem()); L, S = LS(w); M, U = int_sym("M"), int_sym("U"); w.st.assume(le(0, M)); w.st.assume(le(1, U)); p = vec(w, "V", T, M, U)
        S1 = S if form == 2 else P(1)
        for st, k, v in c.run(w, nm(T) + ("::newsize(int, int)" if form == 2 else "::newsize(int)"), [p, L*S1] + ([S] if form == 2 else [])):
            if k != 'ret': continue
            w.ex.oblige(st, eq(w.fld(st, p, cls(T), "n_"), L*S1), "post:newsize length")
            changed = w.fld(st, p, cls(T), "v_") != Ptr("V.v")
            if changed:
                shape(w, st, p, T, L, S1, "newsize"); s2, s, i = at(w, st, L, S1); own(w, s2, p, T, s, (), "newsize"); w.ex.oblige(st, "V.v" in st.dead, "post:old storage released")
            else:
                w.ex.oblige(st, eq(M*U, L*S1), "post:storage is kept only for an equal length"); w.frame(st, lambda f, o: False, "newsize same")
                if form == 2: w.ex.oblige(st, eq(U, S1), "post:storage is kept only for equal strides")
def u_assign(c, T):
    w = c.world(lib.mem()); L, S = LS(w); M, U = int_sym("M"), int_sym("U"); w.st.assume(le(1, M)); w.st.assume(le(1, U)); p = vec(w, "V", T, M, U); a = vec(w, "A", T, L, S, const=True)
    for st, k, v in c.run(w, nm(T) + f"::operator=({nm(T)} const&)", [p, a]):
        if k != 'ret': continue
        w.ex.oblige(st, v == p, "post:returns the target"); copied(w, st, p, T, L, S, "assign")
    w = c.world(lib.mem()); p = vec(w, "V", T, M, U)
    for st, k, v in c.run(w, nm(T) + f"::operator=({nm(T)} const&)", [p, p]): w.frame(st, lambda f, o: False, "self assignment")
def u_fastcopy(c, T):
    w = c.world(lib.mem()); L, S = LS(w); M, U = int_sym("M"), int_sym("U"); w.st.assume(le(1, M)); w.st.assume(le(1, U)); p = vec(w, "V", T, M, U); a = vec(w, "A", T, L, S, const=True)
    for st, k, v in c.run(w, nm(T) + f"::FastCopy({nm(T)}&)", [p, a]):
        if k == 'ret': copied(w, st, p, T, L, S, "fastcopy")
def u_fill(c, T):
    w = c.world(lib.mem()); L, S = LS(w); p = vec(w, "V", T, L, S); x = scal(w, T)
    for st, k, v in c.run(w, nm(T) + f"::operator=({T} const&)", [p, Ptr("x")]):
        s2, s, i = at(w, st, L, S); w.ex.oblige(s2, teq(el(w, s2, p, T, s, i), x), "post:every element"); w.frame(st, lambda f, o: f == "V.d", "fill")
def u_scale(c, T):
    w = c.world(lib.mem()); L, S = LS(w); p = vec(w, "V", T, L, S); x = scal(w, T)
    for st, k, v in c.run(w, nm(T) + f"::operator*=({T} const&)", [p, Ptr("x")]):
        s2, s, i = at(w, st, L, S); w.ex.oblige(s2, teq(el(w, s2, p, T, s, i), mul(el(w, w.pre, p, T, s, i), x)), "post:every element"); w.frame(st, lambda f, o: f == "V.d", "scale")
def u_swap(c, T):
    w = c.world(lib.mem()); L, S = LS(w); M, U = int_sym("M"), int_sym("U"); w.st.assume(le(1, M)); w.st.assume(le(1, U)); p = vec(w, "V", T, M, U); a = vec(w, "A", T, L, S)
    for st, k, v in c.run(w, nm(T) + f"::swap({nm(T)}&)", [p, a]):
        if k != 'ret': w.ex.oblige(st, False, "post:returns"); continue
        same = b_and(eq(L, M), eq(S, U)); w.ex.oblige(st, to_bool(as_b(v)) == to_bool(same), "post:succeeds exactly for equal shapes")
        s1 = st.copy(); s1.assume(b_not(same))
        if w.ex.S.feasible(s1.pc): w.frame(s1, lambda f, o: False, "refused swap")
        s1 = st.copy(); s1.assume(same)
        if w.ex.S.feasible(s1.pc):
            s2, s, i = at(w, s1, L, S)
            w.ex.oblige(s2, b_and(ptreq(blk(w, s2, p, T, s), Ptr("A.d", (s,))), ptreq(blk(w, s2, a, T, s), Ptr("V.d", (s,)))), "post:stride blocks exchanged"); w.frame(s1, lambda f, o: f in ("V.v", "A.v"), "swap")
def ptreq(a, b): return isinstance(a, Ptr) and a.fam == b.fam and b_and(eq(a.off, b.off), *[eq(x, y) for x, y in zip(a.ix, b.ix)])
def as_b(v): return v if isinstance(v, (bool, z3.BoolRef)) else b_not(eq(v, 0))
def u_stridecopy(c, T):
    w = c.world(lib.mem()); L, S = LS(w); M, U = int_sym("M"), int_sym("U"); w.st.assume(le(1, M)); w.st.assume(le(1, U)); p = vec(w, "V", T, M, U); a = vec(w, "A", T, L, S, const=True)
    x, y = int_sym("src"), int_sym("dst"); w.st.assume(le(0, x)); w.st.assume(le(0, y))
    for st, k, v in c.run(w, nm(T) + f"::StrideCopy({nm(T)}&, int, int)", [p, a, x, y]):
        if k != 'ret': w.ex.oblige(st, False, "post:returns"); continue
        okc = b_and(eq(L, M), lt(x, S), lt(y, U)); w.ex.oblige(st, to_bool(as_b(v)) == to_bool(okc), "post:succeeds exactly for existing strides of equal size")
        s2, s, i = at(w, st, M, U); old = el(w, w.pre, p, T, s, i); new = src(w, w.pre, T, x, i)
        w.ex.oblige(s2, teq(el(w, s2, p, T, s, i), tuple(ite(b_and(okc, eq(s, y)), m, n) for m, n in zip(new, old))), "post:only the destination stride changes"); w.frame(st, lambda f, o: f == "V.d", "stridecopy")
def u_copysub(c, T):
    w = c.world(lib.mem()); L = int_sym("L"); w.st.assume(le(1, L)); b, e, M = int_sym("b"), int_sym("e"), int_sym("M"); w.st.assume(b_and(le(0, b), le(b, e), lt(e, L), le(1, M)))
    p = vec(w, "V", T, M); a = vec(w, "A", T, L, const=True)
    for st, k, v in c.run(w, nm(T) + f"::CopySub({nm(T)}&, int, int)", [p, a, b, e]):
        if k != 'ret': continue
        i = int_sym("i"); s2 = st.copy(); s2.assume(b_and(le(0, i), le(i, e - b)))
        w.ex.oblige(s2, teq(el(w, s2, p, T, 0, i), src(w, w.pre, T, 0, b + i)), "post:element"); w.ex.oblige(st, le(e - b + 1, w.fld(st, p, cls(T), "n_")), "post:holds the section")
def u_retire(c, T):
    w = c.world(lib.mem()); L, S = LS(w); lock = int_sym("lock"); w.st.assume(b_and(le(0, lock), le(lock, 1))); p = vec(w, "V", T, L, S, vals={"_StorageLocked": lock})
    for st, k, v in c.run(w, nm(T) + "::RetireStorage()", [p]):
        if k != 'ret': continue
        shape(w, st, p, T, L, S, "retire")
        s1 = st.copy(); s1.assume(eq(lock, 1))
        if w.ex.S.feasible(s1.pc): w.frame(s1, lambda f, o: False, "retire locked")
        s1 = st.copy(); s1.assume(eq(lock, 0))
        if not w.ex.S.feasible(s1.pc): continue
        s2, s, i = at(w, s1, L, S); w.ex.oblige(s2, blk(w, s2, p, T, s) == NULL, "post:storage invalidated")
        w.ex._rec("post:storage handed back", "proved" if dead(w, s2, "V.d", s) else "refuted", "exec", 0.0, "stride block not freed")
        # and back again
        w2 = w; snap = s1.copy()
        for st3, k3, v3 in w.ex.call_fn(snap, c.fn(nm(T) + "::ReaquireStorage()"), [p]):
            if k3 != 'ret': continue
            shape(w, st3, p, T, L, S, "reaquire"); s4, s, i = at(w, st3, L, S); own(w, s4, p, T, s, ("V.d",), "reaquire")
    w = c.world(lib.mem()); p = vec(w, "V", T, L, S)
    for st, k, v in c.run(w, nm(T) + "::ReaquireStorage()", [p]): w.frame(st, lambda f, o: False, "reaquire of available storage")
    for nm2, val in (("LockStorage", 1), ("UnLockStorage", 0)):
        w = c.world(lib.mem()); p = vec(w, "V", T, L, S, vals={"_StorageLocked": int_sym("lk")})
        for st, k, v in c.run(w, nm(T) + f"::{nm2}()", [p]): w.ex.oblige(st, eq(w.fld(st, p, cls(T), "_StorageLocked"), val), "post:" + nm2)
def dead(w, st, fam, s):
    if fam in st.dead: return True
    cdead = st.mem.get((fam, '#dead'))
    if cdead is None: return False
    v = col_eval(cdead, (P(s),))
    return w.ex.S.decide(st.pc, eq(v, 1)) is True
def u_index(c, T):
    for cst in ("", " const"):
        w = c.world(lib.mem()); L, S = LS(w); s, i = int_sym("s"), int_sym("i"); w.st.assume(b_and(le(0, s), lt(s, S), le(0, i), lt(i, L))); p = vec(w, "V", T, L, S, const=True)
        for st, k, v in c.run(w, nm(T) + "::operator[](int)" + cst, [p, s*L + i]): w.ex.oblige(st, ptreq(v, Ptr("V.d", (s,), i*es(T))), "post:flat index s*stride_size+i is element i of stride s")
    w = c.world(lib.mem()); L, S = LS(w)
    for sg, want in (("size() const", L*S), ("lsize() const", L), ("strides() const", S), ("start() const", P(0)), ("stop() const", L*S), ("sizeBytes() const", L*es(T))):
        w = c.world(lib.mem()); L, S = LS(w); p = vec(w, "V", T, L, S, const=True)
        for st, k, v in c.run(w, nm(T) + "::" + sg, [p]): w.ex.oblige(st, eq(v, want), "post:" + sg)
    w = c.world(lib.mem()); L, S = LS(w); s = int_sym("s"); w.st.assume(b_and(le(0, s), lt(s, S))); p = vec(w, "V", T, L, S, const=True)
    for st, k, v in c.run(w, nm(T) + "::begin(int) const", [p, s]): w.ex.oblige(st, ptreq(v, Ptr("V.d", (s,))), "post:begin")
    w = c.world(lib.mem()); L, S = LS(w); N = int_sym("N"); p = vec(w, "V", T, L, S)
    for st, k, v in c.run(w, nm(T) + "::downsize(int)", [p, N]): w.ex.oblige(st, eq(w.fld(st, p, cls(T), "n_"), ite_i(le(N, L*S), N, L*S)), "post:downsize never grows")
def ite_i(c, a, b): return ite(c, P(a), P(b))
def two(w, T, L):
    return vec(w, "A", T, L, const=True), vec(w, "B", T, L, const=True)
def eb(w, T, i): return tuple(w.rd(w.pre, "B.d", o, (P(0), P(i))) for o in comps(T))
def u_arith(c, T):
    for op, f in (("operator+", lambda a, b: tuple(radd(x, y) for x, y in zip(a, b))), ("operator-", lambda a, b: tuple(rsub(x, y) for x, y in zip(a, b))), ("elementwise_mult", mul)):
        w = c.world(lib.mem()); L, S = LS(w); a, b = two(w, T, L); r = raw(w, T)
        for st, k, v in c.run(w, f"{nm(T)} QDLIB::{op}<{T}>({nm(T)} const&, {nm(T)} const&)", [r, a, b]):
            if k != 'ret': continue
            shape(w, st, r, T, L, P(1), op); s2, s, i = at(w, st, L, P(1)); own(w, s2, r, T, 0, ("A.d", "B.d"), op); w.ex.oblige(s2, teq(el(w, s2, r, T, 0, i), f(src(w, w.pre, T, 0, i), eb(w, T, i))), f"post:{op} element")
def u_inplace(c, T):
    for op, f in (("operator+=", radd), ("operator-=", rsub)):
        w = c.world(lib.mem()); L, S = LS(w); a = vec(w, "A", T, L); b = vec(w, "B", T, L, const=True); r = raw(w, T)
        for st, k, v in c.run(w, f"{nm(T)} QDLIB::{op}<{T}>({nm(T)}&, {nm(T)} const&)", [r, a, b]):
            if k != 'ret': continue
            s2, s, i = at(w, st, L, P(1)); want = tuple(f(x, y) for x, y in zip(src(w, w.pre, T, 0, i), eb(w, T, i)))
            w.ex.oblige(s2, teq(src(w, s2, T, 0, i), want), f"post:{op} target element"); w.ex.oblige(s2, teq(el(w, s2, r, T, 0, i), want), f"post:{op} result element"); shape(w, st, r, T, L, P(1), op)
def u_scalar(c, T):
    for op, f in (("operator+=", radd), ("operator-=", rsub)):
        w = c.world(lib.mem()); L, S = LS(w); a = vec(w, "A", T, L); x = tuple(real_sym(f"x{o}") for o in comps(T))
        for st, k, v in c.run(w, f"void QDLIB::{op}<{T}>({nm(T)}&, {T})", [a] + list(x)):
            s2, s, i = at(w, st, L, P(1)); w.ex.oblige(s2, teq(src(w, s2, T, 0, i), tuple(f(m, n) for m, n in zip(src(w, w.pre, T, 0, i), x))), f"post:{op} scalar element"); w.frame(st, lambda f, o: f == "A.d", op)
    if T == D: return
    w = c.world(lib.mem()); L, S = LS(w); a = vec(w, "A", T, L, const=True); x = scal(w, T); r = raw(w, T)
    for st, k, v in c.run(w, f"{nm(T)} QDLIB::operator*<{T}>({T} const&, {nm(T)} const&)", [r, Ptr("x"), a]):
        if k != 'ret': continue
        shape(w, st, r, T, L, P(1), "scalar*"); s2, s, i = at(w, st, L, P(1)); w.ex.oblige(s2, teq(el(w, s2, r, T, 0, i), mul(src(w, w.pre, T, 0, i), x)), "post:scalar*vector element")
def u_dot(c, T):
    w = c.world(lib.mem()); L, S = LS(w); a, b = two(w, T, L)
    for st, k, v in c.run(w, f"{T} QDLIB::dot_prod<{T}>({nm(T)} const&, {nm(T)} const&)", [a, b]):
        if k != 'ret': continue
        kz = z3.Int("kk"); t = mul(src(w, w.pre, T, 0, P(kz)), eb(w, T, P(kz)))
        got = v if isinstance(v, tuple) else (v,)
        for g, s in zip(got, t): w.ex.oblige(st, g == loops.SUMS.make(s, kz, P(0), L), "post:sum of products")
        w.frame(st, lambda f, o: False, "dot")
    if T == C:
        w = c.world(lib.mem()); L, S = LS(w); a, b = two(w, T, L)
        for st, k, v in c.run(w, f"QDLIB::operator*({nm(T)} const&, {nm(T)} const&)", [a, b]):
            kz = z3.Int("kk"); t = mul(cconj(src(w, w.pre, T, 0, P(kz))), eb(w, T, P(kz)))
            for g, s in zip(v, t): w.ex.oblige(st, g == loops.SUMS.make(s, kz, P(0), L), "post:inner product conjugates the left vector")
            w.frame(st, lambda f, o: False, "inner")
def u_norm(c):
    T = D; w = c.world(lib.mem()); L, S = LS(w); a = vec(w, "A", T, L, const=True)
    for st, k, v in c.run(w, f"double QDLIB::norm<double>({nm(T)} const&)", [a]):
        kz = z3.Int("kk"); x = w.rd(w.pre, "A.d", 0, (P(0), P(kz)))
        s = loops.SUMS.make(rmul(x, x), kz, P(0), L)
        w.ex.oblige(st, v*v == s, "post:norm squared is the sum of squares"); w.ex.oblige(st, v >= 0, "post:norm not negative")
def u_destroy(c, T):
    w = c.world(lib.mem()); L, S = LS(w); p = vec(w, "V", T, L, S)
    for st, k, v in c.run(w, nm(T) + "::~Vector()", [p]):
        w.ex.oblige(st, "V.v" in st.dead and "V.ro" in st.dead and "V.ss" in st.dead, "post:tables released")
        s2, s, i = at(w, st, L, S); w.ex._rec("post:stride blocks released", "proved" if dead(w, s2, "V.d", s) else "refuted", "exec", 0.0, "not freed")
def u_strideref(c, T):
    """a reference vector built from another vector's strides aliases them"""
    w = c.world(lib.mem()); L, S = LS(w); x = int_sym("src"); w.st.assume(b_and(le(0, x), lt(x, S))); a = vec(w, "A", T, L, S); p = vec(w, "V", T, P(0), P(1))
    # fresh (empty, own) target
    for st, k, v in c.run(w, nm(T) + f"::StrideRef({nm(T)}&, int, int)", [p, a, x, P(0)]):
        if k != 'ret': continue
        w.ex.oblige(st, as_b(v), "post:accepted"); w.ex.oblige(st, ptreq(blk(w, st, p, T, 0), Ptr("A.d", (x,))), "post:the stride is the source stride"); shape(w, st, p, T, L, P(1), "strideref")
        w.frame(st, lambda f, o: f.startswith("V"), "strideref")
