"""V03: dense matrices, for every shape and content."""
from framework import *
import lib
ID = "V03"; TITLE = "dense matrix container and matrix-vector product"
SHIMS = {"mat": '#include "math/typedefs.h"\n#include "math/Vector.h"\n#include "math/dcomplex.h"\n#include "math/Matrix.h"\nusing namespace QDLIB;\n'
  'template class QDLIB::Matrix<double>; template class QDLIB::Matrix<dcomplex>;\n'
  'template void QDLIB::MatVecMult<dcomplex,dcomplex>(cVec*,cMat*,cVec*,bool,bool); template void QDLIB::MatVecMult<double,double>(dVec*,dMat*,dVec*,bool,bool); template void QDLIB::MatVecMult<dcomplex,double>(cVec*,dMat*,cVec*,bool,bool);\n'
  'template QDLIB::cVec QDLIB::operator*<double>(const dMat&, const cVec&); template QDLIB::cVec QDLIB::operator*<dcomplex>(const cMat&, const cVec&);\n'}
SOURCES = []
REPLAY = "V03.cpp"
ASSUMPTIONS = ["matrix-vector product: input and output vectors are distinct objects with one stride"]
D = "double"; C = "QDLIB::dcomplex"
LC = {D: "QDLIB::Matrix<double>", C: "QDLIB::Matrix<struct QDLIB::dcomplex>"}
LV = {D: "double", C: "struct QDLIB::dcomplex"}
def comps(T): return (0,) if T == D else (0, 8)
def es(T): return 8 if T == D else 16

def matrix(w, name, T, m, n, flat=False, const=False):
    """class invariant: _v is a block of m*n elements, column j starts at element j*m"""
    E = es(T)
    p = w.obj(name, LC[T], {"_m": m, "_n": n, "_mn": m*n, "_v": Ptr(name + ".v"), "_col": Ptr(name + ".c")}, const=const)
    w.st.fam(Fam(name + ".c", 'array', esize=8, count=n, fields={0: 'p'}, bases={0: lambda X: Ptr(name + ".v", (), X[0]*m*E)}, const=const, heap=True))
    w.st.fam(Fam(name + ".v", 'array', esize=E, count=m*n, fields={o: 'd' for o in comps(T)}, radix=None if flat else [(m, n), (P(1), m)], const=const, heap=True))
    w.st.assume(le(0, m)); w.st.assume(le(0, n))
    return p
def el(w, st, name, T, i, j):
    """M(i,j): row i, column j (radix view)"""
    return tuple(w.rd(st, name + ".v", o, (P(j), P(i))) for o in comps(T))
def fl(w, st, name, T, i): return tuple(w.rd(st, name + ".v", o, (P(i),)) for o in comps(T))
def teq(a, b): return b_and(*[to_bool(x == y) for x, y in zip(a, b)])
def mul(a, b):
    if len(a) == 1 and len(b) == 1: return (rmul(a[0], b[0]),)
    if len(a) == 1: return csc(b, a[0])
    if len(b) == 1: return csc(a, b[0])
    return cmul(a, b)

def units(prog, tier):
    us = []
    for T in (D, C):
        t = "dbl" if T == D else "cplx"
        for nm, f in (("newsize", u_newsize), ("ctor", u_ctor), ("fill", u_fill), ("scale", u_scale), ("copy", u_copy), ("access", u_access), ("diag", u_diag), ("setdiag", u_setdiag), ("coloumn", u_col), ("destroy", u_destroy)):
            us.append(Unit(f"{nm}[{t}]", lambda c, f=f, T=T: f(c, T)))
    us.append(Unit("transpose[dbl]", u_transpose))
    for T, U in ((C, C), (D, D), (C, D)):
        for tr, ad in ((False, False), (True, False), (True, True)):
            us.append(Unit(f"MatVecMult[{'c' if T == C else 'd'}{'c' if U == C else 'd'},{int(tr)}{int(ad)}]", lambda c, T=T, U=U, tr=tr, ad=ad: u_mv(c, T, U, tr, ad)))
    for U in (C, D): us.append(Unit(f"operator*[{'c' if U == C else 'd'}]", lambda c, U=U: u_mulop(c, U)))
    return us

def shape_post(w, st, p, T, m, n, tag):
    cls = LC[T]; o = w.ex.oblige
    o(st, eq(w.fld(w, st, p, cls, "_m") if False else w.fld(st, p, cls, "_m"), m), f"post:{tag} rows"); o(st, eq(w.fld(st, p, cls, "_n"), n), f"post:{tag} cols")
    o(st, eq(w.fld(st, p, cls, "_mn"), m*n), f"post:{tag} total")
    v = w.fld(st, p, cls, "_v"); c = w.fld(st, p, cls, "_col")
    fv = st.fams.get(v.fam); fc = st.fams.get(c.fam)
    if fv is None or fc is None: o(st, False, f"post:{tag} storage"); return
    j = int_sym("jc"); s2 = st.copy(); s2.assume(b_and(le(0, j), lt(j, n)))
    try:
        cp = w.rd(s2, c.fam, 0, (j,))
        good = isinstance(cp, Ptr) and cp.fam == v.fam
        o(s2, eq(cp.off, j*m*es(T)) if good else False, f"post:{tag} column j starts at j*rows")
    except (Unsupported, AltPtr) as e: o(s2, False, f"post:{tag} column pointers ({e})")
    cnt = fv.count if isinstance(fv.count, Poly) else None
    if cnt is not None: o(st, eq(cnt * (fv.esize or 1), m*n*es(T)), f"post:{tag} block size")
    o(st, v.fam not in st.dead and c.fam not in st.dead, f"post:{tag} storage live")

def nm(T): return "QDLIB::Matrix<%s>" % T
def u_newsize(c, T):
    w = c.world(lib.mem()); m, n, a, b = map(int_sym, "mnab")
    p = matrix(w, "M", T, m, n, flat=True); w.st.assume(le(1, a)); w.st.assume(le(1, b))
    for st, k, v in c.run(w, nm(T) + "::newsize(int, int)", [p, a, b]):
        if k != 'ret': continue
        shape_post(w, st, p, T, a, b, "newsize")
        if w.ex.S.feasible(st.pc, b_and(eq(m, a), eq(n, b))):
            s2 = st.copy(); s2.assume(b_and(eq(m, a), eq(n, b))); i = int_sym("i"); s2.assume(b_and(le(0, i), lt(i, m*n)))
            w.ex.oblige(s2, w.fld(st, p, LC[T], "_v") == Ptr("M.v"), "post:same shape keeps storage")
            for o in comps(T): w.ex.oblige(s2, w.rd(s2, "M.v", o, (i,)) == w.rd(w.pre, "M.v", o, (i,)), "post:same shape keeps content")
def u_ctor(c, T):
    w = c.world(lib.mem()); a, b = map(int_sym, "ab"); w.st.assume(le(0, a)); w.st.assume(le(0, b))
    p = w.obj("M", LC[T], {})
    for st, k, v in c.run(w, nm(T) + "::Matrix(int, int)", [p, a, b]):
        if k == 'ret': shape_post(w, st, p, T, a, b, "ctor")
    w = c.world(lib.mem()); p = w.obj("M", LC[T], {})
    for st, k, v in c.run(w, nm(T) + "::Matrix()", [p]):
        for f in ("_m", "_n", "_mn"): w.ex.oblige(st, eq(w.fld(st, p, LC[T], f), 0), "post:empty matrix " + f)
        w.ex.oblige(st, w.fld(st, p, LC[T], "_v") == NULL, "post:empty matrix no storage")
def u_destroy(c, T):
    w = c.world(lib.mem()); m, n = map(int_sym, "mn"); p = matrix(w, "M", T, m, n, flat=True)
    for st, k, v in c.run(w, nm(T) + "::~Matrix()", [p]):
        w.ex.oblige(st, "M.v" in st.dead and "M.c" in st.dead, "post:storage released")
def u_fill(c, T):
    w = c.world(lib.mem()); m, n, i = map(int_sym, "mni"); p = matrix(w, "M", T, m, n, flat=True)
    x = [real_sym(f"x{o}") for o in comps(T)]
    w.st.fam(Fam("x", 'struct', size=es(T), fields={o: 'd' for o in comps(T)}, bases={o: (lambda X, o=o: real_sym(f"x{o}")) for o in comps(T)}, const=True))
    for st, k, v in c.run(w, nm(T) + f"::operator=({T} const&)", [p, Ptr("x")]):
        s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, m*n)))
        w.ex.oblige(s2, teq(fl(w, s2, "M", T, i), x), "post:every element"); w.frame(st, lambda f, o: f == "M.v", "fill")
def u_scale(c, T):
    w = c.world(lib.mem()); m, n, i = map(int_sym, "mni"); p = matrix(w, "M", T, m, n, flat=True)
    x = tuple(real_sym(f"x{o}") for o in comps(T))
    w.st.fam(Fam("x", 'struct', size=es(T), fields={o: 'd' for o in comps(T)}, bases={o: (lambda X, o=o: real_sym(f"x{o}")) for o in comps(T)}, const=True))
    for st, k, v in c.run(w, nm(T) + f"::operator*=({T} const&)", [p, Ptr("x")]):
        s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, m*n)))
        w.ex.oblige(s2, teq(fl(w, s2, "M", T, i), mul(fl(w, w.pre, "M", T, i), x)), "post:every element"); w.frame(st, lambda f, o: f == "M.v", "scale")
def u_copy(c, T):
    w = c.world(lib.mem()); m, n, a, b, i = map(int_sym, "mnabi"); p = matrix(w, "M", T, m, n, flat=True); q = matrix(w, "S", T, a, b, flat=True, const=True)
    w.st.assume(le(1, a)); w.st.assume(le(1, b))
    for st, k, v in c.run(w, nm(T) + f"::operator=({nm(T)} const&)", [p, q]):
        if k != 'ret': continue
        shape_post(w, st, p, T, a, b, "copy")
        s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, a*b))); vv = w.fld(st, p, LC[T], "_v")
        w.ex.oblige(s2, vv.fam != "S.v", "post:own storage")
        for o in comps(T): w.ex.oblige(s2, w.rd(s2, vv.fam, o, (i,)) == w.rd(w.pre, "S.v", o, (i,)), "post:element")
        w.frame(st, lambda f, o: f in ("M", "M.v", "M.c"), "copy")
def u_access(c, T):
    for cst in ("", " const"):
        w = c.world(); m, n, i, j = map(int_sym, "mnij"); p = matrix(w, "M", T, m, n); w.st.assume(b_and(le(0, i), lt(i, m), le(0, j), lt(j, n)))
        for st, k, v in c.run(w, nm(T) + "::operator()(int, int)" + cst, [p, i, j]):
            w.ex.oblige(st, b_and(v.fam == "M.v", eq(v.off, (j*m + i)*es(T))), "post:element (i,j) is element j*rows+i of the block")
    for sg, want in (("begin()", lambda: P(0)), ("begin(int)", None)):
        w = c.world(); m, n, j = map(int_sym, "mnj"); p = matrix(w, "M", T, m, n); w.st.assume(b_and(le(0, j), lt(j, n)))
        for st, k, v in c.run(w, nm(T) + "::" + sg, [p] + ([j] if not want else [])):
            w.ex.oblige(st, b_and(v.fam == "M.v", eq(v.off, P(0) if want else j*m*es(T))), "post:pointer")
    w = c.world(); m, n = map(int_sym, "mn"); p = matrix(w, "M", T, m, n)
    for sg, want in (("rows() const", m), ("cols() const", n), ("sizeBytes()", m*n*es(T))):
        w = c.world(); p = matrix(w, "M", T, m, n)
        for st, k, v in c.run(w, nm(T) + "::" + sg, [p]): w.ex.oblige(st, eq(v, want), "post:" + sg)
def u_diag(c, T):
    w = c.world(lib.mem()); n, i = map(int_sym, "ni"); w.st.assume(le(1, n)); p = matrix(w, "M", T, n, n, const=True)
    for st, k, v in c.run(w, nm(T) + "::diag() const", [p]):
        if k != 'ret': continue
        s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n)))
        lv = "QDLIB::Vector<%s>" % LV[T]
        w.ex.oblige(st, eq(w.fld(st, v, lv, "n_"), n), "post:size")
        vv = w.fld(st, v, lv, "v_"); d = w.rd(s2, vv.fam, 0, (P(0),))
        w.ex.oblige(s2, teq(tuple(w.rd(s2, d.fam, o, tuple(d.ix) + (i,)) for o in comps(T)), el(w, w.pre, "M", T, i, i)), "post:diagonal element")
        w.frame(st, lambda f, o: False, "diag")
    w = c.world(lib.mem()); m, n = map(int_sym, "mn"); p = matrix(w, "M", T, m, n, const=True); w.st.assume(b_not(eq(m, n)))
    for st, k, v in c.run(w, nm(T) + "::diag() const", [p]): w.ex.oblige(st, v == NULL, "post:not square")
def u_setdiag(c, T):
    w = c.world(lib.mem()); n, i, j, L = map(int_sym, "nijL"); p = matrix(w, "M", T, n, n); q = w.vector("d", LV[T], L, const=True)
    for st, k, v in c.run(w, nm(T) + "::diag(QDLIB::Vector<%s>*)" % T, [p, q]):
        s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n), le(0, j), lt(j, n)))
        old = el(w, w.pre, "M", T, i, j); dv = tuple(w.rd(w.pre, "d.d", o, (P(0), i)) for o in comps(T))
        w.ex.oblige(s2, teq(el(w, s2, "M", T, i, j), tuple(ite(b_and(eq(i, j), eq(L, n)), a, b) for a, b in zip(dv, old))), "post:element")
        w.frame(st, lambda f, o: f == "M.v", "setdiag")
def u_col(c, T):
    w = c.world(lib.mem()); m, n, i, j = map(int_sym, "mnij"); w.st.assume(le(1, m)); p = matrix(w, "M", T, m, n, const=True); w.st.assume(b_and(le(0, j), lt(j, n)))
    for st, k, v in c.run(w, nm(T) + "::coloumn(int) const", [p, j]):
        if k != 'ret': continue
        s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, m)))
        lv = "QDLIB::Vector<%s>" % LV[T]
        w.ex.oblige(st, eq(w.fld(st, v, lv, "n_"), m), "post:size")
        vv = w.fld(st, v, lv, "v_"); d = w.rd(s2, vv.fam, 0, (P(0),))
        w.ex.oblige(s2, teq(tuple(w.rd(s2, d.fam, o, tuple(d.ix) + (i,)) for o in comps(T)), el(w, w.pre, "M", T, i, j)), "post:column element")
def u_transpose(c):
    T = D; w = c.world(); n, i, j = map(int_sym, "nij"); p = matrix(w, "M", T, n, n)
    key = ("M.v", 0)
    def hint(ex, info):
        # contract-supplied invariant: entries already exchanged after the first kk iterations
        F, fr = info["F"], info["fr"]
        if "transpose" not in F.name or key not in info["M"]: return None
        c0 = info["st0"].mem[key]
        outer = any(h2 != info["h"] and h2 in F.loops[info["h"]] for h2 in F.loops)
        def old(X): return col_eval(c0, X)
        if outer:
            g = lambda kk: (lambda X: b_and(lt(X[0], kk), lt(X[1], kk), b_not(eq(X[0], X[1]))))
        else:
            # inner loop of row i: the current row index is the outer phi value
            ks = [k for k, u in ex.loopks if k is not None]
            if not ks: return None
            row = ks[-1]
            g = lambda kk: (lambda X: b_or(b_and(eq(X[0], row), lt(X[1], kk)), b_and(eq(X[1], row), lt(X[0], kk))))
        return {"cols": {key: lambda kk: c0 if P(kk) == P(0) else c0.bulk(Upd([('any',), ('any',)], g(P(kk)), lambda X: old((X[1], X[0]))))}}
    w.ex.loophints.append(hint)
    for st, k, v in c.run(w, nm(T) + "::transpose()", [p]):
        s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n), le(0, j), lt(j, n)))
        w.ex.oblige(s2, teq(el(w, s2, "M", T, i, j), el(w, w.pre, "M", T, j, i)), "post:M'(i,j) = M(j,i)"); w.frame(st, lambda f, o: f == "M.v", "transpose")
    w = c.world(); m, n, a = map(int_sym, "mna"); p = matrix(w, "M", T, m, n, const=True); w.st.assume(b_not(eq(m, n)))
    for st, k, v in c.run(w, nm(T) + "::transpose()", [p]): w.frame(st, lambda f, o: False, "transpose of a non-square matrix")
def u_mv(c, T, U, tr, ad):
    w = c.world(lib.mem()); m, n, i, b = map(int_sym, "mnib"); w.st.assume(le(1, m)); w.st.assume(le(1, n)); w.st.assume(le(1, b))
    p = matrix(w, "M", U, m, n, const=True)
    na, nb = (m, n) if tr else (n, m)
    A = w.vector("A", LV[T], na, const=True); B = w.vector("B", LV[T], b)
    sig = f"void QDLIB::MatVecMult<{T}, {U}>(QDLIB::Vector<{T}>*, QDLIB::Matrix<{U}>*, QDLIB::Vector<{T}>*, bool, bool)"
    for st, k, v in c.run(w, sig, [B, p, A, tr, ad]):
        if k != 'ret': continue
        lv = "QDLIB::Vector<%s>" % LV[T]
        w.ex.oblige(st, eq(w.fld(st, B, lv, "n_"), nb), "post:result size")
        s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, nb)))
        vv = w.fld(st, B, lv, "v_"); d = w.rd(s2, vv.fam, 0, (P(0),))
        kz = z3.Int("kk"); kk = P(kz)
        x = tuple(w.rd(w.pre, "A.d", o, (P(0), kk)) for o in comps(T))
        e = el(w, w.pre, "M", U, kk, i) if tr else el(w, w.pre, "M", U, i, kk)
        if ad and len(e) == 2: e = cconj(e)
        t = mul(e, x)
        got = tuple(w.rd(s2, d.fam, o, tuple(d.ix) + (i,)) for o in comps(T))
        for g, s in zip(got, t): w.ex.oblige(s2, g == loops.SUMS.make(s, kz, P(0), na), "post:row-column sum")
        w.frame(st, lambda f, o: f in ("B", "B.v", "B.d", "B.ro", "B.ss"), "MatVecMult")
    # mismatching sizes leave the result alone
    w = c.world(lib.mem()); L = int_sym("L"); p = matrix(w, "M", U, m, n, const=True); w.st.assume(b_not(eq(L, na)))
    A = w.vector("A", LV[T], L, const=True); B = w.vector("B", LV[T], b, const=True)
    for st, k, v in c.run(w, sig, [B, p, A, tr, ad]):
        w.ex.oblige(st, k == 'ret', "post:size mismatch is refused")
def u_mulop(c, U):
    """square matrix times complex vector"""
    T = C; w = c.world(lib.mem()); n, i = map(int_sym, "ni"); w.st.assume(le(1, n)); p = matrix(w, "M", U, n, n, const=True); A = w.vector("A", LV[T], n, const=True); r = w.obj("R", "QDLIB::Vector<%s>" % LV[T], {})
    for st, k, v in c.run(w, f"QDLIB::Vector<{T}> QDLIB::operator*<{U}>(QDLIB::Matrix<{U}> const&, QDLIB::Vector<{T}> const&)", [r, p, A]):
        if k != 'ret': continue
        lv = "QDLIB::Vector<%s>" % LV[T]; w.ex.oblige(st, eq(w.fld(st, r, lv, "n_"), n), "post:result size")
        s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n))); vv = w.fld(st, r, lv, "v_"); d = w.rd(s2, vv.fam, 0, tuple(vv.ix) + (P(0),))
        kz = z3.Int("kk"); kk = P(kz); t = mul(el(w, w.pre, "M", U, i, kk), tuple(w.rd(w.pre, "A.d", o, (P(0), kk)) for o in comps(T)))
        for o, s in zip(comps(T), t): w.ex.oblige(s2, w.rd(s2, d.fam, o, tuple(d.ix) + (i,)) == loops.SUMS.make(s, kz, P(0), n), "post:row-column sum")
        w.frame(st, lambda f, o: f == "R", "operator*")
