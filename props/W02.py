"""W02: multi-state wave functions and the operator matrices acting on them."""
from framework import *
import wfc, vec, lib, loops
from wfc import veq, N
from vec import VecVal
ID = "W02"; TITLE = "multi-state wave functions and operator matrices act state by state"
SOURCES = ["qdlib/WFMultistate.cpp", "qdlib/OMultistate.cpp", "qdlib/WFLevel.cpp", "qdlib/OSum.cpp", "qdlib/OList.cpp"]
SHIMS = {"ms": '#include "qdlib/OMultistate.h"\n#include "qdlib/WFMultistate.h"\nusing namespace QDLIB;\nint f(OMultistate*s, WFMultistate *w){ return sizeof(*s)+sizeof(*w); }\n'}
REPLAY = "W02.cpp"
ASSUMPTIONS = ["the strides of a multi-state wave function are the storage of its states (set up by Init)", "every member operator's Apply is a linear map writing only its destination, ApplyAdd adds that map's result (the interface contract, proved for the concrete operators in other properties)", "the states' own arithmetic is that of W01", "single process (no MPI)"]
WM = "QDLIB::WFMultistate"; OM = "QDLIB::OMultistate"; WW = "QDLIB::WaveFunction*"; WF = wfc.WF; V = "QDLIB::Vector<QDLIB::dcomplex>"; CXR = "QDLIB::dcomplex const&"; Q = 64
VTW = "VT:_ZTVN5QDLIB12WFMultistateE"; VTO = "VT:_ZTVN5QDLIB11OMultistateE"
def states(w, m, st=None): return m.fam + "S"
def link(ex, st, fam): return col_eval(ex.column(st, st.fams[fam], '#link', 'i'), ())
def k_link(v):
    @lib.contract
    def h(ex, st, args, I, name):
        """RetireStorage / ReaquireStorage of a multi-state wave function's vector: its strides are unlinked from / linked to the states' storage (which must be there)"""
        p = args[0]; f = st.fams[p.fam]
        if getattr(f, "ms", None) is None: raise Unsupported(f"{name} on {p.fam}")
        if v:
            j = int_sym(fresh_name("j")); s = st.copy(); n = ex.load(st, Ptr(p.fam, p.ix, P(ex.prog.layout(WM)["_nstates"][0])), lib.INT, I); s.assume(b_and(le(0, j), lt(j, n)))
            ex.oblige(s, eq(col_eval(ex.column(s, s.fams[f.ms], '#ret', 'i'), (j,), lambda q: ex.S.decide(s.pc, q)), 0), f"pre:states have storage when linked@{ex.loc(I)}")
        st.mem[(p.fam, '#link')] = ex.column(st, f, '#link', 'i').write((), P(v))
    return h
@lib.contract
def k_fill(ex, st, args, I, name):
    """Vector = scalar: every value of the vector; for a multi-state wave function the values of all its states (its strides are the states' storage)"""
    p, c = args; v = tuple(ex.load(st, c.add(P(o)), lib.DBL, I) for o in (0, 8)); x = VecVal.x("one").scale(v) if not vec.c_iszero(v) else VecVal.zero()
    f = st.fams[p.fam]
    if getattr(f, "ms", None) is None: wfc.vset(ex, st, p, x, I, "fill"); return p
    ex.oblige(st, eq(link(ex, st, p.fam), 1), f"pre:strides linked to the states:{p.fam}@{ex.loc(I)}"); g = st.fams[f.ms]; n = ex.load(st, Ptr(p.fam, p.ix, P(ex.prog.layout(WM)["_nstates"][0])), lib.INT, I)
    if g.const: ex.oblige(st, False, f"frame:write to read-only {g.name.split('!')[0]}@{ex.loc(I)}")
    st.mem[(g.name, '#val')] = ex.column(st, g, '#val', 'v').bulk(Upd([('rng', P(0), P(n))], None, lambda X: x)); return p
def world(c, extra=None):
    k = wfc.contracts({f"{V}::operator=({CXR})": k_fill, f"{V}::SyncStrides()": wfc.k_noop, f"{V}::RetireStorage()": k_link(0), f"{V}::ReaquireStorage()": k_link(1), "QDLIB::ParamContainer::SetValue(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >, int const&)": wfc.k_noop, **(extra or {})})
    w = c.world(k); wfc.setup(w); return w
def ms(w, name, n, const=False, ret=0, heap=True):
    """multi-state wave function of n states name+'S'[0..n-1]"""
    wfc.wf(w, name + "S", 1, n, const=const, ret=ret)
    p = w.obj(name, WM, {"_nstates": n, "_states": lambda X: Ptr(name + "S", (X[0],)), "_mpirank": P(0), "_mpisize": P(1), "_IsKspace": P(0), "_spacebuffer": NULL, "nstrides_": n, "_StorageLocked": P(0)}, const=const, vptr=VTW)
    f = w.st.fams[name]; f.ms = name + "S"; f.fields["#link"] = "i"; f.bases["#link"] = lambda X: P(1 - ret); f.dyn = {WM: True}; f.heap = heap; w.st.assume(b_and(le(1, n), le(n, P(Q)))); return p
def sval(w, st, name, i): return w.rd(st, name + "S", '#val', (P(i),))
def each(w, st, n, fn, tag):
    i = int_sym("i"); s = st.copy(); s.assume(b_and(le(0, i), lt(i, n))); a, b = fn(s, i); veq(w, s, a, b, tag)
def units(prog, tier):
    us = [Unit(l, f) for l, f in (("norm", u_norm), ("normalize", u_normalize), ("inner product", u_inner), ("assign", u_assign), ("retire", u_retire), ("access", u_access), ("add a state", u_addstate), ("matrix: Apply(dest,src)", u_apply), ("matrix: Apply(Psi)", u_inplace), ("matrix: ApplyParent", u_parent), ("matrix: Add", u_add), ("matrix: State", u_state), ("matrix: UpdateTime, RecalcInternals", u_cast))]
    return us
def u_norm(c):
    w = world(c); n = int_sym("n"); p = ms(w, "a", n, const=True); kz = z3.Int("$k")
    for st, k, v in c.run(w, f"{WM}::Norm()", [p]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); x = sval(w, w.pre, "a", from_z(kz))
        w.ex.oblige(st, v == intrin.math1("sqrt", loops.SUMS.make(vec.inner(x, x)[0], kz, P(0), n)), "post:norm = square root of the sum over the states"); w.frame(st, lambda f, o: False, "Norm")
def total(w, a, b, n, j):
    kz = z3.Int("$k"); return loops.SUMS.make(vec.inner(sval(w, w.pre, a, from_z(kz)), sval(w, w.pre, b, from_z(kz)))[j], kz, P(0), n)
def u_inner(c):
    for al in (0, 1):
        w = world(c); n = int_sym("n"); p = ms(w, "a", n, const=True); q = p if al else ms(w, "b", n, const=True)
        for st, k, v in c.run(w, f"{WM}::operator*({WW})", [p, q]):
            w.ex.oblige(st, k == 'ret', "post:returns normally")
            if k == 'ret':
                for j, nm in ((0, "real"), (1, "imaginary")): w.ex.oblige(st, v[j] == total(w, "a", "a" if al else "b", n, j), f"post:{nm} part = sum of the states' inner products")
            w.frame(st, lambda f, o: False, "operator*")
    for sh in (0, 1):
        w = world(c); n = int_sym("n"); p = ms(w, "a", n, const=True)
        if sh: q = ms(w, "b", int_sym("m"), const=True); w.st.assume(b_not(eq(int_sym("m"), n)))
        else: q = wfc.wf(w, "q", const=True); w.st.fams["q"].dyn = {WM: False}
        for st, k, v in c.run(w, f"{WM}::operator*({WW})", [p, q], expect_ret=False): w.ex.oblige(st, k == 'throw', f"post:refused with {'another number of states' if sh else 'a single-state wave function'}"); w.frame(st, lambda f, o: False, "operator*")
def u_normalize(c):
    w = world(c); n = int_sym("n"); p = ms(w, "a", n)
    for st, k, v in c.run(w, f"{WM}::Normalize()", [p]):
        w.ex.oblige(st, k == 'ret', "post:returns normally"); r = intrin.math1("sqrt", total(w, "a", "a", n, 0))
        each(w, st, n, lambda s, i: (sval(w, s, "a", i), sval(w, w.pre, "a", i).rscale(rdiv(R(1), r))), "post:every state divided by the norm of all states"); w.frame(st, lambda f, o: f == "aS", "Normalize")
def u_assign(c):
    w = world(c); n = int_sym("n"); p, q = ms(w, "a", n), ms(w, "b", n, const=True)
    for st, k, v in c.run(w, f"{WM}::operator=({WW})", [p, q]):
        w.ex.oblige(st, b_and(k == 'ret', v == p), "post:returns itself")
        each(w, st, n, lambda s, i: (sval(w, s, "a", i), sval(w, w.pre, "b", i)), "post:every state copied"); w.frame(st, lambda f, o: f == "aS", "operator=")
        i = int_sym("i"); s = st.copy(); s.assume(b_and(le(0, i), lt(i, n))); w.ex.oblige(s, w.rd(s, "a", ('A', w.prog.layout(WM)["_states"][0], 0), (i,)) == Ptr("aS", (i,)), "post:states stay its own")
    for sh in (0, 1):
        w = world(c); n = int_sym("n"); p = ms(w, "a", n)
        if sh: q = ms(w, "b", int_sym("m"), const=True); w.st.assume(b_not(eq(int_sym("m"), n)))
        else: q = wfc.wf(w, "q", const=True); w.st.fams["q"].dyn = {WM: False}
        for st, k, v in c.run(w, f"{WM}::operator=({WW})", [p, q], expect_ret=False): w.ex.oblige(st, k == 'throw', f"post:refused with {'another number of states' if sh else 'a single-state wave function'}"); w.frame(st, lambda f, o: False, "operator=")
def u_retire(c):
    for f, r0, r1 in (("Retire", 0, 1), ("Reaquire", 1, 0)):
        w = world(c); n = int_sym("n"); p = ms(w, "a", n, ret=r0)
        for st, k, v in c.run(w, f"{WM}::{f}()", [p]):
            w.ex.oblige(st, k == 'ret', "post:returns normally"); i = int_sym("i"); s = st.copy(); s.assume(b_and(le(0, i), lt(i, n)))
            w.ex.oblige(s, eq(w.rd(s, "aS", '#ret', (i,)), r1), f"post:{f}: every state follows"); w.ex.oblige(st, eq(link(w.ex, st, "a"), 1 - r1), f"post:{f}: strides follow the states"); w.frame(st, lambda f, o: f == "aS" or o == "#link", f)
def null(x): return uf_bool("absent", (P(x),))
def uf_bool(nm, X): return wfc.uf_bool(nm, X)
def matrix(c, n, flags=False):
    w = world(c); w.st.assume(b_and(le(1, n), le(n, P(Q)))); wfc.op(w, "op", 1); f = w.st.fams["op"]; f.ixok = lambda ix: b_and(le(0, ix[0]), lt(ix[0], Q*Q), b_not(null(ix[0]))); f.nullif = lambda ix: null(ix[0])
    b1 = ms(w, "buf1", n, ret=1); b2 = ms(w, "buf2", n, ret=1); un = z3.Bool("unity")
    m = w.obj("M", OM, {"_nstates": n, "_unity": from_z(z3.If(un, z3.IntVal(1), z3.IntVal(0))), "_matrix": lambda X: Ptr("op", (X[0],)), "_buf1'": b1, "_buf2": b2, **({k: from_z(z3.If(z3.Bool("M." + k), z3.IntVal(1), z3.IntVal(0))) for k in ("_isTimedependent", "_hermitian", "_hermitian'")} if flags else {})}, vptr=VTO)
    return w, m, un
def result(w, kind, n, src, i, un):
    j = z3.Int("$j"); J = from_z(j); e = i*Q + J; x = sval(w, w.pre, src, J)
    return VecVal.zero().ite(null(e), vec.papp((kind, "op"), e, ("as set",), x)).add(x.ite(b_and(null(e), eq(i, J), un), VecVal.zero())).vsum(j, P(0), n)
def back(w, st, n, *bufs):
    i = int_sym("i"); s = st.copy(); s.assume(b_and(le(0, i), lt(i, n)))
    for b in bufs: w.ex.oblige(s, eq(w.rd(s, b + "S", '#ret', (i,)), 1), "post:work storage handed back")
def u_apply(c):
    n = int_sym("n"); w, m, un = matrix(c, n); d, s = ms(w, "d", n), ms(w, "s", n, const=True)
    for st, k, v in c.run(w, f"{OM}::Apply({WW}, {WW})", [m, d, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k == 'ret': each(w, st, n, lambda q, i: (sval(w, q, "d", i), result(w, 'op', n, "s", i, un)), "post:state i = sum over j of entry (i,j) applied to state j (an absent diagonal is one if asked for)")
        back(w, st, n, "buf1"); w.frame(st, lambda f, o: f in ("dS", "buf1S") or o == "#link" and f == "buf1", "Apply")
def u_inplace(c):
    n = int_sym("n"); w, m, un = matrix(c, n); d = ms(w, "d", n)
    for st, k, v in c.run(w, f"{OM}::Apply({WW})", [m, d]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k == 'ret': each(w, st, n, lambda q, i: (sval(w, q, "d", i), result(w, 'op', n, "d", i, un)), "post:state i = sum over j of entry (i,j) applied to state j")
        back(w, st, n, "buf1", "buf2"); w.frame(st, lambda f, o: f in ("dS", "buf1S", "buf2S") or o == "#link" and f in ("buf1", "buf2"), "Apply")
def u_parent(c):
    n = int_sym("n"); w, m, un = matrix(c, n); d, s = ms(w, "d", n), ms(w, "s", n, const=True)
    for st, k, v in c.run(w, f"{OM}::ApplyParent({WW}, {WW})", [m, d, s]):
        w.ex.oblige(st, k == 'ret', "post:returns normally")
        if k == 'ret': each(w, st, n, lambda q, i: (sval(w, q, "d", i), result(w, 'parent', n, "s", i, un)), "post:state i = sum over j of the basic map of entry (i,j) applied to state j")
        back(w, st, n, "buf1"); w.frame(st, lambda f, o: f in ("dS", "buf1S") or o == "#link" and f == "buf1", "ApplyParent")
def u_access(c):
    w = world(c); n = int_sym("n"); p = ms(w, "a", n, const=True); i = int_sym("i"); w.st.assume(b_and(le(0, i), lt(i, n)))
    for st, k, v in c.run(w, f"{WM}::State(int)", [p, i]): w.ex.oblige(st, b_and(k == 'ret', v == Ptr("aS", (i,))), "post:the state asked for"); w.frame(st, lambda f, o: False, "State")
    w = world(c); n = int_sym("n"); p = ms(w, "a", n, const=True)
    for st, k, v in c.run(w, f"{WM}::States()", [p]): w.ex.oblige(st, b_and(k == 'ret', eq(v, n)), "post:number of states"); w.frame(st, lambda f, o: False, "States")
def u_addstate(c):
    w = world(c); n, i, x = int_sym("n"), int_sym("index"), int_sym("other"); p = ms(w, "a", n); q = wfc.wf(w, "x"); w.st.assume(le(0, i)); S = ('A', w.prog.layout(WM)["_states"][0], 0)
    for st, k, v in c.run(w, f"{WM}::Add({WW}, int)", [p, q, i]):
        if k == 'throw': w.ex.oblige(st, le(Q - 1, i), "post:refused only for too many states"); w.frame(st, lambda f, o: False, "Add"); continue
        w.ex.oblige(st, w.rd(st, "a", S, (i,)) == Ptr("x"), "post:state stored at its place"); s = st.copy(); s.assume(b_and(le(0, x), lt(x, n), b_not(eq(x, i)))); w.ex.oblige(s, w.rd(s, "a", S, (x,)) == Ptr("aS", (x,)), "post:other states untouched")
        N2 = w.fld(st, p, WM, "_nstates"); w.ex.oblige(st, b_and(le(n, N2), le(i + 1, N2), b_or(eq(N2, n), eq(N2, i + 1))), "post:number of states covers the new one"); w.frame(st, lambda f, o: f == "a" and o in (S, w.prog.layout(WM)["_nstates"][0]), "Add")
def entry(w, st, x): return w.rd(st, "M", ('A', w.prog.layout(OM)["_matrix"][0], 0), (P(x),))
def u_add(c):
    H = "_hermitian'"; fl = lambda st, m: w.fld(st, m_, OM, m); one = lambda st, m: w.fld(st, xp, wfc.OP, m)
    n = int_sym("n"); w, m_, un = matrix(c, n, True); xp = wfc.op(w, "x"); r, q = int_sym("row"), int_sym("col"); w.st.assume(b_and(le(0, r), le(0, q))); e, t = r*Q + q, q*Q + r
    z, y = z3.Ints("z y"); w.st.assume(z3.ForAll([z, y], z3.Implies(z3.And(z >= 0, y >= 0, z < Q, y < Q, z3.Not(null(from_z(64*z + y)))), z3.And(z < n.z(), y < n.z())), patterns=[to_bool(null(from_z(64*z + y)))]))
    inr = b_and(lt(r, Q), lt(q, Q)); ok = b_and(inr, null(e))
    for st, k, v in c.run(w, f"{OM}::Add(QDLIB::Operator*, int, int)", [m_, xp, r, q]):
        pre = w.pre
        if k == 'throw': w.ex.oblige(st, b_not(ok), "post:refused only outside the matrix or for an entry in use"); w.frame(st, lambda f, o: False, "Add"); continue
        w.ex.oblige(st, ok, "post:an entry in use or outside the matrix is refused"); s = st.copy(); s.assume(ok); w.ex.oblige(s, entry(w, s, e) == Ptr("x"), "post:entry stored")
        x = int_sym("other"); s = st.copy(); s.assume(ok); s.assume(b_and(le(0, x), lt(x, Q*Q), b_not(eq(x, e)))); w.ex.oblige(s, entry(w, s, x) == Ptr("op", (x,)), "post:other entries untouched")
        N2 = fl(st, "_nstates"); w.ex.oblige(st, b_and(le(n, N2), le(r + 1, N2), le(q + 1, N2), b_or(eq(N2, n), eq(N2, r + 1), eq(N2, q + 1))), "post:number of states covers the entry")
        w.ex.oblige(st, iff(eq(fl(st, "_isTimedependent"), 1), b_or(eq(fl(pre, "_isTimedependent"), 1), eq(one(pre, "_isTimedependent"), 1))), "post:time dependent if it was or the entry is")
        w.ex.oblige(st, iff(eq(fl(st, "_hermitian"), 1), b_and(eq(fl(pre, "_hermitian"), 1), eq(one(pre, "_hermitian"), 1))), "post:hermitian only if all entries are")
        w.ex.oblige(st, iff(eq(fl(st, H), 1), b_and(eq(fl(pre, H), 1), b_or(eq(r, q), null(t)))), "post:missing elements are no longer mirrored once both partners are given")
        lay = w.prog.layout(OM); w.frame(st, lambda f, o: f == "M" and o in (lay["_nstates"][0], lay["_isTimedependent"][0], lay["_hermitian"][0], lay[H][0], ('A', lay["_matrix"][0], 0)), "Add")
def iff(a, b): return to_bool(a) == to_bool(b)
def u_state(c):
    n = int_sym("n"); w, m, un = matrix(c, n); i, j = int_sym("i"), int_sym("j"); w.st.assume(b_and(le(0, i), le(0, j)))
    for st, k, v in c.run(w, f"{OM}::State(int, int)", [m, i, j]): inr = b_and(lt(i, n), lt(j, n)); w.ex.oblige(st, b_and(k == 'ret', b_not(inr) if v == NULL else b_and(inr, v == Ptr("op", (i*Q + j,)))), "post:the entry, none outside the matrix"); w.frame(st, lambda f, o: False, "State")
def u_cast(c):
    n = int_sym("n")
    b = z3.Bool("on"); w, m, un = matrix(c, n); w.st.fams["op"].bases['#RecalcInternals'] = lambda X: P(2); w.st.fams["op"].fields['#RecalcInternals'] = 'i'
    for st, k, v in c.run(w, f"{OM}::RecalcInternals(bool)", [m, from_z(z3.If(b, z3.IntVal(1), z3.IntVal(0)))]): w.ex.oblige(st, k == 'ret', "post:returns normally"); w.frame(st, lambda f, q: f == "op" or f == "M" and q == w.prog.layout(wfc.OP)["_recalc"][0], "RecalcInternals")
    for h in (0, 1):
        w, m, un = matrix(c, n); w.st.fams["M"].bases[w.prog.layout(OM)["_hermitian'"][0]] = lambda X, h=h: P(h); w.st.fams["op"].bases['#UpdateTime'] = lambda X: P(0); w.st.fams["op"].fields['#UpdateTime'] = 'i'
        for st, k, v in c.run(w, f"{OM}::UpdateTime()", [m]): w.ex.oblige(st, k == 'ret', "post:returns normally"); w.frame(st, lambda f, q: f == "op" and q == '#UpdateTime', "UpdateTime")
