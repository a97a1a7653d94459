"""Contract of class FFT (established by property F01) for its callers.  The object's abstract state: the shape the plans were made for,
and the two buffers.  A transform is an uninterpreted function of direction, dimension, shape and the contents of the source buffer."""
from spec import *
import lib, grid, loops, hashlib
from lib import contract
FF = "QDLIB::FFT"
CAN = z3.Int("$can")
def shape_fam(p): return "FS:" + p.fam
def new(w, st, name, D, size, cin, cout, heap=True):
    """an FFT object made for dims D, sizes size(i), working on the blocks cin and cout"""
    lay = w.prog.layout(FF); f = Fam(name, 'struct', size=lay["#size"][0], cls=FF, heap=heap)
    for m, v in (("_cin", cin), ("_cout", cout)): o = lay[m][0]; f.fields[o] = 'p'; f.bases[o] = lambda X, v=v: v
    f.fields['#D'] = 'i'; f.bases['#D'] = lambda X: P(D); st.fam(f)
    st.fam(Fam("FS:" + name, 'array', esize=4, arity=1, fields={'#n': 'i'}, bases={'#n': lambda X: size(X[-1])})); return Ptr(name)
def isfft(ex, st, p, I, what):
    if not isinstance(p, Ptr) or p.fam is None:
        ex.oblige(st, False, f"null-deref:{what}@{ex.loc(I)}"); raise DeadPath()
    f = st.fams.get(p.fam)
    if p.fam in st.dead: ex.oblige(st, False, f"use-after-free:{what}@{ex.loc(I)}"); raise DeadPath()
    if f is None or '#D' not in f.fields: raise Unsupported(f"{what}: {p.fam} is no FFT")
    return f
def dims(ex, st, f, ix=()): return col_eval(ex.column(st, f, '#D', 'i'), ix, lambda q: ex.S.decide(st.pc, q))
def size(ex, st, f, D=None):
    g = st.fams["FS:" + f.name]; c = ex.column(st, g, '#n', 'i'); s = st if D is None else inr(st, D); return lambda i: col_eval(c, (P(0), P(i)), lambda q: ex.S.decide(s.pc, q))
def inr(st, D):
    """state in which the canonical dimension gi is in range"""
    i = z3.Int("gi"); s = st.copy(); s.assume(b_and(le(0, from_z(i)), lt(from_z(i), D))); return s
def total(D, sz):
    i = z3.Int("gi"); return loops.PRODS.make(sz(from_z(i)), i, P(0), D)
def block(ex, st, p, n, I, what, es=16):
    if not isinstance(p, Ptr) or p.fam is None:
        ex.oblige(st, False, f"null-deref:{what}@{ex.loc(I)}"); raise DeadPath()
    f = st.fams[p.fam]
    if f.esize is None: intrin.settype(ex, f, es, {0: 'd', 8: 'd'} if es == 16 else {0: 'd'})
    if f.esize != es: raise Unsupported(f"{what}: element size of {f.name}")
    if p.fam in st.dead: ex.oblige(st, False, f"use-after-free:{what}@{ex.loc(I)}"); raise DeadPath()
    dc = st.mem.get((p.fam, '#dead'))
    if dc is not None and dc.ups: ex.oblige(st, eq(col_eval(dc, p.ix, lambda c: ex.S.decide(st.pc, c)), 0), f"use-after-free:{what}@{ex.loc(I)}")
    if f.ixok is not None: ex.oblige(st, f.ixok(p.ix), f"object-exists:{what}@{ex.loc(I)}")
    ex.oblige(st, eq(p.off, 0), f"pre:{what} starts at the beginning of its block@{ex.loc(I)}")
    c = f.countf(p.ix); ex.oblige(st, le(n, c), f"bounds:{what} holds all points@{ex.loc(I)}"); return f
def key(content, D, sz, sign, dim):
    """name of the transformed data: content(o, i) real/imaginary part of element i"""
    c = from_z(CAN); T = (content(0, c), content(8, c), P(D).z(), sz(from_z(z3.Int("gi"))).z()); s = "|".join(z3.simplify(x).sexpr() for x in T) + f"|{sign}|{dim}"
    k = "DFT" + hashlib.sha1(s.encode()).hexdigest()[:16]; MADE[k] = (content, D, sz, sign, dim); EXT[k] = (T[:2], total(D, sz), T[2:3], T[3:], f"{sign}|{dim}"); return k
EXT = {}
def same(S, pc, j, k):
    """two transforms of provably the same data on the same grid (extensionality)"""
    (A, n, D, z, t), (B, m, E, y, u) = EXT[j], EXT[k]
    if t != u or len(A) != len(B): return False
    pf = lambda g, *h: S.prove1(list(pc) + [b for b in h if b is not True], g, 3000, False)[0] == "proved"; gi, c = z3.Int("gi"), CAN
    return all(pf(a == b) for a, b in zip(D, E)) and all(pf(a == b, gi >= 0, gi < D[0]) for a, b in zip(z, y)) and (bool(D) or pf(eq(n, m))) and all(pf(a == b, c >= 0, lt(from_z(c), n)) for a, b in zip(A, B))
def unify(S, pc, goal):
    """the goal with transforms of the same data identified"""
    ts = {}; todo = [goal]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); todo += x.children()
        if z3.is_app(x) and x.decl().name()[:-3] in EXT: ts.setdefault(x.decl().name()[:-3], []).append(x)
    ks = sorted(ts); sub = []; gone = set()
    for a in range(len(ks)):
        for b in range(a + 1, len(ks)):
            if ks[a] in gone or ks[b] in gone or not same(S, pc, ks[a], ks[b]): continue
            gone.add(ks[b]); sub += [(x, z3.Function(ks[a] + x.decl().name()[-3:], z3.IntSort(), z3.RealSort())(x.arg(0))) for x in ts[ks[b]]]
    return z3.substitute(goal, *sub) if sub else goal
MADE = {}
def origin(t):
    """what a transformed value is the transform of: (content, D, sizes, sign, dimension, component, index)"""
    t = z3.simplify(t) if isinstance(t, z3.ExprRef) else t; n = t.decl().name() if isinstance(t, z3.ExprRef) and z3.is_app(t) else ""
    return (*MADE[n[:-3]], n[-2:], from_z(t.arg(0))) if n[:-3] in MADE else None
def value(k, o, i): return uf_real(f"{k}.{'re' if o == 0 else 'im'}", i)
def contents(ex, st, p, n):
    f = st.fams[p.fam]; s = st.copy(); c = from_z(CAN); s.assume(b_and(le(0, c), lt(c, n)))
    return lambda o, i: col_eval(ex.column(st, f, o, 'd'), tuple(p.ix) + (P(i),), lambda q: ex.S.decide(s.pc, q))
def set_(ex, st, p, f, n, fn, I, offs=(0, 8)):
    if f.const: ex.oblige(st, False, f"frame:write to read-only {f.name.split('!')[0]}@{ex.loc(I)}"); return
    for o in offs: st.mem[(f.name, o)] = ex.column(st, f, o, 'd').bulk(Upd([('eq', i) for i in p.ix] + [('rng', P(0), P(n))], None, lambda X, o=o: fn(o, X[-1])))
V = "QDLIB::Vector<QDLIB::dcomplex>"
def first(ex, st, v, I):
    lay = ex.prog.layout(V); p = ex.load(st, v.add(P(lay["v_"][0])), lib.PTRTY, I); return ex.load(st, p, lib.PTRTY, I)
@contract
def k_ctor(ex, st, args, I, name):
    """FFT(grid, in, out): plans for the shape of the grid; in keeps its contents, out becomes arbitrary"""
    p, g, a, b = args[:4]; f = st.fams[p.fam]; lay = ex.prog.layout(FF)
    h = g.add(P(grid.hoff(ex, grid.GS))); hf = grid._hdr(ex, st, h, I, "FFT"); D = grid._get(ex, st, hf, '#pb.dims@' + str(h.off), h.ix, 'i')
    ec = ex.column(st, st.fams[grid.ent(h)], '#size', 'i'); sg = inr(st, D); sz = lambda i: col_eval(ec, tuple(h.ix) + (P(i),), lambda q: ex.S.decide(sg.pc, q))
    ex.oblige(st, le(1, D), f"pre:grid has dimensions@{ex.loc(I)}")
    n = total(D, sz); pa, pb = first(ex, st, a, I), first(ex, st, b, I)
    fa, fb = block(ex, st, pa, n, I, "FFT input"), block(ex, st, pb, n, I, "FFT output"); ex.oblige(st, pa.fam != pb.fam or b_not(b_and(*[eq(x, y) for x, y in zip(pa.ix, pb.ix)])), f"pre:two different buffers@{ex.loc(I)}")
    nm = fresh_name("fftw.scratch"); set_(ex, st, pb, fb, n, lambda o, i: uf_real(nm + str(o), i), I)
    for m, v in (("_cin", pa), ("_cout", pb)): o = lay[m][0]; f.fields[o] = 'p'; st.mem[(f.name, o)] = ex.column(st, f, o, 'p').write(p.ix, v)
    f.fields['#D'] = 'i'; f.bases.setdefault('#D', lambda X: P(0)); st.mem[(f.name, '#D')] = ex.column(st, f, '#D', 'i').write(p.ix, D)
    st.fam(Fam("FS:" + f.name, 'array', esize=4, arity=1, fields={'#n': 'i'}, bases={'#n': lambda X: sz(X[-1])})); return None
@contract
def k_real(ex, st, args, I, name):
    """FFT(dVec in, cVec out): plans for real data of the size of in and the half spectrum out; both keep their contents"""
    p, a, b = args[:3]; f = st.fams[p.fam]; lay = ex.prog.layout(FF); n = ex.load(st, a.add(P(ex.prog.layout(VD)["n_"][0])), lib.INT, I)
    o1 = ex.load(st, a.add(P(ex.prog.layout(VD)["v_"][0])), lib.PTRTY, I); pa, pb = ex.load(st, o1, lib.PTRTY, I), first(ex, st, b, I)
    ex.oblige(st, le(1, n), f"pre:data to transform@{ex.loc(I)}"); h = half(st, n); block(ex, st, pa, n, I, "real data", 8); block(ex, st, pb, h, I, "spectrum")
    for m, v in (("_din", pa), ("_cout", pb)): o = lay[m][0]; f.fields[o] = 'p'; st.mem[(f.name, o)] = ex.column(st, f, o, 'p').write(p.ix, v)
    f.fields['#D'] = 'i'; f.bases.setdefault('#D', lambda X: P(0)); st.mem[(f.name, '#D')] = ex.column(st, f, '#D', 'i').write(p.ix, P(1)); f.real = True
    st.fam(Fam("FS:" + f.name, 'array', esize=4, arity=1, fields={'#n': 'i'}, bases={'#n': lambda X: n})); return None
VD = "QDLIB::Vector<double>"
def half(st, n):
    """n/2+1"""
    q = P(uf_int("half", n)); st.assume(b_and(le(q * 2, n), le(n, q * 2 + 1))); return q + 1
@contract
def k_rbuffers(ex, st, args, I, name):
    p, a, b = args; f = isfft(ex, st, p, I, "ReplaceBuffers"); lay = ex.prog.layout(FF)
    o1 = ex.load(st, a.add(P(ex.prog.layout(VD)["v_"][0])), lib.PTRTY, I)
    for m, v in (("_din", ex.load(st, o1, lib.PTRTY, I)), ("_cout", first(ex, st, b, I))): o = lay[m][0]; st.mem[(f.name, o)] = ex.column(st, f, o, 'p').write(p.ix, v)
    return None
def rkey(content, n, tag):
    c = from_z(CAN); T = tuple(content(c)); k = "RDFT" + hashlib.sha1(("|".join(z3.simplify(x).sexpr() for x in T) + "|" + n.z().sexpr() + tag).encode()).hexdigest()[:16]; EXT[k] = (T, n, (), (), tag); return k
def real_transform(ex, st, f, p, d, sign, I):
    lay = ex.prog.layout(FF); n = size(ex, st, f)(P(0)); h = half(st, n); ex.oblige(st, eq(d, -1), f"pre:a real transform has no dimensions to choose@{ex.loc(I)}")
    a, b = (ex.load(st, p.add(P(lay[m][0])), lib.PTRTY, I) for m in ("_din", "_cout")); fa, fb = block(ex, st, a, n, I, "real data", 8), block(ex, st, b, h, I, "spectrum")
    if sign < 0:
        k = rkey(lambda c: (col(ex, st, a, 0, c, n),), n, "r2c"); set_(ex, st, b, fb, h, lambda o, i: value(k, o, i), I)
    else:
        k = rkey(lambda c: (col(ex, st, b, 0, c, h), col(ex, st, b, 8, c, h)), n, "c2r"); set_(ex, st, a, fa, n, lambda o, i: uf_real(k, i), I, (0,))
        nm = fresh_name("fftw.scratch"); set_(ex, st, b, fb, h, lambda o, i: uf_real(nm + str(o), i), I)
def col(ex, st, p, o, c, n):
    s = st.copy(); s.assume(b_and(le(0, c), lt(c, n))); return col_eval(ex.column(st, st.fams[p.fam], o, 'd'), tuple(p.ix) + (c,), lambda q: ex.S.decide(s.pc, q))
@contract
def k_dtor(ex, st, args, I, name):
    isfft(ex, st, args[0], I, "~FFT"); return None
@contract
def k_compat(ex, st, args, I, name):
    """same number of dimensions and the same sizes"""
    p, g = args; f = isfft(ex, st, p, I, "Compatible"); h = g.add(P(grid.hoff(ex, grid.GS))); hf = grid._hdr(ex, st, h, I, "FFT"); D = grid._get(ex, st, hf, '#pb.dims@' + str(h.off), h.ix, 'i')
    ex.oblige(st, le(1, D), f"pre:grid has dimensions@{ex.loc(I)}")
    ec = ex.column(st, st.fams[grid.ent(h)], '#size', 'i'); j = z3.Int("$cj"); q = from_z(j); E = dims(ex, st, f, p.ix)
    same = z3.And(P(D).z() == E.z(), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < P(D).z()), col_eval(ec, tuple(h.ix) + (q,)).z() == size(ex, st, f)(q).z())))
    out = []
    for c, r in ((same, True), (z3.Not(same), False)):
        if not ex.S.feasible(st.pc, c): continue
        t = st.copy(); t.assume(c); out.append((t, 'ret', r))
        if r:      # the shape is written down in terms of the grid: the same values
            t.mem[(f.name, '#D')] = ex.column(t, f, '#D', 'i').write(p.ix, D); g = t.fams["FS:" + f.name]; sg = inr(t, D)
            t.mem[(g.name, '#n')] = ex.column(t, g, '#n', 'i').bulk(Upd([('eq', P(0)), ('rng', P(0), P(D))], None, lambda X: col_eval(ec, tuple(h.ix) + (X[-1],), lambda q: ex.S.decide(sg.pc, q))))
    return out
@contract
def k_buffers(ex, st, args, I, name):
    """the transforms work on these buffers from now on (they must have the shape of the plans)"""
    p, a, b = args; f = isfft(ex, st, p, I, "ReplaceBuffers"); lay = ex.prog.layout(FF)
    for m, v in (("_cin", a), ("_cout", b)): o = lay[m][0]; st.mem[(f.name, o)] = ex.column(st, f, o, 'p').write(p.ix, first(ex, st, v, I))
    return None
def transform(sign, src, dst):
    @contract
    def k(ex, st, args, I, name):
        """forward: in -> out; backward: out -> in; the source keeps its contents"""
        p, d = args; f = isfft(ex, st, p, I, "transform")
        if getattr(f, "real", False): return real_transform(ex, st, f, p, d, sign, I)
        lay = ex.prog.layout(FF); D = dims(ex, st, f, p.ix); sz = size(ex, st, f, D); n = total(D, sz)
        a, b = (ex.load(st, p.add(P(lay[m][0])), lib.PTRTY, I) for m in (src, dst)); fa, fb = block(ex, st, a, n, I, "source of the transform"), block(ex, st, b, n, I, "target of the transform")
        ex.oblige(st, a.fam != b.fam or b_not(b_and(*[eq(x, y) for x, y in zip(a.ix, b.ix)])), f"pre:two different buffers@{ex.loc(I)}"); ex.oblige(st, b_and(le(-1, d), lt(d, D)), f"pre:dimension exists@{ex.loc(I)}")
        k = key(contents(ex, st, a, n), D, sz, sign, "full" if d.is_const() and d.const() == -1 else d.z().sexpr())
        set_(ex, st, b, fb, n, lambda o, i: value(k, o, i), I); return None
    return k
def contracts():
    GS = grid.GS
    return {f"{FF}::FFT({GS}&, {V}&, {V}&, bool)": k_ctor, f"{FF}::~FFT()": k_dtor, f"{FF}::Compatible({GS} const&) const": k_compat, f"{FF}::ReplaceBuffers({V}*, {V}*)": k_buffers, f"{FF}::FFT({VD}&, {V}&, bool)": k_real, f"{FF}::ReplaceBuffers({VD}*, {V}*)": k_rbuffers,
            f"{FF}::forward(int)": transform(-1, "_cin", "_cout"), f"{FF}::backward(int)": transform(1, "_cout", "_cin")}
