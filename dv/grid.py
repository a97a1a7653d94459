"""Contracts of the protobuf header that stores a grid description (trusted generated code), as ghost columns:
a header object carries the number of dimensions, the number of dimension entries, and per entry size, xmin and xmax."""
from spec import *
import re, lib
from lib import contract
MAXD = 4
GS = "QDLIB::GridSystem"; HD = "QDLIB::GridSystemHeader"; DD = HD + "_dim_description_t"
def ent(p): return f"PB:{p.fam}.{p.off}"
def header(w, st, p, arity=0, dims=None, cnt=None, size=None, xmin=None, xmax=None, const=False):
    """ghost header content at pointer p (family of arity `arity`)"""
    f = st.fams[p.fam]; o = str(p.off); D = f"pb.dims@{o}"; C = f"pb.cnt@{o}"
    f.fields['#' + D] = 'i'; f.fields['#' + C] = 'i'
    nm = ent(p)
    f.bases['#' + D] = (lambda X: P(dims(*X)) if callable(dims) else P(dims)) if dims is not None else (lambda X: P(0))
    f.bases['#' + C] = (lambda X: P(cnt(*X)) if callable(cnt) else P(cnt)) if cnt is not None else f.bases['#' + D]
    e = Fam(nm, 'struct', size=64, arity=arity + 1, const=const, fields={'#size': 'i', '#xmin': 'd', '#xmax': 'd'},
            bases={'#size': lambda X: P(size(*X)) if size else P(0), '#xmin': lambda X: xmin(*X) if xmin else R(0), '#xmax': lambda X: xmax(*X) if xmax else R(0)})
    st.fam(e); return nm
def _hdr(ex, st, p, I, what):
    if not isinstance(p, Ptr): raise Unsupported(f"{what}: header {p!r}")
    if p.fam is None: ex.oblige(st, False, f"null-deref:{what}@{ex.loc(I)}"); raise DeadPath()
    f = st.fams.get(p.fam)
    if f is None or ('#pb.dims@' + str(p.off)) not in f.fields: raise Unsupported(f"{what}: no grid header at {p}")
    if p.fam in st.dead: ex.oblige(st, False, f"use-after-free:{p.fam.split('!')[0]}@{ex.loc(I)}"); raise DeadPath()
    if f.ixok is not None: ex.oblige(st, f.ixok(p.ix), f"object-exists:{p.fam.split('!')[0]}@{ex.loc(I)}")
    return f
def _get(ex, st, f, fld, ix, k, I=None):
    ex.access(st, f, fld, tuple(ix), False, I); return col_eval(ex.column(st, f, fld, k), tuple(ix), lambda q: ex.S.decide(st.pc, q))
def _put(ex, st, f, fld, ix, k, v, I):
    if f.const: ex.oblige(st, False, f"frame:write to read-only {f.name.split('!')[0]}@{ex.loc(I)}"); return
    ex.access(st, f, fld, tuple(ix), True, I); st.mem[(f.name, fld)] = ex.column(st, f, fld, k).write(tuple(ix), v)
@contract
def k_dims(ex, st, args, I, name):
    p = args[0]; f = _hdr(ex, st, p, I, "dims"); return _get(ex, st, f, '#pb.dims@' + str(p.off), p.ix, 'i', I)
@contract
def k_setdims(ex, st, args, I, name):
    p = args[0]; f = _hdr(ex, st, p, I, "set_dims"); _put(ex, st, f, '#pb.dims@' + str(p.off), p.ix, 'i', args[1], I)
@contract
def k_dimsize(ex, st, args, I, name):
    p = args[0]; f = _hdr(ex, st, p, I, "dim_size"); return _get(ex, st, f, '#pb.cnt@' + str(p.off), p.ix, 'i', I)
@contract
def k_dim(ex, st, args, I, name):
    """dim(i) / mutable_dim(i): entry i, which must exist"""
    p, i = args[0], args[1]; f = _hdr(ex, st, p, I, "dim")
    n = _get(ex, st, f, '#pb.cnt@' + str(p.off), p.ix, 'i', I)
    ex.oblige(st, b_and(le(0, i), lt(i, n)), f"bounds:dimension exists@{ex.loc(I)}"); st.assume(b_and(le(0, i), lt(i, n)))
    return Ptr(ent(p), tuple(p.ix) + (P(i),))
@contract
def k_adddim(ex, st, args, I, name):
    """add_dim(): a further entry with size 0 and limits 0"""
    p = args[0]; f = _hdr(ex, st, p, I, "add_dim"); C = '#pb.cnt@' + str(p.off); n = _get(ex, st, f, C, p.ix, 'i', I)
    e = st.fams[ent(p)]; ix = tuple(p.ix) + (n,)
    for fl, k, z in (('#size', 'i', P(0)), ('#xmin', 'd', R(0)), ('#xmax', 'd', R(0))): _put(ex, st, e, fl, ix, k, z, I)
    _put(ex, st, f, C, p.ix, 'i', n + 1, I); return Ptr(e.name, ix)
@contract
def k_mutdims(ex, st, args, I, name): _hdr(ex, st, args[0], I, "mutable_dim"); return args[0]
@contract
def k_cleardims(ex, st, args, I, name):
    p = args[0]; f = _hdr(ex, st, p, I, "Clear"); _put(ex, st, f, '#pb.cnt@' + str(p.off), p.ix, 'i', P(0), I)
@contract
def k_clear(ex, st, args, I, name):
    p = args[0]; f = _hdr(ex, st, p, I, "Clear"); _put(ex, st, f, '#pb.cnt@' + str(p.off), p.ix, 'i', P(0), I); _put(ex, st, f, '#pb.dims@' + str(p.off), p.ix, 'i', P(0), I)
@contract
def k_new(ex, st, args, I, name):
    """fresh header: no dimensions"""
    p = args[0]; f = st.fams[p.fam]
    if ('#pb.dims@' + str(p.off)) not in f.fields: header(None, st, p, len(p.ix))
    _put(ex, st, f, '#pb.cnt@' + str(p.off), p.ix, 'i', P(0), I); _put(ex, st, f, '#pb.dims@' + str(p.off), p.ix, 'i', P(0), I)
@contract
def k_assign(ex, st, args, I, name):
    """copies the whole description"""
    d, s = args[0], args[1]; fs = _hdr(ex, st, s, I, "copy"); fd = st.fams[d.fam]
    if ('#pb.dims@' + str(d.off)) not in fd.fields: header(None, st, d, len(d.ix))
    for x in ('#pb.dims@', '#pb.cnt@'): _put(ex, st, fd, x + str(d.off), d.ix, 'i', _get(ex, st, fs, x + str(s.off), s.ix, 'i', I), I)
    a, b = st.fams[ent(d)], st.fams[ent(s)]
    if d == s: return d
    if a.const: ex.oblige(st, False, f"frame:write to read-only {a.name}@{ex.loc(I)}"); return d
    for fl, k in (('#size', 'i'), ('#xmin', 'd'), ('#xmax', 'd')):
        cs = ex.column(st, b, fl, k); cd = ex.column(st, a, fl, k)
        st.mem[(a.name, fl)] = cd.bulk(Upd([('eq', i) for i in d.ix] + [('any',)], None, lambda X, cs=cs: col_eval(cs, tuple(s.ix) + (X[-1],))))
    return d
@contract
def k_noop(ex, st, args, I, name): return None
def _field(fl, k):
    @contract
    def g(ex, st, args, I, name):
        p = args[0]; return _get(ex, st, st.fams[p.fam], fl, p.ix, k, I)
    @contract
    def s(ex, st, args, I, name):
        p = args[0]; _put(ex, st, st.fams[p.fam], fl, p.ix, k, args[1], I)
    g.logged = s.logged = True
    return g, s
for k in (k_dims, k_setdims, k_dimsize, k_dim): k.logged = True
def contracts():
    c = {HD + "::dims() const": k_dims, HD + "::set_dims(unsigned int)": k_setdims, HD + "::dim_size() const": k_dimsize, HD + "::dim(int) const": k_dim, HD + "::mutable_dim(int)": k_dim,
         HD + "::mutable_dim()": k_mutdims, HD + "::add_dim()": k_adddim, HD + "::Clear()": k_clear, HD + "::clear_dim()": k_cleardims, HD + "::GridSystemHeader()": k_new,
         HD + f"::GridSystemHeader({HD} const&)": k_assign, HD + f"::operator=({HD} const&)": k_assign, HD + "::~GridSystemHeader()": k_noop, HD + "::set_data_size(unsigned long)": k_noop,
         f"google::protobuf::RepeatedPtrField<{DD}>::Clear()": k_cleardims}
    for m, fl, k, ty in (("size", '#size', 'i', "unsigned int"), ("xmin", '#xmin', 'd', "double"), ("xmax", '#xmax', 'd', "double")):
        g, s = _field(fl, k); c[f"{DD}::{m}() const"] = g; c[f"{DD}::set_{m}({ty})"] = s
    return c
def hoff(w, cls=GS):
    """byte offset of the header inside an object of class cls"""
    return w.prog.layout(cls)["grid_sys.header"][0]
# ---- grid objects
def symbols(name):
    """a symbolic grid: dims D (1..4), sizes >= 1, limits"""
    D = int_sym(name + ".D")
    sz = lambda i: from_z(z3.Function(name + ".N", z3.IntSort(), z3.IntSort())(P(i).z()))
    lo = lambda i: z3.Function(name + ".xmin", z3.IntSort(), z3.RealSort())(P(i).z())
    hi = lambda i: z3.Function(name + ".xmax", z3.IntSort(), z3.RealSort())(P(i).z())
    return D, sz, lo, hi
def wellformed(w, name, least=0, minsize=1):
    D, sz, lo, hi = symbols(name); i = z3.Int("$gi")
    w.st.assume(b_and(le(least, D), le(D, P(MAXD))))
    w.st.assume(z3.ForAll([i], sz(from_z(i)).z() >= minsize, patterns=[sz(from_z(i)).z()]))
def attach(w, p, name, cls=GS, const=False, dims=None):
    """the grid description symbols(name) in the object p"""
    D, sz, lo, hi = symbols(name); D = D if dims is None else P(dims); q = p.add(hoff(w, cls))
    header(w, w.st, q, 0, D, D, sz, lo, hi, const)
def grid(w, name, const=False, least=0, minsize=1, vals=None, dims=None):
    p = w.obj(name, GS, vals, const=const); wellformed(w, name, least, minsize); attach(w, p, name, GS, const, dims); return p
def get(w, st, p, what, i=None, cls=GS):
    q = p.add(hoff(w, cls))
    if what in ("dims", "cnt"): return w.rd(st, p.fam, f'#pb.{what}@{q.off}', tuple(p.ix))
    return w.rd(st, ent(q), '#' + what, tuple(p.ix) + (P(i),))
