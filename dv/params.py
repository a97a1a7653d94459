"""Contract of ParamContainer: a fixed set of named values; an entry has the same value whenever it is read."""
import re, z3
from framework import *
from lib import contract, INT, DBL, BOOL
import wfc
def text(ex, st, p, I):
    if isinstance(p, Ptr) and p.fam and p.fam.startswith("G:"): return wfc._literal(ex, p)
    v = col_eval(ex.column(st, st.fams[p.fam], '#str', 'i'), p.ix)
    for t, k in wfc._INTERN.items():
        if v.is_const() and v.const() == -1000 - k: return t
    z = z3.simplify(v.z())
    if z3.is_app(z) and z.decl().name() == "joined" and z.arg(1).decl().name() == "digits":
        for t, k in wfc._INTERN.items():
            if z3.is_int_value(z.arg(0)) and z.arg(0).as_long() == -1000 - k: return t, from_z(z.arg(1).arg(0))   # numbered entry
    raise Unsupported(f"parameter name not a literal@{ex.loc(I)}")
def has(t): return z3.Bool(f"given:{t}") if isinstance(t, str) else z3.Function(f"given:{t[0]}#", z3.IntSort(), z3.BoolSort())(P(t[1]).z())
def flag(t): return from_z(z3.If(has(t), z3.IntVal(1), z3.IntVal(0)))
def num(t): return real_sym(f"param:{t}") if isinstance(t, str) else uf_real(f"param:{t[0]}#", P(t[1]))
def integer(t): return int_sym(f"param:{t}") if isinstance(t, str) else from_z(z3.Function(f"param:{t[0]}#i", z3.IntSort(), z3.IntSort())(P(t[1]).z()))
def count(t): return int_sym(f"params:{t}")
def entry(t, i): return uf_real(f"param:{t}", P(i))
@contract
def k_present(ex, st, args, I, name):
    """isPresent(name)"""
    return has(text(ex, st, args[1], I))
def getter(kind):
    @contract
    def k_get(ex, st, args, I, name):
        """GetValue(name, v): v becomes the value and true is returned if the entry exists, otherwise v is left alone (a flag becomes its default)"""
        t = text(ex, st, args[1], I); a = st; b = st.copy(); h = has(t); a.assume(h); b.assume(z3.Not(h))
        if kind == 'd': ex.store(a, args[2], num(t), DBL, I)
        elif kind == 'i': ex.store(a, args[2], integer(t), INT, I)
        else:
            v = from_z(z3.If(z3.Bool(f"param:{t}"), z3.IntVal(1), z3.IntVal(0))); ex.store(a, args[2], v, BOOL, I)
            d = args[3]; ex.store(b, args[2], from_z(z3.If(d, z3.IntVal(1), z3.IntVal(0))) if not isinstance(d, (bool, Poly)) else P(int(d)) if isinstance(d, bool) else d, BOOL, I)
        return [(a, 'ret', True), (b, 'ret', False)]
    return k_get
@contract
def k_array(ex, st, args, I, name):
    """GetArray(name, v) of an empty vector: the values of the entry in order, none if there is no such entry"""
    t = text(ex, st, args[1], I); f = st.fams[args[2].fam]
    if '#len' not in f.fields: f.fields['#len'] = 'i'; f.bases['#len'] = lambda X: P(0)
    n = count(t); b = st.copy(); b.assume(z3.Not(has(t))); st.assume(has(t)); st.assume(le(0, n))
    d = "SV:" + f.name
    if d not in st.fams: st.fam(Fam(d, 'array', esize=8, count=n, fields={0: 'd'}, bases={0: lambda X: entry(t, X[-1])}))
    st.mem[(f.name, '#len')] = ex.column(st, f, '#len', 'i').write(args[2].ix, n)
    return [(st, 'ret', True), (b, 'ret', False)]
@contract
def k_vector(ex, st, args, I, name):
    """std::vector<number>(): empty"""
    f = st.fams[args[0].fam]; f.fields['#len'] = 'i'; f.bases['#len'] = lambda X: P(0); st.mem[(f.name, '#len')] = ex.column(st, f, '#len', 'i').write(args[0].ix, P(0))
@contract
def k_nothing(ex, st, args, I, name): return None
SS = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
def contracts():
    c = "QDLIB::ParamContainer::"
    return {f"{c}isPresent({SS} const&)": k_present, c + "isPresent(char const*)": k_present, f"{c}GetValue({SS}, double&)": getter('d'), f"{c}GetValue({SS}, int&)": getter('i'), f"{c}GetValue({SS}, bool&, bool)": getter('b'),
            f"{c}GetArray({SS}, std::vector<double, std::allocator<double> >&)": k_array}
VECS = [(lambda d: bool(re.match(r"std::vector<(int|double), std::allocator<(int|double)> >::vector\(\)$", d)), k_vector), (lambda d: bool(re.match(r"std::vector<(int|double), std::allocator<(int|double)> >::~vector\(\)$", d)), k_nothing)]
