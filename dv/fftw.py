"""Contracts of the FFTW library calls (external).  A plan remembers what it was asked for; planning with a measuring strategy leaves
arbitrary contents in both buffers; executing is recorded in order (plan, input, output) and sets the output buffer."""
from spec import *
import lib
from lib import contract
MEASURE, ESTIMATE, PATIENT, PRESERVE, WISDOM = 0, 64, 32, 16, 1 << 21
class Plan:
    def __init__(s, kind, dims, loops, sign, src, dst): s.kind = kind; s.dims = dims; s.loops = loops; s.sign = sign; s.src = src; s.dst = dst
    def __repr__(s): return f"Plan({s.kind} {s.dims} loops {s.loops} sign {s.sign} {s.src}->{s.dst})"
def prod(xs):
    r = P(1)
    for x in xs: r = r * x
    return r
def at(ex, st, p, i, I, o=0, sz=4):
    return ex.load(st, p.add(P(i * sz + o)), lib.INT, I)
def buf(ex, st, p, last, es, I, what):
    """the buffer reaches up to element `last`"""
    if not isinstance(p, Ptr) or p.fam is None:
        ex.oblige(st, False, f"null-deref:{what}@{ex.loc(I)}"); raise DeadPath()
    f = st.fams[p.fam]
    if p.fam in st.dead: ex.oblige(st, False, f"use-after-free:{p.fam.split('!')[0]}@{ex.loc(I)}"); raise DeadPath()
    if f.esize is None: intrin.settype(ex, f, es, {0: 'd', 8: 'd'} if es == 16 else {0: 'd'})
    q = p.off.divc(f.esize)
    if f.kind != 'array' or f.esize != es or q is None or q[1]: raise Unsupported(f"{what}: buffer {p}")
    if f.ixok is not None: ex.oblige(st, f.ixok(p.ix), f"object-exists:{p.fam.split('!')[0]}@{ex.loc(I)}")
    n = f.countf(p.ix)
    if n is not None: ex.oblige(st, lt(q[0] + last, n), f"bounds:{what} buffer holds all points@{ex.loc(I)}")
    return f, q[0], n
def havoc(ex, st, p, f, lo, hi, tag, fn=None, I=None):
    """elements lo..hi-1 become arbitrary (or a function of the element)"""
    if f.const: ex.oblige(st, False, f"frame:write to read-only {f.name.split('!')[0]}@{ex.loc(I)}"); return
    for o in ((0, 8) if f.esize == 16 else (0,)):
        nm = fresh_name(tag)
        v = (lambda X, o=o: fn(o, X[-1] - lo)) if fn else (lambda X, nm=nm: uf_real(nm, *X))
        st.mem[(f.name, o)] = ex.column(st, f, o, 'd').bulk(Upd([('eq', i) for i in p.ix] + [('rng', lo, hi)], None, v))
def newplan(ex, st, plan, I):
    p = intrin.alloc(ex, st, P(8), "plan", I=I); st.fams[p.fam].plan = lambda ix, q=plan: q; return p
def planned(ex, st, plan, flags, ins, outs, I):
    """ins, outs: (pointer, family, first, end) of the two buffers"""
    out = []
    if not flags.is_const(): raise Unsupported("planner flags")
    fl = flags.const()
    if fl & WISDOM: out.append((st.copy(), 'ret', NULL))
    elif not fl & ESTIMATE:
        for p, f, lo, hi in (ins, outs): havoc(ex, st, p, f, lo, hi, "fftw.scratch", I=I)
    return out + [(st, 'ret', newplan(ex, st, plan, I))]
def num(x, what):
    if not isinstance(x, Poly) or not x.is_const(): raise Unsupported(f"{what}: {x!r}")
    return x.const()
@contract
def k_dft(ex, st, args, I, name):
    """multi-dimensional complex transform, row-major sizes n[0..rank-1]"""
    r = num(args[0], "rank"); n = [at(ex, st, args[1], i, I) for i in range(r)]
    ex.oblige(st, b_and(*[le(1, x) for x in n]), f"pre:transform sizes are positive@{ex.loc(I)}")
    b = [buf(ex, st, p, prod(n) - 1, 16, I, "FFT") for p in args[2:4]]
    return planned(ex, st, Plan("dft", [(x,) for x in n], [], num(args[4], "sign"), args[2], args[3]), args[5], *[(p, f, q, q + prod(n)) for p, (f, q, c) in zip(args[2:4], b)], I)
@contract
def k_dft1(ex, st, args, I, name):
    n = args[0]; b = [buf(ex, st, p, n - 1, 16, I, "FFT") for p in args[1:3]]
    return planned(ex, st, Plan("dft", [(n,)], [], num(args[3], "sign"), args[1], args[2]), args[4], *[(p, f, q, q + n) for p, (f, q, c) in zip(args[1:3], b)], I)
@contract
def k_guru(ex, st, args, I, name):
    """transform over dims, repeated over the loops"""
    r, h = num(args[0], "rank"), num(args[2], "loop rank")
    rd = lambda p, k: [tuple(at(ex, st, p, i, I, o, 12) for o in (0, 4, 8)) for i in range(k)]
    d, l = rd(args[1], r), rd(args[3], h)
    ex.oblige(st, b_and(*[le(1, x[0]) for x in d + l]), f"pre:transform sizes are positive@{ex.loc(I)}")
    b = []
    for j, p in enumerate(args[4:6]):
        last = P(0)
        for x in d + l: last = last + (x[0] - 1) * x[1 + j]
        ex.oblige(st, b_and(*[le(0, x[1 + j]) for x in d + l]), f"pre:strides not negative@{ex.loc(I)}")
        f, q, c = buf(ex, st, p, last, 16, I, "FFT"); b.append((p, f, q, q + last + 1))
    return planned(ex, st, Plan("guru", d, l, num(args[6], "sign"), args[4], args[5]), args[7], *b, I)
@contract
def k_r2c(ex, st, args, I, name):
    n = args[0]; h = n // 2 + 1 if hasattr(n, '__floordiv__') else None
    return planned(ex, st, Plan("r2c", [(n,)], [], 0, args[1], args[2]), args[3], None, None, I)
@contract
def k_c2r(ex, st, args, I, name):
    return planned(ex, st, Plan("c2r", [(args[0],)], [], 0, args[1], args[2]), args[3], None, None, I)
def plan(st, p): return st.fams[p.fam].plan(p.ix)
def execute(kind, es_in, es_out):
    @contract
    def k(ex, st, args, I, name):
        """runs a plan on the two buffers given"""
        p = args[0]
        if not isinstance(p, Ptr) or p.fam is None:
            ex.oblige(st, False, f"null-deref:plan executed@{ex.loc(I)}"); raise DeadPath()
        if p.fam in st.dead: ex.oblige(st, False, f"use-after-free:plan executed@{ex.loc(I)}"); raise DeadPath()
        ex.oblige(st, args[1] != args[2], f"pre:out-of-place transform@{ex.loc(I)}")
        st.gh['fft'] = st.gh.get('fft', ()) + ((kind, p, args[1], args[2]),); return None
    return k
@contract
def k_destroy(ex, st, args, I, name): intrin.free(ex, st, args[0], I)
def contracts():
    return {"fftw_plan_dft": k_dft, "fftw_plan_dft_1d": k_dft1, "fftw_plan_guru_dft": k_guru, "fftw_plan_dft_r2c_1d": k_r2c, "fftw_plan_dft_c2r_1d": k_c2r, "fftw_destroy_plan": k_destroy,
            "fftw_execute_dft": execute("c2c", 16, 16), "fftw_execute_dft_r2c": execute("r2c", 8, 16), "fftw_execute_dft_c2r": execute("c2r", 16, 8)}
