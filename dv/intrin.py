"""Trusted models of compiler intrinsics, the C/C++ runtime and libm (listed in every evidence file)."""
import re, z3
from term import *
from mem import *
from solve import *
from prog import demangle

class _N: pass
NOTINTRIN = _N()

TRUSTED = set()

NOOP = re.compile(r"^(llvm\.(lifetime|dbg|assume|invariant|experimental\.noalias|donothing|prefetch|va_|stack)|__cxa_guard_release|__cxa_guard_abort|__cxa_end_catch|__cxa_atexit|__cxa_free_exception|__clang_call_terminate|fflush|__cxa_call_unexpected)")
MATH1 = {"sqrt", "exp", "sin", "cos", "tan", "log", "atan", "asin", "acos", "sinh", "cosh", "tanh", "floor", "ceil", "log10", "exp2", "round", "rint", "trunc", "tgamma", "erf", "cbrt", "log2", "lround"}

def rabs(x):
    v = x.as_fraction() if z3.is_rational_value(x) else None
    if v is not None: return R(abs(v))
    return z3.If(x >= 0, x, -x)

def math1(n, x):
    v = x.as_fraction() if z3.is_rational_value(x) else None
    if v is not None:
        if n == "exp" and v == 0: return R(1)
        if n == "cos" and v == 0: return R(1)
        if n in ("sin", "tan", "atan", "asin", "sinh", "tanh") and v == 0: return R(0)
        if n == "log" and v == 1: return R(0)
        if n == "sqrt" and v in (0, 1): return R(v)
        if n == "floor": 
            import math; return R(math.floor(v))
        if n == "ceil":
            import math; return R(math.ceil(v))
    if n == "floor": return z3.ToReal(z3.ToInt(x))
    if n == "ceil": return -z3.ToReal(z3.ToInt(-x))
    if n == "trunc": return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
    if n == "round": return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-x + z3.Q(1, 2))))
    return uf_real(n, x)

def math_axioms(fs):
    """facts about libm functions used by the solver (real-number semantics)"""
    out = []; seen = set(); st = [f for f in fs if not isinstance(f, bool)]
    trig = {}
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                a = x.children()[0]
                if n == "sqrt": out.append(z3.Implies(a >= 0, z3.And(x >= 0, x*x == a)))
                elif n == "exp": out.append(x > 0)
                elif n in ("sin", "cos"): trig.setdefault(a.get_id(), (a, {}))[1][n] = x
            st.extend(x.children())
    for a, d in trig.values():
        if len(d) == 2: out.append(d["sin"]*d["sin"] + d["cos"]*d["cos"] == 1)
        for x in d.values(): out.append(z3.And(x >= -1, x <= 1))
    return out

def fields_in(ex, st, fam, off, size):
    """declared/known fields of a struct (or array element) fully inside [off, off+size)"""
    fs = dict(fam.fields)
    for (n, f), c in st.mem.items():
        if n == fam.name and not isinstance(f, (tuple, str)): fs.setdefault(f, c.kind)
    return {f: k for f, k in fs.items() if isinstance(f, int) and off <= f and f + (8 if k in 'dp' else 1) <= off + size}

def copy_bytes(ex, st, dst, src, n, I):
    if n.is_const() and n.const() == 0: return
    if dst.fam is None or src.fam is None:
        ex.oblige(st, eq(n, 0), f"null-copy@{ex.loc(I)}"); return
    fd, fs = st.fams[dst.fam], st.fams[src.fam]
    for p in (dst, src):
        if p.fam in st.dead:
            ex.oblige(st, False, f"use-after-free:{p.fam.split('!')[0]}@{ex.loc(I)}"); return
    if fd.const: ex.oblige(st, False, f"frame:write to read-only {fd.name.split('!')[0]}@{ex.loc(I)}"); return
    small = n.is_const() and n.const() <= 4096
    def elem(f, p):
        """struct-like view: (index tuple, byte offset within element) or None"""
        if f.kind == 'struct': return (p.ix, p.off.const()) if p.off.is_const() else None
        if f.esize and not f.radix:
            q = p.off.divc(f.esize)
            return (p.ix + (q[0],), q[1]) if q else None
        return None
    if fd.kind == 'array' and fd.esize is None and fs.kind == 'array' and fs.esize: settype(ex, fd, fs.esize, dict(fs.fields))
    if fs.kind == 'array' and fs.esize is None and fd.kind == 'array' and fd.esize: settype(ex, fs, fd.esize, dict(fd.fields))
    es = max(f.esize or 0 if f.kind == 'array' else 0 for f in (fd, fs))
    if small and (fd.kind == 'struct' or fs.kind == 'struct' or n.const() <= es):
        a, b = elem(fd, dst), elem(fs, src)
        if a is None or b is None: raise Unsupported(f"memcpy offset at {ex.loc(I)}")
        # bounds
        for f, (ix, o) in ((fd, a), (fs, b)):
            if f.kind == 'struct':
                if f.size is not None and not (0 <= o and o + n.const() <= f.size):
                    ex.oblige(st, False, f"bounds:{f.name.split('!')[0]}@{ex.loc(I)}")
            else:
                cnt = f.countf(ix[:-1])
                if cnt is not None: ex.oblige(st, b_and(le(0, ix[-1]), lt(ix[-1], cnt)), f"bounds:{f.name.split('!')[0]}@{ex.loc(I)}")
        flds = {f - b[1]: k for f, k in fields_in(ex, st, fs, b[1], n.const()).items()}
        for f, k in fields_in(ex, st, fd, a[1], n.const()).items(): flds.setdefault(f - a[1], k)
        new = []
        for f, k in flds.items():
            ex.access(st, fs, b[1] + f, b[0], False, I)
            cs = ex.column(st, fs, b[1] + f, k)
            v = ex.read_col(st, cs, b[0], cs.kind, I)
            if isinstance(v, list): 
                if len(v) == 1: v = v[0][1]
                else: raise Unsupported("conditional pointer memcpy")
            new.append((a[1] + f, cs.kind, v))
        for f, k, v in new:
            cd = ex.column(st, fd, f, k)
            if cd.kind != k: cd = Column(k, ex.default_base(fd, f, k))
            ex.access(st, fd, f, a[0], True, I); st.mem[(fd.name, f)] = cd.write(a[0], v)
        for (s0, e0, c0) in fs.arrays:
            if not b[1] <= s0 < b[1] + n.const(): continue
            t0 = a[1] + s0 - b[1]; cnt = min(c0, (b[1] + n.const() - s0)//e0)
            if not any(x < t0 + e0*cnt and t0 < x + y*z for x, y, z in fd.arrays) and fd.kind == 'struct': fd.arrays = list(fd.arrays) + [(t0, e0, c0)]      # (a block known so far only by the fields used)
            if not any(x == t0 and y == e0 and z >= cnt for x, y, z in fd.arrays): raise Unsupported(f"memcpy of embedded array at {ex.loc(I)}")
            if ex.acclog is not None: raise Unsupported("memcpy of embedded array in a parallel region")
            fl = {f: c.kind for (nm, f), c in st.mem.items() if nm == fs.name and isinstance(f, tuple) and f[1] == s0}
            fl.update({f: k for f, k in fs.fields.items() if isinstance(f, tuple) and f[1] == s0})
            fl.update({('A', s0, f[2]): c.kind for (nm, f), c in st.mem.items() if nm == fd.name and isinstance(f, tuple) and f[1] == t0 and ('A', s0, f[2]) not in fl})
            if not fl: fl[('A', s0, 0)] = 'd' if e0 == 8 else 'i'
            snap = [(f, ex.column(st, fs, f, k)) for f, k in fl.items()]
            for f, cs in snap:
                g = ('A', t0, f[2]); cd = ex.column(st, fd, g, cs.kind)
                if cd.kind != cs.kind: cd = Column(cs.kind, ex.default_base(fd, g, cs.kind))
                st.mem[(fd.name, g)] = cd.bulk(Upd([('eq', x) for x in a[0]] + [('rng', P(0), P(cnt))], None, lambda X, cs=cs: col_eval(cs, tuple(b[0]) + (X[-1],))))
        return
    if fd.kind == 'array' and fs.kind == 'array' and fd.esize == fs.esize and fd.esize:
        bulk_copy(ex, st, fd, dst, fs, src, n, I); return
    raise Unsupported(f"memcpy shape {fd.name}/{fs.name} at {ex.loc(I)}")

def bulk_copy(ex, st, fd, dst, fs, src, n, I):
    q = n.divc(fd.esize); qd = dst.off.divc(fd.esize); qs = src.off.divc(fs.esize)
    if q is None or q[1] or qd is None or qs is None or qd[1] or qs[1]: raise Unsupported(f"memcpy size at {ex.loc(I)}")
    cnt, i0, j0 = q[0], qd[0], qs[0]
    if fd.radix or fs.radix: 
        raise Unsupported("memcpy of radix array")
    for f, p, i in ((fd, dst, i0), (fs, src, j0)):
        if f.ixok is not None: ex.oblige(st, b_or(le(cnt, 0), f.ixok(p.ix)), f"object-exists:{f.name.split('!')[0]}@{ex.loc(I)}")
        c = f.countf(p.ix)
        if c is not None:
            ex.oblige(st, b_or(le(cnt, 0), b_and(le(0, i), le(i + cnt, c))), f"bounds:{f.name.split('!')[0]}@{ex.loc(I)}")
    flds = set()
    for f in list(fs.fields) + list(fd.fields): flds.add(f)
    for (nm, f) in st.mem:
        if nm in (fs.name, fd.name): flds.add(f)
    kd = dict(fd.fields); kd.update(fs.fields)
    snap = []
    for f in flds:
        k = st.mem[(fs.name, f)].kind if (fs.name, f) in st.mem else kd.get(f, 'd')
        snap.append((f, k, ex.column(st, fs, f, k)))
    if ex.acclog is not None:
        x = fresh_int("x"); s2 = st.copy(); s2.assume(b_and(le(0, x), lt(x, cnt)))
        for f, k, cs in snap:
            ex.access(s2, fs, f, tuple(src.ix) + (j0 + x,), False, I); ex.access(s2, fd, f, tuple(dst.ix) + (i0 + x,), True, I)
    for f, k, cs in snap:
        cd = ex.column(st, fd, f, k)
        def val(X, cs=cs):
            return col_eval(cs, tuple(src.ix) + (X[-1] - i0 + j0,))
        comps = [('eq', i) for i in dst.ix] + [('rng', i0, i0 + cnt)]
        st.mem[(fd.name, f)] = cd.bulk(Upd(comps, None, val))

def guess_esize(fam, size):
    """element size of an untyped block: complex arrays are allocated in multiples of 16 bytes"""
    n = fam.count
    if callable(n): n = n(tuple(Poly.atom(z3.Int(f"$e{i}")) for i in range(fam.arity)))
    if isinstance(n, Poly) and not n.is_const() and size == 8 and all(c % 16 == 0 for c in n.t.values()): return 16
    return size

def settype(ex, fam, esize, fields=None):
    fam.esize = esize
    if fields: fam.fields = fields
    if isinstance(fam.count, Poly):
        q = fam.count.divc(esize)
        fam.count = q[0] if q is not None else None
    elif callable(fam.count):
        c0 = fam.count
        def cnt(X):
            q = c0(X).divc(esize)
            return q[0] if q is not None else None
        fam.count = cnt

def set_bytes(ex, st, dst, byte, n, I):
    if n.is_const() and n.const() == 0: return
    if ex.acclog is not None: raise Unsupported(f"block set in a parallel region at {ex.loc(I)}")
    if dst.fam is None:
        ex.oblige(st, eq(n, 0), f"null-set@{ex.loc(I)}"); return
    f = st.fams[dst.fam]
    if f.const: ex.oblige(st, False, f"frame:write to read-only {f.name.split('!')[0]}@{ex.loc(I)}"); return
    if not (byte.is_const() and byte.const() == 0): raise Unsupported(f"memset with nonzero byte at {ex.loc(I)}")
    if f.kind == 'struct':
        if not (dst.off.is_const() and n.is_const()): raise Unsupported("memset struct")
        o = dst.off.const()
        for fl, k in fields_in(ex, st, f, o, n.const()).items():
            c = ex.column(st, f, fl, k); st.mem[(f.name, fl)] = c.write(dst.ix, {'d': R(0), 'i': P(0), 'p': NULL}[k])
        for (s0, e0, c0) in f.arrays:
            if o <= s0 < o + n.const():
                for fl in [('A', s0, 0)]:
                    k = f.fields.get(fl, 'd' if e0 == 8 else 'i')
                    old = st.mem.get((f.name, fl)); k = old.kind if old else k
                    c = old or Column(k, ex.default_base(f, fl, k))
                    z = {'d': R(0), 'i': P(0), 'p': NULL}[k]
                    st.mem[(f.name, fl)] = c.bulk(Upd([('eq', i) for i in dst.ix] + [('rng', P(0), P(min(c0, (o + n.const() - s0)//e0)))], None, lambda X, z=z: z))
        return
    if f.esize is None: settype(ex, f, 8)
    q = n.divc(f.esize); qd = dst.off.divc(f.esize)
    if q is None or q[1] or qd is None or qd[1]: raise Unsupported("memset size")
    c = f.countf(dst.ix)
    if c is not None: ex.oblige(st, b_or(le(q[0], 0), b_and(le(0, qd[0]), le(qd[0] + q[0], c))), f"bounds:{f.name.split('!')[0]}@{ex.loc(I)}")
    flds = dict(f.fields)
    for (nm, fl), c in st.mem.items():
        if nm == f.name: flds.setdefault(fl, c.kind)
    if not flds: flds = {0: 'i'} if f.esize != 8 else {0: 'd'}
    for fl, k in flds.items():
        c = ex.column(st, f, fl, k); z = {'d': R(0), 'i': P(0), 'p': NULL}[k]
        st.mem[(f.name, fl)] = c.bulk(Upd([('eq', i) for i in dst.ix] + [('rng', qd[0], qd[0] + q[0])], None, lambda X, z=z: z))

def alloc(ex, st, n, name, raw=False, I=None, size=None):
    """fresh region; inside a symbolically executed loop iteration it is a member (indexed by the iteration) of a family"""
    ks = [k for k, u in ex.loopks if k is not None]        # (unrolled loops: the passes are told apart by the names in st.trace)
    struct = isinstance(n, Poly) and n.is_const() and not raw; name = getattr(ex, "allocprefix", "") + name      # (a contract may mark its own blocks)
    if ks:
        uid = [u for k, u in ex.loopks if k is not None][-1]
        nm = f"{name}@{ex.loc(I).split('/')[-1]}#{uid}"
        while nm in st.trace: nm += "'"
        st.trace = st.trace + (nm,)
        ix = tuple(ks)
        if nm not in st.fams:
            kn = [k for k in ks]
            if struct: f = Fam(nm, 'struct', size=n.const(), heap=True, arity=len(ix))
            else:
                def cnt(X, n=n):
                    import z3 as _z
                    from term import _atoms
                    mp = {}
                    for k, x in zip(kn, X):
                        at = list(k.atoms())
                        if len(at) == 1 and k == Poly({(at[0],): 1}): mp[at[0]] = x
                    return n.subst(mp)
                f = Fam(nm, 'array', esize=None, count=cnt, heap=True, arity=len(ix))
            st.fam(f)
        return Ptr(nm, ix)
    if struct: f = Fam(fresh_name(name), 'struct', size=n.const(), heap=True)
    else: f = Fam(fresh_name(name), 'array', esize=None, count=n, heap=True)
    st.fam(f); return Ptr(f.name)

def free(ex, st, p, I):
    if isinstance(p, Ptr) and p.fam is not None:
        f = st.fams.get(p.fam)
        if f is None: return
        if f.arity:
            dc = st.mem.get((p.fam, '#dead')) or Column('i', lambda X: P(0))
            if dc.ups: ex.oblige(st, eq(col_eval(dc, p.ix, lambda c: ex.S.decide(st.pc, c)), 0), f"double-free:{p.fam.split('!')[0]}@{ex.loc(I)}")
            if f.heap: st.mem[(p.fam, '#dead')] = dc.write(p.ix, P(1))
            return
        if p.fam in st.dead: ex.oblige(st, False, f"double-free:{p.fam.split('!')[0]}@{ex.loc(I)}")
        if f.heap: st.dead = st.dead | {p.fam}

OPAQUE = re.compile(r"\bstd::|__gnu_cxx|^(std|operator<<|operator>>)")

def opaque_result(ex, I, args):
    ty = I.ty
    if ty is None or ty.kind == 'void': return None
    if ty.kind == 'ptr':
        return args[0] if args else NULL
    return ex.undef(ty)

def intrinsic(ex, st, name, args, I):
    if NOOP.match(name): return None
    if name.startswith("llvm."):
        TRUSTED.add(name)
        b = name.split(".")
        n = b[1]
        if n in ("memcpy", "memmove"):
            if "inline" in name: pass
            copy_bytes(ex, st, args[0], args[1], args[2], I); return None
        if n == "memset": set_bytes(ex, st, args[0], args[1], args[2], I); return None
        if n == "fabs": return rabs(args[0])
        if n == "fmuladd" or n == "fma": return radd(rmul(args[0], args[1]), args[2])
        if n in MATH1: return math1(n, args[0])
        if n == "pow": return _pow(args[0], args[1])
        if n == "powi": return _pow(args[0], R(args[1].const()) if args[1].is_const() else R(args[1]))
        if n in ("smax", "umax"): return ite(le(args[0], args[1]), args[1], args[0])
        if n in ("smin", "umin"): return ite(le(args[0], args[1]), args[0], args[1])
        if n == "abs": return ite(le(0, args[0]), args[0], -args[0])
        if n in ("umul", "smul"): return (args[0]*args[1], False)
        if n in ("uadd", "sadd"): return (args[0]+args[1], False)
        if n in ("maxnum",): return ite(args[0] >= args[1], args[0], args[1])
        if n in ("minnum",): return ite(args[0] <= args[1], args[0], args[1])
        if n == "expect": return args[0]
        if n == "trap": return []
        if n == "eh": return P(0)
        if n == "objectsize": return P(-1)
        if n == "is": return False
        raise Unsupported(name)
    if name in ("__cxa_allocate_exception", "__cxa_throw", "__cxa_rethrow", "_ZSt9terminatev", "abort", "exit", "_ZSt17__throw_bad_allocv", "__cxa_throw_bad_array_new_length", "__cxa_bad_cast", "_ZSt20__throw_length_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc"):
        return [(st, 'throw', None)]
    if name == "__assert_fail":
        ex.oblige(st, False, f"assert@{ex.loc(I)}"); return []
    if name in MATH1: TRUSTED.add(name); return math1(name, args[0])
    if name == "pow": TRUSTED.add(name); return _pow(args[0], args[1])
    if name in ("fabs",): return rabs(args[0])
    if name in ("abs", "labs"): return ite(le(0, args[0]), args[0], -args[0])
    if name == "atan2": return uf_real("atan2", args[0], args[1])
    if name == "fmod": return uf_real("fmod", args[0], args[1])
    if name in ("_Znwm",): TRUSTED.add(name); return alloc(ex, st, args[0], "new", I=I)
    if name in ("_Znam",): TRUSTED.add(name); return alloc(ex, st, args[0], "newarr", raw=True, I=I)
    if name in ("malloc",): TRUSTED.add(name); return alloc(ex, st, args[0], "malloc", raw=not (isinstance(args[0], Poly) and args[0].is_const()), I=I)
    if name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"): free(ex, st, args[0], I); return None
    if name in ("memcpy", "memmove"): copy_bytes(ex, st, args[0], args[1], args[2], I); return args[0]
    if name == "memset": set_bytes(ex, st, args[0], args[1], args[2], I); return args[0]
    if name == "__cxa_guard_acquire": return P(1)
    if name == "__cxa_begin_catch": return NULL
    if name == "__dynamic_cast": return NOTINTRIN
    if name in ("rand", "getrusage", "time", "getpid", "omp_get_max_threads"): return fresh_int(name)
    d = demangle(name)
    head = d.split("(")[0]
    if OPAQUE.search(head):
        if "QDLIB::" in head.split("std::")[0]: return NOTINTRIN
        if numeric_std(d, head) and ex.prog.fn(name) is not None: return NOTINTRIN      # std algorithm over numbers: verified through its body
        opaque_args(ex, st, d, args, I)
        ex.opaque.add(d[:120])
        return opaque_result(ex, I, args)
    return NOTINTRIN

def _strip_targs(h):
    out = []; n = 0
    for ch in h:
        if ch == '<': n += 1
        elif ch == '>': n -= 1
        elif n == 0: out.append(ch)
    return "".join(out)
def numeric_std(d, head):
    if re.search(r"basic_|_stream|ios_|locale|allocat|char_traits|std::(vector|map|list|set|pair|exception|shared_ptr|unique_ptr|function|type_info|_Rb_tree|deque|complex)", d): return False
    h = _strip_targs(head).split(" ")[-1]
    return bool(re.match(r"std::(__)?\w+(::\w+)?$", h))
def opaque_args(ex, st, d, args, I):
    """an uninterpreted library call must not receive a pointer to memory the contracts talk about"""
    for a in args:
        if not isinstance(a, Ptr) or a.fam is None: continue
        f = st.fams.get(a.fam)
        if f is None or f.const or f.name.startswith("G:"): continue
        if f.kind == 'array' and f.fields and f.esize and not f.name.startswith(("alloca", "new!")): bad = True
        elif f.kind == 'struct' and a.off.is_const(): bad = f.fields.get(a.off.const()) in ('d',) and len(f.fields) > 0 and not f.cls
        else: bad = False
        if bad: raise Unsupported(f"library call {d[:80]} on {a.fam} at {ex.loc(I)}")

def _pow(x, y):
    v = y.as_fraction() if z3.is_rational_value(y) else None
    if v is not None and v.denominator == 1 and 0 <= v <= 8:
        r = R(1)
        for _ in range(int(v)): r = rmul(r, x)
        return r
    if v is not None and v.denominator == 1 and -8 <= v < 0:
        r = R(1)
        for _ in range(int(-v)): r = rmul(r, x)
        return rdiv(R(1), r)
    return uf_real("pow", x, y)
