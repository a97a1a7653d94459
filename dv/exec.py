"""Symbolic executor / VC generator over LLVM IR with contracts at calls and checked loop closed forms."""
import z3, sys, time
from term import *
from mem import *
from solve import *
from prog import demangle
import loops as loopmod

sys.setrecursionlimit(20000)
COV = set() if __import__('os').environ.get('DV_COV') else None      # source lines executed (mutation testing only)

class Frame:
    __slots__ = ("F", "args", "depth", "chain")
    def __init__(s, F, args, depth, chain): s.F = F; s.args = args; s.depth = depth; s.chain = chain

QUO, REM = (z3.Function(n, z3.IntSort(), z3.IntSort(), z3.IntSort()) for n in ("quo", "rem"))
def div_axioms(fs):
    """defining facts of the quotients and remainders (non-negative operands) occurring in fs"""
    out = []; seen = set(); todo = list(fs)
    while todo:
        x = todo.pop()
        if isinstance(x, bool) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if x.decl().eq(QUO) or x.decl().eq(REM):
                a, b = x.children(); q, r = QUO(a, b), REM(a, b)
                out.append(z3.Implies(z3.And(a >= 0, b > 0), z3.And(a == b*q + r, 0 <= r, r < b, 0 <= q, q <= a)))
            todo += x.children()
    return out
class Exec:
    MAXDEPTH = 24
    def __init__(self, prog, solver, contracts=None):
        self.prog = prog; self.S = solver
        self.contracts = contracts or {}       # mangled or demangled signature -> handler
        self.patterns = []                     # (predicate(demangled), handler)
        self.quiet = 0
        self.obls = []
        self.fnname = "?"
        self.inlined = set(); self.used_contracts = set(); self.opaque = set()
        self.steps = 0; self.maxsteps = 400000
        self.loophints = []      # callables giving contract-supplied invariants
        self.loopstats = {"loops": 0, "closed_forms": 0}
        self.deadline = None; self.loopks = []
        self.races = False; self.acclog = None; self.chunkhook = None      # parallel regions (omp.py)
        self.vres = {}           # (cls, slot) cache

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, goal, name, where=None, assume=True):
        if goal is True:
            if not self.quiet: self._rec(name, "proved", "simplifier", 0.0)
            return True
        if self.quiet:
            if assume: st.assume(goal)
            return None
        r, be, t, m = self.S.prove(st.pc, goal)
        det = ""
        if r != "proved":
            det = f"goal: {str(goal)[:600]}"
            if m is not None: det += f"\nmodel: {str(m)[:1500]}"
            if where: det += f"\nat: {where}"
        self._rec(name, r, be, t, det)
        if assume: st.assume(goal)
        return r == "proved"

    def _rec(self, name, r, be, t, det=""):
        self.obls.append(Obligation(self.fnname, name, r, be, t, det))

    def loc(self, I):
        if I is None or not I.line: return ""
        f = I.file or ""
        return f"{f.split('/src/')[-1]}:{I.line}"

    def oblige_pc(self, pc, goal, name):
        if goal is True: self._rec(name, "proved", "simplifier", 0.0); return
        r, be, t, m = self.S.prove(pc, goal)
        self._rec(name, r, be, t, "" if r == "proved" else f"goal: {str(goal)[:600]}\nmodel: {str(m)[:1500]}")
    def access(self, st, fam, field, ix, wr, I):
        if self.acclog is not None and not self.quiet:
            self.acclog.append((fam.name, field, tuple(ix), list(st.pc), wr, bool(st.gh.get('omplock')), self.loc(I)))

    # ---------------------------------------------------------------- memory
    def newfam(self, st, prefix, **kw):
        f = Fam(fresh_name(prefix), **kw); st.fam(f); return f

    def resolve(self, st, p, size, I, write=False):
        """pointer -> (fam, field, index tuple); emits bounds obligations"""
        if not isinstance(p, Ptr): raise Unsupported(f"access through {p!r} at {self.loc(I)}")
        if p.fam is None:
            self.oblige(st, False, f"null-deref@{self.loc(I)}")
            raise DeadPath()
        fam = st.fams.get(p.fam)
        if fam is None: raise Unsupported(f"unknown region {p.fam} at {self.loc(I)}")
        if p.fam in st.dead:
            self.oblige(st, False, f"use-after-free:{p.fam.split('!')[0]}@{self.loc(I)}"); raise DeadPath()
        ix = p.ix; off = p.off
        if fam.arity and not self.quiet:
            dc = st.mem.get((p.fam, '#dead'))
            if dc is not None and dc.ups:
                self.oblige(st, eq(col_eval(dc, ix, lambda c: self.S.decide(st.pc, c)), 0), f"use-after-free:{p.fam.split('!')[0]}@{self.loc(I)}")
        if fam.ixok is not None and not self.quiet:
            c = fam.ixok(ix)
            if c is not True: self.oblige(st, c, f"object-exists:{p.fam.split('!')[0]}@{self.loc(I)}")
        if fam.kind == 'struct':
            own = next((a for a in fam.arrays if a[0] <= off.const() < a[0] + a[1]*a[2]), None)
            if not off.is_const() and len(fam.arrays) > 1:
                # x[i-1]: the constant part lies before the array; take the array in which the access provably lies
                def inb(a):
                    d = (off - a[0]).divc(a[1])
                    return d is not None and self.S.decide(st.pc, b_and(le(0, d[0]), lt(d[0], P(a[2])))) is True
                if own is None or not inb(own):
                    own = next((a for a in fam.arrays if a is not own and abs(a[0] - off.const()) <= 4*a[1] and inb(a)), own)
            for (start, es, cnt) in fam.arrays:
                rel = off - start
                inside = None
                if own is not None: inside = own[0] == start
                elif not off.is_const():
                    d = rel.divc(es)
                    inside = d is not None and start <= off.const() < start + es*cnt + es
                    if d is not None and not inside:
                        # constant part may sit before the array (index - 1): accept nearest array
                        inside = len(fam.arrays) == 1
                if inside:
                    q = rel.divc(es)
                    if q is None: raise Unsupported("array-in-struct offset")
                    i, f = q
                    if not self.quiet:
                        self.oblige(st, b_and(le(0, i), lt(i, P(cnt))), f"bounds:{fam.name.split('!')[0]}@{self.loc(I)}")
                    return fam, ('A', start, f), ix + (i,)
            if not off.is_const(): raise Unsupported(f"symbolic offset {off} into {fam.name} at {self.loc(I)}")
            o = off.const()
            if fam.size is not None and not (0 <= o and o + size <= fam.size):
                self.oblige(st, False, f"bounds:{fam.name.split('!')[0]}@{self.loc(I)}"); raise DeadPath()
            return fam, o, ix
        if fam.esize is None:
            # raw heap block: element size from the access
            import intrin; intrin.settype(self, fam, intrin.guess_esize(fam, size))
        q = off.divc(fam.esize)
        if q is None: raise Unsupported(f"offset {off} not a multiple of element size {fam.esize} of {fam.name}")
        i, f = q
        if fam.radix:
            dig = self.digits(st, fam, i, I)
            return fam, f, ix + dig
        cnt = fam.countf(ix)
        if cnt is not None and not self.quiet:
            g = b_and(le(0, i), lt(i, cnt))
            self.oblige(st, g, f"bounds:{fam.name.split('!')[0]}@{self.loc(I)}")
        return fam, f, ix + (i,)

    def digits(self, st, fam, i, I):
        """mixed radix decomposition of a flat index polynomial.  fam.radix = [(stride, extent), ...], last stride 1"""
        out = []; rem = i
        for (stride, ext) in fam.radix[:-1]:
            d = Poly({})
            if stride.is_const() and stride.const() == 1: q = None
            (sm, sc), = stride.t.items()
            t = {}; r = {}
            for m, c in rem.t.items():
                l = list(m); ok = (c % sc == 0)
                for a in sm:
                    if a in l: l.remove(a)
                    else: ok = False; break
                if ok: t[tuple(l)] = c//sc
                else: r[m] = c
            out.append(Poly(t)); rem = Poly(r)
        out.append(rem)
        for d, (s, e) in zip(out, fam.radix):
            g = b_and(le(0, d), lt(d, e))
            if not self.quiet:
                self.oblige(st, g, f"bounds:{fam.name.split('!')[0]}@{self.loc(I)}")
        return tuple(out)

    def kind_of(self, ty):
        if ty.kind == 'double': return 'd'
        if ty.kind == 'float': return 'd'
        if ty.kind == 'int': return 'i'
        if ty.kind == 'ptr': return 'p'
        raise Unsupported(f"memory access of type {ty}")

    def column(self, st, fam, field, kind):
        key = (fam.name, field)
        c = st.mem.get(key)
        if c is None:
            b = fam.bases.get(field)
            if b is None:
                b = self.default_base(fam, field, kind)
            c = Column(kind, b)
            st.mem[key] = c
        return c

    def default_base(self, fam, field, kind):
        nm = f"{fam.name}.{field}"
        if kind == 'd': return lambda X: uf_real(nm, *X) if X else z3.Real(nm)
        if kind == 'i': return lambda X: uf_int(nm, *X) if X else Poly.atom(z3.Int(nm))
        if kind == 'p':
            return lambda X: Ptr("U:" + nm, X)
        raise Unsupported("kind " + kind)

    def fork_val(self, st, alts):
        """alts: list of (cond, value) -> feasible ones"""
        out = []
        for c, v in alts:
            if c is False: continue
            if c is True: out.append((True, v)); continue
            if self.S.feasible(st.pc, c): out.append((c, v))
        return out

    def load(self, st, p, ty, I=None):
        """-> value or list of alternatives [(cond, value)]"""
        if isinstance(p, Ptr) and p.fam is not None and p.fam.startswith("VT:"):
            return self.vt_load(p)
        if isinstance(p, Ptr) and p.fam is not None and p.fam.startswith("VTT:"):
            import llvmc
            m, g = self.prog.glob(p.fam[4:]); t = m.const(llvmc.initializer(g)); o = p.off.const()
            if t[0] != 'agg' or o % 8 or not 0 <= o // 8 < len(t[2]): raise Unsupported(f"table of virtual tables {p}")
            return self.constant(st, t[2][o // 8])
        if isinstance(p, Ptr) and p.fam is not None and p.fam.startswith("AVT:"):
            return AbsFn(p.fam[4:], p.off.const())
        if ty.kind == 'struct':
            vals = []
            for e, o in zip(ty.elems, ty.offs):
                v = self.load(st, p.add(o), e, I)
                if isinstance(v, list): raise Unsupported("aggregate load of conditional pointer")
                vals.append(v)
            return tuple(vals)
        kind = self.kind_of(ty)
        fam, field, ix = self.resolve(st, p, ty.size, I)
        self.access(st, fam, field, ix, False, I)
        col = self.column(st, fam, field, kind)
        return self.read_col(st, col, ix, kind, I)

    def read_col(self, st, col, ix, kind, I=None):
        if col.kind != kind:
            if col.kind == 'i' and kind == 'p':
                v = col_eval(col, ix, lambda c: self.S.decide(st.pc, c))
                if isinstance(v, Poly) and v.is_const() and v.const() == 0: return NULL
            if col.kind == 'i' and kind == 'd':
                v = col_eval(col, ix, lambda c: self.S.decide(st.pc, c))
                if isinstance(v, Poly) and v.is_const() and v.const() == 0: return R(0)
            raise Unsupported(f"type pun {col.kind}->{kind} at {self.loc(I)}")
        try:
            v = col_eval(col, ix, lambda c: self.S.decide(st.pc, c))
        except AltPtr as a:
            alts = []; neg = True
            for c, x in a.alts:
                alts.append((b_and(neg, c), x)); neg = b_and(neg, b_not(c))
            alts.append((neg, a.dflt))
            flat = []
            for c, x in alts:
                if isinstance(x, Maybe): flat += [(b_and(c, c2), x2) for c2, x2 in x.alts]
                else: flat.append((c, x))
            return self.fork_val(st, flat)
        if isinstance(v, Maybe):
            return self.fork_val(st, v.alts)
        if col.log is not None: col.log.append((ix, v))
        return v

    def store(self, st, p, v, ty, I=None):
        if ty.kind == 'struct':
            for x, e, o in zip(v, ty.elems, ty.offs): self.store(st, p.add(o), x, e, I)
            return
        kind = self.kind_of(ty)
        if v is None: raise Unsupported("store of void")
        fam, field, ix = self.resolve(st, p, ty.size, I, True)
        if fam.const:
            self.oblige(st, False, f"frame:write to read-only {fam.name.split('!')[0]}@{self.loc(I)}"); return
        col = self.column(st, fam, field, kind) if (fam.name, field) in st.mem or fam.bases.get(field) is not None else \
              Column(kind, self.default_base(fam, field, kind))
        if col.kind != kind:
            if len(ix) == 0: col = Column(kind, self.default_base(fam, field, kind))
            elif kind == 'p' and v == NULL and col.kind == 'i': v = P(0)
            elif not col.ups or all(True for _ in ()): 
                col = Column(kind, self.default_base(fam, field, kind)) if not col.ups else self._pun(col, kind, I)
        self.access(st, fam, field, ix, True, I)
        st.mem[(fam.name, field)] = col.write(ix, v)

    def _pun(self, col, kind, I):
        # a memset-zeroed integer column re-typed on first typed store
        def conv(v):
            if isinstance(v, Poly) and v.is_const() and v.const() == 0:
                return {'d': R(0), 'p': NULL}[kind]
            raise Unsupported(f"type pun store at {self.loc(I)}")
        ups = tuple(Upd(u.comps, u.guard, (lambda X, u=u: conv(u.val(X)))) for u in col.ups)
        def b(X): raise Unsupported("retyped column read")
        return Column(kind, b, ups)

    def vt_load(self, p):
        sym = p.fam[3:]
        tabs = self.prog.vslots(sym)
        if tabs is None: raise Unsupported(f"no vtable {sym}")
        # tables are laid out consecutively
        o = p.off.const(); base = 0
        for t in tabs:
            n = len(t)*8
            if base <= o < base + n:
                e = t[(o-base)//8]
                if e[0] == 'fn': return FnP(e[1])
                if e[0] == 'null': return P(0)
                if e[0] == 'cexpr' and e[1] == 'inttoptr': return P(e[2][0][1])
                return Ptr("G:rtti") if e[0] == 'glob' else P(0)
            base += n
        raise Unsupported(f"vtable offset {o} in {sym}")

    # ---------------------------------------------------------------- values
    def constant(self, st, c):
        k = c[0]
        if k == 'int':
            if c[2] == 1: return bool(c[1] & 1)
            return Poly.c(c[1])
        if k == 'fp': return R(c[1])
        if k == 'null': return NULL
        if k == 'fn': return FnP(c[1])
        if k == 'undef': return self.undef(c[1])
        if k == 'zero': return self.zero(c[1])
        if k == 'glob': return self.globptr(st, c[1])
        if k == 'cgep':
            b = self.constant(st, c[1]); return b.add(c[2])
        if k == 'agg': return tuple(self.constant(st, x) for x in c[2])
        if k == 'cexpr' and c[1] in ('bitcast', 'addrspacecast'): return self.constant(st, c[2][0])
        raise Unsupported(f"constant {c}")

    def globptr(self, st, n):
        if n.startswith(("_ZTV", "_ZTC")): return Ptr("VT:" + n)
        if n.startswith("_ZTT"): return Ptr("VTT:" + n)
        fam = "G:" + n
        if fam not in st.fams:
            st.fam(self.global_fam(n, fam))
        return Ptr(fam)

    def global_fam(self, n, fam):
        import llvmc
        m, g = self.prog.glob(n)
        if g is None: return Fam(fam, 'struct')
        ty = m.ty(llvmc.globTy(g))
        isconst = bool(_isGlobalConst(g))
        f = self.fam_of_type(fam, ty)
        if isconst:
            init = m.const(llvmc.initializer(g))
            if init[0] == 'str':
                s = init[1]; f = Fam(fam, 'array', esize=1, count=P(len(s)))
                f.bases[0] = lambda X, s=s: self._tab([P(b) for b in s], X[0])
                f.const = True
            elif ty.kind == 'array':
                flat = []
                def rec(c, t):
                    if t.kind == 'array':
                        if c[0] == 'zero':
                            for _ in range(t.n): rec(('zero', t.elems[0]), t.elems[0])
                        else:
                            for x in c[2]: rec(x, t.elems[0])
                    elif c[0] == 'fp': flat.append(R(c[1]))
                    elif c[0] == 'int': flat.append(P(c[1]))
                    elif c[0] == 'zero': flat.append(R(0) if t.kind == 'double' else P(0))
                    else: raise Unsupported("const table")
                try:
                    rec(init, ty)
                    t = ty
                    while t.kind == 'array': t = t.elems[0]
                    f = Fam(fam, 'array', esize=t.size, count=P(len(flat)))
                    f.bases[0] = lambda X: self._tab(flat, X[0]); f.const = True
                except Unsupported:
                    pass
            elif init[0] in ('fp', 'int'):
                v = R(init[1]) if init[0] == 'fp' else P(init[1])
                f.bases[0] = lambda X: v; f.const = True
        return f

    def _tab(self, lst, i):
        if i.is_const():
            k = i.const()
            if 0 <= k < len(lst): return lst[k]
            raise Unsupported("const table index")
        r = lst[-1]
        for k in range(len(lst)-2, -1, -1): r = ite(eq(i, k), lst[k], r)
        return r

    def fam_of_type(self, name, ty):
        """struct family for an IR type"""
        if ty.kind == 'array':
            t = ty.elems[0]
            return Fam(name, 'array', esize=t.size, count=P(ty.n))
        f = Fam(name, 'struct', size=ty.size)
        def rec(t, o):
            if t.kind == 'struct':
                for e, eo in zip(t.elems, t.offs): rec(e, o+eo)
            elif t.kind == 'array':
                if t.n > 1 and t.elems[0].size: f.arrays.append((o, t.elems[0].size, t.n))
                elif t.n == 1: rec(t.elems[0], o)
        rec(ty, 0)
        return f

    def undef(self, ty):
        if ty.kind == 'int': return fresh_bool("undef") if ty.bits == 1 else fresh_int("undef")
        if ty.kind in ('double', 'float'): return fresh_real("undef")
        if ty.kind == 'struct': return tuple(self.undef(e) for e in ty.elems)
        if ty.kind == 'ptr': return NULL
        raise Unsupported("undef " + ty.kind)
    def zero(self, ty):
        if ty.kind == 'int': return False if ty.bits == 1 else P(0)
        if ty.kind in ('double', 'float'): return R(0)
        if ty.kind == 'ptr': return NULL
        if ty.kind == 'struct': return tuple(self.zero(e) for e in ty.elems)
        raise Unsupported("zero " + ty.kind)

    def val(self, st, vals, fr, o):
        k = o[0]
        if k == 'v':
            return vals[o[1]]
        if k == 'a': return fr.args[o[1]]
        return self.constant(st, o[1])

    # ---------------------------------------------------------------- running
    def call_fn(self, st, name, args, depth=0, chain=()):
        F = self.prog.fn(name)
        if F is None: raise Unsupported(f"no body for {demangle(name)}")
        fr = Frame(F, args, depth, chain + (name,))
        outs = self.run(st, fr, {}, 0, 0, None, None)
        res = []
        for o in outs:
            if o[0] == 'ret': res.append((o[1], 'ret', o[2]))
            elif o[0] == 'throw': res.append((o[1], 'throw', None))
        return res

    def run(self, st, fr, vals, blk, idx, prev, within):
        """within = (header, body set) or None.  Returns outcome list."""
        out = []
        work = [(st, vals, blk, idx, prev)]
        F = fr.F
        while work:
            st, vals, blk, idx, prev = work.pop()
            try:
                self._block(st, vals, blk, idx, prev, fr, within, work, out)
            except DeadPath:
                pass
        return out

    def goto(self, st, vals, fr, frm, to, within, work, out):
        F = fr.F
        if within is not None:
            if to == within[0]: out.append(('back', st, vals, frm)); return
            if to not in within[1]: out.append(('exit', st, vals, to, frm)); return
        if to in F.loops and frm not in F.loops[to]:
            for o in loopmod.do_loop(self, st, vals, fr, to, frm):
                if o[0] == 'exit':
                    self.goto(o[1], o[2], fr, o[4], o[3], within, work, out)
                else: out.append(o)
            return
        # phis
        self.phis(st, vals, fr, frm, to)
        work.append((st, vals, to, -1, frm))

    def phis(self, st, vals, fr, frm, to):
        new = []
        for I in fr.F.blocks[to].ins:
            if I.op != 'phi': break
            for o, b in I.ops:
                if b == frm: new.append((I.res[1], self.val(st, vals, fr, o))); break
            else: raise Unsupported("phi without edge")
        for k, v in new: vals[k] = v

    def _block(self, st, vals, blk, idx, prev, fr, within, work, out):
        B = fr.F.blocks[blk]
        ins = B.ins
        i = 0 if idx < 0 else idx
        n = len(ins)
        while i < n:
            I = ins[i]
            self.steps += 1
            if self.steps > self.maxsteps: raise Unsupported("step budget")
            if self.deadline and self.steps % 64 == 0 and time.time() > self.deadline: raise Unsupported("time budget")
            op = I.op
            if COV is not None and I.line: COV.add((I.file, I.line))
            if op == 'phi':
                i += 1; continue
            if op == 'br':
                if not I.ops:
                    self.goto(st, vals, fr, blk, I.x[0], within, work, out); return
                c = self.val(st, vals, fr, I.ops[0])
                if isinstance(c, Poly): c = cmp('ne', c, P(0))
                self.branch(st, vals, fr, blk, [(c, I.x[0]), (b_not(c), I.x[1])], within, work, out); return
            if op == 'switch':
                v = self.val(st, vals, fr, I.ops[0]); dflt, cases = I.x
                alts = []; neg = True
                for cv, t in cases:
                    c = eq(v, cv); alts.append((c, t)); neg = b_and(neg, b_not(c))
                alts.append((neg, dflt))
                self.branch(st, vals, fr, blk, alts, within, work, out); return
            if op == 'ret':
                out.append(('ret', st, self.val(st, vals, fr, I.ops[0]) if I.ops else None)); return
            if op == 'unreachable':
                self.oblige(st, False, f"falls-off-the-end@{self.loc(I)}"); return
            if op in ('resume', 'landingpad'):
                out.append(('throw', st, None)); return
            if op in ('call', 'invoke'):
                r = self.do_call(st, vals, fr, I)
                # r: list of (st, kind, val)
                nxt = []
                for (s2, kind, v) in r:
                    if kind == 'throw': out.append(('throw', s2, None))
                    else: nxt.append((s2, v))
                for j, (s2, v) in enumerate(nxt):
                    last = (j == len(nxt)-1)
                    vv = vals if last else dict(vals)
                    vv[I.res[1]] = v
                    if op == 'invoke':
                        self.goto(s2, vv, fr, blk, I.x[1], within, work, out)
                    elif last:
                        st, vals = s2, vv
                    else: work.append((s2, vv, blk, i+1, prev))
                if not nxt or op == 'invoke': return
                i += 1; continue
            v = self.step(st, vals, fr, I)
            if isinstance(v, list):      # alternatives [(cond, value)]
                if not v: return
                for c, x in v[1:]:
                    s2 = st.copy(); s2.assume(c); v2 = dict(vals); v2[I.res[1]] = x
                    work.append((s2, v2, blk, i+1, prev))
                c, x = v[0]; st.assume(c); v = x
            vals[I.res[1]] = v
            i += 1

    def branch(self, st, vals, fr, blk, alts, within, work, out):
        feas = []
        for c, t in alts:
            if c is True: feas = [(True, t)]; break
            if c is False: continue
            if z3.is_true(c): feas = [(True, t)]; break
            if z3.is_false(c): continue
            if self.S.feasible(st.pc, c): feas.append((c, t))
        if not feas: return
        for c, t in feas[1:]:
            s2 = st.copy(); s2.assume(c)
            self.goto(s2, dict(vals), fr, blk, t, within, work, out)
        c, t = feas[0]
        if len(feas) > 1 or c is not True: st.assume(c)
        self.goto(st, vals, fr, blk, t, within, work, out)

    def step(self, st, vals, fr, I):
        op = I.op; V = lambda k: self.val(st, vals, fr, I.ops[k])
        if op == 'load': return self.load(st, V(0), I.ty, I)
        if op == 'store':
            self.store(st, V(1), V(0), I.x, I); return None
        if op == 'gep':
            p = V(0); off, dyn = I.x
            d = P(off)
            for s, o in dyn: d = d + P(self.val(st, vals, fr, o))*s
            if isinstance(p, FnP): raise Unsupported("gep on function")
            if p.fam is None:
                if d.is_const() and d.const() == 0: return NULL
                return NULL if True else p
            return p.add(d)
        if op == 'alloca':
            n = V(0); ty = I.x
            if n.is_const() and n.const() == 1:
                f = self.fam_of_type(fresh_name("stack"), ty)
            else:
                f = Fam(fresh_name("stack"), 'array', esize=ty.size, count=n)
            st.fam(f); return Ptr(f.name)
        if op in ('add', 'sub', 'mul'):
            a, b = V(0), V(1)
            if isinstance(a, (bool, z3.BoolRef)):
                if op in ('add', 'sub'): return self.bxor(a, b)
                return b_and(a, b)
            return a + b if op == 'add' else a - b if op == 'sub' else a * b
        if op in ('sdiv', 'srem', 'udiv', 'urem'): return self.divrem(st, op, V(0), V(1), I)
        if op in ('shl', 'lshr', 'ashr'):
            a, b = V(0), V(1)
            if b.is_const():
                k = b.const()
                if op == 'shl': return a * (1 << k)
                q = a.divc(1 << k)
                if q is not None and q[1] == 0: return q[0]
                return self.floordiv(st, a, 1 << k)
            if op == 'shl' and a.is_const() and a.const() == 1:
                return uf_int("pow2", b)
            return uf_int("bits_" + op, a, b)
        if op in ('and', 'or', 'xor'):
            a, b = V(0), V(1)
            if isinstance(a, (bool, z3.BoolRef)):
                if op == 'and': return b_and(a, b)
                if op == 'or': return b_or(a, b)
                return self.bxor(a, b)
            if a.is_const() and b.is_const():
                x, y = a.const(), b.const()
                return P({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
            if op == 'xor' and b.is_const() and b.const() == -1: return P(-1) - a
            if op == 'and' and b.is_const() and b.const() > 0 and (b.const() & (b.const()+1)) == 0:
                return self.mod(st, a, b.const()+1)
            ba, bb = self.as_bit(a), self.as_bit(b)
            if ba is not None and bb is not None:
                r = {'and': b_and(ba, bb), 'or': b_or(ba, bb), 'xor': self.bxor(ba, bb)}[op]
                return ite(r, P(1), P(0))
            return uf_int("bits_" + op, a, b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(0), V(1)
            return {'fadd': radd, 'fsub': rsub, 'fmul': rmul, 'fdiv': rdiv}[op](a, b)
        if op == 'fneg': return rneg(V(0))
        if op == 'icmp': return self.icmp(st, I.x[0], V(0), V(1), I)
        if op == 'fcmp':
            a, b = V(0), V(1); k = I.x
            if k == 'true': return True
            if k == 'false': return False
            if k == 'ord': return True
            if k == 'uno': return False
            x, y = _cv(a), _cv(b)
            if x is not None and y is not None:
                return {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}[k[1:]]
            if a.eq(b): return k[1:] in ('eq', 'ge', 'le')
            return {'eq': a == b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b, 'ne': a != b}[k[1:]]
        if op in ('zext', 'sext'):
            a = V(0)
            if I.x.bits == 1: return ite(a, P(1 if op == 'zext' else -1), P(0)) if not isinstance(a, Poly) else a
            return a
        if op == 'trunc':
            a = V(0)
            if I.ty.bits == 1:
                if isinstance(a, (bool, z3.BoolRef)): return a
                b = self.as_bit(a)
                if b is not None: return b
                return cmp('ne', a, P(0))
            if a.is_const():
                m = 1 << I.ty.bits; c = a.const() % m
                if c >= m//2: c -= m
                return P(c)
            return a
        if op in ('sitofp', 'uitofp'):
            a = V(0)
            if isinstance(a, (bool, z3.BoolRef)): return ite(a, R(1), R(0))
            return R(a)
        if op in ('fptosi', 'fptoui'):
            a = V(0)
            x = _cv(a)
            if x is not None: return P(int(x))
            # truncation toward zero
            q = z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL: return from_z(a.children()[0])
            return Poly.atom(q)
        if op in ('fpext', 'fptrunc', 'freeze', 'bitcast', 'addrspacecast'): return V(0)
        if op == 'ptrtoint':
            p = V(0)
            if isinstance(p, Ptr):
                if p.fam is None: return P(0)
                a = uf_int("addr:" + p.fam, *p.ix) if p.ix else Poly.atom(z3.Int("addr:" + p.fam))
                return a + p.off
            raise Unsupported("ptrtoint")
        if op == 'select':
            c, a, b = V(0), V(1), V(2)
            if isinstance(c, Poly): c = cmp('ne', c, P(0))
            if getattr(self, "decsel", False): d = self.S.decide(st.pc, c); c = c if d is None else d
            if c is True: return a
            if c is False: return b
            if isinstance(a, (Ptr, FnP, AbsFn)):
                if a == b: return a
                return self.fork_val(st, [(c, a), (b_not(c), b)])
            if isinstance(a, tuple): return tuple(ite(c, x, y) for x, y in zip(a, b))
            return ite(c, a, b)
        if op == 'extractvalue':
            v = V(0)
            for k in I.x: v = v[k]
            return v
        if op == 'insertvalue':
            def ins(v, idx, x):
                l = list(v)
                l[idx[0]] = x if len(idx) == 1 else ins(l[idx[0]], idx[1:], x)
                return tuple(l)
            return ins(V(0), I.x, V(1))
        if op == 'atomicrmw': raise Unsupported("atomic")
        raise Unsupported(f"instruction {op} at {self.loc(I)}")

    def as_bit(self, a):
        """Poly known to be 0/1 -> bool"""
        if a.is_const():
            return bool(a.const()) if a.const() in (0, 1) else None
        if len(a.t) == 1:
            (m, c), = a.t.items()
            if c == 1 and len(m) == 1:
                from term import _atoms
                e = _atoms[m[0]]
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                    c0, x, y = e.children()
                    if z3.is_int_value(x) and z3.is_int_value(y):
                        if (x.as_long(), y.as_long()) == (1, 0): return c0
                        if (x.as_long(), y.as_long()) == (0, 1): return z3.Not(c0)
        return None

    def bxor(self, a, b):
        if isinstance(a, bool): return b_not(b) if a else b
        if isinstance(b, bool): return b_not(a) if b else a
        return z3.Xor(a, b)

    def icmp(self, st, k, a, b, I):
        if isinstance(a, (Ptr, FnP, AbsFn)) or isinstance(b, (Ptr, FnP, AbsFn)):
            if isinstance(a, Poly): a = NULL if a == P(0) else a
            if isinstance(b, Poly): b = NULL if b == P(0) else b
            for q in (a, b):
                if isinstance(q, Ptr) and q.fam is not None and q.fam.startswith("U:"): raise Unsupported(f"comparison of unspecified pointer {q.fam} at {self.loc(I)}")
            if k in ('eq', 'ne'):
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if a.fam != b.fam:
                        r = False; q = a if b.fam is None else b if a.fam is None else None        # an entry that may be absent
                        nf = getattr(st.fams.get(q.fam), "nullif", None) if q is not None else None
                        if nf is not None: r = nf(q.ix)
                    elif a.fam is None: r = True
                    else:
                        r = b_and(*[eq(x, y) for x, y in zip(a.ix, b.ix)], eq(a.off, b.off))
                else: r = (a == b)
                return r if k == 'eq' else b_not(r)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.fam == b.fam and a.ix == b.ix:
                return cmp(k, a.off, b.off)
            raise Unsupported(f"pointer comparison at {self.loc(I)}")
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            x = self.bxor(a, b)
            if k == 'eq': return b_not(x)
            if k == 'ne': return x
            if k == 'ugt': return b_and(a, b_not(b))
            if k == 'ult': return b_and(b, b_not(a))
            raise Unsupported("bool compare " + k)
        # (If(c,1,0)) != 0
        if b.is_const() and k in ('eq', 'ne'):
            t = self.as_bit(a) if not a.is_const() else None
            if t is not None and b.const() in (0, 1):
                r = t if b.const() == 1 else b_not(t)
                return r if k == 'eq' else b_not(r)
        return cmp(k, a, b)

    _divc = {}
    def divrem(self, st, op, a, b, I):
        """C division; quotient/remainder introduced by definitional facts"""
        if a.is_const() and b.is_const() and b.const() != 0:
            x, y = a.const(), b.const(); q = abs(x)//abs(y)
            if (x < 0) != (y < 0): q = -q
            return P(q) if op in ('sdiv', 'udiv') else P(x - y*q)
        if b.is_const() and b.const() == 1: return a if op[1:] == 'div' else P(0)
        if not self.quiet and not b.is_const():
            self.oblige(st, cmp('ne', b, P(0)), f"div-by-zero@{self.loc(I)}")
        # exact monomial division (needs divisor nonzero: obliged above)
        if b.t:
            q = a.divpoly(b) if len(b.t) == 1 else None
            if q is not None: return q if op[1:] == 'div' else P(0)
            if len(b.t) == 1 and not b.is_const():
                # split a = b*q + r with r of no common monomial; valid when 0<=r<b and a>=0
                (dm, dc), = b.t.items()
                t = {}; r = {}
                for m, c in a.t.items():
                    l = list(m); ok = c % dc == 0
                    for x in dm:
                        if x in l: l.remove(x)
                        else: ok = False; break
                    if ok: t[tuple(l)] = c//dc
                    else: r[m] = c
                if t and r:
                    rr = Poly(r); qq = Poly(t)
                    if self.S.decide(st.pc, b_and(le(0, rr), lt(rr, b), le(0, qq))) is True:
                        return qq if op[1:] == 'div' else rr
        if not b.is_const() or b.const() > 0:
            if self.S.decide(st.pc, b_and(le(0, a), lt(a, b))) is True: return P(0) if op[1:] == 'div' else a
        key = (a.key(), b.key())
        ent = self._divc.get(key)
        if ent is None:
            if getattr(self, "divfn", False): q, r = (from_z(f(a.z(), b.z())) for f in (QUO, REM))      # as functions of the operands (facts for every instance: div_axioms)
            else: q, r = fresh_int("quo"), fresh_int("rem")
            ent = (q, r); self._divc[key] = ent
        q, r = ent
        az, bz, qz, rz = a.z(), b.z(), q.z(), r.z()
        ab = z3.If(bz < 0, -bz, bz)
        facts = [az == bz*qz + rz, z3.Implies(az >= 0, z3.And(rz >= 0, rz < ab)), z3.Implies(az < 0, z3.And(rz <= 0, -rz < ab)),
                 z3.Implies(z3.And(az >= 0, bz > 0), z3.And(qz >= 0, qz <= az)), z3.Implies(z3.And(az >= 0, az < bz), qz == 0)]
        f = z3.And(*facts)
        if not any(p.eq(f) for p in st.pc): st.pc.append(f)
        return q if op[1:] == 'div' else r
    def floordiv(self, st, a, n):
        return self.divrem(st, 'sdiv', a, P(n), None)
    def mod(self, st, a, n):
        return self.divrem(st, 'srem', a, P(n), None)

    # ---------------------------------------------------------------- calls
    def do_call(self, st, vals, fr, I):
        cal = I.x[0]
        args = [self.val(st, vals, fr, o) for o in I.ops]
        if cal[0] == 'c' and cal[1][0] == 'fn': name = cal[1][1]
        else:
            v = self.val(st, vals, fr, cal)
            if isinstance(v, FnP): name = v.name
            elif isinstance(v, AbsFn):
                return self.abs_call(st, v, args, I, fr)
            else: raise Unsupported(f"indirect call {v!r} at {self.loc(I)}")
        return self.call(st, name, args, I, fr)

    def contract_for(self, name):
        c = self.contracts.get(name)
        if c is not None: return c
        d = demangle(name)
        c = self.contracts.get(d)
        if c is not None: return c
        for pred, h in self.patterns:
            if pred(d): return h
        return None

    def call(self, st, name, args, I, fr):
        h = self.contract_for(name)
        if h is not None:
            if self.acclog is not None and not getattr(h, "logged", False): raise Unsupported(f"call to {demangle(name)} (by contract) in a parallel region at {self.loc(I)}")
            if getattr(h, "is_contract", False): self.used_contracts.add(demangle(name))
            r = h(self, st, args, I, name)
            if r is None: return [(st, 'ret', None)]
            if not isinstance(r, list): return [(st, 'ret', r)]
            return r
        import intrin
        if name.startswith("__kmpc_"):
            import omp
            r = omp.kmpc(self, st, name, args, I, fr)
            if isinstance(r, list): return r
            return [(st, 'ret', r)]
        r = intrin.intrinsic(self, st, name, args, I)
        if r is not intrin.NOTINTRIN:
            if isinstance(r, list): return r
            return [(st, 'ret', r)]
        if self.prog.fn(name) is not None:
            if fr.depth + 1 > self.MAXDEPTH: raise Unsupported(f"inline depth at {demangle(name)}")
            if name in fr.chain and fr.chain.count(name) > 3: raise Unsupported(f"recursion {demangle(name)}")
            self.inlined.add(demangle(name))
            return self.call_fn(st, name, args, fr.depth + 1, fr.chain + ((I.line, fr.F.name),) if False else fr.chain)
        raise Unsupported(f"call to {demangle(name)} without contract at {self.loc(I)}")

    def abs_call(self, st, v, args, I, fr):
        sig = self.vmethod(v.cls, v.slot)
        for key in (f"virt:{v.cls}::{sig}", f"virt:*::{sig}"):
            h = self.contracts.get(key)
            if h:
                if self.acclog is not None: raise Unsupported(f"virtual call in a parallel region at {self.loc(I)}")
                self.used_contracts.add(key)
                r = h(self, st, args, I, key)
                if r is None: return [(st, 'ret', None)]
                if not isinstance(r, list): return [(st, 'ret', r)]
                return r
        raise Unsupported(f"virtual call {v.cls}::{sig} without contract at {self.loc(I)}")

    absmap = {}    # abstract class -> concrete vtable symbol used only to name the slots
    def vmethod(self, cls, slot):
        k = (cls, slot)
        r = self.vres.get(k)
        if r: return r
        sym = self.absmap[cls]
        tabs = self.prog.vslots(sym)
        if tabs is None: raise Unsupported(f"no vtable {sym} for {cls}")
        e = tabs[0][2 + slot//8]
        if e[0] != 'fn': raise Unsupported(f"slot {slot} of {cls}")
        d = demangle(e[1])
        # strip class: Ns::Cls::method(args)
        depth = 0; par = d.find('(')
        head = d[:par]; k2 = head.rfind('::')
        if 'operator' in head: k2 = head.find('::operator')
        r = d[k2+2:]
        r = r.replace("non-virtual thunk to ", "")
        self.vres[k] = r
        return r

class DeadPath(Exception):
    pass

import llvmc as _l, ctypes as _c
_isGlobalConst = _l._f("LLVMIsGlobalConstant", _c.c_int, _l.P)
from term import _cv
