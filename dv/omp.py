"""OpenMP runtime calls of the parallel regions as clang lowers them (-fopenmp, as the build does).
A region is executed as a team of one thread (a legal execution).  That every other team and schedule gives the same result is proved
separately (property C01, obligations race: and merge: below), with the lemma stated in merge()."""
import z3
from mem import *
from term import *
from solve import Unsupported

def kmpc(ex, st, name, args, I, fr):
    n = name[7:]
    if n == "fork_call":
        if getattr(ex, "races", False) and not ex.quiet:
            races(ex, st, args, I, fr)
            merge(ex, st, args, I, fr)
        return region(ex, st, args, I, fr)
    if n in ("for_static_init_4", "for_static_init_8", "for_static_init_4u", "for_static_init_8u"): return static_init(ex, st, args, I)
    if n in ("for_static_fini", "end_critical", "end_reduce_nowait", "end_reduce", "push_num_threads"):
        if n in ("end_critical", "end_reduce_nowait", "end_reduce"): st.gh['omplock'] = st.gh.get('omplock', 0) - 1
        return None
    if n == "critical": st.gh['omplock'] = st.gh.get('omplock', 0) + 1; return None
    if n in ("reduce_nowait", "reduce"): st.gh['omplock'] = st.gh.get('omplock', 0) + 1; return P(1)
    if n == "global_thread_num": return P(0)
    raise Unsupported(f"OpenMP runtime call {name} at {ex.loc(I)}")

def static_init(ex, st, args, I):
    """schedule(static) without a chunk: the thread gets one interval of the iteration space [lower, upper] it stored; a team of one gets all of it"""
    sched = args[2]
    if not (sched.is_const() and sched.const() == 34): raise Unsupported(f"OpenMP schedule {sched} at {ex.loc(I)}")
    h = getattr(ex, "chunkhook", None)
    if h is not None: h(ex, st, args, I)
    return None

def region(ex, st, args, I, fr):
    fn = args[2]; out = fn.name
    tid = Fam(fresh_name("gtid"), 'struct', size=4, fields={0: 'i'}, bases={0: lambda X: P(0)}); st.fam(tid)
    ex.inlined.add("parallel region of " + out.split(".omp_outlined")[0])
    outs = ex.call_fn(st, out, [Ptr(tid.name), Ptr(tid.name)] + list(args[3:]), fr.depth + 1, fr.chain)
    for s, k, v in outs:
        if s.gh.get('omplock'): raise Unsupported(f"critical section left open at {ex.loc(I)}")
    return [(s, 'ret', None) if k == 'ret' else (s, k, v) for s, k, v in outs]

def _chunk(bounds):
    """hook: the thread's share of the iteration space is [lo, hi)"""
    def h(ex, st, args, I):
        ty = _ity(ex, args, I)
        L, U = ex.load(st, args[4], ty, I), ex.load(st, args[5], ty, I)
        lo, hi = bounds
        st.assume(b_and(le(L, lo), le(hi, U + 1)))
        log, ex.acclog = ex.acclog, None
        ex.store(st, args[4], lo, ty, I); ex.store(st, args[5], hi - 1, ty, I)
        ex.acclog = log
    return h
class _T: pass
I4 = _T(); I4.kind = 'int'; I4.size = 4; I4.bits = 32
def _ity(ex, args, I): return I4

def _quietly(ex, f):
    """run f without keeping its obligations (they are emitted by the ordinary execution of the region)"""
    n = len(ex.obls)
    try: return f()
    finally: del ex.obls[n:]

def races(ex, st, args, I, fr):
    """one symbolic iteration i, twice with independent names: no cell of the enclosing state is written by one and touched by the other
    for i != j, unless both accesses hold the lock (critical / reduction combine)."""
    where = ex.loc(I); runs = []
    for _ in range(2):
        s = st.copy(); i = fresh_int("iter")
        def go():
            ex.chunkhook = _chunk((i, i + 1)); ex.acclog = []
            try:
                region(ex, s, args, I, fr)
                return ex.acclog
            finally: ex.chunkhook = None; ex.acclog = None
        races0 = ex.races; ex.races = False
        try: log = _quietly(ex, go)
        finally: ex.races = races0
        runs.append((i, [a for a in log if a[0] in st.fams]))
    (i, A), (j, B) = runs
    n0 = len(st.pc); done = set()
    groups = {}
    for (fam, fld, ix, pc, wr, lock, loc) in A:
        if not wr: continue
        for (fam2, fld2, ix2, pc2, wr2, lock2, loc2) in B:
            if fam != fam2 or fld != fld2 or (lock and lock2): continue
            hyp = st.pc + pc[n0:] + pc2[n0:] + [to_bool(b_not(eq(i, j)))]
            g = b_or(*[b_not(eq(a, b)) for a, b in zip(ix, ix2)]) if ix else False
            groups.setdefault((fam, fld, loc, loc2), []).append((hyp, g))
    nw = len(set((a[0], a[1]) for a in A if a[4]))
    for (fam, fld, loc, loc2), l in groups.items():
        for hyp, g in l:
            k = (fam, fld, loc, loc2, str(g), len(hyp))
            if k in done: continue
            done.add(k)
            ex.oblige_pc(hyp, g, f"race:{fam.split('!')[0]}.{fld}@{loc}|{loc2.split(':')[-1]}")
    if not groups: ex._rec(f"race-free:{where}:{nw} shared locations written", "proved", "frame", 0.0)

def merge(ex, st, args, I, fr):
    """for all a <= m <= b: running the shares [a,m) and [m,b) one after the other, in either order, leaves the same state as running [a,b).
    With race freedom (an interleaving of two shares is then equivalent to one order of them) induction over the shares of a team gives:
    every team size and every static split leaves the state of the team of one."""
    from loops import add_bounds, fresh_X, col_arity, ptr_col_eq, val_eq, orig_col
    a, m, b = fresh_int("sa"), fresh_int("sm"), fresh_int("sb")
    s0 = st.copy(); s0.assume(b_and(le(0, a), le(a, m), le(m, b)))
    races0 = ex.races; ex.races = False; ex.decsel = True
    def run(starts, iv):
        out = []
        for s in starts:
            ex.chunkhook = _chunk(iv)
            try: out += [x for x, k, v in region(ex, s.copy(), args, I, fr) if k == 'ret']
            finally: ex.chunkhook = None
        return out
    try:
        whole = _quietly(ex, lambda: run([s0], (a, b)))
        for nm, c1, c2 in (("ascending", (a, m), (m, b)), ("descending", (m, b), (a, m))):
            two = _quietly(ex, lambda: run(run([s0], c1), c2))
            n = 0
            for s in whole:
                for t in two:
                    pc = s.pc + t.pc[len(s0.pc):]
                    if not ex.S.feasible(pc): continue
                    q = s.copy(); q.pc = list(pc)
                    keys = [k for k in set(s.mem) | set(t.mem) if k[0] in st.fams and s.mem.get(k) is not t.mem.get(k)]
                    for key in sorted(keys, key=str):
                        c, d = s.mem.get(key), t.mem.get(key)
                        fam = st.fams[key[0]]
                        if c is None: c = orig_col(ex, st, key, d)
                        if d is None: d = orig_col(ex, st, key, c)
                        if c.base is d.base and c.ups == d.ups: continue
                        if key not in st.mem and not c.ups and not d.ups: continue      # only read
                        X = fresh_X(max(col_arity(c, fam, key[1]), col_arity(d, fam, key[1])))
                        q2 = q.copy(); add_bounds(q2, fam, key[1], X)
                        g = ptr_col_eq(ex, q2, c, d, X) if c.kind == 'p' else val_eq(col_eval(c, X), col_eval(d, X))
                        ex.oblige(q2, g, f"merge:{nm}:{key[0].split('!')[0]}.{key[1]}@{ex.loc(I)}"); n += 1
            if not n: ex._rec(f"merge:{nm}:{ex.loc(I)}", "proved", "frame", 0.0)
    finally: ex.races = races0; ex.decsel = False
