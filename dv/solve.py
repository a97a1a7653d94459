"""Solver back ends and obligation bookkeeping."""
import z3, time, subprocess, tempfile, os
from term import *

class Failed(Exception):
    pass
class Unsupported(Exception):
    pass

class Obligation:
    __slots__ = ("name", "status", "backend", "time", "detail", "fn")
    def __init__(s, fn, name, status, backend, t, detail=""):
        s.fn=fn; s.name=name; s.status=status; s.backend=backend; s.time=t; s.detail=detail

def purify(fs):
    """formulas that round nonlinear terms, with these terms generalised to arbitrary reals (None: nothing to generalise); unsatisfiable only if fs is"""
    sub = []; seen = set()
    def nl(x):
        k = x.decl().kind(); num = lambda y: z3.is_rational_value(y) or z3.is_int_value(y)
        return k == z3.Z3_OP_DIV and not num(x.arg(1)) or k == z3.Z3_OP_MUL and sum(not num(a) for a in x.children()) > 1
    def bound(x): return z3.is_var(x) or any(bound(c) for c in x.children())
    def walk(x, inside):
        if (x.get_id(), inside) in seen or not z3.is_app(x): return
        seen.add((x.get_id(), inside))
        if inside and z3.is_real(x) and nl(x):
            if not bound(x): sub.append((x, z3.FreshReal("pure")))
            return
        for c in x.children(): walk(c, inside or x.decl().kind() == z3.Z3_OP_TO_INT)
    for f in fs: walk(f, False)
    if not sub: return None
    fs = [z3.substitute(f, *sub) for f in fs]; ti = []; seen.clear()
    def floors(x):
        if x.get_id() in seen or not z3.is_app(x): return
        seen.add(x.get_id()); [floors(c) for c in x.children()]
        if x.decl().kind() == z3.Z3_OP_TO_INT and not bound(x): ti.append(x)
    for f in fs: floors(f)
    new = []
    for x in ti:        # innermost first
        y = z3.substitute(x, *[(a, b) for a, b in new]); k = z3.FreshInt("floor"); new.append((x, k)); fs.append(z3.And(z3.ToReal(k) <= y.arg(0), y.arg(0) < z3.ToReal(k) + 1))
    import math
    for i, (x, k) in enumerate(new):        # consequences of the definitions that spare the solver a search over the integers
        for y, l in new[:i]:
            for sg in (1, -1):
                d = z3.simplify(x.arg(0) - sg * y.arg(0), som=True)
                if z3.is_rational_value(d): v = d.as_fraction(); lo = math.floor(v) - (sg < 0); fs.append(z3.Or([k - sg * l == lo + j for j in (0, 1)]))
    return [z3.substitute(f, *new) for f in fs]
def limit(s, ms, rate=int(os.environ.get("DV_RATE", "700"))):
    """bound on a query that does not depend on the load of the machine: about ms milliseconds of an idle one (and ten times that by the clock)"""
    s.set("rlimit", ms * rate); s.set("timeout", ms * 10); return s
class Solver:
    def __init__(self):
        self.inc = limit(z3.Solver(), 1500)
        self.stack = []
        self.nq = 0; self.tq = 0.0
        self.cache = {}
        self.facts = []          # global background axioms (definitional)
        self.extra_axioms = []   # callables (formula list) -> list of axioms

    def _sync(self, pc):
        n = 0
        while n < len(self.stack) and n < len(pc) and self.stack[n].eq(pc[n]): n += 1
        if n < len(self.stack):
            self.inc.pop(len(self.stack) - n); del self.stack[n:]
        for c in pc[n:]:
            self.inc.push(); self.inc.add(c); self.stack.append(c)

    def sat(self, pc, cond):
        """z3 result of pc & cond (incremental, small timeout)"""
        if cond is False: return z3.unsat
        c = to_bool(cond)
        if z3.is_false(c): return z3.unsat
        key = (tuple(p.get_id() for p in pc), c.get_id())
        r = self.cache.get(key)
        if r is not None: return r[0]
        t0 = time.time()
        self._sync(pc)
        self.inc.push(); self.inc.add(c)
        for a in self.axioms_for([c]): self.inc.add(a)
        r = self.inc.check()
        self.inc.pop()
        self.nq += 1; self.tq += time.time() - t0
        self.cache[key] = (r, c, pc)   # keep refs alive so that ids stay valid
        return r

    def axioms_for(self, fs):
        out = []
        for g in self.extra_axioms: out.extend(g(fs))
        return out

    def decide(self, pc, cond):
        """True / False when entailed / refuted by pc, else None"""
        if isinstance(cond, bool): return cond
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.sat(pc, z3.Not(cond)) == z3.unsat: return True
        if self.sat(pc, cond) == z3.unsat: return False
        return None

    def feasible(self, pc, cond=True):
        if cond is False: return False
        return self.sat(pc, cond) != z3.unsat

    def prove(self, pc, goal, timeout=20000, cvc=True):
        """-> (status, backend, seconds, model-or-None); status in proved/refuted/unknown"""
        r = self.prove1(pc, goal, timeout, cvc)
        if r[0] == "proved" or not cvc or goal is False: return r
        import linear, fftc
        g = fftc.unify(self, pc, goal)
        if g is not goal:
            q = self.prove1(pc, g, timeout, cvc)
            if q[0] == "proved": return q
        return ("proved", "z3", r[2], None) if linear.retry(self, pc, g) else r
    def prove1(self, pc, goal, timeout, cvc):
        if goal is True: return ("proved", "simplifier", 0.0, None)
        if goal is False: goal = z3.BoolVal(False)
        t0 = time.time()
        g = z3.simplify(goal, som=True)
        if z3.is_true(g): return ("proved", "simplifier", time.time()-t0, None)
        if self.sat(pc, z3.Not(goal)) == z3.unsat:
            return ("proved", "z3", time.time()-t0, None)
        q = purify(list(pc) + [z3.Not(goal)])
        if q is not None:
            s = limit(z3.Solver(), 5000); s.add(*q); self.nq += 1
            if s.check() == z3.unsat: return ("proved", "z3", time.time()-t0, None)
        ax = self.axioms_for(list(pc) + [goal])
        s = z3.Solver(); s.set("timeout", timeout)
        for p in pc: s.add(p)
        for a in ax: s.add(a)
        s.add(z3.Not(goal))
        r = s.check(); self.nq += 1
        if r == z3.unsat: return ("proved", "z3", time.time()-t0, None)
        if r == z3.sat:
            m = s.model()
            self.tq += time.time()-t0
            return ("refuted", "z3", time.time()-t0, m)
        # second try: simplified
        s2 = z3.Then('simplify', 'solve-eqs', 'smt').solver(); s2.set("timeout", timeout)
        for p in pc: s2.add(p)
        for a in ax: s2.add(a)
        s2.add(z3.simplify(z3.Not(goal), som=True))
        r = s2.check(); self.nq += 1
        if r == z3.unsat: return ("proved", "z3", time.time()-t0, None)
        if r == z3.sat: return ("refuted", "z3", time.time()-t0, s2.model())
        if cvc:
            r = self.cvc5(s.to_smt2(), timeout)
            if r == "unsat": return ("proved", "cvc5", time.time()-t0, None)
            if r == "sat": return ("refuted", "cvc5", time.time()-t0, None)
        self.tq += time.time()-t0
        return ("unknown", "z3+cvc5", time.time()-t0, None)

    def cvc5(self, smt, timeout):
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write("(set-logic ALL)\n" + smt); fn = f.name
            try:
                p = subprocess.run(["cvc5", f"--tlimit={timeout}", fn], capture_output=True, text=True, timeout=timeout/1000+10)
                return p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
            finally:
                os.unlink(fn)
        except Exception:
            return "unknown"
