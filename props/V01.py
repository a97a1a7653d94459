"""V01: elementwise kernels, for every length, stride count and aliasing of equal-typed operands."""
from framework import *
import kernels
from kernels import KERNELS, sig, ev_elem
ID = "V01"; TITLE = "elementwise wave-function kernels"
SHIMS = {"prims": '#include "math/typedefs.h"\n#include "math/Vector.h"\n#include "math/dcomplex.h"\n#include "math/VectorPrimitives.h"\n'}
SOURCES = []
REPLAY = "V01.cpp"
ASSUMPTIONS = ["operands are well-formed vectors of equal shape whose storage blocks are either identical or disjoint"]

def _cx(e):
    if isinstance(e, str): return "cd(0,1)" if e == 'I' else f"x[{e[1:]}]"
    a = [_cx(x) for x in e[1:]]
    return {'+': lambda: "(" + "+".join(a) + ")", '*': lambda: "(" + "*".join(a) + ")", 'conj': lambda: f"std::conj({a[0]})",
            're': lambda: f"cd(({a[0]}).real(),0)", 'im': lambda: f"cd(({a[0]}).imag(),0)", 'abs': lambda: f"cd(std::abs({a[0]}),0)", 'exp': lambda: f"std::exp({a[0]})"}[e[0]]()
def REPLAY_TEXT():
    """driver generated from the contract table: same formula, evaluated with std::complex"""
    T = ['#include "math/typedefs.h"', '#include "math/Vector.h"', '#include "math/dcomplex.h"', '#include "math/VectorPrimitives.h"', '#include "common.h"', 'using namespace QDLIB;',
         "struct Ops { cVec *v[4]; dVec *d[4]; double s[4]; dcomplex c[4]; };", "struct K { const char *n, *k; void (*f)(Ops&); cd (*r)(cd*); };", "static K ks[] = {"]
    for name, kinds, f in KERNELS:
        args = ", ".join({'V': f"o.v[{i}]", 'D': f"o.d[{i}]", 'd': f"o.s[{i}]", 'c': f"o.c[{i}]"}[k] for i, k in enumerate(kinds))
        T.append(f'{{"{name}","{kinds}",[](Ops&o){{ QDLIB::{name}({args}); }},[](cd*x)->cd{{ return {_cx(f)}; }}}},')
    T.append("""};
static void one(K &k, int n, int s, int al[4]) {
  int m = strlen(k.k); Ops o; std::vector<cd> val[4];
  for (int i = 0; i < 4; i++) { o.v[i] = 0; o.d[i] = 0; }
  for (int i = 0; i < m; i++) {
    char t = k.k[i]; val[i].resize(n * s);
    if (t == 'V' || t == 'D') {
      if (al[i] != i) { if (t == 'V') o.v[i] = o.v[al[i]]; else o.d[i] = o.d[al[i]]; val[i] = val[al[i]]; continue; }
      if (t == 'V') o.v[i] = new cVec(n * s, s); else o.d[i] = new dVec(n * s, s);
      for (int a = 0; a < s; a++) for (int b = 0; b < n; b++) {
        cd z = t == 'V' ? rc() : cd(rd(), 0);
        if (ri(0, 9) == 0) z = cd(0, 0); else if (ri(0, 9) == 0) z = cd(z.real(), 0);
        val[i][a * n + b] = z;
        if (t == 'V') o.v[i]->begin(a)[b] = dcomplex(z.real(), z.imag()); else o.d[i]->begin(a)[b] = z.real();
      }
    } else { cd z = t == 'c' ? rc() : cd(ri(0, 7) ? rd() : 0., 0); for (auto &x : val[i]) x = z; o.s[i] = z.real(); o.c[i] = dcomplex(z.real(), z.imag()); }
  }
  CASE("%s[%s] n=%d strides=%d alias=%d,%d,%d", k.n, k.k, n, s, al[0], al[1], al[2]);
  k.f(o);
  for (int q = 0; q < n * s; q++) {
    cd x[4]; for (int i = 0; i < m; i++) x[i] = val[i][q];
    cd want = k.r(x), got = k.k[0] == 'V' ? cd(o.v[0]->begin(q / n)[q % n]._real, o.v[0]->begin(q / n)[q % n]._imag) : cd(o.d[0]->begin(q / n)[q % n], 0);
    if (!near(want, got)) { FAIL("%s[%s] n=%d strides=%d alias=%d,%d,%d element %d: expected (%g,%g) got (%g,%g)", k.n, k.k, n, s, al[0], al[1], al[2], q, want.real(), want.imag(), got.real(), got.imag()); return; }
    for (int i = 1; i < m; i++) if ((k.k[i] == 'V' || k.k[i] == 'D') && al[i] == i) {
      cd g = k.k[i] == 'V' ? cd(o.v[i]->begin(q / n)[q % n]._real, o.v[i]->begin(q / n)[q % n]._imag) : cd(o.d[i]->begin(q / n)[q % n], 0);
      if (!near(g, val[i][q])) { FAIL("%s[%s] n=%d strides=%d: operand %d modified at element %d", k.n, k.k, n, s, i, q); return; }
    }
  }
  for (int i = 0; i < m; i++) if (al[i] == i) { delete o.v[i]; delete o.d[i]; }
}
int main(int c, char **v) { init(c, v);
  for (auto &k : ks) { int m = strlen(k.k);
    int szs[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 129, 255, 257, 512, 1000, 1025, 2049, 4097, 10007};
    for (int n : szs) for (int s = 1; s <= 3; s++) {
      int al[4] = {0, 1, 2, 3}; one(k, n, s, al);
      for (int i = 1; i < m; i++) if ((k.k[i] == 'V' || k.k[i] == 'D') && k.k[i] == k.k[0]) { int b[4] = {0, 1, 2, 3}; b[i] = 0; one(k, n, s, b); }
      if (m > 2 && k.k[0] == 'V' && k.k[1] == 'V' && k.k[2] == 'V') { int b[4] = {0, 0, 0, 3}, e[4] = {0, 1, 1, 3}; one(k, n, s, b); one(k, n, s, e); }
      int a2[4] = {0, 1, 2, 3}; if (n < 2000) one(k, n + 13 * 17, s + 2, a2);
    } }
  puts(g_fail ? "done with failures" : "done"); return 0; }
""")
    return "\n".join(T)

def units(prog, tier):
    us = []
    for name, kinds, f in KERNELS:
        vecs = [i for i, k in enumerate(kinds) if k in 'VD']
        # aliasing patterns: which operand objects coincide
        pats = [{}]
        same = [i for i in vecs[1:] if kinds[i] == kinds[0]]
        for i in same: pats.append({i: 0})
        if len(same) == 2: pats.append({same[0]: 0, same[1]: 0}); pats.append({same[1]: same[0]})
        for al in pats:
            us.append(Unit(f"{name}[{kinds}]" + ("" if not al else "{" + ",".join(f"p{a}=p{b}" for a, b in sorted(al.items())) + "}"), lambda c, n=name, k=kinds, f=f, al=al: kernel(c, n, k, f, al)))
    return us

def kernel(c, name, kinds, f, alias):
    w = c.world()
    n, s = int_sym("n"), int_sym("s")
    args = []; names = []
    I = Fam("G:_ZN5QDLIB1IE", 'struct', size=1)
    for i, k in enumerate(kinds):
        if k in 'VD':
            j = alias.get(i, i); names.append(f"p{j}")
            if j == i: args.append(w.vector(f"p{i}", "struct QDLIB::dcomplex" if k == 'V' else "double", n, s, const=(i != 0)))
            else: args.append(args[j])
        elif k == 'd': names.append(None); args.append(real_sym(f"p{i}"))
        else: names.append(None); args += [real_sym(f"p{i}r"), real_sym(f"p{i}i")]
    outs = c.run(w, sig(name, kinds), args)
    i, j = int_sym("i"), int_sym("j")
    for st, k, v in outs:
        if k != 'ret': w.ex.oblige(st, False, "no-exception"); continue
        s2 = st.copy(); s2.assume(b_and(le(0, i), lt(i, n), le(0, j), lt(j, s)))
        env = {}
        for q, kk in enumerate(kinds):
            if kk == 'V': env[f"p{q}"] = w.cat(w.pre, names[q], j, i)
            elif kk == 'D': env[f"p{q}"] = (w.dat(w.pre, names[q], j, i), R(0))
            elif kk == 'd': env[f"p{q}"] = (real_sym(f"p{q}"), R(0))
            else: env[f"p{q}"] = (real_sym(f"p{q}r"), real_sym(f"p{q}i"))
        want = ev_elem(f, env)
        if kinds[0] == 'V':
            got = w.cat(st, "p0", j, i)
            w.ex.oblige(s2, got[0] == want[0], "post:re"); w.ex.oblige(s2, got[1] == want[1], "post:im")
        else: w.ex.oblige(s2, w.dat(st, "p0", j, i) == want[0], "post")
        w.frame(st, lambda fam, fl: fam == "p0.d", name)
