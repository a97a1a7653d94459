#include "ops.h"
#include "qdlib/OSum.h"
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 400 && g_fail < 5; it++) {
    int n = ri(1, 5), m = ri(0, 2) ? ri(1, 6) : it % 3 == 0 ? 1 : ri(7, 128); CASE("sum of %d operators on %d values", m, n);
    OSum L; std::vector<TestOp*> o; for (int i = 0; i < m; i++) { o.push_back(new TestOp(n, ri(0, 1), ri(0, 1))); L.Add(o[i]); }
    for (int r = 0; r < 3; r++) {
      cv x = rv(n), y = rv(n), a(n), p(n); for (auto q : o) { a = lin(1, a, 1, q->ap(x)); p = lin(1, p, 1, q->ap(x, true)); }
      WFLevel *s = newwf(x), *d = newwf(y), *i1 = newwf(x), *e = newwf(y);
      L.Apply(d, s); chk("Apply(dest, src)", d, a); chk("source of Apply", s, x); L.Apply(i1); chk("Apply(Psi)", i1, a);
      L.ApplyParent(e, s); chk("ApplyParent", e, p); chk("source of ApplyParent", s, x); L.Apply(i1); { cv z(n); for (auto q : o) z = lin(1, z, 1, q->ap(a)); chk("second Apply(Psi)", i1, z); }
      DELETE_WF(s); DELETE_WF(d); DELETE_WF(i1); DELETE_WF(e);
    }
    cd ma = 0, mi = 0; for (auto q : o) { ma += q->emax; mi += q->emin; } chkc("Emax", L.Emax(), ma); chkc("Emin", L.Emin(), mi);
    THROWS("Apply(Operator,Operator)", L.Apply((Operator*)o[0], (Operator*)o[0])); THROWS("Apply(Operator)", L.Apply((Operator*)o[0]));
    OSum E; WFLevel *w = newwf(rv(n)), *u = newwf(rv(n)); CASE("empty sum"); THROWS("empty Apply", E.Apply(u, w)); THROWS("empty Apply(Psi)", E.Apply(w)); THROWS("empty ApplyParent", E.ApplyParent(u, w)); THROWS("empty Emax", E.Emax()); THROWS("empty Emin", E.Emin());
    DELETE_WF(w); DELETE_WF(u); for (auto q : o) DELETE_OP(q);
  }
  return finish(); }
