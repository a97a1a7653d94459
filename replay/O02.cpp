#include "ops.h"
#include "qdlib/OProduct.h"
#include "qdlib/OScalar.h"
#include "qdlib/ONormalize.h"
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 400 && g_fail < 5; it++) {
    int n = ri(1, 5), m = ri(0, 9) ? ri(1, 6) : ri(7, 20); CASE("product of %d operators on %d values", m, n);
    OProduct L; std::vector<TestOp*> o; for (int i = 0; i < m; i++) { o.push_back(new TestOp(n, ri(0, 1), ri(0, 1))); if (m > 6) for (auto &q : o[i]->M) q *= 0.3; L.Add(o[i]); }
    cv x = rv(n), y = rv(n), a = x, p = x; for (int i = m - 1; i >= 0; i--) { a = o[i]->ap(a); p = o[i]->ap(p, true); }
    WFLevel *s = newwf(x), *d = newwf(y), *i1 = newwf(x), *e = newwf(y), *b = newwf(y);
    L.Apply(d, s); chk("Apply(dest, src)", d, a); chk("source of Apply", s, x); L.Apply(i1); chk("Apply(Psi)", i1, a); L.ApplyParent(e, s); chk("ApplyParent", e, p); chk("source of ApplyParent", s, x);
    chkc("MatrixElement", L.MatrixElement(b, s), dot(y, a)); chk("bra", b, y); chk("ket", s, x);
    cd ma = 1, mi = 1; for (auto q : o) { ma *= q->emax; mi *= q->emin; } chkc("Emax", L.Emax(), ma); chkc("Emin", L.Emin(), mi);
    { OProduct E; THROWS("empty Apply", E.Apply(d, s)); THROWS("empty ApplyParent", E.ApplyParent(d, s)); }
    CASE("scalar"); cd z = rc(); ParamContainer q; q.SetValue("value", num(z.real())); q.SetValue("im", num(z.imag())); OScalar sc; sc.Init(q); sc.Init(s); sc.Init(s); chkc("scalar Emax", sc.Emax(), z); chkc("scalar Emin", sc.Emin(), 0); THROWS("Init(NULL)", sc.Init((WaveFunction*)NULL));
    put(d, y); sc.Apply(d, s); chk("scalar Apply", d, scl(z, x)); put(i1, x); sc.Apply(i1); chk("scalar Apply(Psi)", i1, scl(z, x)); chkc("scalar MatrixElement", sc.MatrixElement(b, s), z * dot(y, x)); chk("bra", b, y); chk("ket", s, x);
    OScalar s2; s2.Copy(&sc); put(i1, x); s2.Apply(i1); chk("copied scalar", i1, scl(z, x)); chkc("copied scalar MatrixElement", s2.MatrixElement(b, s), z * dot(y, x)); sc.Apply(i1); THROWS("copy of another kind", s2.Copy(&L)); OScalar s3; s3 = &sc; put(i1, x); s3.Apply(i1); chk("assigned scalar", i1, scl(z, x)); if (!s2.Valid(s)) FAIL("scalar Valid"); if (s2.Valid(NULL)) FAIL("scalar Valid(NULL)"); { WFLevel *t = newwf(rv(n + 1)); if (s2.Valid(t)) FAIL("scalar Valid with other size"); DELETE_WF(t); }
    CASE("normalize"); ONormalize N; put(i1, x); N.Apply(i1); cd nr = 1.0 / std::sqrt(dot(x, x).real()); chk("normalize", i1, scl(nr, x)); put(d, y); N.Apply(d, s); chk("normalize(dest, src)", d, scl(nr, x)); chk("source of normalize", s, x);
    DELETE_WF(s); DELETE_WF(d); DELETE_WF(i1); DELETE_WF(e); DELETE_WF(b); for (auto w : o) DELETE_OP(w);
  }
  return finish(); }
