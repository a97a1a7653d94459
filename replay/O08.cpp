#include "dft.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/OGridNabla.h"
#include "qdlib/OGridNablaSq.h"
#include "qdlib/OGridPotential.h"
#include "qdlib/Diff.h"
#include "qdlib/TransformFFT.h"
struct DiffT : public Diff { void setup() { _InitKspace(); } DiffT(int d) : Diff(d) {} };
static iv pts(const iv &n, int x) { iv r; for (int k : n) { r.push_back(x % k); x /= k; } return r; }
struct G { iv n; GridSystem g; int N; G(const iv &n_) : n(n_) { mkgrid(g, n); N = vol(n); }
  double dx(int d) { return (g.Xmax(d) - g.Xmin(d))/(n[d] - 1); } double dk(int d) { return 2*M_PI/(n[d]*dx(d)); }
  double k(int x, int d) { int j = pts(n, x)[d]; return (2*j < n[d] ? j : j - n[d])*dk(d); } };
static cv mul(const cv &a, const cv &b) { cv r(a); for (size_t i = 0; i < r.size(); i++) r[i] *= b[i]; return r; }
static cv spectral(G &x, const cv &v, const cv &f, int dim = -1) { cv r = dft(mul(dft(v, x.n, dim, -1), f), x.n, dim, 1); for (auto &z : r) z /= dim < 0 ? x.N : x.n[dim]; return r; }
static std::string masses(const std::vector<double> &m) { std::string s; for (double x : m) s += (s.empty() ? "" : ",") + num(x); return s; }
static void apply(const char *t, Operator *o, G &x, const cv &f, bool one = false) { WFGridCartesian a(x.g), b(x.g); cv v = rv(x.N); put(&a, v); put(&b, rv(x.N)); o->Apply(&b, &a); chk(t, &b, spectral(x, v, f)); chk("source", &a, v); if (a.IsKspace() || b.IsKspace()) FAIL("%s: left in momentum space", t);
  if (one) { o->Apply(&a); chk(t, &a, spectral(x, v, f)); } if (!o->Valid(&a)) FAIL("%s: grid not accepted", t); }
template <class O> static void expo(const char *t, O *o, G &x, const cv &f) { cVec e(x.N); cd c = rc(); o->InitExponential(&e, D(c)); for (int i = 0; i < x.N; i++) if (!near(S(e[i]), std::exp(c*f[i]))) { FAIL("%s: exponential at point %d", t, i); return; } }
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 60 && g_fail < 5; it++) { iv n = rdims(9), m = rdims(6); for (auto *q : {&n, &m}) for (auto &x : *q) if (x < 2) x = 2; G x(n), y(m); CASE("it=%d dims=%d (%d ...)", it, (int) n.size(), n[0]); WFGridCartesian w(x.g), u(y.g); WFLevel lv(3);
    { bool mom = ri(0, 1), par = ri(0, 1), cj = ri(0, 1); int dim = ri(-1, n.size() - 1); double fac = par ? 2.5 : 1; cv f(x.N); OGridNabla *o = new OGridNabla(mom); ParamContainer p; if (dim >= 0) p.SetValue("dim", dim); if (par) p.SetValue("factor", fac); o->Init(p);
      auto diag = [&](G &x) { cv f(x.N); for (int i = 0; i < x.N; i++) { double s = 0; for (size_t d = 0; d < x.n.size(); d++) if (dim < 0 || (int) d == dim) s += x.k(i, d); f[i] = (mom ? cd(s) : cd(0, s))*fac; } return f; };
      if (ri(0, 1) && dim < (int) m.size()) { o->Init(&u); if (ri(0, 1)) { cVec e(y.N); o->InitExponential(&e, D(1)); } } o->Init(&w); f = diag(x); apply(mom ? "momentum" : "gradient", o, x, f, true); expo("gradient", o, x, f); apply("gradient afterwards", o, x, f);
      double mx = -1e300; for (auto z : f) mx = std::max(mx, (mom ? z.real() : z.imag())/fac); if (!near(o->Emax().real(), mx)) FAIL("largest momentum %g, expected %g", o->Emax().real(), mx);
      OGridNabla *q = new OGridNabla(!mom); if (ri(0, 1)) q->Init(&u); *(Operator*) q = o; apply("copied gradient", q, x, f); expo("copied gradient", q, x, f); q->Init(&w); apply("copied gradient set up again", q, x, f);
      if (cj) { o->Conj(true); apply("conjugated gradient", o, x, scl(-1, f), true); } THROWS("gradient of a wave function without grid", o->Init(&lv)); if (o->Valid(&lv) || o->Valid(NULL)) FAIL("gradient: wave function without grid accepted"); if (m != n && o->Valid(&u)) FAIL("gradient: other grid accepted");
      OGridPotential pot; THROWS("copy of another kind", q->Copy(&pot)); delete o; delete q; }
    { OGridNabla o((int) n.size()); THROWS("gradient along a dimension which does not exist", o.Init(&w)); }
    { std::vector<double> ms(n.size()); bool any = false; for (auto &q : ms) { q = ri(0, 3) ? rd(0.5, 5) : -1; any = any || q > 0; } if (!any) ms[0] = 2; ParamContainer p; p.SetValue("mass", masses(ms)); OGridNablaSq o; o.Init(p); o.Init(&w);
      cv f(x.N); double mx = 0; for (int i = 0; i < x.N; i++) for (size_t d = 0; d < n.size(); d++) if (ms[d] > 0) f[i] += x.k(i, d)*x.k(i, d)/(2*ms[d]); for (size_t d = 0; d < n.size(); d++) if (ms[d] > 0) mx += M_PI*M_PI/(2*ms[d]*x.dx(d)*x.dx(d));
      apply("kinetic energy", &o, x, f); expo("kinetic energy", &o, x, f); if (!near(o.Emax().real(), mx)) FAIL("largest kinetic energy %g, expected %g", o.Emax().real(), mx); for (auto z : f) if (z.real() > mx*(1 + 1e-12) || z.real() < 0) FAIL("kinetic energy %g outside its bounds", z.real());
      OGridNablaSq q; bool before = ri(0, 1); if (before) { ParamContainer r; r.SetValue("mass", "3"); q.Init(r); GridSystem h; h.Dim(1); h.DimSize(0, 6); h.Xmin(0, 0); h.Xmax(0, 1); WFGridCartesian k(h); q.Init(&k); } *(Operator*) &q = &o; apply("copied kinetic energy", &q, x, f); expo("copied kinetic energy", &q, x, f); if (!near(q.Emax().real(), mx)) FAIL("copied kinetic energy: largest value");
      OGridNablaSq s, t; s.Init(p); *(Operator*) &t = &s; t.Init(&w); apply("kinetic energy set up after copying", &t, x, f); o.Init(&w); apply("kinetic energy set up again", &o, x, f);
      Transform *tr = o.Transformation(); cv a = rv(x.N); put(&w, a); tr->Forward(&w); if (!near(tr->Normalization(), 1./x.N)) FAIL("normalization"); chk("transform", &w, dft(a, n, -1, -1)); tr->Backward(&w); chk("transform back", &w, scl(x.N, a)); }
    { OGridNablaSq o; ParamContainer p; p.SetValue("mass", "1,0"); THROWS("mass of zero", o.Init(p)); } { OGridNablaSq o; ParamContainer p; p.SetValue("mass", "-1,-1"); THROWS("no positive mass", o.Init(p)); } { OGridNablaSq o; ParamContainer p; THROWS("no masses", o.Init(p)); }
    { OGridNablaSq o; ParamContainer p; p.SetValue("mass", n.size() > 1 ? "1" : "1,1"); o.Init(p); THROWS("another number of dimensions", o.Init(&w)); }
    for (int der = 1; der < 3; der++) { DiffT d(der); if (ri(0, 1)) { d.SetGrid(y.g); d.setup(); } d.SetGrid(x.g); int only = ri(-1, n.size() - 1); d.Dim(only); d.setup(); double fc = rd(0.5, 3);
      for (int dim = 0; dim < (int) n.size(); dim++) if (only < 0 || dim == only) { cv f(x.N), a = rv(x.N), b = rv(x.N); for (int i = 0; i < x.N; i++) { double k = x.k(i, dim); f[i] = fc*(der == 1 ? cd(0, k) : cd(-k*k)); }
        WFGridCartesian s(x.g), r(x.g); put(&s, a); put(&r, b); d.DnDxn(&r, &s, dim, fc); chk("derivative along a dimension", &r, spectral(x, a, f, dim)); chk("source of a derivative", &s, a); put(&r, b); d.DnDxnAdd(&r, &s, dim, fc); chk("derivative added", &r, lin(1, b, 1, spectral(x, a, f, dim))); } }
    { TransformFFT t; int d = ri(0, n.size() - 1); cv a = rv(x.N); put(&w, a); t.Forward(&w, d); chk("transform along a dimension", &w, dft(a, n, d, -1)); t.Backward(&w, d); chk("transform back", &w, scl(n[d], a)); THROWS("transform of a wave function without grid", t.Forward(&lv)); THROWS("transform of a wave function without grid", t.Forward(&lv, 0)); }
  }
  return finish(); }
