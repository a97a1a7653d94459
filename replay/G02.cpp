#include "dft.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/Kspace.h"
#include "qdlib/OGridPosition.h"
#include "qdlib/OGridKick.h"
#include "qdlib/OGobbler.h"
#include "math/math_functions.h"
static iv pts(const iv &n, int x) { iv r; for (int k : n) { r.push_back(x % k); x /= k; } return r; }
static std::string str(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
static double val(double x) { return x; }
static cd val(dcomplex z) { return S(z); }
static void rnd1(double &x) { x = rd(); }
static void rnd1(dcomplex &x) { x = D(rc()); }
template <class T> static void views(const iv &n) { int N = vol(n); Vector<T> v(N), o; for (int i = 0; i < N; i++) rnd1(v[i]); iv m(n);
  VectorView<T> view(v, m.size(), m.data()); int want[4] = {0, 1, 2, 0}; for (auto &x : m) x = -7;    // the view has its own copy of the numbers of points
  for (int k = 0; k < 12; k++) { int d = k < 4 ? want[k] % n.size() : ri(0, n.size() - 1), op = ri(0, 3); view.ActiveDim(d); Vector<T> w(n[d]); for (int i = 0; i < n[d]; i++) rnd1(w[i]); o = v; std::string t = std::string("view, dimension ") + std::to_string(d) + " of " + std::to_string(n.size());
    if (op == 3) { Vector<T> *s = view.Sum(); int l = 1; for (int i = 0; i < d; i++) l *= n[i]; if (s->size() != N/n[d]) { FAIL("%s: sum has %d values", t.c_str(), (int) s->size()); return; }
      for (int j = 0; j < N/n[d]; j++) { decltype(val(v[0])) e = 0; for (int i = 0; i < n[d]; i++) e += val(o[(j/l*n[d] + i)*l + j % l]); if (!near(val((*s)[j]), e)) { FAIL("%s: sum at place %d", t.c_str(), j); break; } } delete s; }
    else if (op == 0) view = w; else if (op == 1) view *= w; else view += w;
    for (int i = 0; i < N; i++) { auto x = val(o[i]), y = val(w[pts(n, i)[d]]), e = op == 0 ? y : op == 1 ? x*y : op == 2 ? x + y : x; if (!near(val(v[i]), e)) { FAIL("%s: operation %d at point %d", t.c_str(), op, i); return; } } } }
static void kgrid(const iv &n) { GridSystem g; mkgrid(g, n); for (size_t d = 0; d < n.size(); d++) { int N = n[d]; double L = g.Xmax(d) - g.Xmin(d), dk = 2*M_PI/(L + L/(N - 1)), a = rd(0.5, 3);
    dVec *p = Kspace::Init1Dddx(g, d, a), *q = Kspace::Init1Dd2dx2(g, d, a), *r = Kspace::Init1Dd2dx2(a, g, d); if (p->size() != N || q->size() != N || r->size() != N) { FAIL("momentum grid: size"); return; }
    for (int i = 0; i < N; i++) { double k = (2*i < N ? i : i - N)*dk; if (!near((*p)[i], k*a)) FAIL("first derivative: point %d of %d is %g, expected %g", i, N, (*p)[i], k*a); if (!near((*q)[i], -k*k*a)) FAIL("second derivative: point %d of %d is %g, expected %g", i, N, (*q)[i], -k*k*a); if (!near((*r)[i], k*k/(2*a))) FAIL("kinetic energy: point %d of %d is %g, expected %g", i, N, (*r)[i], k*k/(2*a)); }
    delete p; delete q; delete r; } }
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 200 && g_fail < 5; it++) { iv n = rdims(9); CASE("it=%d dims=%d (%d ...)", it, (int) n.size(), n[0]); views<double>(n); views<dcomplex>(n); for (auto &x : n) if (x < 2) x = 2; kgrid(n);
    GridSystem g; mkgrid(g, n); int N = vol(n); WFGridCartesian *w = new WFGridCartesian(g); put(w, rv(N)); auto x = [&](int d, int i) { return g.Xmin(d) + (g.Xmax(d) - g.Xmin(d))/(n[d] - 1)*i; };
    { OGridPosition o; ParamContainer c; int dim = ri(-1, n.size() - 1); double sc = 1; if (dim >= 0) c.SetValue("dim", dim); if (ri(0, 1)) { sc = ri(2, 5); c.SetValue("scale", sc); } o.Init(c); o.Init(w); if (o.size() != N) FAIL("position: size");
      for (int i = 0; i < N && !g_fail; i++) { iv q = pts(n, i); double e = 0; for (size_t d = 0; d < n.size(); d++) if (dim < 0 || (int) d == dim) e += x(d, q[d])*sc; if (!near(o[i], e)) FAIL("position (dimension %d): point %d is %g, expected %g", dim, i, o[i], e); } }
    { OGridPosition o; ParamContainer c; c.SetValue("dim", (int) n.size()); o.Init(c); THROWS("position operator of a dimension which does not exist", o.Init(w)); }
    { OGridKick o; ParamContainer c; std::string s; std::vector<double> k(n.size()); int m = ri(1, n.size()); for (int d = 0; d < m; d++) { k[d] = ri(-3, 3)*0.5; s += (d ? "," : "") + str(k[d]); } c.SetValue("k", s); double sc = 1; if (ri(0, 1)) { sc = ri(2, 4); c.SetValue("scale", sc); } if (ri(0, 1)) c.SetValue("dims", (int) n.size()); o.Init(c); o.Init(w); cv a = rv(N), e(a); put(w, a);
      for (int i = 0; i < N; i++) { iv q = pts(n, i); double t = 0; for (size_t d = 0; d < n.size(); d++) t += x(d, q[d])*k[d]*sc; e[i] *= std::polar(1.0, t); } o.Apply(w); chk("kick", w, e); }
    { OGridKick o; ParamContainer c; c.SetValue("dims", (int) n.size() + 1 > MAX_DIMS ? 1 : (int) n.size() + 1); c.SetValue("k", "1"); o.Init(c); THROWS("kick with another number of dimensions", o.Init(w)); }
    { OGridKick o; ParamContainer c; std::string s = "1"; for (size_t d = 0; d < n.size(); d++) s += ",1"; c.SetValue("k", s); o.Init(c); THROWS("more momenta than dimensions", o.Init(w)); }
    { OGobbler o; ParamContainer c; int ord = ri(1, 5); bool nip = ri(0, 1); double gain = ri(1, 3); c.SetValue("order", ord); c.SetValue("nip", nip); c.SetValue("gain", gain); std::vector<double> l(n.size()), r(n.size()); std::vector<int> hl(n.size()), hr(n.size());
      for (size_t d = 0; d < n.size(); d++) { hl[d] = ri(0, 1); hr[d] = ri(0, 1); l[d] = g.Xmin(d) + rd(0.1, 0.9)*(g.Xmax(d) - g.Xmin(d)); r[d] = g.Xmin(d) + rd(0.1, 0.9)*(g.Xmax(d) - g.Xmin(d)); if (hl[d]) c.SetValue("lp" + std::to_string(d), l[d]); if (hr[d]) c.SetValue("rp" + std::to_string(d), r[d]); }
      o.Init(c); o.Init(w); if (o.size() != N) FAIL("filter: size");
      for (int i = 0; i < N && !g_fail; i++) { iv q = pts(n, i); double e = nip ? 0 : 1; for (size_t d = 0; d < n.size(); d++) { double h = (g.Xmax(d) - g.Xmin(d))/(n[d] - 1), a = 1/(1 + pow(q[d]/((l[d] - g.Xmin(d))/h), 2*ord)), b = 1/(1 + pow((r[d] - g.Xmin(d))/h/q[d], 2*ord)); if (hl[d]) e = nip ? e + a : e*a; if (hr[d]) e = nip ? e + b : e*b; } if (!near(o[i], e*gain)) FAIL("filter (nip %d): point %d is %g, expected %g", nip, i, o[i], e*gain); } }
    delete w; }
  return finish(); }
