#include "dft.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/WFLevel.h"
#include "math/math_functions.h"
typedef WFGridCartesian W;
struct M { W *w; iv n; cv d, o; bool k, hb; };        // model: sizes, active data, the other buffer (when known), representation
static W *mk(const iv &n, const cv &v) { GridSystem g; mkgrid(g, n); W *w = new W(g); if (w->size() != (int)v.size()) FAIL("new wave function has %d points, grid has %d", (int)w->size(), (int)v.size()); put(w, v); return w; }
static M fresh(const iv &n) { M m; m.n = n; m.d = rv(vol(n)); m.w = mk(n, m.d); m.k = m.hb = false; return m; }
static void same(const char *what, M &m) { chk(what, m.w, m.d); if (m.w->IsKspace() != m.k) FAIL("%s: representation", what); GridSystem g; mkgrid(g, m.n); if (!((GridSystem&) *m.w == g)) FAIL("%s: grid", what); }
static cd volel(const M &m) { GridSystem g; mkgrid(g, m.n); cd r = 1; for (size_t i = 0; i < m.n.size(); i++) r *= m.k ? 2*M_PI/(g.Xmax(i) - g.Xmin(i)) : (g.Xmax(i) - g.Xmin(i))/(m.n[i] - 1); return r; }
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 150 && g_fail < 5; it++) {
    iv n = rdims(5); for (auto &x : n) if (x < 2) x = 2; M m = fresh(n); std::string h = "sizes"; for (int x : n) h += " " + std::to_string(x);
    for (int step = 0; step < 10 && g_fail < 5; step++) {
      int op = ri(0, 9); h += " op" + std::to_string(op); CASE("it=%d %s", it, h.c_str());
      if (op == 0) { m.w->fft(); same("after creating the FFT", m); }
      else if (op == 1) { int N = vol(m.n); cv x = m.d; if (!m.k) { m.w->fft().forward(); same("source of forward", m); m.w->IsKspace(true); m.k = true; m.d = dft(x, m.n, -1, -1); same("transform to k-space", m); }
        else { m.w->fft().backward(); same("source of backward", m); m.w->IsKspace(false); m.k = false; m.d = dft(x, m.n, -1, 1); for (auto &z : m.d) z /= N; put(m.w, m.d); m.d = get(m.w); same("transform to position space", m); } }
      else if (op == 2) { int d = ri(0, m.n.size() - 1); if (!m.k) { cv x = m.d; m.w->fft().forward(d); m.w->IsKspace(true); chk("one dimension to k-space", m.w, dft(x, m.n, d, -1)); m.w->IsKspace(false); same("back without transform", m); } }
      else if (op == 3) { iv q = rdims(5); for (auto &x : q) if (x < 2) x = 2; if (ri(0, 1)) { q = m.n; std::swap(q[0], q[q.size() - 1]); } M s = fresh(q); if (ri(0, 1)) s.w->fft(); if (ri(0, 1)) { s.w->fft().forward(); s.w->IsKspace(true); s.k = true; s.d = get(s.w); } *((WaveFunction*) m.w) = s.w; same("source of an assignment", s); m.n = s.n; m.d = s.d; m.k = s.k; delete s.w; same("assigned", m); }
      else if (op == 4 && !m.k) { double t = ri(0, 2)*0.3; cv x = dft(m.d, m.n, -1, -1); double mx = 0; for (auto &z : x) mx = std::max(mx, std::abs(z)); WaveFunction *r = m.w->Reduce(t); bool skip = false; for (auto &z : x) if (std::fabs(std::fabs(z.real()) - mx*t) < 1e-7 || std::fabs(std::fabs(z.imag()) - mx*t) < 1e-7) skip = t > 0; for (auto &z : x) z = cd(std::fabs(z.real()) < mx*t ? 0 : z.real()/x.size(), std::fabs(z.imag()) < mx*t ? 0 : z.imag()/x.size());
        if (!skip) chk("reduced", r, x); same("reduced: the original", m); if (!skip) { if (ri(0, 1)) { m.n = rdims(4); W *e = mk(m.n, rv(vol(m.n))); if (ri(0, 1)) e->fft(); e->Restore(r); W *y = dynamic_cast<W*>(r); m.n.clear(); for (int i = 0; i < y->Dim(); i++) m.n.push_back(y->DimSize(i)); delete m.w; m.w = e; } else m.w->Restore(r); m.d = dft(x, m.n, -1, 1); same("restored", m); } delete r; }
      else if (op == 5) { m.w->Retire(); if (m.w->begin(0) != NULL) FAIL("storage not given away"); cVec a(ri(1, 40)), b(vol(m.n)), e(vol(m.n)); for (int i = 0; i < e.size(); i++) e[i] = D(rc()); m.w->Reaquire(); put(m.w, m.d); same("after reaquire", m); if (!m.k) { m.w->fft().forward(); m.w->IsKspace(true); chk("transform after reaquire", m.w, dft(m.d, m.n, -1, -1)); m.w->IsKspace(false); same("after reaquire and transform", m); } }
      else if (op == 6) { W *e = dynamic_cast<W*>(m.w->NewInstance()); if (!e || e->size() != m.w->size() || e->IsKspace()) FAIL("NewInstance"); else { M q = m; q.w = e; q.k = false; put(e, m.d); same("new instance", q); e->fft(); same("original of a new instance", m); } delete e; }
      else if (op == 7) { M s = fresh(m.n); chkc("inner product", *m.w * (WaveFunction*) s.w, dot(m.d, s.d)*volel(m)); chkc("norm", *m.w * (WaveFunction*) m.w, dot(m.d, m.d)*volel(m)); delete s.w; }
      else if (op == 8) { cd s = 0; for (auto &z : m.d) s += z; chkc("integral", m.w->Integral(), s*volel(m)); double b = 0; for (auto &z : m.d) b = std::max(b, std::abs(z)); if (!near(VecMax(*m.w), b)) FAIL("VecMax"); dVec q(m.d.size()); b = -9; for (int i = 0; i < q.size(); i++) { q[i] = m.d[i].real(); b = std::max(b, q[i]); } if (!near(VecMax(q), b)) FAIL("VecMax (real)"); }
      else { WFLevel *l = newwf(rv(vol(m.n))); THROWS("copy from a level wave function", *((WaveFunction*) m.w) = l); THROWS("restore from a level wave function", m.w->Restore(l)); same("after a refused copy", m); delete l; }
    }
    delete m.w;
  }
  return finish(); }
