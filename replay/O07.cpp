#include "dft.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/OGridPotential.h"
#include "qdlib/OGridDipole.h"
#include "qdlib/OGridRaman.h"
#include "qdlib/OGridPosition.h"
#include "qdlib/OGridKick.h"
#include "qdlib/OGobbler.h"
#include "math/math_functions.h"
typedef WFGridCartesian W;
static W *mk(const iv &n, const cv &v) { GridSystem g; mkgrid(g, n); W *w = new W(g); put(w, v); return w; }
static void field(Laser &l, QDClock &k, int n) { l.Dt(k.Dt()); l.Nt(n); l.Clock(&k); for (int i = 0; i < n; i++) l[i] = rd(); }
static std::string str(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
struct M { Operator *o; int kind; iv n; cv f; bool ready; ODSpace *ds; };  // model: the operator's value at every point
enum { POT, DIP, RAM, POS, FIL, KICK };
static const char *NM[] = {"potential", "dipole", "raman", "position", "filter", "kick"};
static iv pts(const iv &n, int x) { iv r; for (int k : n) { r.push_back(x % k); x /= k; } return r; }
static void same(const char *what, M &m) {
  std::string t = std::string(NM[m.kind]) + ": " + what; int N = vol(m.n); cv x = rv(N), y = rv(N), e(N), a(N); W *s = mk(m.n, x), *d = mk(m.n, y);
  for (int i = 0; i < N; i++) { e[i] = m.f[i]*x[i]; a[i] = y[i] + e[i]; }
  if (!m.o->Valid(s)) FAIL("%s: not valid for its grid", t.c_str());
  m.o->ApplyAdd(d, s); chk((t + ": adding application").c_str(), d, a); m.o->Apply(d, s); chk((t + ": application").c_str(), d, e); chk((t + ": source").c_str(), s, x); m.o->Apply(s); chk((t + ": in place").c_str(), s, e);
  if (m.ds) { cVec q(N); cd c = rc(); m.ds->InitExponential(&q, D(c)); for (int i = 0; i < N; i++) if (!near(S(q[i]), std::exp(c*m.f[i]), 1e-9)) { FAIL("%s: exponential at point %d is (%g,%g), expected (%g,%g)", t.c_str(), i, q[i].real(), q[i].imag(), std::exp(c*m.f[i]).real(), std::exp(c*m.f[i]).imag()); break; } }
  if (m.kind == POT || m.kind == POS) { double mn = 1e300, mx = -1e300; for (auto &z : m.f) { mn = std::min(mn, z.real()); mx = std::max(mx, z.real()); } chkc((t + ": Emax").c_str(), m.o->Emax(), mx); chkc((t + ": Emin").c_str(), m.o->Emin(), mn); }
  iv q = m.n; q[0]++; W *z = mk(q, rv(vol(q))); if (m.o->Valid(z)) FAIL("%s: valid for another grid", t.c_str()); if (m.kind <= RAM) THROWS("Init with a wave function on another grid", m.o->Init(z)); delete z;
  WFLevel *l = newwf(rv(N)); if (m.o->Valid(l)) FAIL("%s: valid for a level wave function", t.c_str()); delete l; delete s; delete d; }
static M fresh(int kind, const iv &n) {
  M m; m.kind = kind; m.n = n; m.ready = true; m.ds = NULL; int N = vol(n); m.f.resize(N); W *s = mk(n, rv(N)); GridSystem g; mkgrid(g, n);
  if (kind <= RAM) { OGridPotential *p = kind == POT ? new OGridPotential : kind == DIP ? (OGridPotential*) new OGridDipole : (OGridPotential*) new OGridRaman; mkgrid(*p, n); p->newsize(N); double e = 1; 
    if (kind != POT) { QDClock *k = new QDClock(5, 0.5); k->TimeStep(ri(0, 4)); OLaser *o = dynamic_cast<OLaser*>(p); e = kind == DIP ? -1 : -0.5; for (int j = 0; j < (kind == DIP ? 1 : 2); j++) { Laser l; field(l, *k, 5); o->SetLaser(j, l); double sc = ri(1, 3); o->GetLaser(j)->Scale(sc); e *= l[k->TimeStep()]*sc; if (!near(o->GetLaser(j)->Get(), l[k->TimeStep()]*sc)) FAIL("SetLaser %d", j); } }
    for (int i = 0; i < N; i++) { (*p)[i] = rd(); m.f[i] = (*p)[i]*e; } m.o = p; m.ds = p; p->Init(s); }
  else if (kind == POS) { OGridPosition *p = new OGridPosition; ParamContainer c; int dim = ri(-1, n.size() - 1); double sc = 1; if (dim >= 0) c.SetValue("dim", dim); if (ri(0, 1)) { sc = ri(2, 5); c.SetValue("scale", sc); } p->Init(c); p->Init(s);
    for (int i = 0; i < N; i++) { iv q = pts(n, i); for (size_t d = 0; d < n.size(); d++) if (dim < 0 || (int) d == dim) m.f[i] += (g.Xmin(d) + (g.Xmax(d) - g.Xmin(d))/(n[d] - 1)*q[d])*sc; } m.o = p; m.ds = p; }
  else if (kind == KICK) { OGridKick *p = new OGridKick; ParamContainer c; std::string v; std::vector<double> k; for (size_t d = 0; d < n.size(); d++) { k.push_back(ri(-3, 3)*0.5); v += (d ? "," : "") + str(k[d]); } c.SetValue("k", v); double sc = 1; if (ri(0, 1)) { sc = ri(2, 4); c.SetValue("scale", sc); } p->Init(c); p->Init(s);
    for (int i = 0; i < N; i++) { iv q = pts(n, i); double t = 0; for (size_t d = 0; d < n.size(); d++) t += (g.Xmin(d) + (g.Xmax(d) - g.Xmin(d))/(n[d] - 1)*q[d])*k[d]*sc; m.f[i] = std::polar(1.0, t); } m.o = p; }
  else { OGobbler *p = new OGobbler; ParamContainer c; c.SetValue("order", 4); bool nip = ri(0, 1), cj = ri(0, 1); double gain = ri(1, 3); c.SetValue("nip", nip); c.SetValue("gain", gain); for (size_t d = 0; d < n.size(); d++) { if (ri(0, 1)) c.SetValue("rp" + std::to_string(d), g.Xmin(d) + 0.7*(g.Xmax(d) - g.Xmin(d))); if (ri(0, 1)) c.SetValue("lp" + std::to_string(d), g.Xmin(d) + 0.3*(g.Xmax(d) - g.Xmin(d))); }
    p->Init(c); p->Init(s); p->Conj(cj); if (p->Hermitian() == nip) FAIL("filter: hermiticity"); for (int i = 0; i < N; i++) m.f[i] = nip ? cd(0, cj ? 1 : -1)*(*p)[i] : cd((*p)[i]); chkc("filter: Emax", p->Emax(), gain); chkc("filter: Emin", p->Emin(), nip ? cd(0, -gain) : cd(0)); m.o = p; m.ds = p; }
  delete s; return m; }
static Operator *blank(int kind) { return kind == POT ? (Operator*) new OGridPotential : kind == DIP ? (Operator*) (OGridPotential*) new OGridDipole : kind == RAM ? (Operator*) (OGridPotential*) new OGridRaman : kind == POS ? (Operator*) new OGridPosition : kind == FIL ? (Operator*) new OGobbler : (Operator*) new OGridKick; }
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 300 && g_fail < 5; it++) {
    int kind = it % 6; iv n = rdims(5); for (auto &x : n) if (x < 2) x = 2; CASE("it=%d %s dims=%d", it, NM[kind], (int) n.size());
    M m = fresh(kind, n); same("", m); if (kind == DIP) { W *s = mk(n, rv(vol(n))), *d = mk(n, rv(vol(n))); cv e = get(s); dVec *p = dynamic_cast<OGridDipole*>(m.o); for (int i = 0; i < p->size(); i++) e[i] *= (*p)[i]; m.o->ApplyParent(d, s); chk("dipole: parent", d, e); }
    M t; if (ri(0, 1)) { t = m; t.o = blank(kind); } else { iv q = rdims(4); for (auto &x : q) if (x < 2) x = 2; t = fresh(kind, q); }
    if (t.kind == FIL) t.o->Conj(m.o->Conj()); t.o->Copy(m.o); t.n = m.n; t.f = m.f; t.ds = m.ds ? dynamic_cast<ODSpace*>(t.o) : NULL; same("copy", t); if (t.o->Hermitian() != m.o->Hermitian()) FAIL("%s: hermiticity of a copy", NM[kind]); same("source of a copy", m);
    M u = fresh((kind + 3) % 6, n); bool th = false; try { m.o->Copy(u.o); } catch (...) { th = true; } if (!th) FAIL("%s: accepts a copy of a %s", NM[kind], NM[u.kind]); same("after a refused copy", m);
    if (kind == POS || kind == KICK) { M e; e = m; e.o = blank(kind); if (kind == POS) { ParamContainer c; c.SetValue("dim", 0); c.SetValue("scale", 2.0); e.o->Init(c); Operator *y = blank(kind); y->Copy(e.o); W *s = mk(n, rv(vol(n))); y->Init(s); GridSystem g; mkgrid(g, n); for (int i = 0; i < vol(n); i++) e.f[i] = (g.Xmin(0) + (g.Xmax(0) - g.Xmin(0))/(n[0] - 1)*(i % n[0]))*2.0; e.o = y; e.ds = dynamic_cast<ODSpace*>(y); same("initialised after copying", e); delete s; } }
    delete m.o;
  }
  return finish(); }
