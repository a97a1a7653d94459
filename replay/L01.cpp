#include "dft.h"
#include "qdlib/Laser.h"
#include "tools/QDClock.h"
struct M { Laser *l; std::vector<double> d; double dt, sc; QDClock *c; };
static std::vector<double> raw(Laser &l, int n) { std::vector<double> r; for (int i = 0; i < n; i++) r.push_back(l[i]); return r; }
static void same(const char *w, M &m) { if (m.l->Nt() != (int) m.d.size()) { FAIL("%s: %d field values, %d expected", w, m.l->Nt(), (int) m.d.size()); return; } for (size_t i = 0; i < m.d.size(); i++) if (!near((*m.l)[i], m.d[i])) { FAIL("%s: field value %d is %g, expected %g", w, (int) i, (*m.l)[i], m.d[i]); return; } if (m.l->Dt() != m.dt) FAIL("%s: Dt", w); if (m.l->Scale() != m.sc) FAIL("%s: scaling factor is %g, expected %g", w, m.l->Scale(), m.sc); }
static cv half(const std::vector<double> &x) { int n = x.size(); cv r; for (int k = 0; k <= n/2; k++) { cd s = 0; for (int j = 0; j < n; j++) s += x[j]*std::polar(1.0, -2*M_PI*k*j/n); r.push_back(s); } return r; }
static void chkspec(const char *w, cVec *s, const cv &h) { if (s->size() != (int) h.size()) { FAIL("%s: spectrum has %d values, %d expected", w, s->size(), (int) h.size()); return; } for (size_t i = 0; i < h.size(); i++) chkc(w, (*s)[i], h[i]); }
static void clocks() {
  QDClock z; if (z.Steps() != 0 || z.TimeStep() != 0 || z.Dt() != 0) FAIL("new clock");
  int n = ri(1, 9); double dt = ri(1, 9)*0.25; QDClock k(n, dt); int s = 0;
  for (int i = 0; i < 30 && g_fail < 5; i++) {
    int op = ri(0, 8); CASE("clock op %d steps %d dt %g step %d", op, n, dt, s);
    if (op == 0) { ++k; s++; } else if (op == 1 && s > 0) { --k; s--; } else if (op == 2) { k.Begin(); s = 0; } else if (op == 3) { k.End(); s = n - 1; } else if (op == 4) k.TimeStep(s = ri(0, 20));
    else if (op == 5) k.Dt(dt = ri(1, 9)*0.25); else if (op == 6) k.Steps(n = ri(1, 30)); else if (op == 7) { QDClock m; m = k; if (m.Steps() != n || m.TimeStep() != s || m.Dt() != dt) FAIL("copied clock"); k = k; }
    else { QDClock m(50, ri(1, 9)*0.25); m.TimeStep(ri(0, 40)); double x = m.Time()/dt; bool ok = x == std::floor(x); try { k.Sync(m); if (!ok) FAIL("Sync accepts a time which is no multiple of the time step"); s = (int) x; if (k.Time() != m.Time()) FAIL("Sync: different times"); } catch (Exception &e) { if (ok) FAIL("Sync refuses a multiple of the time step"); } }
    if (k.Steps() != n || k.TimeStep() != s || k.Dt() != dt || k.Time() != s*dt) FAIL("clock values");
  } }
static M fresh() { M m; m.l = new Laser; m.dt = ri(1, 5)*0.5; m.sc = 1; m.c = NULL; int n = ri(1, 40); m.l->Dt(m.dt); m.l->Nt(n); for (int i = 0; i < n; i++) { m.d.push_back(rd()); (*m.l)[i] = m.d[i]; } return m; }
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 200 && g_fail < 5; it++) {
    clocks(); M m = fresh(); std::string h; QDClock *k = new QDClock(m.d.size(), m.dt); m.l->Clock(k); m.c = k; bool sp = false;
    for (int step = 0; step < 14 && g_fail < 5; step++) {
      int op = ri(0, 11), n = m.d.size(); h += " op" + std::to_string(op); CASE("it=%d n=%d%s", it, n, h.c_str());
      if (op == 0) { k->TimeStep(ri(0, k->Steps() - 1)); if (!near(m.l->Get(), m.d[k->TimeStep()]*m.sc)) FAIL("Get"); }
      else if (op == 1) { k->TimeStep(ri(0, k->Steps() - 1)); double x = rd(); m.l->Set(x); m.d[k->TimeStep()] = x; sp = false; same("Set", m); }
      else if (op == 2) { k->TimeStep(ri(0, k->Steps() - 1)); double s = 0; for (int i = 0; i < k->TimeStep(); i++) s += m.d[i]; if (!near(m.l->GetVectorPot(), s*m.dt)) FAIL("vector potential"); }
      else if (op == 3) { double s = 0; for (double x : m.d) s += x*x*m.sc*m.sc; s *= 137.0359996/(4*M_PI)*m.dt; if (!near(m.l->PulseEnergy(), s)) FAIL("pulse energy %g, expected %g", m.l->PulseEnergy(), s); }
      else if (op == 4) { m.sc = ri(1, 6)*0.5; m.l->Scale(m.sc); same("Scale", m); }
      else if (op == 5) { m.d.resize(k->Steps()); cVec *s = m.l->Spectrum(); chkspec("spectrum", s, half(m.d)); same("field after Spectrum", m); sp = true; }
      else if (op == 6) { m.d.resize(k->Steps()); dVec *p = m.l->PowerSpectrum(); cv e = half(m.d); if (p->size() != (int) e.size()) FAIL("power spectrum has %d values, %d expected", p->size(), (int) e.size()); else for (size_t i = 0; i < e.size(); i++) if (!near((*p)[i], std::abs(e[i]))) FAIL("power spectrum value %d", (int) i); delete p; same("field after PowerSpectrum", m); sp = true; }
      else if (op == 7 && sp) { m.d.resize(k->Steps()); cVec *s = m.l->Spectrum(); double f = rd(); for (int i = 0; i < s->size(); i++) (*s)[i] = (*s)[i]*f; m.l->ToTimeDomain(); for (auto &x : m.d) x *= f*m.d.size(); same("field after ToTimeDomain", m); for (size_t i = 0; i < m.d.size(); i++) { m.d[i] = rd(); (*m.l)[i] = m.d[i]; } }
      else if (op == 8) { M q = fresh(); QDClock kq(q.d.size(), q.dt); q.l->Clock(&kq); q.sc = ri(1, 6)*0.5; q.l->Scale(q.sc); if (ri(0, 1)) q.l->Spectrum(); *m.l = *q.l; m.d = q.d; m.dt = q.dt; m.sc = q.sc; same("copy", m); m.l->ToTimeDomain(); same("copy: no spectrum of the old field is left, so ToTimeDomain changes nothing", m); if (m.l->Clock() != &kq) FAIL("copy: clock"); (*q.l)[0] = 99; same("copy after a change of the source", m); delete q.l; same("copy after deletion of the source", m); *k = kq; m.l->Clock(k); sp = false; }
      else if (op == 9) { QDClock o(ri(0, 1) ? n : n + 1, ri(0, 1) ? m.dt : m.dt + 0.5); bool ok = o.Steps() <= n && o.Dt() == m.dt, t = false; try { m.l->Clock(&o); } catch (Exception &e) { t = true; } if (t == ok) FAIL("Clock: %s", ok ? "refuses a fitting clock" : "accepts a clock that does not fit"); m.l->Clock(k); m.l->Clock(NULL); if (m.l->Clock() != k) FAIL("Clock(NULL)"); same("Clock", m); }
      else if (op == 10 && n > 1) { k->Steps(ri(1, n)); k->TimeStep(0); m.l->Clock(k); }
      else if (op == 11) { int q = ri(1, 40); m.l->Nt(q); m.d.clear(); for (int i = 0; i < q; i++) { m.d.push_back(rd()); (*m.l)[i] = m.d[i]; } k->Steps(q); k->TimeStep(0); m.l->Clock(k); sp = false; same("Nt", m); }
    }
    delete m.l; delete k;
  }
  return finish(); }
