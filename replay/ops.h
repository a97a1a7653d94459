// concrete wave functions (WFLevel) and dense linear test operators for replay drivers
#ifndef DV_OPS_H
#define DV_OPS_H
#include "math/typedefs.h"
#include "math/dcomplex.h"
#include "math/Vector.h"
#include "math/Matrix.h"
#include "tools/QDClock.h"
#include "tools/ParamContainer.h"
#include "qdlib/WaveFunction.h"
#include "qdlib/WFLevel.h"
#include "qdlib/Operator.h"
#include "common.h"
#include <unistd.h>
static inline int finish() { puts("done"); fflush(stdout); _exit(0); return 0; }  // skips static destructors (their order is not under test)
using namespace QDLIB;
typedef std::vector<cd> cv;
static inline cd S(dcomplex z) { return cd(z._real, z._imag); }
static inline dcomplex D(cd z) { return dcomplex(z.real(), z.imag()); }
static inline cv get(WaveFunction *w) { cv r(w->size()); for (int i = 0; i < w->size(); i++) r[i] = S((*w)[i]); return r; }
static inline void put(WaveFunction *w, const cv &v) { for (size_t i = 0; i < v.size(); i++) (*w)[i] = D(v[i]); }
static inline cv rv(int n) { cv r(n); for (auto &x : r) x = rc(); return r; }
static inline WFLevel *newwf(const cv &v) { WFLevel *w = new WFLevel(v.size()); put(w, v); return w; }
static inline cd dot(const cv &a, const cv &b) { cd s = 0; for (size_t i = 0; i < a.size(); i++) s += std::conj(a[i])*b[i]; return s; }
static inline cv lin(cd a, const cv &x, cd b, const cv &y) { cv r(x.size()); for (size_t i = 0; i < x.size(); i++) r[i] = a*x[i] + b*y[i]; return r; }
static inline cv scl(cd a, const cv &x) { cv r(x); for (auto &v : r) v *= a; return r; }
static inline void chk(const char *what, WaveFunction *w, const cv &want, double tol = 1e-9) {
  if (w->size() != (int)want.size()) { FAIL("%s: size %d instead of %d", what, (int)w->size(), (int)want.size()); return; }
  if (w->begin(0) == NULL) { FAIL("%s: storage was given away", what); return; }
  for (size_t i = 0; i < want.size(); i++) if (!near(S((*w)[i]), want[i], tol)) { FAIL("%s: element %d is (%g,%g), expected (%g,%g)", what, (int)i, (*w)[i].real(), (*w)[i].imag(), want[i].real(), want[i].imag()); return; }
}
static inline void chkc(const char *what, dcomplex z, cd want) { if (!near(S(z), want)) FAIL("%s: (%g,%g), expected (%g,%g)", what, z.real(), z.imag(), want.real(), want.imag()); }
struct TestOp : public Operator {
  std::string nm; int n; std::vector<cd> M, Pm; cd emax, emin; int ninit, nupd, nrec; bool reclast, valid; static int live;
  TestOp(int n_ = 1, bool herm = true, bool td = false) : nm("TestOp"), n(n_), M(n_*n_), Pm(n_*n_), ninit(0), nupd(0), nrec(0), reclast(false), valid(true) {
    for (auto &x : M) x = rc();
    for (auto &x : Pm) x = rc();
    if (herm) for (int i = 0; i < n; i++) { M[i*n + i] = M[i*n + i].real(); for (int j = 0; j < i; j++) M[i*n + j] = std::conj(M[j*n + i]); }
    emax = rc(); emin = rc(); _hermitian = herm; _isTimedependent = td; }
  cv ap(const cv &v, bool parent = false) const { const std::vector<cd> &A = parent ? Pm : M; cv r(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i] += (_conj && !parent ? std::conj(A[j*n + i]) : A[i*n + j]) * v[j]; return r; }
  bool conjf() { return _conj; } QDClock *clk() { return clock; }
  virtual Operator *NewInstance() { return new TestOp(n, _hermitian, _isTimedependent); }
  virtual void Init(ParamContainer &) {}
  virtual void Init(WaveFunction *) { ninit++; }
  virtual const string &Name() { return nm; }
  virtual void UpdateTime() { nupd++; }
  virtual dcomplex Emax() { return D(emax); }
  virtual dcomplex Emin() { return D(emin); }
  virtual void Apply(WaveFunction *d, WaveFunction *s) { if (d == s) FAIL("Apply was given the same wave function as source and destination"); put(d, ap(get(s))); }
  virtual void Apply(WaveFunction *p) { put(p, ap(get(p))); }
  virtual void ApplyParent(WaveFunction *d, WaveFunction *s) { put(d, ap(get(s), true)); }
  virtual void ApplyAdd(WaveFunction *d, WaveFunction *s) { put(d, lin(1, get(d), 1, ap(get(s)))); }
  virtual Operator *operator=(Operator *O) { return Copy(O); }
  virtual Operator *Copy(Operator *O) { TestOp *o = dynamic_cast<TestOp*>(O); if (!o) throw EIncompatible("x"); n = o->n; M = o->M; Pm = o->Pm; emax = o->emax; emin = o->emin; _hermitian = o->_hermitian; _isTimedependent = o->_isTimedependent; _conj = o->_conj; clock = o->clock; return this; }
  virtual bool Valid(WaveFunction *) { return valid; }
  virtual void RecalcInternals(bool on) { nrec++; reclast = on; }
};
static inline std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
#define THROWS(what, expr) do { bool t_ = false; try { expr; } catch (...) { t_ = true; } if (!t_) FAIL("%s was not refused", what); } while (0)
#endif
