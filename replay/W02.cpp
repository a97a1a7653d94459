#include "ops.h"
#include "qdlib/WFMultistate.h"
#include "qdlib/OMultistate.h"
typedef std::vector<cv> mv;
static mv rm(int m, int n) { mv r; for (int i = 0; i < m; i++) r.push_back(rv(n)); return r; }
static WFMultistate *newms(const mv &v) { WFMultistate *w = new WFMultistate(); for (size_t i = 0; i < v.size(); i++) w->Add(newwf(v[i]), i); w->WFMultistate::Init((int)v.size()); return w; }
static void chkm(const char *what, WFMultistate *w, const mv &want) { if (w->States() != (int)want.size()) { FAIL("%s: %d states instead of %d", what, (int)w->States(), (int)want.size()); return; } for (size_t i = 0; i < want.size(); i++) { char b[99]; snprintf(b, sizeof b, "%s: state %d", what, (int)i); chk(b, w->State(i), want[i]); } }
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 300 && g_fail < 5; it++) {
    int n = ri(1, 5), m = it % 10 == 0 ? ri(6, 62) : ri(1, 5); CASE("%d states of %d values", m, n);
    mv x = rm(m, n), y = rm(m, n); WFMultistate *a = newms(x), *b = newms(y); double nr = 0; cd ip = 0; for (int i = 0; i < m; i++) { nr += dot(x[i], x[i]).real(); ip += dot(x[i], y[i]); }
    chkm("after construction", a, x); chkc("norm", a->Norm(), sqrt(nr)); chkc("inner product", *a * b, ip); chkm("left operand of the inner product", a, x); chkm("right operand of the inner product", b, y);
    mv z = x; for (auto &s : z) s = scl(1 / sqrt(nr), s); a->Normalize(); chkm("Normalize", a, z);
    *((WaveFunction*) a) = (WaveFunction*) b; chkm("assignment", a, y); chkm("source of the assignment", b, y); put(b->State(m - 1), x[0]); chkm("copy after a change of its source", a, y);
    int k = ri(1, 5); if (k != m) { WFMultistate *s = newms(rm(k, n)); THROWS("assignment of another number of states", *((WaveFunction*) a) = (WaveFunction*) s); THROWS("inner product with another number of states", *a * s); DELETE_WF(s); }
    WFLevel *one = newwf(rv(n)); THROWS("assignment of a single state", *((WaveFunction*) a) = (WaveFunction*) one); THROWS("inner product with a single state", *a * one); DELETE_WF(one);
    a->Retire(); a->Reaquire(); for (int i = 0; i < m; i++) if (a->State(i)->begin(0) == NULL) FAIL("state %d has no storage after Reaquire", i); else put(a->State(i), x[i]);
    if (m > 8) m = 8;
    { mv u(x.begin(), x.begin() + m), w = rm(m, n); WFMultistate *s = newms(u), *d = newms(w); OMultistate *M = new OMultistate(); std::vector<TestOp*> o(m*m, (TestOp*) NULL); bool un = ri(0, 1); CASE("matrix of operators on %d states of %d values, missing diagonal %s", m, n, un ? "one" : "zero");
      M->States(m); M->Hermitian(false); M->Unity(un); for (int i = 0; i < m*m; i++) if (ri(0, 2)) M->Add(o[i] = new TestOp(n), i / m, i % m); M->Hermitian(false); M->Init((WaveFunction*) s);
      auto res = [&](const mv &q, bool p) { mv r(m, cv(n)); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) if (o[i*m + j]) r[i] = lin(1, r[i], 1, o[i*m + j]->ap(q[j], p)); else if (i == j && un) r[i] = lin(1, r[i], 1, q[j]); return r; };
      for (int t = 0; t < 2; t++) { M->Apply(d, s); chkm("Apply(dest, src)", d, res(u, false)); chkm("source of Apply", s, u); M->ApplyParent(d, s); chkm("ApplyParent", d, res(u, true)); chkm("source of ApplyParent", s, u); }
      M->Apply((WaveFunction*) s); chkm("Apply(Psi)", s, res(u, false)); M->Apply((WaveFunction*) s); chkm("second Apply(Psi)", s, res(res(u, false), false));
      M->UpdateTime(); M->RecalcInternals(it & 1); for (int i = 0; i < m*m; i++) if (o[i] && (o[i]->nupd != 1 || o[i]->nrec < 1 || o[i]->reclast != bool(it & 1))) FAIL("entry (%d,%d): %d time updates, recalculation setting %d after one UpdateTime and RecalcInternals(%d)", i / m, i % m, o[i]->nupd, (int) o[i]->reclast, it & 1); }
    if (it % 50 == 0) { CASE("UpdateTime of a matrix of %d states", QD_MAX_STATES); OMultistate *M = new OMultistate(); std::vector<TestOp*> o; for (int i = 0; i < QD_MAX_STATES - 1; i++) for (int t = 0; t < 2; t++) { TestOp *x = new TestOp(1); o.push_back(x); M->Add(x, t ? QD_MAX_STATES - 1 : i, t ? i : QD_MAX_STATES - 1); } M->States(QD_MAX_STATES); M->Hermitian(false); M->UpdateTime(); for (size_t i = 0; i < o.size(); i++) if (o[i]->nupd != 1) { FAIL("entry %d of the last row and column had %d time updates", (int) i, o[i]->nupd); break; } }
  }
  return finish(); }
