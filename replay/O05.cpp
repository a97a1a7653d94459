#include "ops.h"
struct POp : public TestOp { POp(int n) : TestOp(n, false) {} virtual void Apply(WaveFunction *d, WaveFunction *s) { TestOp::Apply(d, s); } virtual void Apply(WaveFunction *p) { Operator::Apply(p); } virtual void ApplyParent(WaveFunction *d, WaveFunction *s) { Operator::ApplyParent(d, s); } virtual void ApplyAdd(WaveFunction *d, WaveFunction *s) { Operator::ApplyAdd(d, s); } virtual void RecalcInternals(bool b) { Operator::RecalcInternals(b); } };
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 500 && g_fail < 5; it++) { int n = ri(1, 6); CASE("inherited operations on %d values", n); POp *o = new POp(n);
    if (o->isTimeDep() || o->Clock() != NULL) FAIL("initial flags");
    for (int r = 0; r < 4; r++) { int what = ri(0, 5); bool cj = ri(0, 1); o->Conj(cj); if (o->conjf() != cj) FAIL("Conj flag");
      cv x = rv(n), y = rv(n); WFLevel *s = newwf(x), *d = newwf(y); CASE("operation %d", what); cv a = o->ap(x);
      if (what == 0) { ((Operator*)o)->Apply(s); chk("Apply(Psi)", s, a); } else if (what == 1) { o->ApplyAdd(d, s); chk("ApplyAdd", d, lin(1, y, 1, a)); chk("source of ApplyAdd", s, x); }
      else if (what == 2) { chkc("MatrixElement", o->MatrixElement(d, s), dot(y, a)); chk("bra", d, y); chk("ket", s, x); } else if (what == 3) { chkc("MatrixElement(psi,psi)", o->MatrixElement(s, s), dot(x, a)); chk("psi", s, x); }
      else if (what == 4) { double e = o->Expec(s); if (!near(e, dot(x, a).real())) FAIL("Expec %g instead of %g", e, dot(x, a).real()); chk("psi of Expec", s, x); } else { o->ApplyParent(d, s); chk("ApplyParent", d, a); chk("source of ApplyParent", s, x); }
      DELETE_WF(s); DELETE_WF(d); }
    QDClock k(5, 0.5); o->Operator::Clock(&k); if (o->Clock() != &k) FAIL("Clock"); THROWS("Apply(Operator)", ((Operator*)o)->Operator::Apply((Operator*)o)); THROWS("Apply(Operator,Operator)", ((Operator*)o)->Operator::Apply((Operator*)o, (Operator*)o)); DELETE_OP(o); }
  return finish(); }
