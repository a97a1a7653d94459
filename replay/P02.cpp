#include "ops.h"
#include "qdlib/ORK4.h"
static cv taylor(TestOp *H, cv p, cd z) { cv t = p, r = p; double f = 1; for (int m = 1; m <= 4; m++) { t = scl(z, H->ap(t)); f *= m; r = lin(1, r, 1/f, t); } return r; }
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 500 && g_fail < 5; it++) {
    int n = ri(1, 5); double dt = ri(0, 1) ? 0.1 + fabs(rd()) : -0.1 - fabs(rd()); QDClock clk(ri(1, 9), dt);
    ORK4 *U = new ORK4(); TestOp *H = new TestOp(n, ri(0, 1), ri(0, 1)), *X = new TestOp(n); if (ri(0, 1)) U->OPropagator::Add(X); U->Add("hamiltonian", H);
    U->Clock(&clk); bool im = ri(0, 1); if (im) U->ImaginaryTime(); if (ri(0, 2) == 0) U->Backward(); else if (ri(0, 1)) U->Forward();
    if (ri(0, 4) == 0) U->Exponent(D(rc()));
    WFLevel *s = newwf(rv(n)); CASE("n=%d dt=%g c=(%g,%g) adjoint=%d", n, dt, U->Exponent().real(), U->Exponent().imag(), H->conjf());
    U->Init(s); if (H->ninit < 1) FAIL("Hamiltonian not initialised"); if (U->Hamiltonian() != H) FAIL("Hamiltonian() is not the named member"); U->Init(s);
    if (ri(0, 2) == 0) { ORK4 *W = new ORK4(); *(Operator*)W = (Operator*)U; if (W->Hamiltonian() == NULL || W->Hamiltonian() == H) { FAIL("copy has no Hamiltonian of its own"); break; } U = W; H = (TestOp*)W->Hamiltonian(); CASE("copied propagator n=%d dt=%g", n, dt); }
    for (int r = 0; r < 3; r++) {
      cd z = S(U->Exponent()); cv x = rv(n), y = rv(n), a = taylor(H, x, z); WFLevel *i1 = newwf(x), *d = newwf(y), *q = newwf(x);
      U->Apply(i1); chk("Apply(Psi)", i1, a, 1e-8); if (H->nrec && !H->reclast) FAIL("recalculation left disabled");
      U->Apply(d, q); chk("Apply(dest, source)", d, a, 1e-8); chk("source of Apply", q, x);
      int nu = H->nupd; U->UpdateTime(); if (H->nupd != nu + 1) FAIL("UpdateTime does not reach the Hamiltonian"); H->valid = ri(0, 1); if (U->Valid(d) != H->valid) FAIL("Valid");
      DELETE_WF(i1); DELETE_WF(d); DELETE_WF(q);
    }
    { ORK4 A, B; B.Copy(&A); if (B.Hamiltonian() != NULL) FAIL("copy of an empty propagator has a Hamiltonian"); }
    DELETE_WF(s);
  }
  return finish(); }
