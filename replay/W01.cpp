#include "ops.h"
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 600 && g_fail < 5; it++) {
    int n = ri(1, 9); cv x = rv(n), y = rv(n); cd z = rc(); double d = rd(); CASE("n=%d", n);
    WFLevel *a = newwf(x), *b = newwf(y); WaveFunction *A = a, *B = b;
    if (!near(S(*A * B), dot(x, y))) FAIL("inner product"); if (!near(S(*A * A), dot(x, x))) FAIL("inner product with itself");
    if (fabs(A->Norm() - sqrt(dot(x, x).real())) > 1e-9 * (1 + A->Norm())) FAIL("norm"); chk("inner product/norm operand", a, x); chk("inner product operand", b, y);
    cv w(n);
    auto rst = [&]() { *A = B; chk("copy", a, y); x = rv(n); for (int i = 0; i < n; i++) (*a)[i] = D(x[i]); };
    rst(); A->Normalize(); chk("normalize", a, scl(1 / sqrt(dot(x, x).real()), x)); rst();
    *A *= d; chk("scaling", a, scl(d, x)); rst(); *A *= D(z); chk("complex scaling", a, scl(z, x)); rst();
    *A = d; chk("fill", a, cv(n, d)); *A = D(z); chk("complex fill", a, cv(n, z)); rst();
    *A += B; chk("sum", a, lin(1, x, 1, y)); rst(); *A -= B; chk("difference", a, lin(1, x, -1, y)); rst(); *A += A; chk("sum with itself", a, scl(2, x)); rst(); *A -= A; chk("difference with itself", a, cv(n, 0)); rst();
    { WaveFunction *s = *A + B; chk("new sum", (WFLevel*)s, lin(1, x, 1, y)); DELETE_WF(s); }
    for (int i = 0; i < n; i++) w[i] = x[i] * y[i]; A->DirectProduct(B); chk("pointwise product", a, w); rst();
    for (int i = 0; i < n; i++) w[i] = std::conj(x[i]) * y[i]; A->DirectProductConjugate(B); chk("conjugated pointwise product", a, w); rst();
    for (int i = 0; i < n; i++) w[i] = x[i] * y[i]; { WaveFunction *s = DirectProduct(A, B); chk("new pointwise product", (WFLevel*)s, w); DELETE_WF(s); }
    for (int i = 0; i < n; i++) w[i] = std::conj(x[i]) * y[i]; { WaveFunction *s = DirectProductConjugate(A, B); chk("new conjugated product", (WFLevel*)s, w); DELETE_WF(s); }
    for (int i = 0; i < n; i++) w[i] = x[i].real(); A->Real(); chk("real part", a, w); rst(); for (int i = 0; i < n; i++) w[i] = x[i].imag(); A->Imag(); chk("imaginary part", a, w); rst();
    { double tol = fabs(rd()) * n, cut = A->Norm() / n * tol; for (int i = 0; i < n; i++) w[i] = cd(fabs(x[i].real()) < cut ? 0 : x[i].real(), fabs(x[i].imag()) < cut ? 0 : x[i].imag());
      WaveFunction *s = A->Reduce(tol); chk("reduce", (WFLevel*)s, w); chk("original of reduce", a, x); WaveFunction *q = new WFLevel(ri(1, 9)); q->Restore(s); chk("restore", (WFLevel*)q, w); DELETE_WF(s); DELETE_WF(q); }
    { WaveFunction *s = A->NewInstance(); if (s == A || s->size() != n || s->IsKspace()) FAIL("new instance"); DELETE_WF(s); }
    { A->IsKspace(false); A->IsKspace(true); if (!A->IsKspace()) FAIL("k-space flag"); for (int i = 0; i < n; i++) (*a)[i] = D(y[i]); A->IsKspace(true); chk("k-space data", a, y); A->IsKspace(false); if (A->IsKspace()) FAIL("k-space flag back"); chk("position data after toggling", a, x); A->Retire(); A->Reaquire(); (*a)[n - 1] = D(z); A->IsKspace(true); (*a)[n - 1] = D(z); A->IsKspace(false); }
    { WFLevel *o = newwf(rv(n + 1)); int th = 0; WaveFunction *O = o;
      try { *A += O; } catch (Exception &e) { th++; } try { *A -= O; } catch (Exception &e) { th++; } try { A->DirectProduct(O); } catch (Exception &e) { th++; } try { A->DirectProductConjugate(O); } catch (Exception &e) { th++; } try { *A * O; } catch (Exception &e) { th++; }
      if (th != 5) FAIL("wave functions of different size accepted (%d of 5 refused)", th); DELETE_WF(o); }
    DELETE_WF(a); DELETE_WF(b);
  }
  return finish(); }
