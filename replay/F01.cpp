#include "dft.h"
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 120 && g_fail < 5; it++) {
    iv n = rdims(); int N = vol(n), D = n.size(); char s[99]; int q = 0; for (int x : n) q += sprintf(s + q, " %d", x); CASE("it=%d sizes%s", it, s);
    GridSystem g; mkgrid(g, n); cVec a(N), b(N), p(N), r(N); cv x = rv(N), y = rv(N); putv(a, x); putv(b, y);
    FFT f(g, a, b); chkv("input data after creating the plans", getv(a), x);
    if (!f.Compatible(g)) FAIL("not compatible with its own grid"); { iv m = n; m[ri(0, D - 1)]++; GridSystem h; mkgrid(h, m); if (f.Compatible(h)) FAIL("compatible with another grid"); if (D > 1) { m = n; m.pop_back(); GridSystem k; mkgrid(k, m); if (f.Compatible(k)) FAIL("compatible with fewer dimensions"); } }
    for (int step = 0; step < 6; step++) {
      int d = ri(-1, D - 1); bool bw = ri(0, 1); if (ri(0, 3) == 0) { f.ReplaceBuffers(&p, &r); putv(p, getv(a)); putv(r, getv(b)); a.swap(p); b.swap(r); cv t = getv(a), u = getv(b); f.ReplaceBuffers(&a, &b); }
      x = rv(N); y = rv(N); putv(a, x); putv(b, y);
      if (bw) { f.backward(d); chkv("backward transform", getv(a), dft(y, n, d, 1)); chkv("source of a backward transform", getv(b), y); }
      else { f.forward(d); chkv("forward transform", getv(b), dft(x, n, d, -1)); chkv("source of a forward transform", getv(a), x); }
    }
    { FFT o(g, a, b, true); x = rv(N); putv(a, x); int d = ri(-1, D - 1); o.forward(d); chkv("one way transform", getv(b), dft(x, n, d, -1)); }
    { iv m(1, N); putv(a, x); FFT o(a, b, ri(0, 1)); chkv("input data after creating a 1-D plan", getv(a), x); o.forward(); chkv("1-D transform", getv(b), dft(x, m, 0, -1)); FFT w(a, b); y = rv(N); putv(b, y); w.backward(); chkv("1-D backward", getv(a), dft(y, m, 0, 1)); }
    { dVec d(N); cVec h(N/2 + 1); cv z(N); for (int i = 0; i < N; i++) z[i] = d[i] = rd(); FFT o(d, h); o.forward(); iv m(1, N); cv w = dft(z, m, 0, -1); w.resize(N/2 + 1); chkv("real transform", getv(h), w); o.backward(); cv u(N); for (int i = 0; i < N; i++) u[i] = d[i]/N; chkv("real transform and back", u, z); }
  }
  return finish(); }
