// grids and a plain discrete Fourier transform for replay drivers
#ifndef DV_DFT_H
#define DV_DFT_H
#include "ops.h"
#include "fft/fft.h"
typedef std::vector<int> iv;
static inline int vol(const iv &n) { int r = 1; for (int x : n) r *= x; return r; }
static inline iv rdims(int most = 7) { iv n(ri(1, 4)); for (auto &x : n) x = ri(1, n.size() > 2 ? 4 : most); return n; }
static inline void mkgrid(GridSystem &g, const iv &n) { g.Dim(n.size()); for (size_t i = 0; i < n.size(); i++) { g.DimSize(i, n[i]); g.Xmin(i, -1 - 0.3*i); g.Xmax(i, 2 + 0.7*i); } }
static inline cv dft1(const cv &v, const iv &n, int dim, int sign) { // first dimension runs fastest
  int lo = 1; for (int i = 0; i < dim; i++) lo *= n[i]; int N = n[dim]; cv r(v.size());
  for (size_t x = 0; x < v.size(); x++) { int k = x / lo % N; size_t b = x - (size_t)k*lo; for (int j = 0; j < N; j++) r[x] += v[b + (size_t)j*lo]*std::polar(1.0, sign*2*M_PI*k*j/N); }
  return r; }
static inline cv dft(cv v, const iv &n, int dim, int sign) { if (dim >= 0) return dft1(v, n, dim, sign); for (size_t i = 0; i < n.size(); i++) v = dft1(v, n, i, sign); return v; }
static inline void putv(cVec &w, const cv &v) { for (size_t i = 0; i < v.size(); i++) w[i] = D(v[i]); }
static inline cv getv(cVec &w) { cv r(w.size()); for (int i = 0; i < w.size(); i++) r[i] = S(w[i]); return r; }
static inline void chkv(const char *what, const cv &a, const cv &b) { if (a.size() != b.size()) { FAIL("%s: size", what); return; } for (size_t i = 0; i < a.size(); i++) if (!near(a[i], b[i], 1e-9)) { FAIL("%s: element %d is (%g,%g), expected (%g,%g)", what, (int)i, a[i].real(), a[i].imag(), b[i].real(), b[i].imag()); return; } }
#endif
