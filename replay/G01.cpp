#include "ops.h"
#include "qdlib/GridSystem.h"
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 400 && g_fail < 5; it++) {
    int d = ri(1, MAX_DIMS); std::vector<int> n(d); std::vector<double> lo(d), hi(d); int size = 1; std::string s;
    for (int i = 0; i < d; i++) { n[i] = ri(2, 6); lo[i] = rd(); hi[i] = lo[i] + rd(0.5, 3); size *= n[i]; s += " " + num(n[i]); }
    CASE("dims=%d sizes=%s", d, s.c_str());
    GridSystem g, h, q; g.SetFromArrays(n, lo, hi); h.Dim(d);
    for (int i = 0; i < d; i++) { h.DimSize(i, n[i]); h.Xmin(i, lo[i]); h.Xmax(i, hi[i]); }
    auto same = [&](const char *w, GridSystem &x) { if (x.Dim() != d) FAIL("%s: dims %d", w, x.Dim());
      for (int i = 0; i < d; i++) { if (x.DimSize(i) != n[i] || x.DimSizes()[i] != n[i]) FAIL("%s: size of dim %d", w, i); if (x.Xmin(i) != lo[i] || x.Xmax(i) != hi[i]) FAIL("%s: limits of dim %d", w, i); if (!near(x.Dx(i), (hi[i] - lo[i]) / (n[i] - 1))) FAIL("%s: spacing of dim %d", w, i); }
      if (x.Size() != size) FAIL("%s: size %d instead of %d", w, x.Size(), size); };
    same("arrays", g); same("setters", h); if (q.Size() != 0 || q.Dim() != 0) FAIL("empty grid"); q = g; same("copy", q);
    if (!(g == h) || g != h) FAIL("equal grids differ"); 
    for (int i = 0; i < d; i++) { GridSystem x; x = g; x.DimSize(i, n[i] + 1); if (x == g || !(x != g)) FAIL("other size, dim %d", i); x = g; x.Xmin(i, lo[i] - 0.1); if (x == g || g == x) FAIL("other xmin, dim %d", i); x = g; x.Xmax(i, hi[i] - 0.1); if (x == g || g == x) FAIL("other xmax, dim %d", i); }
    { GridSystem x; x.Dim(d - 1); if (x == g) FAIL("other number of dimensions"); }
    int l = 1;
    for (int a = 0; a < d; a++) {
      q.ActiveDim(a); if (q.NumActive() != n[a] || q.NumOthers() != size / n[a] || q.NumOthers(a) != size / n[a] || q.LowOthers() != l || q.LowOthers(a) != l) FAIL("stripe tables of dim %d", a);
      std::vector<char> seen(size);
      for (int r = 0; r < q.NumOthers(); r++) for (int i = 0; i < n[a]; i++) { int k = q.Index(i, r); if (k < 0 || k >= size) { FAIL("index %d out of range", k); break; } if (seen[k]++) FAIL("index %d twice", k); if (k / l % n[a] != i) FAIL("index %d is not at point %d of dim %d", k, i, a); if (k != q.IndexBase(r) + i * l) FAIL("base index"); }
      for (int b = 0; b < d; b++) if (b != a && q.NumOthers((size_t)a, (size_t)b) != size / n[a] / n[b]) FAIL("points besides dims %d %d", a, b);
      l *= n[a];
    }
    THROWS("too many dimensions", q.Dim(MAX_DIMS + 1)); THROWS("negative dimensions", q.Dim(-1));
    { std::vector<double> x(lo); x.push_back(1); THROWS("arrays of different length", q.SetFromArrays(n, x, hi)); THROWS("arrays of different length", q.SetFromArrays(n, lo, x)); }
  }
  return finish(); }
