#include "math/typedefs.h"
#include "math/Vector.h"
#include "math/dcomplex.h"
#include "math/Matrix.h"
#include "common.h"
using namespace QDLIB;
static cd S(dcomplex z) { return cd(z._real, z._imag); }
static cd S(double z) { return z; }
static void R(dcomplex &z) { z = dcomplex(rd(), rd()); }
static void R(double &z) { z = rd(); }
template <class T> struct Ref { int m, n; std::vector<cd> a; cd &at(int i, int j) { return a[j*m + i]; } };
template <class T> static void fillr(Matrix<T> &M, Ref<T> &r) {
  r.m = M.rows(); r.n = M.cols(); r.a.resize(r.m*r.n);
  for (int j = 0; j < r.n; j++) for (int i = 0; i < r.m; i++) { T x; R(x); M(i, j) = x; r.at(i, j) = S(x); }
}
template <class T> static void same(const char *what, Matrix<T> &M, Ref<T> &r) {
  if (M.rows() != r.m || M.cols() != r.n) { FAIL("%s: shape %dx%d, expected %dx%d", what, (int)M.rows(), (int)M.cols(), r.m, r.n); return; }
  if ((size_t)M.sizeBytes() != sizeof(T)*r.m*r.n) FAIL("%s: byte size", what);
  const Matrix<T> &K = M;
  for (int j = 0; j < r.n; j++) {
    if (M.begin(j) != M.begin() + j*r.m) { FAIL("%s: column %d does not start at element %d*%d", what, j, j, r.m); return; }
    for (int i = 0; i < r.m; i++) if (!near(S(M(i, j)), r.at(i, j)) || !near(S(K(i, j)), r.at(i, j)) || !near(S(M.begin()[j*r.m + i]), r.at(i, j)))
      { FAIL("%s: %dx%d element (%d,%d) = (%g,%g), expected (%g,%g)", what, r.m, r.n, i, j, S(M(i, j)).real(), S(M(i, j)).imag(), r.at(i, j).real(), r.at(i, j).imag()); return; }
  }
}
template <class T> static void transp(Matrix<T> &, int, int) {}
template <> void transp<double>(Matrix<double> &M, int m, int n) {
  Ref<double> r; fillr(M, r); CASE("transpose %dx%d", m, n); M.transpose();
  if (m == n) { Ref<double> t = r; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) t.at(i, j) = r.at(j, i); same("transpose", M, t); } else same("transpose of non-square", M, r);
}
static cd cj(cd x, bool c) { return c ? std::conj(x) : x; }
template <class T, class U> static void mv(int m, int n, bool tr, bool ad) {
  Matrix<U> M(m, n); Ref<U> r; fillr(M, r); int na = tr ? m : n, nb = tr ? n : m;
  Vector<T> A(na), B(ri(1, 9)); std::vector<cd> a(na); for (int i = 0; i < na; i++) { T x; R(x); A[i] = x; a[i] = S(x); }
  CASE("MatVecMult %dx%d transpose=%d adjoint=%d", m, n, tr, ad); MatVecMult(&B, &M, &A, tr, ad);
  if (B.size() != nb) { FAIL("MatVecMult %dx%d transpose=%d: result size %d", m, n, tr, (int)B.size()); return; }
  for (int i = 0; i < nb; i++) { cd s = 0; for (int k = 0; k < na; k++) s += cj(tr ? r.at(k, i) : r.at(i, k), ad && tr) * a[k]; if (!near(S(B[i]), s)) { FAIL("MatVecMult %dx%d transpose=%d adjoint=%d element %d", m, n, tr, ad, i); return; } }
  same("matrix after MatVecMult", M, r);
  if (m == n && !tr && sizeof(T) == sizeof(dcomplex)) { CASE("matrix*vector %d", n); cVec x(n); for (int i = 0; i < n; i++) x[i] = dcomplex(a[i].real(), a[i].imag()); cVec y = M * x; if (y.size() != n) FAIL("matrix*vector size"); else for (int i = 0; i < n; i++) { cd s = 0; for (int k = 0; k < n; k++) s += r.at(i, k) * a[k]; if (!near(S(y[i]), s)) { FAIL("matrix*vector %dx%d element %d", n, n, i); break; } } }
  Vector<T> W(na + 1), Z(3); T x; R(x); Z = x; W = x; MatVecMult(&Z, &M, &W, tr, ad); if (Z.size() != 3) FAIL("MatVecMult with mismatching size changed the result"); else for (int i = 0; i < 3; i++) if (!near(S(Z[i]), S(x))) FAIL("MatVecMult with mismatching size wrote the result");
}
template <class T> static void run() {
  int m = ri(1, 8), n = ri(0, 2) ? ri(1, 8) : m;
  CASE("shape %dx%d", m, n);
  { Matrix<T> E; if (E.rows() != 0 || E.cols() != 0 || E.sizeBytes() != 0) FAIL("default constructed matrix not empty"); }
  Matrix<T> M(m, n); Ref<T> r; fillr(M, r); same("constructor", M, r);
  { T x; R(x); CASE("fill %dx%d", m, n); M = x; for (auto &v : r.a) v = S(x); same("fill", M, r); }
  fillr(M, r); { T x; R(x); CASE("scale"); M *= x; for (auto &v : r.a) v *= S(x); same("scale", M, r); }
  { int a = ri(1, 8), b = ri(1, 8); if (ri(0, 2) == 0) { a = n; b = m; } CASE("copy %dx%d into %dx%d", m, n, a, b); Matrix<T> N(a, b); Ref<T> t; fillr(N, t); N = M; same("copy", N, r); fillr(N, t); same("source after copy", M, r); M.newsize(m, n); same("newsize same", M, r);
    CASE("newsize %dx%d to %dx%d", m, n, a, b); N.newsize(b, a); fillr(N, t); same("newsize", N, t); N.newsize(a, b); fillr(N, t); same("newsize", N, t); }
  { int p = ri(1, 4), q = ri(1, 4), k = ri(1, 4); Ref<T> t; CASE("newsize %dx%d to %dx%d", p*k, q, p, q*k); Matrix<T> N(p*k, q); N.newsize(p, q*k); if (N.rows() != p || N.cols() != q*k) FAIL("newsize %dx%d to %dx%d gives %dx%d", p*k, q, p, q*k, (int)N.rows(), (int)N.cols()); else { fillr(N, t); same("newsize", N, t); }
    Matrix<T> O(p, q*k), Q(p*k, q); fillr(Q, t); O = Q; same("copy between shapes of equal total", O, t); O.newsize(q*k, p); if (O.rows() != q*k || O.cols() != p) FAIL("newsize %dx%d to %dx%d", p*k, q, q*k, p); else { fillr(O, t); same("newsize", O, t); } }
  CASE("diag %dx%d", m, n);
  Vector<T> *d = M.diag();
  if ((d != NULL) != (m == n)) FAIL("diag() of %dx%d", m, n);
  if (d && m == n) { if (d->size() != n) FAIL("diag size"); else for (int i = 0; i < n; i++) if (!near(S((*d)[i]), r.at(i, i))) FAIL("diag element %d", i); }
  delete d;
  for (int dl = -1; dl <= 1; dl++) { int L = n + dl; if (L < 1) continue; Vector<T> x(L); CASE("set diag of %dx%d from %d", m, n, L); for (int i = 0; i < L; i++) { T v; R(v); x[i] = v; if (m == n && L == n) r.at(i, i) = S(v); } M.diag(&x); same("set diag", M, r); }
  { int c = ri(0, n - 1); CASE("column %d", c); Vector<T> *v = M.coloumn(c); if (v->size() != m) FAIL("column size"); else for (int i = 0; i < m; i++) if (!near(S((*v)[i]), r.at(i, c))) FAIL("column element"); delete v; }
  same("after", M, r); transp(M, m, n);
}
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 3000 && g_fail < 5; it++) { run<double>(); run<dcomplex>(); int m = ri(1, 7), n = ri(0, 2) ? ri(1, 7) : m;
    mv<double, double>(m, n, it & 1, (it & 1) && (it & 2)); mv<dcomplex, dcomplex>(m, n, it & 1, (it & 1) && (it & 2)); mv<dcomplex, double>(m, n, it & 1, (it & 1) && (it & 2)); }
  puts("done"); return 0; }
