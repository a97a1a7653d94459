#include "math/typedefs.h"
#include "math/Vector.h"
#include "math/dcomplex.h"
#include "common.h"
using namespace QDLIB;
static cd S(dcomplex z) { return cd(z._real, z._imag); }
static cd S(double z) { return z; }
static void R(dcomplex &z) { z = dcomplex(rd(), rd()); }
static void R(double &z) { z = rd(); }
struct Ref { int L, S; std::vector<cd> a; };
template <class T> struct XV : public Vector<T> { XV() {} XV(int n, int s) : Vector<T>(n, s) {} bool ref(Vector<T> &v, int s, int d = 0) { return this->StrideRef(v, s, d); } void down(int n) { this->downsize(n); } };
template <class T> static void fillr(Vector<T> &V, Ref &r, int L, int Sn) { r.L = L; r.S = Sn; r.a.resize(L*Sn); for (int s = 0; s < Sn; s++) for (int i = 0; i < L; i++) { T x; R(x); V.begin(s)[i] = x; r.a[s*L + i] = S(x); } }
template <class T> static void same(const char *w, Vector<T> &V, const Ref &r) {
  if (V.size() != r.L*r.S || V.strides() != r.S || V.lsize() != r.L || V.start() != 0 || V.stop() != r.L*r.S || V.sizeBytes() != sizeof(T)*r.L) { FAIL("%s: length %d, %d strides of %d; expected %d strides of %d", w, (int)V.size(), (int)V.strides(), (int)V.lsize(), r.S, r.L); return; }
  const Vector<T> &K = V;
  for (int i = 0; i < r.L*r.S; i++) if (!near(S(V[i]), r.a[i]) || !near(S(K[i]), r.a[i]) || !near(S(V.begin(i / r.L)[i % r.L]), r.a[i])) { FAIL("%s: %d strides of %d, element %d = (%g,%g) expected (%g,%g)", w, r.S, r.L, i, S(V[i]).real(), S(V[i]).imag(), r.a[i].real(), r.a[i].imag()); return; }
}
template <class T> static void run() {
  int L = ri(1, 9), Sn = ri(1, 4), M = ri(1, 9), U = ri(1, 4); if (ri(0, 3) == 0) { M = L; U = Sn; } if (ri(0, 5) == 0) { M = Sn; U = L; } if (ri(0, 5) == 0) M = L;
  CASE("A %dx%d B %dx%d", Sn, L, U, M);
  { Vector<T> E; if (E.size() != 0 || E.strides() != 1) FAIL("empty"); }
  Vector<T> A(L*Sn, Sn), B(M*U, U); Ref a, b; fillr(A, a, L, Sn); fillr(B, b, M, U); same("A", A, a); same("B", B, b); same("A again", A, a);
  { CASE("copy ctor"); Vector<T> K(A); same("copy ctor", K, a); Ref k; fillr(K, k, L, Sn); same("source after writing the copy", A, a); }
  { CASE("assign %dx%d := %dx%d", U, M, Sn, L); Vector<T> K(B); K = A; same("assignment", K, a); Ref k; fillr(K, k, L, Sn); same("source after writing the assigned", A, a); K = K; same("self assignment", K, k); }
  { CASE("fastcopy %dx%d := %dx%d", U, M, Sn, L); Vector<T> K(B); K.FastCopy(A); same("fast copy", K, a); Ref k; fillr(K, k, L, Sn); same("source", A, a); }
  { Vector<T> K(A); Ref k = a; T x; R(x); CASE("fill"); K = x; for (auto &v : k.a) v = S(x); same("fill", K, k); fillr(K, k, L, Sn); K *= x; for (auto &v : k.a) v *= S(x); same("scale", K, k); }
  { CASE("swap %dx%d %dx%d", Sn, L, U, M); Vector<T> X(A), Y(B); bool ok = X.swap(Y); bool want = L == M && Sn == U; if (ok != want) FAIL("swap of %dx%d with %dx%d returned %d", Sn, L, U, M, ok); else { same("swap first", X, want ? b : a); same("swap second", Y, want ? a : b); } }
  for (int q = 0; q < 4; q++) { int s = ri(0, Sn), d = ri(0, U); CASE("stridecopy %d of %dx%d -> %d of %dx%d", s, Sn, L, d, U, M); Vector<T> Y(B); Ref k = b; bool ok = Y.StrideCopy(A, s, d), want = s < Sn && d < U && L == M; if (ok != want) FAIL("StrideCopy %d of %dx%d to %d of %dx%d returned %d", s, Sn, L, d, U, M, ok); else { if (want) for (int i = 0; i < L; i++) k.a[d*M + i] = a.a[s*L + i]; same("stride copy", Y, k); same("stride copy source", A, a); } }
  { int lo = ri(0, L - 1), hi = ri(lo, L - 1); CASE("copysub [%d,%d] of %d into %d", lo, hi, L, M); Vector<T> Y(M), Z(L); Ref z; fillr(Z, z, L, 1); Y.CopySub(Z, lo, hi); if (Y.size() < hi - lo + 1) FAIL("CopySub size"); else for (int i = lo; i <= hi; i++) if (!near(S(Y[i - lo]), z.a[i])) { FAIL("CopySub [%d,%d] element %d", lo, hi, i - lo); break; } }
  { CASE("newsize"); Vector<T> Y(B); Y.newsize(L*Sn, Sn); Ref k; if (Y.strides() != Sn || Y.lsize() != L) FAIL("newsize %dx%d -> %dx%d gave %d strides of %d", U, M, Sn, L, (int)Y.strides(), (int)Y.lsize()); else { fillr(Y, k, L, Sn); same("newsize", Y, k); Y.newsize(L*Sn, Sn); same("newsize to the same shape keeps content", Y, k); } Vector<T> Z(M); Z.newsize(L); fillr(Z, k, L, 1); same("newsize", Z, k); }
  { CASE("retire"); Vector<T> Y(B); Y.LockStorage(); Y.RetireStorage(); same("locked retire", Y, b); Y.UnLockStorage(); Y.ReaquireStorage(); same("reaquire of available storage", Y, b); Y.RetireStorage(); for (int s = 0; s < U; s++) if (Y.begin(s) != NULL) FAIL("retire"); Y.ReaquireStorage(); Ref k; if (Y.size() != M*U || Y.strides() != U) FAIL("reaquire shape"); bool null = false; for (int s = 0; s < U; s++) null |= Y.begin(s) == NULL; if (null) FAIL("reaquire without storage"); else { fillr(Y, k, M, U); same("reaquire", Y, k); } }
  { CASE("strideref"); XV<T> Y; int s = ri(0, Sn - 1); if (!Y.ref(A, s)) FAIL("StrideRef refused"); else { Ref k; k.L = L; k.S = 1; k.a.assign(a.a.begin() + s*L, a.a.begin() + (s + 1)*L); same("stride reference", Y, k); if (Y.begin(0) != A.begin(s)) FAIL("stride reference does not alias"); } XV<T> Z(L*Sn, Sn); int n = ri(0, 2*L*Sn); Z.down(n); if (Z.size() != std::min(n, L*Sn)) FAIL("downsize %d of %d gave %d", n, L*Sn, (int)Z.size()); }
  same("A at end", A, a);
  { Vector<T> X(L), Y(L); Ref x, y, z; fillr(X, x, L, 1); fillr(Y, y, L, 1); z = x; T s; R(s); CASE("arith %d", L);
    { Vector<T> Z = X + Y; for (int i = 0; i < L; i++) z.a[i] = x.a[i] + y.a[i]; same("a+b", Z, z); } { Vector<T> Z = X - Y; for (int i = 0; i < L; i++) z.a[i] = x.a[i] - y.a[i]; same("a-b", Z, z); } { Vector<T> Z = elementwise_mult(X, Y); for (int i = 0; i < L; i++) z.a[i] = x.a[i] * y.a[i]; same("a.*b", Z, z); }
    { Vector<T> Z(X); Vector<T> W = (Z += Y); for (int i = 0; i < L; i++) z.a[i] = x.a[i] + y.a[i]; same("a+=b", Z, z); same("value of a+=b", W, z); } { Vector<T> Z(X); Vector<T> W = (Z -= Y); for (int i = 0; i < L; i++) z.a[i] = x.a[i] - y.a[i]; same("a-=b", Z, z); same("value of a-=b", W, z); }
    { Vector<T> Z(X); Z += s; for (int i = 0; i < L; i++) z.a[i] = x.a[i] + S(s); same("a+=s", Z, z); } { Vector<T> Z(X); Z -= s; for (int i = 0; i < L; i++) z.a[i] = x.a[i] - S(s); same("a-=s", Z, z); }
    cd d = 0; for (int i = 0; i < L; i++) d += x.a[i] * y.a[i]; if (!near(S(dot_prod(X, Y)), d)) FAIL("dot_prod of length %d", L); { Vector<T> F(L, s); for (auto &v : z.a) v = S(s); same("fill ctor", F, z); } { Vector<T> F(L, X.begin(0)); same("array ctor", F, x); } same("x", X, x); same("y", Y, y); }
}
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 3000 && g_fail < 5; it++) { run<double>(); run<dcomplex>();
    int L = ri(1, 9); cVec X(L), Y(L); Ref x, y; fillr(X, x, L, 1); fillr(Y, y, L, 1); cd d = 0; for (int i = 0; i < L; i++) d += std::conj(x.a[i]) * y.a[i]; CASE("inner"); if (!near(S(X * Y), d)) FAIL("inner product of length %d", L); T: ; dVec N(L); double q = 0; for (int i = 0; i < L; i++) { N[i] = rd(); q += N[i]*N[i]; } if (!near(norm(N), std::sqrt(q))) FAIL("norm"); dcomplex s(rd(), rd()); cVec W = s * X; for (int i = 0; i < L; i++) if (!near(S(W[i]), S(s)*x.a[i])) FAIL("scalar*vector"); }
  puts("done"); return 0; }
