#include "math/typedefs.h"
#include "math/dcomplex.h"
#include "common.h"
using namespace QDLIB;
static cd S(dcomplex z) { return cd(z._real, z._imag); }
static dcomplex D(cd z) { return dcomplex(z.real(), z.imag()); }
static double val() { switch (ri(0, 7)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return rd(-1e3, 1e3); case 4: return rd(-1e-3, 1e-3); default: return rd(); } }
#define CK(what, got, want) do { cd _g = got, _w = want; if (!near(_g, _w, 1e-10)) FAIL("%s a=(%.17g,%.17g) b=(%.17g,%.17g) x=%.17g: expected (%g,%g) got (%g,%g)", what, a.real(), a.imag(), b.real(), b.imag(), x, _w.real(), _w.imag(), _g.real(), _g.imag()); } while (0)
int main(int c, char **v) { init(c, v);
  for (int it = 0; it < 200000 && g_fail < 5; it++) {
    cd a(val(), val()), b(val(), val()); double x = val();
    if (it % 5 == 1) a = std::conj(b); if (it % 11 == 2) a = b; if (it % 13 == 3) a = -b;
    dcomplex A = D(a), B = D(b);
    CK("a+b", S(A + B), a + b); CK("a-b", S(A - B), a - b); CK("a*b", S(A * B), a * b); CK("a+x", S(A + x), a + x); CK("a-x", S(A - x), a - x);
    CK("a*x", S(A * x), a * x); CK("x*a", S(x * A), a * x); CK("conj", S(conj(A)), std::conj(a)); CK("conj()", S(A.conj()), std::conj(a));
    if (std::abs(b) > 0) { CK("a/b", S(A / B), a / b); CK("x/b", S(x / B), x / b); dcomplex t = A; t /= B; CK("a/=b", S(t), a / b); t = B; t /= t; CK("b/=b", S(t), cd(1)); }
    if (x != 0) CK("a/x", S(A / x), a / x);
    dcomplex t = A; t += B; CK("+=", S(t), a + b); t = A; t -= B; CK("-=", S(t), a - b); t = A; t *= B; CK("*=", S(t), a * b); t = A; t *= x; CK("*=x", S(t), a * x);
    t = A; t += t; CK("a+=a", S(t), a + a); t = A; t *= t; CK("a*=a", S(t), a * a); t = A; t -= t; CK("a-=a", S(t), cd(0));
    t = A; t = x; CK("=x", S(t), cd(x)); t = A; t = 3; CK("=3", S(t), cd(3)); t = A; t = QDLIB::I; CK("=I", S(t), cd(0, 1)); t = A; t.conjugate(); CK("conjugate", S(t), std::conj(a));
    t = A; t.real(x); CK("real(x)", S(t), cd(x, a.imag())); t = A; t.imag(x); CK("imag(x)", S(t), cd(a.real(), x)); CK("real()", cd(A.real(), A.imag()), a);
    t = A; t = B; CK("a=b", S(t), b); CK("ctor", S(dcomplex(x)), cd(x));
    CK("cabs", cd(QDLIB::cabs(A)), cd(std::abs(a))); CK("cexpI", S(cexpI(x)), std::exp(cd(0, x)));
    if (std::abs(a.real()) < 50) CK("cexp", S(QDLIB::cexp(A)), std::exp(a));
    if (std::abs(a) > 0) { cd g = std::abs(a) * std::exp(cd(0, phase(A))); if (!near(g, a, 1e-6)) FAIL("phase a=(%.17g,%.17g): |a|exp(i phase)=(%g,%g)", a.real(), a.imag(), g.real(), g.imag()); }
    dcomplex s = QDLIB::csqrt(A); { cd g = S(s) * S(s); if (!near(g, a, 1e-6)) FAIL("csqrt a=(%.17g,%.17g): squared (%g,%g)", a.real(), a.imag(), g.real(), g.imag()); }
    CK("I*a", S(QDLIB::I * A), cd(0, 1) * a); CK("a*I", S(A * QDLIB::I), cd(0, 1) * a); CK("I*x", S(QDLIB::I * x), cd(0, x)); CK("x*I", S(x * QDLIB::I), cd(0, x)); CK("I*I", cd(QDLIB::I * QDLIB::I), cd(-1));
    int n = ri(-20, 20); cd w[4] = {cd(1), cd(0, 1), cd(-1), cd(0, -1)};
    x = n; CK("I^n", S(cpow(QDLIB::I, n)), w[((n % 4) + 4) % 4]);
  }
  puts("done"); return 0; }
