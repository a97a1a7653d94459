// helpers for concrete replay drivers
#ifndef DV_COMMON_H
#define DV_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <complex>
#include <vector>
#include <string>
#include <sstream>
#include <iostream>
typedef std::complex<double> cd;
static unsigned long long g_s = 88172645463325252ULL;
static int g_fail = 0; static bool g_thorough = false;
static inline unsigned long long rnd() { g_s ^= g_s << 13; g_s ^= g_s >> 7; g_s ^= g_s << 17; return g_s; }
static inline double rd(double a = -2, double b = 2) { return a + (b - a) * ((rnd() >> 11) * (1.0 / 9007199254740992.0)); }
static inline int ri(int a, int b) { return a + (int)(rnd() % (unsigned long long)(b - a + 1)); }
static inline cd rc() { double a = rd(), b = rd(); return cd(a, b); }
static inline bool near(double a, double b, double tol = 1e-9) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}
static inline bool near(cd a, cd b, double tol = 1e-9) { return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b)); }
#define CASE(...) do { printf("CASE "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); } while (0)
#define FAIL(...) do { if (g_fail < 20) { printf("FAIL "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); } g_fail++; } while (0)
static void init(int argc, char **argv) {
  if (argc > 1) g_s ^= 0x9E3779B97F4A7C15ULL * (unsigned long long)(atoi(argv[1]) + 1);
  for (int i = 0; i < 10; i++) rnd();
  if (argc > 2 && std::string(argv[2]) == "thorough") g_thorough = true;
}
#endif
