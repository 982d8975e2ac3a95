// C19: change of basis and homomorphic evaluation of Chebyshev polynomials
#include "he.hpp"
#include "capture.hpp"
#include "HEAAN/poly.h"
namespace vh {
template <int K, int N> void own_ct(const int *s, const R_Q<K, N> &pt, int mask, R_Q_square<K, N> &ct) {
  form_poly(ct[1], mask); ct[0] = pt; own_muladd(s, ct[1], ct[0], true);
}
// real slots of [-1,1], at scale 2^ld: 0 uniform, 1 ends of the interval, 2 one value everywhere, 3 near the ends, 4 zero, 5 small, 6 zeros of Chebyshev polynomials
template <int K, int G> void real_slots(R_Q<K, 1 << G> &p, int mode, int ld) {
  const int N = 1 << G; std::vector<long double> z(N / 2); double v = 2 * rng.unit() - 1;
  for (int j = 0; j < N / 2; ++j) {
    double r = 2 * rng.unit() - 1;
    z[j] = mode == 0 ? r : mode == 1 ? (r < 0 ? -1 : 1) : mode == 2 ? v : mode == 3 ? (r < 0 ? -1 + r * r / 256 : 1 - r * r / 256) : mode == 4 ? 0 : mode == 5 ? ldexp(r, -20) : cosl(M_PIl * (2 * (long)rng.below(64) + 1) / 128);
  }
  long t = 1; std::vector<long> g5(N / 2); for (int j = 0; j < N / 2; ++j) { g5[j] = t; t = t * 5 % (2 * N); }
  for (int i = 0; i < N; ++i) {
    long double a = 0; for (int j = 0; j < N / 2; ++j) a += z[j] * cosl(M_PIl * (g5[j] * i % (2 * N)) / N);
    p[i] = own_small<K>(llrintl(a * 2 / N * ldexpl(1, ld)));
  }
}
// coefficients: 0 uniform, 1 all positive, 2 all negative, 3 one, 4 sparse, 5 largest that fit a word, 6 zero, 7 decaying
void coefs(double *u, int n, int mode, double m) {
  int h = (int)rng.below(n);
  for (int i = 0; i < n; ++i) { double r = 2 * rng.unit() - 1; u[i] = mode == 0 ? r : mode == 1 ? fabs(r) : mode == 2 ? -fabs(r) : mode == 3 ? (i == h ? r : 0) : mode == 4 ? (rng.below(4) ? 0 : r) : mode == 5 ? (r < 0 ? -m : m) : mode == 6 ? 0 : r * exp(-0.2 * i); }
}
void tou(int n, int mode) {
  std::vector<double> c(n), u(n, 7.5); bool exact = mode < 4;
  for (int i = 0; i < n; ++i) c[i] = mode == 0 ? (double)((long)rng.below(21) - 10) : mode == 1 ? ldexp((double)((long)rng.below(4001) - 2000), -8) : mode == 2 ? (i == n - 1) : mode == 3 ? (rng.below(2) ? 1 : -1) : mode == 4 ? 2 * rng.unit() - 1 : (2 * rng.unit() - 1) * exp(-0.3 * i);
  std::vector<double> c0 = c; convert_frc_tou(c.data(), u.data(), n);
  Ev("tou").dbl("c", c0.data(), n, 128).dbl("u", u.data(), n, 128).b("exact", exact).b("same", c == c0).end();
}
template <int K, int G, int LD, int LV> struct T {
  static constexpr int N = 1 << G;
  typedef R_Q_square<K, N> Ct;
  template <int I> using Evk = R_Q_square<2 * (K - (I - 1) * LD), N>;
  static inline Ct in; static inline R_Q<K, N> pt; static inline R_Q_square<K - LV * LD, N> out; static inline int s[N], s2[N]; static inline double u[1 << LV];
  static inline Evk<1> e1; static inline Evk<2> e2; static inline Evk<LV >= 3 ? 3 : 1> e3; static inline Evk<LV >= 4 ? 4 : 1> e4; static inline Evk<LV >= 5 ? 5 : 1> e5; static inline Evk<LV >= 6 ? 6 : 1> e6; static inline Evk<LV >= 7 ? 7 : 1> e7;
  template <int I> static void key(R_Q_square<2 * (K - (I - 1) * LD), N> &e, int r) {
    if (r % 3 == 0) HEAAN<K - (I - 1) * LD, N>::swkgen(s2, s, e); else own_swk<K - (I - 1) * LD, N>(s2, s, r % 4, (r * I) % 9, e);
  }
  static void call() {
    if constexpr (LV == 2) eval_poly_deg3<K, N, LD>(u, in, e1, e2, out);
    if constexpr (LV == 3) eval_poly_deg7<K, N, LD>(u, in, e1, e2, e3, out);
    if constexpr (LV == 4) eval_poly_deg15<K, N, LD>(u, in, e1, e2, e3, e4, out);
    if constexpr (LV == 5) eval_poly_deg31<K, N, LD>(u, in, e1, e2, e3, e4, e5, out);
    if constexpr (LV == 6) eval_poly_deg63<K, N, LD>(u, in, e1, e2, e3, e4, e5, e6, out);
    if constexpr (LV == 7) eval_poly_deg127<K, N, LD>(u, in, e1, e2, e3, e4, e5, e6, e7, out);
  }
  static void run(int R) {
    for (int r = 0; r < R; ++r) {
      own_key<N>(s, r % 6); own_square<N>(s, s2);
      key<1>(e1, r); key<2>(e2, r + 1); if constexpr (LV >= 3) key<3>(e3, r + 2); if constexpr (LV >= 4) key<4>(e4, r + 3); if constexpr (LV >= 5) key<5>(e5, r); if constexpr (LV >= 6) key<6>(e6, r + 1); if constexpr (LV >= 7) key<7>(e7, r + 2);
      real_slots<K, G>(pt, r % 7, LD); own_ct(s, pt, r % 9, in);
      const int n = 1 << LV; int cm = (r * 5 + r / 8) % 9; double m = std::min(15.5, ldexp(1, 62 - LD));
      if (cm < 8) coefs(u, n, cm, m);
      else { std::vector<double> c(n); coefs(c.data(), n, 7, m); convert_frc_tou(c.data(), u, n); double b = 0; for (double v : u) b = std::max(b, fabs(v)); for (double &v : u) if (b > m) v *= m / b; }
      for (int h = 0; h < 2; ++h) form_poly(out[h], 8);
      std::vector<double> u0(u, u + n); Copy_<Ct> ci(in); Copy_<Evk<1>> c1(e1); Copy_<Evk<2>> c2(e2);
      Ev("begin").i("k", K).i("g", G).i("ld", LD).i("lv", LV).ints("s", s, N).dbl("u", u, n, 128).raw("in", js(in)).end();
      std::string txt = captured([] { call(); });
      for (int i = 0; i < LV; ++i) Ev("level").end();
      Ev("end").raw("out", js(out)).b("silent", txt.empty()).b("same", ci.same() && c1.same() && c2.same() && std::vector<double>(u, u + n) == u0).end();
    }
  }
};
int drive(int argc, char **argv) {
  init(argc, argv);
  const int X = thorough ? 120 : 12;
  for (int n = 4; n <= 1024; n *= 2) for (int r = 0; r < (thorough ? 30 : 6); ++r) tou(n, r % 6);
#if VH_PART == 0
  T<170, 2, 50, 2>::run(4 * X); T<200, 3, 60, 2>::run(3 * X); T<130, 4, 30, 2>::run(2 * X); T<64 + 90, 5, 40, 2>::run(X);
#elif VH_PART == 1
  T<240, 3, 55, 3>::run(3 * X); T<170, 4, 30, 3>::run(2 * X); T<260, 5, 60, 3>::run(X);
#elif VH_PART == 2
  T<280, 2, 50, 4>::run(3 * X); T<310, 4, 60, 4>::run(2 * X); T<200, 3, 35, 4>::run(2 * X);
#elif VH_PART == 3
  T<320, 3, 50, 5>::run(2 * X); T<370, 4, 60, 5>::run(X); T<256, 2, 37, 5>::run(2 * X);
#elif VH_PART == 4
  T<370, 3, 50, 6>::run(X); T<310, 2, 40, 6>::run(2 * X); T<430, 4, 60, 6>::run(X);
#elif VH_PART == 5
  T<170, 9, 50, 2>::run(2 + X / 20); T<260, 8, 60, 3>::run(2 + X / 20); T<310, 7, 60, 4>::run(1 + X / 20); T<320, 9, 50, 5>::run(1 + X / 60);
#elif VH_PART == 6
  T<470, 8, 56, 7>::run(1 + X / 60); T<370, 9, 50, 6>::run(1);
#else
  T<420, 3, 50, 7>::run(X); T<490, 2, 60, 7>::run(X); T<360, 4, 42, 7>::run(X);
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
