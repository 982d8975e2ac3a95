// C20: EvalMod
#include "he.hpp"
#include "HEAAN/bootstrap.h"
namespace vh {
template <int K, int N> void own_ct(const int *s, const R_Q<K, N> &pt, int mask, R_Q_square<K, N> &ct) {
  form_poly(ct[1], mask); ct[0] = pt; own_muladd(s, ct[1], ct[0], true);
}
// integers: 0 any of -23..23, 1 the largest of either sign, 2 zero, 3 one in every slot, 4 all -23, 5 consecutive.  Distances: 0 uniform, 1 largest, 2 largest negative, 3 small, 4 zero, 5 every magnitude
template <int K, int G> void slots(R_Q<K, 1 << G> &p, int im, int dm, int ld) {
  const int N = 1 << G; std::vector<long double> z(N / 2); int one = (int)rng.below(47) - 23, base = (int)rng.below(47);
  for (int j = 0; j < N / 2; ++j) {
    int n = im == 0 ? (int)rng.below(47) - 23 : im == 1 ? (rng.below(2) ? 23 : -23) : im == 2 ? 0 : im == 3 ? one : im == 4 ? -23 : (base + j) % 47 - 23;
    double d = dm == 0 ? rng.sym() / 64 : dm == 1 ? 1. / 64 : dm == 2 ? -1. / 64 : dm == 3 ? rng.sym() * 1e-5 : dm == 4 ? 0 : ldexp(rng.sym(), -6 - (int)rng.below(30));
    z[j] = n + (long double)d;
  }
  long t = 1; std::vector<long> g5(N / 2); for (int j = 0; j < N / 2; ++j) { g5[j] = t; t = t * 5 % (2 * N); }
  for (int i = 0; i < N; ++i) {
    long double a = 0; for (int j = 0; j < N / 2; ++j) a += z[j] * cosl(M_PIl * (g5[j] * i % (2 * N)) / N);
    p[i] = own_small<K>(llrintl(a * 2 / N * ldexpl(1, ld - 8)), 8);
  }
}
template <int K, int G, int LD> struct T {
  static constexpr int N = 1 << G;
  typedef R_Q_square<K, N> Ct;
  template <int I> using Evk = R_Q_square<2 * (K - I * LD), N>;
  static inline Ct in; static inline R_Q<K, N> pt; static inline R_Q_square<K - 12 * LD, N> out; static inline int s[N], s2[N];
  static inline Evk<1> e1; static inline Evk<2> e2; static inline Evk<3> e3; static inline Evk<4> e4; static inline Evk<5> e5; static inline Evk<6> e6; static inline Evk<7> e7; static inline Evk<8> e8; static inline Evk<9> e9; static inline Evk<10> e10; static inline Evk<11> e11;
  template <int I> static void key(Evk<I> &e, int r) {
    if (r % 2) HEAAN<K - I * LD, N>::swkgen(s2, s, e); else own_swk<K - I * LD, N>(s2, s, (r / 2) % 4, (r * I) % 9, e);
  }
  static void put(const char *v, bool same) { Ev("evalmod").str("v", v).i("k", K).i("g", G).i("ld", LD).ints("s", s, N).raw("in", js(in)).raw("out", js(out)).b("same", same).end(); for (int h = 0; h < 2; ++h) form_poly(out[h], 8); }
  static void run(int R) {
    for (int r = 0; r < R; ++r) {
      own_key<N>(s, r % 6); own_square<N>(s, s2);
      slots<K, G>(pt, (r + r / 6) % 6, (r / 2) % 6, LD); own_ct(s, pt, r % 9, in);
      Copy_<Ct> ci(in); Copy_<int[N]> cs(s);
      EvalMod<K, N, LD, 24>(in, s, out); put("s", ci.same() && cs.same());
      key<1>(e1, r); key<2>(e2, r + 1); key<3>(e3, r + 2); key<4>(e4, r + 3); key<5>(e5, r); key<6>(e6, r + 1); key<7>(e7, r + 2); key<8>(e8, r); key<9>(e9, r + 1); key<10>(e10, r); key<11>(e11, r + 3);
      Copy_<Evk<1>> c1(e1); Copy_<Evk<11>> c11(e11);
      EvalMod<K, N, LD, 24>(in, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, out); put("evk", ci.same() && cs.same() && c1.same() && c11.same());
    }
  }
};
int drive(int argc, char **argv) {
  init(argc, argv);
  const int X = thorough ? 80 : 8;
#if VH_PART == 0
  T<800, 3, 60>::run(4 * X);
#elif VH_PART == 1
  T<670, 2, 50>::run(5 * X); T<730, 5, 55>::run(X);
#elif VH_PART == 2
  T<800, 4, 60>::run(2 * X); T<700, 3, 52>::run(X);
#elif VH_PART == 3
  T<620, 3, 45>::run(2 * X); T<832, 2, 61>::run(3 * X);
#elif VH_PART == 4
  T<850, 5, 60>::run(X); T<770, 4, 58>::run(X);
#elif VH_PART == 5
  T<800, 9, 60>::run(1 + X / 20); T<700, 8, 52>::run(1 + X / 20);
#else
  T<1500, 3, 60>::run(X); T<820, 6, 60>::run(X / 4);
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
