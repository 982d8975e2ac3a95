// C03: sign test, conversion to double, resize
#include "vh.hpp"
#include "sizes.hpp"
#include "HEAAN/core.h"
#include "HEAAN/bootstrap.h"
namespace vh {

template <int K> void value(Z_Q<K> &A, int m) {
  const int n = (K + 63) / 64;
  if (m == 0) A.setzero();
  else if (m == 1) { A.setzero(); A.data[(K - 1) / 64] = 1ULL << ((K - 1) % 64); }              // -2^(k-1)
  else if (m == 2) { for (int i = 0; i < n; ++i) A.data[i] = ~0ULL; if (K % 64) A.data[n - 1] >>= 64 - K % 64; }  // -1
  else if (m == 3) { for (int i = 0; i < n; ++i) A.data[i] = ~0ULL; int r = (K - 1) % 64; A.data[n - 1] = r ? ~0ULL >> (64 - r) : 0; } // 2^(k-1)-1
  else if (m == 4) { A.setzero(); A.data[0] = 1; }
  else if (m < 12) {                                  // a value of fewer bits, either sign
    randz(A, m % 2); int b = 1 + (int)rng.below(K);
    for (int i = b; i < K; ++i) A.data[i / 64] &= ~(1ULL << (i % 64));
    if (m % 3 == 0) { for (int i = 0; i < n; ++i) A.data[i] = ~A.data[i]; if (K % 64) A.data[n - 1] &= (1ULL << (K % 64)) - 1; }
  } else randz(A, m % 4);
}
template <int F, int T> struct P {
  static void run() {
    const int reps = thorough ? 60 : (F + T < 700 ? 16 : 13);
    for (int m = 0; m < reps; ++m) {
      Z_Q<F> x, x0; Z_Q<T> r; value(x, m); x0 = x; randz(r, 1);
      resize(x, r);
      Ev("resize").i("f", F).i("t", T).raw("x", vh::z(x0)).z("r", r).b("same", !memcmp(&x, &x0, sizeof x)).end();
    }
  }
};
template <int F, int T> struct A {
  static void run() {
    for (int v = 0; v < (1 << F); ++v) { Z_Q<F> x; Z_Q<T> r; x.data[0] = v; r.data[0] = ~0ULL; resize(x, r); Ev("resize").i("f", F).i("t", T).z("x", x).z("r", r).b("same", true).end(); }
  }
};
template <int K> struct S1 {
  static void run() {
    for (int m = 0; m < (thorough ? 400 : 60); ++m) {
      Z_Q<K> x, x0; value(x, m); x0 = x;
      bool r = x.is_bigger_than_halfQ();
      Ev("isneg").i("k", K).raw("x", vh::z(x0)).b("r", r).b("same", !memcmp(&x, &x0, sizeof x)).end();
      if constexpr (K <= 1000) {
        double d = (double)x;
        Ev("dbl").i("k", K).raw("x", vh::z(x0)).raw("r", fix(d, 0)).b("same", !memcmp(&x, &x0, sizeof x)).end();
      } else {                                            // the modulus exceeds double's range, the value does not
        const int b = m % 5 == 0 ? (int)rng.below(64) : m % 5 == 1 ? 900 + (int)rng.below(101) : (int)rng.below(1001);
        for (int i = b; i < K; ++i) x.data[i / 64] &= ~(1ULL << (i % 64));
        if (m & 1) {                                      // two's complement of it
          for (int i = 0; i < x.get_length(); ++i) x.data[i] = ~x.data[i];
          for (int i = 0; i < x.get_length() && ++x.data[i] == 0; ++i) {}
          if (K % 64) x.data[x.get_length() - 1] &= (1ULL << (K % 64)) - 1;
        }
        x0 = x; double d = (double)x;
        if (std::isfinite(d)) Ev("dbl").i("k", K).raw("x", vh::z(x0)).raw("r", fix(d, 0)).b("same", !memcmp(&x, &x0, sizeof x)).end();
        else Ev("dblinf").i("k", K).raw("x", vh::z(x0)).end();
      }
    }
  }
};
template <int F, int T, int N> void poly() {
  for (int rep = 0; rep < 5; ++rep) {
    static R_Q_square<F, N> x, x0; static R_Q_square<T, N> r;
    for (int c = 0; c < 2; ++c) for (int i = 0; i < N; ++i) { value(x[c][i], (int)rng.below(16)); randz(r[c][i], 1); }
    memcpy((void *)&x0, (void *)&x, sizeof x);
    if (rep == 0) resize(x, r); else if (rep == 1) { resize(x[0], r[0]); resize(x[1], r[1]); } else if constexpr (F <= T) mod_raise<F, T, N>(x, r); else resize(x, r);
    bool same = !memcmp((void *)&x, (void *)&x0, sizeof x);
    for (int c = 0; c < 2; ++c)
      Ev("resizep").i("f", F).i("t", T).seq("x", N, [&](int i) { return vh::z(x0[c][i]); }).seq("r", N, [&](int i) { return vh::z(r[c][i]); }).b("same", same).end();
  }
}
int drive(int argc, char **argv) {
  init(argc, argv);
  pairs<P>(Sizes{}, Sizes{});
  offlist<P>(std::make_integer_sequence<int, 720>{});
  pairs<A>(Tiny{}, Tiny{});
  singles<S1>(Sizes{});
  singles<S1>(L_<3, 4, 34, 52, 53, 54, 62, 67, 96, 160, 384, 512, 640, 900, 1000, 1024, 1025, 1088, 1100, 1279, 2900>{});
  if (VH_PART == 0) { poly<60, 120, 4>(); poly<120, 60, 4>(); poly<64, 128, 8>(); poly<1450, 60, 2>(); }
  if (VH_PART == 1) { poly<60, 1450, 4>(); poly<65, 64, 4>(); poly<63, 65, 4>(); poly<100, 100, 4>(); poly<38, 300, 16>(); }
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
