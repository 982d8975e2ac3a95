// C02: shift_right, shift_left and RS over pairs of sizes
#include "vh.hpp"
#include "sizes.hpp"
#include "HEAAN/core.h"
namespace vh {

// residues mod 2^F whose low D bits are near the rounding tie and whose high bits may ripple
template <int F> void value(Z_Q<F> &A, int m, int D) {
  const int n = (F + 63) / 64;
  randz(A, m % 4);
  auto setbit = [&](int b, bool v) { if (b >= 0 && b < F) { if (v) A.data[b / 64] |= 1ULL << (b % 64); else A.data[b / 64] &= ~(1ULL << (b % 64)); } };
  int low = (m / 4) % 6;                           // 0 as is, 1 zero, 2 half, 3 half-1, 4 ones, 5 half+1
  if (low) for (int b = 0; b < D; ++b) setbit(b, low == 4 || (low == 3 && b < D - 1) || (low == 2 && b == D - 1) || (low == 5 && (b == D - 1 || b == 0)));
  int high = (m / 24) % 3;                         // 0 as is, 1 ones, 2 zero
  if (high) for (int b = D; b < F; ++b) setbit(b, high == 1);
  (void)n;
}
template <int F, int T> struct P {
  static void run() {
    const int reps = thorough ? 72 : (F + T < 600 ? 16 : 8);
    for (int m = 0; m < reps; ++m) {
      Z_Q<F> x, x0; Z_Q<T> r;
      int mm = m < reps - 4 && reps < 72 ? (int)rng.below(72) : m;
      if constexpr (F >= T) { value(x, mm, F - T); x0 = x; randz(r, 2); shift_right<F, T>(x, r);
        Ev("shr").i("f", F).i("t", T).raw("x", vh::z(x0)).z("r", r).b("same", !memcmp(&x, &x0, sizeof x)).end(); }
      if constexpr (F <= T) { value(x, mm, 0); x0 = x; randz(r, 2); shift_left<F, T>(x, r);
        Ev("shl").i("f", F).i("t", T).raw("x", vh::z(x0)).z("r", r).b("same", !memcmp(&x, &x0, sizeof x)).end(); }
    }
  }
};
template <int F, int T> struct A {                 // every residue
  static void run() {
    for (int v = 0; v < (1 << F); ++v) {
      Z_Q<F> x; Z_Q<T> r; x.data[0] = v;
      if constexpr (F >= T) { r.data[0] = ~0ULL; shift_right<F, T>(x, r); Ev("shr").i("f", F).i("t", T).z("x", x).z("r", r).b("same", true).end(); }
      if constexpr (F <= T) { r.data[0] = ~0ULL; shift_left<F, T>(x, r); Ev("shl").i("f", F).i("t", T).z("x", x).z("r", r).b("same", true).end(); }
    }
  }
};
template <int F, int T, int N> void rs() {
  for (int rep = 0; rep < 6; ++rep) {
    static R_Q_square<F, N> x, x0; static R_Q_square<T, N> r;
    for (int c = 0; c < 2; ++c) for (int i = 0; i < N; ++i) { value(x[c][i], (int)rng.below(72), F - T); randz(r[c][i], 1); }
    memcpy((void *)&x0, (void *)&x, sizeof x);
    RS<F, T, N>(x, r);
    auto both = [&](auto &ct) { std::string s = "["; for (int c = 0; c < 2; ++c) { s += c ? ",[" : "["; for (int i = 0; i < N; ++i) { if (i) s += ","; s += vh::z(ct[c][i]); } s += "]"; } return s + "]"; };
    Ev("rs").i("f", F).i("t", T).i("n", N).raw("x", both(x0)).raw("r", both(r)).b("same", !memcmp((void *)&x, (void *)&x0, sizeof x)).end();
  }
}
int drive(int argc, char **argv) {
  init(argc, argv);
  pairs<P>(Sizes{}, Sizes{});
  offlist<P>(std::make_integer_sequence<int, 720>{});
  pairs<A>(Tiny{}, Tiny{});
  if (VH_PART == 0) { rs<120, 60, 4>(); rs<128, 64, 8>(); rs<200, 137, 2>(); rs<129, 128, 4>(); }
  if (VH_PART == 1) { rs<1450, 1390, 4>(); rs<2900, 1450, 2>(); rs<100, 100, 4>(); rs<65, 1, 4>(); rs<60, 38, 16>(); }
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
