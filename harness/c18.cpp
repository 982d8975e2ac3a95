// C18: CoeffToSlot and SlotToCoeff
#include "he.hpp"
#include "HEAAN/bootstrap.h"
namespace vh {
template <int K, int N> void own_ct(const int *s, const R_Q<K, N> &pt, int mask, R_Q_square<K, N> &ct) {
  form_poly(ct[1], mask); ct[0] = pt; own_muladd(s, ct[1], ct[0], true);
}
// coefficients below 2^b: 0 uniform, 1 one of them, 2 all largest, 3 both signs largest, 4 mixed magnitudes, 5 small, 6 zero
template <int K, int N> void message(R_Q<K, N> &p, int mode, int b) {
  int u = (int)rng.below(N);
  for (int i = 0; i < N; ++i) {
    bool neg = rng.below(2); int sh = b - 60 > 0 ? b - 60 : 0; long M = b > 60 ? (1L << 60) - 1 : (1L << b) - 1;
    long v = mode == 0 ? (long)(rng() % (uint64_t)(M + 1)) : mode == 1 ? (i == u ? M : 0) : mode == 2 ? M : mode == 3 ? M : mode == 4 ? (long)(rng() % (uint64_t)(M + 1)) >> rng.below(50) : mode == 5 ? (long)rng.below(4) : 0;
    p[i] = own_small<K>(mode != 2 && neg ? -v : v, mode == 5 ? 0 : sh);
  }
}
template <int K, int G, int LD, int GR> struct T {
  static constexpr int N = 1 << G, st = (G - 1) / GR;
  typedef R_Q_square<K, N> Ct;
  static inline Ct in, o[2], back; static inline R_Q<K, N> pt; static inline int s[N];
  static Ev ev(const char *e) { Ev x(e); x.i("k", K).i("g", G).i("ld", LD).i("G", GR).ints("s", s, N); return x; }
  static void junk() { for (int h = 0; h < 2; ++h) { form_poly(o[0][h], 8); form_poly(o[1][h], 8); form_poly(back[h], 8); } }
  // b: bits of the coefficients, such that b + log2(N) + 2 stages fit
  static void run(int R, int b, bool round) {
    for (int r = 0; r < R; ++r) {
      own_key<N>(s, r % 6); message(pt, r % 7, r % 2 ? b : b < 40 ? b : 40); own_ct(s, pt, r % 9, in); junk();
      { Copy_<Ct> ci(in); Copy_<int[N]> cs(s); CoeffToSlot<K, G, LD, GR>(in, s, o);
        ev("cts").raw("in", js(in)).raw("out0", js(o[0])).raw("out1", js(o[1])).b("same", ci.same() && cs.same()).end(); }
      if (round) {
        Copy_<Ct[2]> co(o); SlotToCoeff<K, G, LD, GR>(o[0], o[1], s, back);
        ev("stc").raw("in0", js(o[0])).raw("in1", js(o[1])).raw("out", js(back)).b("same", co.same()).end();
        ev("round").raw("in", js(in)).raw("out", js(back)).end();
      }
      // slots of any kind, complex ones included
      message(pt, (r + 3) % 7, b); own_ct(s, pt, (r + 4) % 9, o[0]); message(pt, (r / 2) % 7, b); own_ct(s, pt, (r / 3) % 9, o[1]);
      for (int h = 0; h < 2; ++h) form_poly(back[h], 8);
      Copy_<Ct[2]> co(o); SlotToCoeff<K, G, LD, GR>(o[0], o[1], s, back);
      ev("stc").raw("in0", js(o[0])).raw("in1", js(o[1])).raw("out", js(back)).b("same", co.same()).end();
    }
  }
};
int drive(int argc, char **argv) {
  init(argc, argv);
  const int X = thorough ? 80 : 12;
#if VH_PART == 0
  T<300, 3, 40, 1>::run(3 * X, 60, true); T<300, 3, 50, 2>::run(3 * X, 120, true);
#elif VH_PART == 1
  T<450, 4, 45, 1>::run(2 * X, 100, true); T<200, 4, 30, 3>::run(2 * X, 70, true);
#elif VH_PART == 2
  T<520, 5, 50, 1>::run(2 * X, 80, true); T<300, 5, 60, 2>::run(2 * X, 40, true);
#elif VH_PART == 3
  T<200, 5, 55, 4>::run(2 * X, 50, true); T<130, 4, 22, 3>::run(2 * X, 60, true); T<250, 5, 22, 2>::run(2 * X, 110, true);
#elif VH_PART == 4
  T<450, 6, 40, 1>::run(X, 30, true); T<256, 3, 60, 1>::run(3 * X, 8, true);
#elif VH_PART == 5
  T<400, 7, 50, 2>::run(X / 2, 70, true); T<128, 3, 29, 2>::run(3 * X, 50, true);
#elif VH_PART == 6
  T<350, 9, 45, 4>::run(1 + X / 12, 40, true); T<300, 9, 55, 4>::run(1 + X / 40, 50, true);
#elif VH_PART == 7
  T<450, 9, 40, 2>::run(1 + X / 40, 60, true); T<580, 8, 36, 1>::run(1 + X / 40, 40, true); T<380, 10, 50, 3>::run(1 + X / 40, 40, true);
#else
  T<300, 7, 60, 3>::run(X / 2, 40, true); T<640, 4, 60, 1>::run(2 * X, 200, true);
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
