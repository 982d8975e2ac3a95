// C22: both bootstrapping pipelines, as the tests put them together
#include "he.hpp"
#include "HEAAN/bootstrap.h"
#include "HEAAN/endecode.h"
#include "impl/message.h"
namespace vh {
template <int K, int N> void own_ct(const int *s, const R_Q<K, N> &pt, int mask, R_Q_square<K, N> &ct) {
  form_poly(ct[1], mask); ct[0] = pt; own_muladd(s, ct[1], ct[0], true);
}
template <int A, int B, int N> void own_cut(const R_Q_square<A, N> &x, R_Q_square<B, N> &y) {
  for (int h = 0; h < 2; ++h) for (int i = 0; i < N; ++i) { for (int w = 0; w < (B + 63) / 64; ++w) y[h][i].data[w] = x[h][i].data[w]; if (B % 64) y[h][i].data[(B - 1) / 64] &= (1ULL << (B % 64)) - 1; }
}
// |z| <= 1: 0 random, 1 ones, 2 zero, 3 unit circle, 4 alternating, 5 small, 6 one slot
template <int G> void message(Message<G> &z, int mode) {
  const int n = 1 << (G - 1); int u = (int)rng.below(n);
  for (int j = 0; j < n; ++j) {
    double r = rng.unit(), a = 2 * M_PI * rng.unit(); if (mode == 1) r = 1, a = 0; if (mode == 2) r = 0; if (mode == 3) r = 1; if (mode == 4) r = 1, a = j % 2 ? M_PI : 0; if (mode == 5) r *= 1e-6; if (mode == 6) r = j == u;
    z.r[j] = r * cos(a); z.i[j] = r * sin(a);
  }
}
template <int K, int G, int LDC, int LDB, int LDS, int GR, int DELTA> struct T {
  static constexpr int N = 1 << G, st = (G - 1) / GR, K1 = K - st * LDC, K2 = K1 - 12 * LDB, K3 = K2 - st * LDS;
  template <int B> using Ct = R_Q_square<B, N>;
  static inline Ct<LDB> in; static inline Ct<K> up, cts[2]; static inline Ct<K1> rs[2]; static inline Ct<K2> em[2], qi[2], stc; static inline Ct<K3> rs2, boot;
  static inline R_Q<LDB, N> pt; static inline int s[N]; static inline Message<G> z;
  template <class X> static void out(const char *e, const X &x, bool same) { Ev(e).raw("out", js(x)).b("same", same).end(); }
  template <class X> static void out2(const char *e, const X (&x)[2], bool same) { Ev(e).raw("out0", js(x[0])).raw("out1", js(x[1])).b("same", same).end(); }
  static void pass() {
    Ev("start").i("k", K).i("g", G).i("G", GR).i("ldc", LDC).i("ldb", LDB).i("lds", LDS).ints("s", s, N).raw("in", js(in)).end();
    for (int h = 0; h < 2; ++h) { form_poly(up[h], 8); form_poly(stc[h], 8); form_poly(rs2[h], 8); form_poly(boot[h], 8); for (int i = 0; i < 2; ++i) { form_poly(cts[i][h], 8); form_poly(rs[i][h], 8); form_poly(em[i][h], 8); form_poly(qi[i][h], 8); } }
    Copy_<int[N]> cs(s);
    { Copy_<Ct<LDB>> c(in); mod_raise<LDB, K, N>(in, up); out("raise", up, c.same()); }
    Copy_<Ct<K>> cu(up);
    CoeffToSlot<K, G, LDC, GR>(up, s, cts); out2("cts", cts, cu.same() && cs.same());
    { Copy_<Ct<K>[2]> c(cts); for (int i = 0; i < 2; ++i) RS<K, K1, N>(cts[i], rs[i]); out2("rs", rs, c.same()); }
    { Copy_<Ct<K1>[2]> c(rs); for (int i = 0; i < 2; ++i) EvalMod<K1, N, LDB, 24>(rs[i], s, em[i]); out2("evalmod", em, c.same() && cs.same()); }
    { Copy_<Ct<K2>[2]> c(em); SlotToCoeff<K2, G, LDS, GR>(em[0], em[1], s, stc); out("stc", stc, c.same() && cs.same()); }
    { Copy_<Ct<K2>> c(stc); RS<K2, K3, N>(stc, rs2); out("rs2", rs2, c.same()); }
    { Copy_<Ct<K1>[2]> c(rs); Copy_<Ct<K2>[2]> d(em); for (int i = 0; i < 2; ++i) { resize(rs[i], qi[i]); qi[i] -= em[i]; } out2("diff", qi, c.same() && d.same()); }
    { Copy_<Ct<K2>[2]> c(qi); SlotToCoeff<K2, G, LDS, GR>(qi[0], qi[1], s, stc); out("stc", stc, c.same() && cs.same()); }
    RS<K2, K3, N>(stc, rs2); out("rs2", rs2, true);
    { Copy_<Ct<K3>> c(rs2); resize(up, boot); boot -= rs2; Ev("sub").raw("out", js(boot)).b("same", c.same() && cu.same()).b("small", LDB == 60).i("delta", DELTA).end(); }
  }
  static void run(int R, int hmax = N) {
    for (int r = 0; r < R; ++r) {
      if (hmax < N) { int h = hmax - (int)rng.below(3); HEAAN<LDB, N>::keygen(h, s); } else own_key<N>(s, r % 6);
      message(z, (r + r / 7) % 7); encode<LDB, G>(z.r, z.i, 1ULL << DELTA, pt);
      if (r % 3 == 1) HEAAN<LDB, N>::enc(pt, s, in); else own_ct(s, pt, (r / 2) % 9, in);
      pass();
      for (int t = 0; t < (r % 2 ? 1 : 2); ++t) { if (r % 4 < 2) own_cut(boot, in); else own_cut(rs2, in); pass(); }
    }
  }
};
int drive(int argc, char **argv) {
  init(argc, argv);
  const int X = thorough ? 100 : 9;
#if VH_PART == 0
  T<1010, 3, 60, 60, 50, 1, 50>::run(2 * X);
#elif VH_PART == 1
  T<940, 4, 60, 60, 60, 3, 50>::run(X);
#elif VH_PART == 2
  T<1015, 4, 22, 60, 50, 1, 50>::run(X);
#elif VH_PART == 3
  T<1040, 5, 60, 60, 60, 2, 50>::run(X);
#elif VH_PART == 4
  T<950, 5, 22, 60, 50, 2, 50>::run(X);
#elif VH_PART == 5
  T<870, 3, 22, 60, 50, 2, 48>::run(2 * X);
#elif VH_PART == 6
  T<1180, 6, 27, 60, 50, 1, 50>::run(X - 1, 40);
#elif VH_PART == 7
  T<1030, 7, 22, 60, 50, 3, 50>::run(1 + X / 20, 40); T<1024, 7, 60, 60, 60, 3, 50>::run(1, 20);
#elif VH_PART == 8
  T<1000, 9, 22, 60, 50, 4, 50>::run(1, 64);
#elif VH_PART == 9
  T<1450, 9, 60, 60, 60, 2, 50>::run(1 + X / 20, 44);
#else
  T<850, 4, 40, 55, 50, 3, 44>::run(X);
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
