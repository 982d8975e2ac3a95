// C12: switching keys and key switching
#include "he.hpp"
#include "HEAAN/core.h"
namespace vh {
template <int K, int N> struct S {
  static R_Q_square<2 * K, N> swk; static R_Q_square<K, N> ct, in; static int a[N], b[N], t[N];
  static void source(int m) {
    own_key<N>(a, m % 6);
    if (m == 6) { own_key<N>(t, 0); own_square<N>(t, a); }
    if (m == 7) for (int i = 0; i < N; ++i) a[i] = (int)rng.below(7) - 3;
    if (m == 8) for (int i = 0; i < N; ++i) a[i] = i % 2 ? N : -N;
    if (m == 9) { own_key<N>(t, 2); own_square<N>(t, a); }
    if (m == 10) { own_key<N>(t, 0); own_auto<N>(t, a, 5); for (int i = 0; i < N; ++i) b[i] = t[i]; }   // as for a rotation
  }
  static void key(bool own, int noise, int mask) {
    Ev e(own ? "own" : "gen"); bool same = true;
    form_poly(swk[0], 8); if (!own) form_poly(swk[1], 8);
    if (own) own_swk<K, N>(a, b, noise, mask, swk);
    else { Copy_<int[N]> ca(a), cb(b); HEAAN<K, N>::swkgen(a, b, swk); same = ca.same() && cb.same(); }
    e.i("n", N).i("k", K).raw("sfr", ints(a, N)).raw("sto", ints(b, N)).raw("swk", js(swk)).b("same", same).end();
  }
  static void ks(int f0, int f1) {
    form_poly(ct[0], f0); form_poly(ct[1], f1); in = ct;
    Copy_<R_Q_square<2 * K, N>> c(swk);
    HEAAN<K, N>::ks(swk, ct);
    Ev("ks").raw("ct", js(in)).raw("out", js(ct)).b("same", c.same()).end();
  }
  static void large(int h) {                               // library and own keys at a large degree, few key entries
    few_key<N>(a, h); few_key<N>(b, h); key(false, 0, 0); ks(8, 8); ks(4, 4); ks(8, 5);
    for (int i = 0; i < N; ++i) a[i] = i % 1024 ? 0 : i / 512 - 50; key(false, 0, 0); ks(8, 4);
    few_key<N>(a, h); few_key<N>(b, 3); key(true, 1, 4); ks(4, 4); ks(8, 8);
  }
  static void run(int R) {
    for (int m = 0; m < 11; ++m) {
      if (N > 64 && m % 5 && m < 8) continue;
      own_key<N>(b, (m + 1) % 6); source(m);
      for (int o = 0; o < 2; ++o) {
        key(o, 1 + m % 2, m % 3 ? 4 + m % 2 : 0);
        for (int r = 0; r < R; ++r) ks(r % 2 ? 8 : 4 + (r + m) % 4, r % 3 == 0 ? 4 : r % 3 == 1 ? 8 : (m + r) % 9);
      }
    }
    // worst noise: all signs aligned in the last coefficient, target key of ones, all components at their maximum
    own_key<N>(b, 2); own_key<N>(a, 3); key(true, 1, 4); ks(4, 4); ks(5, 4); key(true, 2, 0); ks(6, 4); ks(6, 5);
  }
};
template <int K, int N> R_Q_square<2 * K, N> S<K, N>::swk; template <int K, int N> R_Q_square<K, N> S<K, N>::ct; template <int K, int N> R_Q_square<K, N> S<K, N>::in;
template <int K, int N> int S<K, N>::a[N]; template <int K, int N> int S<K, N>::b[N]; template <int K, int N> int S<K, N>::t[N];
int drive(int argc, char **argv) {
  init(argc, argv);
  const int R = thorough ? 16 : 4;
#if VH_PART == 0
  S<2, 4>::run(R); S<10, 2>::run(R); S<31, 8>::run(R); S<32, 4>::run(R); S<33, 4>::run(R); S<60, 4>::run(R);
#elif VH_PART == 1
  S<63, 8>::run(R); S<64, 8>::run(R); S<65, 4>::run(R);
#elif VH_PART == 2
  S<100, 16>::run(R); S<127, 2>::run(R); S<128, 8>::run(R);
#elif VH_PART == 3
  S<129, 4>::run(R); S<300, 8>::run(R); S<192, 4>::run(R);
#elif VH_PART == 4
  S<1450, 4>::run(R); S<256, 4>::run(R);
#elif VH_PART == 5
  S<60, 64>::run(R); S<120, 32>::run(R); S<40, 512>::run(2);
#elif VH_PART == 6
  S<40, 4096>::large(12); S<30, 16384>::large(4);
#elif VH_PART == 7
  S<1450, 512>::large(6); S<64, 2048>::large(16); S<600, 1024>::large(8);
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
