// C13: programs of ciphertext products over four registers
#include "he.hpp"
#include "HEAAN/core.h"
namespace vh {
template <int K, int N> struct P {
  static R_Q_square<2 * K, N> evk; static R_Q_square<K, N> r[4], old[4]; static int s[N], s2[N];
  static void large(int h) {                               // a library evaluation key and one of extreme noise at a large degree
    for (int p = 0; p < 2; ++p) {
      few_key<N>(s, h); own_square<N>(s, s2);
      if (p) own_swk<K, N>(s2, s, 1, 4, evk); else HEAAN<K, N>::swkgen(s2, s, evk);
      for (int i = 0; i < 4; ++i) for (int c = 0; c < 2; ++c) form_poly(r[i][c], i == 3 ? 4 : 8);
      Ev("begin").i("n", N).i("k", K).raw("s", ints(s, N)).raw("evk", js(evk)).raw("regs", "[" + js(r[0]) + "," + js(r[1]) + "," + js(r[2]) + "," + js(r[3]) + "]").end();
      Copy_<R_Q_square<K, N>> c0(r[0]), c3(r[3]);
      Mul<K, N>(r[3], r[0], evk, r[1]); bool ok = c0.same() && c3.same();
      Ev("mul").i("d", 1).i("a", 3).i("b", 0).raw("ct", js(r[1])).raw("oth", ok ? "[]" : "[9]").end();
      Mul<K, N>(r[3], r[3], evk, r[2]); ok = c0.same() && c3.same();
      Ev("mul").i("d", 2).i("a", 3).i("b", 3).raw("ct", js(r[2])).raw("oth", ok ? "[]" : "[9]").end();
    }
  }
  static void run(int progs, int steps) {
    for (int p = 0; p < progs; ++p) {
      own_key<N>(s, p % 6); own_square<N>(s, s2);
      if (p % 4 == 3) HEAAN<K, N>::swkgen(s2, s, evk); else own_swk<K, N>(s2, s, p % 4, p % 3 ? 8 : 4, evk);
      for (int i = 0; i < 4; ++i) for (int c = 0; c < 2; ++c) form_poly(r[i][c], (p + i) % 4 == 0 ? 4 + (int)rng.below(4) : (int)rng.below(9));
      Ev("begin").i("n", N).i("k", K).raw("s", ints(s, N)).raw("evk", js(evk)).raw("regs", "[" + js(r[0]) + "," + js(r[1]) + "," + js(r[2]) + "," + js(r[3]) + "]").end();
      for (int t = 0; t < steps; ++t) {
        int a = (int)rng.below(4), b = t % 3 == 0 ? a : (int)rng.below(4), d;
        do d = (int)rng.below(4); while (d == a || d == b);
        Copy_<R_Q_square<2 * K, N>> ce(evk); Copy_<int[N]> cs(s);
        for (int i = 0; i < 4; ++i) old[i] = r[i];
        Mul<K, N>(r[a], r[b], evk, r[d]);
        std::string o = "[";
        for (int i = 0; i < 4; ++i) if (i != d && memcmp(&old[i], &r[i], sizeof r[i])) o += (o.size() > 1 ? "," : "") + std::to_string(i);
        if (!ce.same() || !cs.same()) o += o.size() > 1 ? ",9" : "9";
        Ev("mul").i("d", d).i("a", a).i("b", b).raw("ct", js(r[d])).raw("oth", o + "]").end();
      }
    }
  }
};
template <int K, int N> R_Q_square<2 * K, N> P<K, N>::evk; template <int K, int N> R_Q_square<K, N> P<K, N>::r[4]; template <int K, int N> R_Q_square<K, N> P<K, N>::old[4];
template <int K, int N> int P<K, N>::s[N]; template <int K, int N> int P<K, N>::s2[N];
int drive(int argc, char **argv) {
  init(argc, argv);
  const int R = thorough ? 60 : 12, T = 6;
#if VH_PART == 0
  P<2, 4>::run(R, T); P<10, 2>::run(R, T); P<31, 8>::run(R, T); P<32, 4>::run(R, T); P<60, 4>::run(R, T);
#elif VH_PART == 1
  P<63, 8>::run(R, T); P<64, 8>::run(R, T); P<65, 4>::run(R, T);
#elif VH_PART == 2
  P<100, 16>::run(R, T); P<127, 2>::run(R, T); P<128, 8>::run(R, T);
#elif VH_PART == 3
  P<129, 4>::run(R, T); P<300, 8>::run(R, T); P<192, 4>::run(R, T);
#elif VH_PART == 4
  P<1450, 4>::run(R / 2, T); P<256, 4>::run(R, T);
#elif VH_PART == 5
  P<60, 64>::run(R / 2, T); P<120, 32>::run(R / 2, T); P<40, 512>::run(2, 2);
#elif VH_PART == 6
  P<40, 2048>::large(8); P<1450, 256>::large(6);
#elif VH_PART == 7
  P<30, 4096>::large(4); P<600, 512>::large(8);
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
