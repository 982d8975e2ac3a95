// C10: key generation, encryption, decryption.  VH_PART selects sizes
#include "he.hpp"
#include "HEAAN/core.h"
namespace vh {
// the outcomes of rand(): 0 uniform, others one extreme value most of the time
static int rmode = 0; static Rng rr(7);
extern "C" int rand(void) {
  if (rmode && rr.below(16)) switch (rmode) {
    case 1: return 0;
    case 2: return 2147483647;
    case 3: return 8 + 9 * 2;                             // noise of maximal size
    case 4: return rr.below(2) ? 8 : 9 * 1001 + 8;       // noise of maximal size, sign drawn
    case 5: return 1;
    default: return (int)rr.below(2) * 2147483647;
  }
  return (int)(rr() >> 33);
}
template <int N> void keys() {
  static int s[N];
  for (int t = 0; t < (thorough ? 3 : 1); ++t)
    for (int h = 0; h <= N; h += (N <= 16 ? 1 : N / 8)) {
      for (int i = 0; i < N; ++i) s[i] = 7 - i;           // whatever was there before
      HEAAN<64, N>::keygen(h, s);
      Ev("keygen").i("n", N).i("h", h).raw("s", ints(s, N)).end();
    }
}
// many keys of one size and weight, in events of up to 100; then what must have been seen among them
template <int N> void manykeys(int h, int draws, const char *close) {
  static int s[N];
  Ev("start").i("n", N).i("h", h).end();
  for (int t = 0; t < draws;) {
    std::string all;
    for (int u = 0; u < 100 && t < draws; ++u, ++t) {
      HEAAN<64, N>::keygen(h, s);
      all += (u ? "," : "") + ints(s, N);
    }
    Ev("keys").raw("ss", "[" + all + "]").end();
  }
  Ev(close).end();
}
template <int K, int N> struct E {
  static R_Q<K, N> pt, out; static R_Q_square<K, N> ct; static int s[N];
  static void enc(const char *nm, int form) {
    form_poly(pt, form); form_poly(ct[0], 8); form_poly(ct[1], 8);
    Copy_<R_Q<K, N>> cp(pt); Copy_<int[N]> cs(s);
    HEAAN<K, N>::enc(pt, s, ct);
    Ev(nm).raw("pt", js(pt)).raw("ct", js(ct)).b("same", cp.same() && cs.same()).end();
  }
  static void dec() {
    form_poly(out, 8); Copy_<R_Q_square<K, N>> cc(ct); Copy_<int[N]> cs(s);
    HEAAN<K, N>::dec(ct, s, out);
    Ev("dec").raw("ct", js(ct)).raw("pt", js(out)).b("same", cc.same() && cs.same()).end();
  }
  static void large(int h) {
    HEAAN<K, N>::keygen(h, s);
    Ev("begin").i("n", N).i("k", K).raw("s", ints(s, N)).end();
    rmode = 0; for (int t : {1, 8, 4}) { enc("enc", t); dec(); }
    rmode = 3; enc("encx", 4); dec(); rmode = 0;
    form_poly(ct[0], 8); form_poly(ct[1], 4); dec();
  }
  static void run(int hist) {
    for (int m = 0; m < 6; ++m) {
      own_key<N>(s, m);
      if (m == 0) HEAAN<K, N>::keygen((N + 1) / 2, s);
      Ev("begin").i("n", N).i("k", K).raw("s", ints(s, N)).end();
      rmode = 0;
      const bool cover = m == 0 || (thorough && N <= 16);
      for (int t = 0; t < (cover ? hist : 2); ++t) { enc("enc", t % 9); if (t % 8 == 0) dec(); }
      if (cover) Ev("cover").end();
      for (rmode = 1; rmode < 7; ++rmode) { if (N > 64 && rmode != 3) continue; enc("encx", (rmode + m) % 9); dec(); }
      rmode = 0;
      for (int t = 0; t < (N > 64 ? 1 : 9); ++t) { form_poly(ct[0], (t + m) % 9); form_poly(ct[1], t); dec(); }
      if (N > 256 && m) return;
    }
  }
};
template <int K, int N> R_Q<K, N> E<K, N>::pt; template <int K, int N> R_Q<K, N> E<K, N>::out;
template <int K, int N> R_Q_square<K, N> E<K, N>::ct; template <int K, int N> int E<K, N>::s[N];
int drive(int argc, char **argv) {
  init(argc, argv); rr = Rng(seed);
  const int H = thorough ? 200 : 70;
#if VH_PART == 0
  keys<1>(); keys<2>(); keys<4>(); keys<8>(); keys<16>();
  for (int h = 0; h <= 4; ++h) manykeys<4>(h, 1200, "allkeys");
  for (int h : {1, 2, 7, 8}) manykeys<8>(h, h == 7 ? 24000 : h == 8 ? 6000 : 4000, "allkeys");
  manykeys<2>(1, 200, "allkeys"); manykeys<2>(2, 200, "allkeys");
  manykeys<16>(8, 600, "pairs"); manykeys<16>(16, 300, "pairs"); manykeys<32>(16, 600, "pairs");
  E<1, 4>::run(H); E<2, 4>::run(H); E<3, 8>::run(H); E<4, 2>::run(H); E<5, 2>::run(H);
#elif VH_PART == 1
  keys<64>(); keys<1024>(); manykeys<64>(32, 200, "places"); manykeys<64>(64, 200, "places"); manykeys<64>(8, 1500, "places");
  manykeys<1024>(512, 200, "places"); manykeys<1024>(64, 1500, "places");
  E<10, 2>::run(H); E<60, 4>::run(H); E<63, 8>::run(H); E<64, 8>::run(H);
#elif VH_PART == 2
  keys<256>(); E<65, 4>::run(H); E<100, 16>::run(H); E<127, 2>::run(H);
#elif VH_PART == 3
  keys<32>(); E<128, 8>::run(H); E<129, 4>::run(H); E<193, 4>::run(H);
#elif VH_PART == 4
  keys<8192>(); E<300, 8>::run(H); E<1450, 4>::run(H); E<33, 32>::run(H);
#elif VH_PART == 5
  E<60, 64>::run(H); E<2900, 2>::run(H); E<31, 1024>::run(2 * 35);
#elif VH_PART == 6
  keys<65536>(); E<60, 4096>::large(64); E<1450, 1024>::large(128);
#elif VH_PART == 7
  E<20, 32768>::large(40); E<64, 16384>::large(20); E<33, 65536>::large(8);
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
