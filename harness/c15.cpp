// C15: encoding and decoding
#include "he.hpp"
#include "HEAAN/endecode.h"
namespace vh {
static const int F = 128;
static std::string dv(const double *a, int n) { std::string s = "["; for (int i = 0; i < n; ++i) { if (i) s += ","; s += fix(a[i], F); } return s + "]"; }
// 0 uniform, 1 one slot, 2 constant, 3 mixed magnitudes, 4 alternating, 5 tiny, 6 zero
static void slots(double *a, int n, int mode, double A, int u) {
  for (int i = 0; i < n; ++i) switch (mode) {
    case 0: a[i] = A * rng.sym(); break;
    case 1: a[i] = i == u ? A : 0; break;
    case 2: a[i] = A; break;
    case 3: a[i] = A * ldexp(rng.sym(), -(int)rng.below(50)); break;
    case 4: a[i] = i % 2 ? -A : A; break;
    case 5: a[i] = A * rng.sym() * 0x1p-30; break;
    default: a[i] = 0;
  }
}
template <int K, int G> struct C {
  static constexpr int N = 1 << G;
  static double zr[N / 2], zi[N / 2], wr[N / 2], wi[N / 2];
  static R_Q<K, N> pt;
  static void dec(uint64_t D, bool log) {
    Copy_<R_Q<K, N>> c(pt);
    slots(wr, N / 2, 0, 1, 0); slots(wi, N / 2, 0, 1, 0);
    if (log) decode_log<K, G>(pt, __builtin_ctzll(D), wr, wi); else decode<K, G>(pt, D, wr, wi);
    Ev("dec").i("g", G).i("k", K).u("D", D).raw("pt", js(pt)).raw("zr", dv(wr, N / 2)).raw("zi", dv(wi, N / 2)).b("same", c.same()).end();
  }
  static void enc(uint64_t D, int mode, double A) {
    slots(zr, N / 2, mode, A, (int)rng.below(N / 2)); slots(zi, N / 2, mode == 2 ? 6 : mode, A, (int)rng.below(N / 2));
    Copy_<double[N / 2]> c(zr), d(zi);
    form_poly(pt, 8);
    encode<K, G>(zr, zi, D, pt);
    Ev("enc").i("g", G).i("k", K).u("D", D).raw("zr", dv(zr, N / 2)).raw("zi", dv(zi, N / 2)).raw("pt", js(pt)).b("same", c.same() && d.same()).end();
    bool p2 = !(D & (D - 1));
    for (int log = 0; log <= p2; ++log) {
      slots(wr, N / 2, 0, 1, 0); slots(wi, N / 2, 0, 1, 0);
      if (log) decode_log<K, G>(pt, __builtin_ctzll(D), wr, wi); else decode<K, G>(pt, D, wr, wi);
      Ev("back").i("g", G).u("D", D).raw("ar", dv(zr, N / 2)).raw("ai", dv(zi, N / 2)).raw("br", dv(wr, N / 2)).raw("bi", dv(wi, N / 2)).end();
    }
  }
  static void rounding() {      // constant vectors, whose inverse transform is exact; K > 56
    static const double V[] = {0.5, 1.5, 2.5, 0.49999999999999994, 4503599627370497.0, 9007199254740991.0, 0.75, 0.25, 3.5, 1e15 + 0.5, 0.0};
    static R_Q<K, N> neg;
    for (double v : V) for (uint64_t D : {uint64_t(1), uint64_t(2), uint64_t(4)}) {
      for (int i = 0; i < N / 2; ++i) { zr[i] = v; zi[i] = 0; wr[i] = -v; wi[i] = 0; }
      form_poly(pt, 8); form_poly(neg, 8); encode<K, G>(zr, zi, D, pt); encode<K, G>(wr, wi, D, neg);
      Ev("round").i("k", K).u("D", D).raw("v", fix(v, F)).raw("p", js(pt)).raw("q", js(neg)).end();
    }
  }
  static std::string at(const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]"; }
  static void large(int mode, uint64_t D) {      // long vectors: only some of the outputs are logged
    double lim = ldexp(1.0, K - 1 < 64 ? K - 1 : 64) / (double)D, A = mode == 2 ? lim * 0.97 : mode == 1 ? lim * 0.9 : lim / 3 / 64;
    if (A > 1 && mode == 0) A = 1;
    slots(zr, N / 2, mode, A, (int)rng.below(N / 2)); slots(zi, N / 2, mode == 2 ? 6 : mode, A, (int)rng.below(N / 2));
    auto c = new Copy_<double[N / 2]>(zr), d = new Copy_<double[N / 2]>(zi);
    form_poly(pt, 8); encode<K, G>(zr, zi, D, pt);
    std::vector<int> v{0, 1, N - 1, N / 2, N / 2 - 1, N / 2 + 1}; while (v.size() < 60) v.push_back((int)rng.below(N));
    std::string p = "["; for (size_t i = 0; i < v.size(); ++i) p += (i ? "," : "") + vh::z(pt[v[i]]);
    Ev("encs").i("g", G).i("k", K).u("D", D).raw("zr", dv(zr, N / 2)).raw("zi", dv(zi, N / 2)).raw("at", at(v)).raw("pt", p + "]").b("same", c->same() && d->same()).end();
    delete c; delete d;
    slots(wr, N / 2, 2, 1, 0); slots(wi, N / 2, 2, 1, 0);
    if (mode % 2) decode_log<K, G>(pt, __builtin_ctzll(D), wr, wi); else decode<K, G>(pt, D, wr, wi);
    Ev("back").i("g", G).u("D", D).raw("ar", dv(zr, N / 2)).raw("ai", dv(zi, N / 2)).raw("br", dv(wr, N / 2)).raw("bi", dv(wi, N / 2)).end();
  }
  static void run(int R) {
    // scales, with amplitudes such that every coefficient stays below 2^(k-1) and 2^64
    const uint64_t Ds[] = {1ULL << 20, 1, 12345, 1ULL << 30, (1ULL << 40) - 1, 1ULL << 45, 1ULL << 50, 1ULL << 60, 3000000000000000019ULL, 1ULL << 63, 2, 1ULL << 32};
    const int room = K - 1 < 64 ? K - 1 : 64;
    for (int r = 0; r < R; ++r) {
      uint64_t D = Ds[r % 12];
      double lim = ldexp(1.0, room) / (double)D;       // D * |coefficient| < 2^room
      int mode = (r + r / 12) % 7;
      double A = mode == 2 ? lim * 0.97 * (rng.below(2) ? 1 : -1) : mode == 1 ? lim * 0.9 : lim / 2.9 / (N > 64 ? 8 : 1);
      if (r % 3 && A > 1) A = 1;
      if (mode != 2 && mode != 1 && A * (double)D < 1) continue;
      enc(D, mode, A);
      // decoding: coefficients of special form, below 2^1000
      form_poly(pt, r % 9);
      if (r % 9 == 6) for (int i = 0; i < N; ++i) pt[i] = own_small<K>((long)(rng() >> (3 + rng.below(60))), 0);
      if (r % 4 == 3) for (int i = 0; i < N; ++i) { if (rng.below(2)) { Z_Q<K> z = own_small<K>(0), t = pt[i]; own_addto(z, t, true); pt[i] = z; } if (K > 3) { pt[i] = own_small<K>((long)rng.below(1000) - 500, (int)rng.below(K > 900 ? 880 : K)); } }
      if (K > 960) for (int i = 0; i < N; ++i) if (r % 4 != 3) { bool neg = rng.below(2); for (int j = 14; j < (K + 63) / 64; ++j) pt[i].data[j] = 0; if (neg) { Z_Q<K> z = own_small<K>(0); own_addto(z, pt[i], true); pt[i] = z; } }
      dec(D, false);
      if (!(D & (D - 1))) dec(D, true);
    }
  }
};
template <int K, int G> double C<K, G>::zr[C<K, G>::N / 2]; template <int K, int G> double C<K, G>::zi[C<K, G>::N / 2];
template <int K, int G> double C<K, G>::wr[C<K, G>::N / 2]; template <int K, int G> double C<K, G>::wi[C<K, G>::N / 2];
template <int K, int G> R_Q<K, C<K, G>::N> C<K, G>::pt;
int drive(int argc, char **argv) {
  init(argc, argv);
  const int R = thorough ? 240 : 36;
  switch (atoi(argv[4])) {
    case 0: C<60, 1>::run(R); C<65, 1>::run(R); C<60, 2>::run(R); C<64, 2>::run(R); C<65, 3>::run(R); C<128, 2>::run(R); C<300, 3>::run(R); break;
    case 1: C<30, 3>::run(R); C<63, 3>::run(R); C<64, 4>::run(R); C<120, 4>::run(R); C<960, 2>::run(R); break;
    case 2: C<66, 5>::run(R); C<127, 5>::run(R); C<1000, 3>::run(R); C<1450, 3>::run(R); break;
    case 3: C<100, 6>::run(R); C<192, 5>::run(R); C<2900, 2>::run(R); break;
    case 4: C<60, 7>::run(R); C<129, 7>::run(R); break;
    case 5: C<80, 8>::run(R); C<320, 6>::run(R); break;
    case 6: C<300, 9>::run(R / 6); C<61, 10>::run(R / 12); C<60, 3>::rounding(); C<65, 2>::rounding(); C<1450, 5>::rounding(); C<64, 6>::rounding(); break;
    case 7: C<60, 12>::large(0, 1ULL << 40); C<64, 13>::large(1, 1ULL << 50); C<128, 13>::large(2, 1ULL << 60); C<1200, 12>::large(0, 1ULL << 30); break;
    case 8: C<120, 16>::large(0, 1ULL << 45); C<60, 15>::large(1, 1ULL << 30); break;
  }
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
