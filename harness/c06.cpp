// C06: CRT::icrt, CRT::crt and their composition over many bases and sizes
#include "vh.hpp"
#include "primes.hpp"
#include "HEAAN/arith/conv/crt.h"
namespace vh {
static const uint64_t small_[] = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127};
// kind 0: smallest odd primes, 1: just below 2^60, 2: just below 2^64, 3: mixed magnitudes, 4: just above 2^63
static std::vector<uint64_t> basis(int L, int kind) {
  std::vector<uint64_t> r;
  uint64_t next[4] = {1, (1ULL << 60) + 1, 0 - 57ULL, (1ULL << 63) - 1};
  auto step = [&](int k) { if (k == 0 || k == 3) do next[k] += 2; while (!isprime(next[k])); else do next[k] -= 2; while (!isprime(next[k])); return next[k]; };
  for (int i = 0; i < L; ++i) r.push_back(step(kind == 3 ? i % 4 : kind == 4 ? 3 : kind));
  for (int i = L - 1; i > 0 && kind; --i) std::swap(r[i], r[rng.below(i + 1)]);
  return r;
}
template <int K> std::string seqw(const uint64_t *r) { std::string s = "["; for (int i = 0; i < K; ++i) { if (i) s += ","; s += num(r[i]); } return s + "]"; }

template <int L, int K> struct T {
  CRT<L, K> c; std::vector<uint64_t> q; CRT<L, K> *c0;
  T(const std::vector<uint64_t> &p) : c(p.data()), q(p) { c0 = (CRT<L, K> *)malloc(sizeof c); memcpy((void *)c0, (void *)&c, sizeof c); }
  ~T() { free(c0); }
  bool same() { return !memcmp((void *)c0, (void *)&c, sizeof c); }
  void icrt(const Z_Q<K> &x) {
    uint64_t r[L]; for (auto &w : r) w = ~0ULL;
    Z_Q<K> y(x); c.icrt(y, r);
    Ev("icrt").i("k", K).z("x", x).raw("r", seqw<L>(r)).b("same", !memcmp(&x, &y, sizeof x) && same()).end();
    Z_Q<K> b; randz(b, 1); c.crt(r, b);
    Ev("round").i("k", K).z("x", x).z("y", b).end();
  }
  void crt(const uint64_t *r) {
    uint64_t s[L]; memcpy(s, r, sizeof s);
    Z_Q<K> b; randz(b, 1); c.crt(s, b);
    Ev("crt").i("k", K).raw("r", seqw<L>(r)).z("x", b).b("same", !memcmp(s, r, sizeof s) && same()).end();
  }
  // v +- small, v read modulo 2^K from the words of the product of some primes
  void around(const std::vector<uint64_t> &w, bool neg) {
    Z_Q<K> x; x.setzero(); x[0] = 1;
    for (uint64_t p : w) x *= p;
    if (neg) x.negate();
    for (int d = -1; d <= 1; ++d) { Z_Q<K> y(x), one; one.setzero(); one[0] = 1; if (d > 0) y += one; if (d < 0) y -= one; icrt(y); }
  }
};
template <int L, int K> void run(int kind, int reps) {
  std::vector<uint64_t> q = basis(L, kind);
  Ev("basis").raw("q", seqw<L>(q.data())).end();
  T<L, K> t(q);
  for (int i = 0; i < reps; ++i) {
    Z_Q<K> x; randz(x, i % 4); t.icrt(x);
    if (i < 6) { for (int j = 0; j < (K + 63) / 64; ++j) x[j] = i == 1 ? ~0ULL : 0; 
      if (i >= 2) x[(K - 1) / 64] = 1ULL << ((K - 1) % 64);
      Z_Q<K> one; one.setzero(); one[0] = 1; if (i == 3) x -= one; if (i == 4) x += one; if (i == 5) x = one;
      if (K % 64) x[(K - 1) / 64] &= (1ULL << (K % 64)) - 1;
      t.icrt(x); }
    uint64_t r[L];
    for (int j = 0; j < L; ++j) switch (i % 5) {
      case 0: r[j] = rng() % q[j]; break;
      case 1: r[j] = rng.below(2) ? 0 : q[j]; break;
      case 2: r[j] = q[j] - 1; break;
      case 3: r[j] = rng.below(3) ? rng() % q[j] : 1; break;
      default: r[j] = q[j] / 2 + rng.below(2); }                     // near half the product: residues of (Q-1)/2 are (q-1)/2 + ..
    t.crt(r);
    for (int j = 0; j < L; ++j) r[j] = i % 3 == 0 ? q[j] / 2 : i % 3 == 1 ? q[j] / 2 + 1 : (1 + i) % q[j];
    t.crt(r);
  }
  t.around({q[0]}, false); t.around({q[L - 1]}, true);
  std::vector<uint64_t> half(q.begin(), q.begin() + (L + 1) / 2), most(q.begin(), q.end() - 1);
  t.around(half, true); t.around(most, false); t.around(most, true); t.around(q, false); t.around(q, true);
}
template <int L, int K> void exhaustive(int skip) {
  std::vector<uint64_t> q(small_ + skip, small_ + skip + L);
  Ev("basis").raw("q", seqw<L>(q.data())).end();
  T<L, K> t(q);
  for (int v = 0; v < (1 << K); ++v) { Z_Q<K> x; x.setzero(); x[0] = v; t.icrt(x); }
  uint64_t n = 1; for (uint64_t p : q) n *= p + 1;
  for (uint64_t m = 0; m < n; ++m) { uint64_t r[L], y = m; for (int j = 0; j < L; ++j) { r[j] = y % (q[j] + 1); y /= q[j] + 1; } t.crt(r); }
}
int drive(int argc, char **argv) {
  init(argc, argv);
  const int part = atoi(argv[4]);
  const int R = thorough ? 200 : 20;
  switch (part) {
    case 0: exhaustive<3, 8>(0); exhaustive<3, 7>(0); exhaustive<3, 5>(0); exhaustive<2, 6>(0); exhaustive<2, 4>(1); exhaustive<1, 1>(0); exhaustive<1, 3>(0); exhaustive<1, 4>(1); exhaustive<2, 9>(1); break;
    case 1: for (int k = 0; k < 5; ++k) { run<1, 64>(k, R); run<1, 60>(k, R); run<2, 64>(k, R); run<2, 65>(k, R); run<1, 63>(k, R); run<2, 120>(k, R); } break;
    case 2: for (int k = 0; k < 5; ++k) { run<3, 128>(k, R); run<3, 127>(k, R); run<3, 129>(k, R); run<5, 192>(k, R); run<5, 320>(k, R); } break;
    case 3: for (int k = 0; k < 5; ++k) { run<8, 320>(k, R); run<8, 257>(k, R); run<8, 10>(k, R); run<11, 320>(k, R); } break;
    case 4: for (int k : {0, 1, 2, 3}) { run<17, 512>(k, R / 2); run<17, 500>(k, R / 2); run<17, 1088>(k, R / 2); } break;
    case 5: for (int k : {1, 2, 3}) { run<49, 1450>(k, R / 4); run<49, 1472>(k, R / 4); } break;
    case 6: run<102, 3022>(1, R / 5); run<102, 3022>(3, R / 5); break;
    case 7: run<98, 2900>(1, R / 5); run<102, 6400>(2, R / 5); run<30, 64>(2, R / 2); break;
  }
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
