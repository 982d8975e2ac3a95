// C07: number-theoretic transforms
#include "vh.hpp"
#include "primes.hpp"
#include "HEAAN/arith/conv/ntt.h"
#include <memory>
namespace vh {
typedef std::vector<uint64_t> V;
static std::string js(const V &a) { std::string s = "["; for (size_t i = 0; i < a.size(); ++i) { if (i) s += ","; s += num(a[i]); } return s + "]"; }
static uint64_t word(uint64_t q, int mode) {
  switch (mode) {
    case 0: return rng() % q;
    case 1: return q - 1;
    case 2: return rng();                              // unreduced
    case 3: return rng.below(4) ? 0 : rng() % q;
    case 4: return ~0ULL;
    case 5: return rng.below(2) ? q : q - 1;
    case 6: return rng.below(2) ? 0 : q - 1;
    default: return rng.below(3);
  }
}
template <int N> struct T {
  std::unique_ptr<NTT<N>> t; uint64_t q; std::string c0;
  T(uint64_t q_) : t(new NTT<N>(q_)), q(q_) {
    c0.assign((char *)t.get(), sizeof(NTT<N>));
    V x(N, 0); x[1] = 1; V p = fwd(x);
    Ev("points").i("n", N).u("q", q).raw("p", js(p)).end();
  }
  V fwd(V a) { t->ntt(a.data()); return a; }
  V inv(V a) { t->intt(a.data()); return a; }
  V rnd(int mode) { V a(N); for (auto &w : a) w = word(q, mode); return a; }
  V sparse(int nz) { V a(N, 0); for (int i = 0; i < nz; ++i) a[rng.below(N)] = word(q, rng.below(3)); return a; }
  std::string some() { if (N <= 128) return "[]"; std::string s = "[1," + std::to_string(N); for (int i = 0; i < (N <= 1024 ? 40 : 4); ++i) s += "," + std::to_string(1 + rng.below(N)); return s + "]"; }
  void product(const V &a, const V &b) {
    V A = fwd(a), B = fwd(b), C(N);
    for (int i = 0; i < N; ++i) C[i] = mul_mod(A[i], B[i], q);
    Ev("prod").raw("a", js(a)).raw("b", js(b)).raw("c", js(inv(C))).end();
  }
  void go(int reps) {
    for (int i = 0; i < reps; ++i) {
      V a = rnd(i % 8);
      V r = fwd(a);
      Ev("ntt").raw("a", js(a)).raw("r", js(r)).raw("j", some()).end();
      Ev("back").raw("a", js(a)).raw("r", js(inv(r))).end();
      V b = rnd((i * 3 + 1) % 8);
      V s = inv(b);
      Ev("intt").raw("a", js(b)).raw("r", js(s)).raw("j", some()).end();
      Ev("back").raw("a", js(b)).raw("r", js(fwd(s))).end();
      if (N <= 512) { product(a, b); product(rnd(1), rnd(1)); }
      product(sparse(3), N <= 16384 ? rnd(i % 8) : sparse(40));
    }
    int ds[] = {0, 1, 2, N / 2, N - 1, (int)rng.below(N), (int)rng.below(N), N / 4};
    for (int k = 0; k < (N <= 4096 ? 8 : 3); ++k) {
      int d = N <= 4096 ? ds[k] : ds[k + 3];
      if (d >= N) continue;
      V x(N, 0); x[d] = k % 2 ? word(q, 2) : 1; uint64_t c = x[d];
      Ev("mono").i("d", d).u("c", c).raw("r", js(fwd(x))).end();
    }
    Ev("keep").b("same", !memcmp(c0.data(), t.get(), sizeof(NTT<N>))).end();
  }
};
template <int N> void primes_(int reps) {
  uint64_t qs[] = {prime_up(2, 2 * N), prime_up(2, 2 * N, 1), prime_up(2, 2 * N, 2), prime_down(1ULL << 60, 1 << 18), prime_down(1ULL << 60, 1 << 18, 40 + rng.below(50)), prime_up(1ULL << 60, 1 << 18, 3),
                   prime_down(1ULL << 32, 2 * N), 18446744069414584321ULL, prime_down(~0ULL, 1ULL << 36), prime_up(1ULL << 63, 1ULL << 36)};
  for (uint64_t q : qs) { T<N> t(q); t.go(reps); }
}
int drive(int argc, char **argv) {
  init(argc, argv);
  const int part = atoi(argv[4]);
  const int R = thorough ? 24 : 8;
  auto big_ = [&](auto n, uint64_t q, int r) { constexpr int N = decltype(n)::value; T<N> t(q); t.go(r); };
  switch (part) {
    case 0: { T<2> t(5); for (int a = 0; a < 25; ++a) { V x{(uint64_t)a / 5, (uint64_t)a % 5}; V r = t.fwd(x); Ev("ntt").raw("a", js(x)).raw("r", js(r)).raw("j", "[]").end(); Ev("back").raw("a", js(x)).raw("r", js(t.inv(r))).end(); } }
      primes_<2>(3 * R); primes_<4>(2 * R); primes_<8>(R); primes_<16>(R); break;
    case 1: primes_<32>(R); primes_<64>(R / 2); break;
    case 2: primes_<128>(R / 4); break;
    case 3: primes_<256>(1); big_(std::integral_constant<int, 512>{}, prime_down(1ULL << 60, 1 << 18, 2), 1); break;
    case 4: big_(std::integral_constant<int, 1024>{}, 12289, 2); big_(std::integral_constant<int, 1024>{}, 786433, 1); big_(std::integral_constant<int, 1024>{}, prime_down(1ULL << 60, 1 << 18), 1); break;
    case 5: big_(std::integral_constant<int, 2048>{}, prime_up(1ULL << 60, 1 << 18), 1); big_(std::integral_constant<int, 4096>{}, 786433, 1); break;
    case 6: big_(std::integral_constant<int, 16384>{}, prime_down(1ULL << 60, 1 << 18, 1), 1); if (thorough) big_(std::integral_constant<int, 32768>{}, 18446744069414584321ULL, 1); break;
    case 7: big_(std::integral_constant<int, 131072>{}, prime_down(1ULL << 60, 1 << 18), 1); break;
  }
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
