// C08: polynomial products
#include "vh.hpp"
#include "HEAAN/arith/conv.h"
#include <memory>
namespace vh {
#ifndef VH_PART
#define VH_PART 0
#endif
template <int K, int N> std::string js(const R_Q<K, N> &A) { std::string s = "["; for (int i = 0; i < N; ++i) { if (i) s += ","; s += vh::z(A[i]); } return s + "]"; }
template <int K> void setsigned(Z_Q<K> &A, int what) {       // 0: -2^(K-1), 1: 2^(K-1)-1, 2: -1, 3: 1, 4: 0, 5: -2^(K-1)+1
  const int n = (K + 63) / 64; const int t = (K - 1) / 64; const uint64_t b = 1ULL << ((K - 1) % 64);
  for (int i = 0; i < n; ++i) A.data[i] = 0;
  if (what == 0 || what == 5) A.data[t] = b;
  if (what == 5 && K > 1) A.data[0] |= 1;
  if (what == 1 || what == 2) { for (int i = 0; i < n; ++i) A.data[i] = ~0ULL; A.data[t] = (b - 1) | (what == 2 ? b : 0); }
  if (what == 3) A.data[0] = 1;
}
template <int K, int N> void fill(R_Q<K, N> &A, int mode) {  // 0..5 the same extreme everywhere, 6 random extremes, 7 uniform, 8 boundary words, 9 sparse, 10 alternating signs
  for (int i = 0; i < N; ++i) switch (mode) {
    case 6: setsigned(A[i], (int)rng.below(6)); break;
    case 7: randz(A[i], 1); break;
    case 8: randz(A[i], (int)rng.below(4)); break;
    case 9: if (rng.below(N) < 4) randz(A[i], 1); else A[i].setzero(); break;
    case 10: setsigned(A[i], i % 2); break;
    default: setsigned(A[i], mode);
  }
}
template <int K, int N> struct P_ {
  typedef R_Q<K, N> R;
  std::unique_ptr<R> a{new R}, b{new R}, c{new R}, a0{new R}, b0{new R};
  void full(int ma, int mb, int al) {
    fill(*a, ma); if (al == 3) *b0 = *a; else fill(*b, mb);
    memcpy((void *)a0.get(), (void *)a.get(), sizeof(R)); if (al != 3) memcpy((void *)b0.get(), (void *)b.get(), sizeof(R));
    fill(*c, 7);
    bool same = true; const R *r = c.get();
    if (al == 0) { conv<K, N>(*a, *b, *c); same = !memcmp((void *)a.get(), (void *)a0.get(), sizeof(R)) && !memcmp((void *)b.get(), (void *)b0.get(), sizeof(R)); }
    if (al == 1) { conv<K, N>(*a, *b, *a); r = a.get(); same = !memcmp((void *)b.get(), (void *)b0.get(), sizeof(R)); }
    if (al == 2) { conv<K, N>(*a, *b, *b); r = b.get(); same = !memcmp((void *)a.get(), (void *)a0.get(), sizeof(R)); }
    if (al == 3) { conv<K, N>(*a, *a, *a); r = a.get(); }
    if (al == 4) { memcpy((void *)b0.get(), (void *)a0.get(), sizeof(R)); conv<K, N>(*a, *a, *c); same = !memcmp((void *)a.get(), (void *)a0.get(), sizeof(R)); }
    if (ma < 6 && mb < 6 && al < 3) Ev("const").i("k", K).i("n", N).raw("x", vh::z((*a0)[0])).raw("y", vh::z((*b0)[0])).raw("c", js(*r)).b("same", same).end();
    else Ev("full").i("k", K).i("al", al).raw("a", js(*a0)).raw("b", js(*b0)).raw("c", js(*r)).b("same", same).end();
  }
  void tern(int ms, int ma) {
    static int s[N], s0[N];
    for (int i = 0; i < N; ++i) s[i] = ms == 0 ? (int)rng.below(3) - 1 : ms == 1 ? 1 : ms == 2 ? -1 : ms == 3 ? (rng.below(N) < 3 ? (rng.below(2) ? 1 : -1) : 0) : (i == N - 1 ? -1 : 0);
    memcpy(s0, s, sizeof s); fill(*a, ma); *a0 = *a; fill(*c, 7);
    conv<K, N>(s, *a, *c);
    Ev("tern").i("k", K).ints("s", s0, N).raw("a", js(*a0)).raw("c", js(*c)).b("same", !memcmp(s, s0, sizeof s) && !memcmp((void *)a.get(), (void *)a0.get(), sizeof(R))).end();
  }
};
template <int K, int N> void test(int reps) {
  P_<K, N> p;
  p.full(0, 0, 0); p.full(0, 1, 0); p.full(6, 6, 0); p.full(7, 7, 0); p.full(10, 0, 3); p.full(7, 8, 1);
  for (int i = 0; i < reps; ++i) {
    static const int mm[][3] = {{2, 2, 0}, {1, 1, 0}, {8, 8, 4}, {9, 7, 0}, {8, 6, 2}, {3, 0, 0}, {0, 7, 0}, {4, 7, 0}, {10, 10, 0}, {7, 7, 3}, {5, 0, 2}, {8, 3, 1}};
    int m = (i + seed) % 12; p.full(mm[m][0], mm[m][1], mm[m][2]);
  }
  for (int i = 0; i < 5 && i <= reps + 1; ++i) p.tern(i, i == 0 ? 8 : i == 1 ? 6 : 7);
}
template <int K, int N> void huge() {                        // N where only constant and sparse operands are cheap to specify
  P_<K, N> p;
  p.full(0, 0, 0); p.full(0, 1, 0);
  if (N <= 32768 || thorough) { p.full(1, 1, 0); p.full(9, 7, 0); p.full(7, 9, 1); }
}
template <int N> void ints(int reps) {
  for (int r = 0; r < reps; ++r) {
    int a[N], b[N], c[N], a0[N], b0[N];
    for (int i = 0; i < N; ++i) { int R = r % 4 == 0 ? 1 : r % 4 == 1 ? 2 * N : r % 4 == 2 ? 100 : 1; a[i] = (int)rng.below(2 * R + 1) - R; b[i] = r % 8 == 3 ? 1 : (int)rng.below(3) - 1; c[i] = 12345; }
    memcpy(a0, a, sizeof a); memcpy(b0, b, sizeof b);
    conv<N>(a, b, c);
    Ev("ints").ints("a", a0, N).ints("b", b0, N).ints("c", c, N).b("same", !memcmp(a, a0, sizeof a) && !memcmp(b, b0, sizeof b)).end();
    conv<N>(a, a, c);
    Ev("ints").ints("a", a0, N).ints("b", a0, N).ints("c", c, N).b("same", !memcmp(a, a0, sizeof a)).end();
  }
}
template <int... J> void ladder(std::integer_sequence<int, J...>) {   // every number of primes, at both sides of the step
  ((J % 6 == VH_PART ? (test<21 + 30 * J, 2>(1), test<22 + 30 * J, 2>(1)) : (void)0), ...);
}
int drive(int argc, char **argv) {
  init(argc, argv);
  const int R = thorough ? 24 : 4;
  (void)R;
#if VH_PART == 0
  test<1, 2>(R); test<1, 8>(R); test<2, 4>(R); test<5, 16>(R); test<8, 2>(R); test<13, 4>(R); test<17, 8>(R); test<120, 64>(R);
#elif VH_PART == 1
  test<21, 4>(R); test<22, 4>(R); test<29, 8>(R); test<30, 2>(R); test<31, 4>(R); test<32, 8>(R); test<33, 16>(R); test<127, 8>(R);
#elif VH_PART == 2
  test<51, 4>(R); test<52, 4>(R); test<60, 8>(R); test<61, 2>(R); test<62, 8>(R); test<63, 4>(R); test<64, 8>(R); test<65, 8>(R); test<64, 2>(R);
#elif VH_PART == 3
  test<128, 8>(R); test<129, 2>(R); test<192, 4>(R); test<191, 16>(R); test<320, 32>(R); test<256, 8>(R); test<2900, 4>(R); test<1450, 8>(R);
#elif VH_PART == 4
  test<3022, 4>(R); test<3021, 2>(R); test<1450, 128>(1); test<100, 512>(1); ints<2>(20); ints<4>(20); ints<8>(20); ints<64>(8); ints<256>(4);
#elif VH_PART == 5
  test<64, 1024>(0); test<22, 2048>(0); huge<52, 8192>(); huge<21, 16384>();
#elif VH_PART == 6
  huge<22, 131072>();
#elif VH_PART == 7
  huge<52, 65536>(); huge<51, 131072>();
#endif
#if VH_PART < 6
  ladder(std::make_integer_sequence<int, 101>{});
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
