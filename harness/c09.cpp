// C09: products (and everything built on them) under the scheduler of shim.cpp, or under libgomp (-DREAL)
#include "vh.hpp"
#include <memory>
#include <algorithm>
#include "HEAAN/bootstrap.h"
#ifndef VH_REAL
#include "shim.hpp"
#endif
#include <omp.h>
namespace vh {
template <int K, int N> std::string js(const R_Q<K, N> &A) { std::string s = "["; for (int i = 0; i < N; ++i) { if (i) s += ","; s += vh::z(A[i]); } return s + "]"; }
static std::string digest(const void *p, size_t n) { uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < n; ++i) { h ^= ((const uint8_t *)p)[i]; h *= 1099511628211ULL; h ^= h >> 29; } char b[40]; snprintf(b, sizeof b, "%016llx-%zu", (unsigned long long)h, n); return b; }

static void flush_regions() {
#ifndef VH_REAL
  for (auto &g : shim::regions) {
    std::vector<uintptr_t> cut;
    for (auto &t : g) { shim::compact(t); for (auto &a : t) { cut.push_back(a.lo); cut.push_back(a.hi); } }
    std::sort(cut.begin(), cut.end()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
    // how many threads touch each elementary segment; runs of segments with the same touchers would do, segments are simplest
    Ev("region").i("t", (long)g.size()).end();
    for (auto &t : g) {
      std::string s[4] = {"[", "[", "[", "["};
      for (auto &a : t) {
        size_t i = std::lower_bound(cut.begin(), cut.end(), a.lo) - cut.begin(), j = std::lower_bound(cut.begin(), cut.end(), a.hi) - cut.begin();
        for (; i < j; ++i) { if (s[a.kind].size() > 1) s[a.kind] += ","; s[a.kind] += std::to_string(i); }
      }
      Ev("thread").raw("r", s[0] + "]").raw("w", s[1] + "]").raw("lr", s[2] + "]").raw("lw", s[3] + "]").end();
    }
  }
  shim::regions.clear();
#endif
}
struct Sched { int team, order; unsigned sw; uint64_t seed; bool record; };
static void use(const Sched &s) {
#ifdef VH_REAL
  omp_set_num_threads(s.team);
#else
  shim::want_threads = s.team; shim::order = s.order; shim::switch_every = s.sw; shim::seed = s.seed; shim::record = s.record;
#endif
}
static std::vector<Sched> schedules(int iters) {
  std::vector<Sched> r;
#ifdef VH_REAL
  for (int t : {1, 2, 3, 4, 7, 8, 16, 33, iters, iters + 1}) for (int i = 0; i < 3; ++i) r.push_back({t, 0, 0, 0, false});
#else
  r.push_back({iters, 0, 0, 1, true}); r.push_back({iters + 1, 1, 0, 1, true});
  for (int t : {1, 2, 3, 5, 8}) r.push_back({t, 2, 0, seed + t, true});
  for (int i = 0; i < (thorough ? 40 : 6); ++i) { int t[] = {2, 3, 4, iters}; unsigned sw[] = {7, 40, 3, 150}; r.push_back({t[i % 4], 2, sw[i % 4], seed * 100 + i, i % 4 == 0}); }
#endif
  return r;
}
template <int K, int N> void products() {
  typedef R_Q<K, N> R; static R a, b, c; static int s[N];
  for (int rep = 0; rep < (thorough ? 4 : 1); ++rep) {
    for (int i = 0; i < N; ++i) { randz(a[i], (int)rng.below(4)); randz(b[i], (int)rng.below(4)); s[i] = (int)rng.below(3) - 1; }
    const int L = (2 * K + 76) / 60;
    for (auto &sc : schedules(std::max(L, N))) {
      use(sc);
      for (int i = 0; i < N; ++i) randz(c[i], 1);
      conv<K, N>(a, b, c); flush_regions();
      Ev("full").i("k", K).i("team", sc.team).raw("a", js(a)).raw("b", js(b)).raw("c", js(c)).end();
      for (int i = 0; i < N; ++i) randz(c[i], 1);
      conv<K, N>(s, a, c); flush_regions();
      Ev("tern").i("k", K).i("team", sc.team).ints("s", s, N).raw("a", js(a)).raw("c", js(c)).end();
    }
  }
}
template <class T> void result(const char *op, const T &x) { flush_regions(); Ev("result").str("op", op).str("d", digest(&x, sizeof x)).end(); }
// everything else, by the same calls under each schedule
template <int LOGQ, int LOGN> void library() {
  const int N = 1 << LOGN, LOGD = 30;
  for (auto &sc : schedules(N)) {
    use(sc);
    srand(7);
    static int s[N], s2[N], sr[N], sj[N];
    HEAAN<LOGQ, N>::keygen(N / 2, s); result("keygen", s);
    double zr[N / 2], zi[N / 2]; for (int i = 0; i < N / 2; ++i) { zr[i] = (i % 5 - 2) * 0.3; zi[i] = (i % 3 - 1) * 0.4; }
    static R_Q<LOGQ, N> pt, pt2; static R_Q_square<LOGQ, N> ct, ct2, ct3; static R_Q_square<2 * LOGQ, N> rlk, rk, ck;
    encode<LOGQ, LOGN>(zr, zi, 1ULL << LOGD, pt); result("encode", pt);
    HEAAN<LOGQ, N>::enc(pt, s, ct); result("enc", ct);
    HEAAN<LOGQ, N>::dec(ct, s, pt2); result("dec", pt2);
    decode<LOGQ, LOGN>(pt2, 1ULL << LOGD, zr, zi); result("decode", zr);
    conv<N>(s, s, s2); result("square", s2); HEAAN<LOGQ, N>::swkgen(s2, s, rlk); result("rlk", rlk);
    Mul<LOGQ, N>(ct, ct, rlk, ct2); result("mul", ct2);
    rot<N>(s, sr, 3); HEAAN<LOGQ, N>::swkgen(sr, s, rk); rot_ct<LOGQ, N>(ct, 3, rk, ct2); result("rot", ct2);
    conj<N>(s, sj); HEAAN<LOGQ, N>::swkgen(sj, s, ck); result("ck", ck); conj<LOGQ, N>(ct, ck, ct2); result("conj", ct2);
    ct2 = ct; ct2 += ct; ct2 -= ct; ct2 *= 12345ULL; result("linear", ct2); ct2 *= pt; result("pmul", ct2);
    static R_Q_square<LOGQ - 20, N> low; RS<LOGQ, LOGQ - 20, N>(ct, low); result("rs", low);
    mod_raise<LOGQ - 20, LOGQ, N>(low, ct3); result("raise", ct3);
    static SparseDiagonal<N / 2, 3> A, B; for (int i = 0; i < 3; ++i) { A.off[i] = i; A.zero[i] = false; for (int j = 0; j < N / 2; ++j) A.vec[i][j] = (i + j) % 3 - 1.0; }
    for (int i = 0; i < 3; ++i) { B.off[i] = i; B.zero[i] = false; for (int j = 0; j < N / 2; ++j) B.vec[i][j] = (i * j) % 3 - 1.0; }
    srand(9); linear_transform<LOGQ, LOGN, LOGD, 3>(A, B, ct, s, ct2); result("lt", ct2);
    static R_Q_square<LOGQ, N> cts[2]; srand(11); CoeffToSlot<LOGQ, LOGN, LOGD, 1>(ct, s, cts); result("cts", cts);
    srand(12); SlotToCoeff<LOGQ, LOGN, LOGD, 1>(cts[0], cts[1], s, ct2); result("stc", ct2);
  }
}
template <int LOGQ, int N> void evalmod() {
  static int s[N]; static R_Q<LOGQ, N> pt; static R_Q_square<LOGQ, N> ct; static R_Q_square<LOGQ - 12 * 50, N> out;
  for (auto &sc : std::vector<Sched>{{N, 0, 0, 1, true}, {3, 2, 400, 5, false}}) {
    use(sc); srand(3); HEAAN<LOGQ, N>::keygen(2, s);
    double zr[N / 2], zi[N / 2]; for (int i = 0; i < N / 2; ++i) { zr[i] = i + 0.001; zi[i] = -i; }
    encode<LOGQ, 2>(zr, zi, 1ULL << 50, pt); HEAAN<LOGQ, N>::enc(pt, s, ct);
    EvalMod<LOGQ, N, 50, 24>(ct, s, out); result("evalmod", out);
  }
}
int drive(int argc, char **argv) {
  init(argc, argv);
  switch (atoi(argv[4])) {
    case 0: products<20, 4>(); products<60, 8>(); products<64, 2>(); break;
    case 1: products<130, 64>(); break;
    case 2: products<320, 16>(); products<600, 8>(); break;
    case 3: library<240, 3>(); break;
    case 4: evalmod<1000, 4>(); break;
  }
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
