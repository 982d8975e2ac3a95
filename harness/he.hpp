// ciphertexts for the drivers, made without the library's own arithmetic
#pragma once
#include "vh.hpp"
#include <memory>
#include "HEAAN/arith/R_Q_square.h"
namespace vh {
template <int K> void own_addto(Z_Q<K> &a, const Z_Q<K> &b, bool sub) {
  const int n = (K + 63) / 64; unsigned __int128 c = sub;
  for (int i = 0; i < n; ++i) { c += (unsigned __int128)a.data[i] + (sub ? ~b.data[i] : b.data[i]); a.data[i] = (uint64_t)c; c >>= 64; }
  if (K % 64) a.data[n - 1] &= (1ULL << (K % 64)) - 1;
}
template <int K> Z_Q<K> own_small(long v, int shift = 0) {     // v * 2^shift mod 2^K
  Z_Q<K> r; const int n = (K + 63) / 64; uint64_t m = v < 0 ? -v : v;
  for (int i = 0; i < n; ++i) r.data[i] = 0;
  if (shift / 64 < n) r.data[shift / 64] = m << (shift % 64);
  if (shift % 64 && shift / 64 + 1 < n) r.data[shift / 64 + 1] = m >> (64 - shift % 64);
  if (K % 64) r.data[n - 1] &= (1ULL << (K % 64)) - 1;
  if (v < 0) { Z_Q<K> z; for (int i = 0; i < n; ++i) z.data[i] = 0; own_addto(z, r, true); return z; }
  return r;
}
// c -= or += s * a (s small integers)
template <int K, int N> void own_muladd(const int *s, const R_Q<K, N> &a, R_Q<K, N> &c, bool sub) {
  for (int i = 0; i < N; ++i) for (int t = 0; t < (s[i] < 0 ? -s[i] : s[i]); ++t) for (int j = 0; j < N; ++j) {
    bool neg = (s[i] < 0) != (i + j >= N);
    own_addto(c[(i + j) % N], a[j], neg != sub);
  }
}
// values of special form: 0 random classes, 1 uniform, 2 all words equal, 3 powers of two +-1, 4 all ones, 5 -2^(K-1), 6 zero, 7 2^(K-1)-1
template <int K> void form(Z_Q<K> &x, int m) {
  const int n = (K + 63) / 64; const int t = (K - 1) / 64; const uint64_t b = 1ULL << ((K - 1) % 64);
  if (m < 4) { randz(x, m); return; }
  for (int i = 0; i < n; ++i) x.data[i] = m == 4 || m == 7 ? ~0ULL : 0;
  if (m == 5) x.data[t] = b;
  if (m == 4) x.data[t] = (b - 1) | b;
  if (m == 7) x.data[t] = b - 1;
}
template <int K, int N> void form_poly(R_Q<K, N> &p, int m) {   // 8: random forms per coefficient
  for (int i = 0; i < N; ++i) form(p[i], m == 8 ? (int)rng.below(8) : m);
}
template <int N> void own_key(int *s, int mode) {              // 0 dense, 1 sparse, 2 all ones, 3 all -1, 4 one entry, 5 empty
  for (int i = 0; i < N; ++i) s[i] = mode == 0 ? (int)rng.below(3) - 1 : mode == 2 ? 1 : mode == 3 ? -1 : 0;
  if (mode == 1) for (int i = 0; i < 1 + N / 8; ++i) s[rng.below(N)] = rng.below(2) ? 1 : -1;
  if (mode == 4) s[rng.below(N)] = rng.below(2) ? 1 : -1;
}
template <int N> void few_key(int *s, int h) { for (int i = 0; i < N; ++i) s[i] = 0; for (int i = 0; i < h; ++i) s[i == 0 ? N - 1 : rng.below(N)] = rng.below(2) ? 1 : -1; }
// encryption of 2^K * sfr modulo 2^(2K) under sto; noise mode 0 random within 8, 1 all 8, 2 all -8, 3 zero; mask form
template <int K, int N> void own_swk(const int *sfr, const int *sto, int noise, int mask, R_Q_square<2 * K, N> &swk) {
  form_poly(swk[1], mask);
  for (int i = 0; i < N; ++i) {
    long e = noise == 0 ? (long)rng.below(17) - 8 : noise == 1 ? 8 : noise == 2 ? -8 : 0;
    swk[0][i] = own_small<2 * K>(sfr[i], K);
    own_addto(swk[0][i], own_small<2 * K>(e), false);
  }
  own_muladd(sto, swk[1], swk[0], true);
}
template <int N> void own_square(const int *s, int *s2) { for (int i = 0; i < N; ++i) s2[i] = 0; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (i + j < N) s2[i + j] += s[i] * s[j]; else s2[i + j - N] -= s[i] * s[j]; }
template <int N> void own_auto(const int *s, int *r, long g) { g = ((g % (2 * N)) + 2 * N) % (2 * N); for (long i = 0; i < N; ++i) { long j = i * g % (2 * N); if (j < N) r[j] = s[i]; else r[j - N] = -s[i]; } }
template <int K, int N> std::string js(const R_Q<K, N> &A) { std::string s = "["; for (int i = 0; i < N; ++i) { if (i) s += ","; s += vh::z(A[i]); } return s + "]"; }
template <int K, int N> std::string js(const R_Q_square<K, N> &A) { return "[" + js(A[0]) + "," + js(A[1]) + "]"; }
inline std::string ints(const int *a, int n) { std::string s = "["; for (int i = 0; i < n; ++i) { if (i) s += ","; s += std::to_string(a[i]); } return s + "]"; }
template <class T> struct Copy_ {                             // a snapshot to see whether an argument changed
  const T *p; std::vector<char> c;
  explicit Copy_(const T &x) : p(&x), c((const char *)&x, (const char *)&x + sizeof(T)) {}
  bool same() const { return !memcmp((const char *)p, c.data(), sizeof(T)); }
};
}  // namespace vh
