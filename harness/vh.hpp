// Trace writing for the conformance drivers.  A driver is run as: driver TRACE SEED TIER ARGS...
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include "HEAAN/arith/Z_Q.h"

namespace vh {

inline FILE *out = nullptr;
inline uint64_t seed = 1;
inline bool thorough = false;

// random numbers of the harness, independent of rand()
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
  uint64_t operator()() {
    s += 0x9E3779B97F4A7C15ULL;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return (*this)() % n; }
  double unit() { return ((*this)() >> 11) * 0x1.0p-53; }          // [0,1)
  double sym() { return 2 * unit() - 1; }                          // [-1,1)
};
inline Rng rng(1);

inline void init(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage: driver TRACE SEED TIER ...\n"); exit(64); }
  out = fopen(argv[1], "w");
  if (!out) { perror(argv[1]); exit(64); }
  static char buf[1 << 20];
  setvbuf(out, buf, _IOFBF, sizeof buf);
  seed = strtoull(argv[2], 0, 10);
  thorough = !strcmp(argv[3], "thorough");
  rng = Rng(seed * 1000003);
  srand((unsigned)seed);
}
inline void fini() { fclose(out); out = nullptr; }

// magnitude words (least significant first) and sign -> [s,d1,...] in base 2^15
inline std::string big(const uint64_t *w, int n, int sign) {
  while (n > 0 && w[n - 1] == 0) --n;
  if (n == 0) return "[0]";
  std::string r = sign < 0 ? "[-1" : "[1";
  int bits = 64 * n;
  std::vector<int> d;
  for (int p = 0; p < bits; p += 15) {
    int i = p / 64, o = p % 64;
    uint64_t x = w[i] >> o;
    if (o > 49 && i + 1 < n) x |= w[i + 1] << (64 - o);
    d.push_back((int)(x & 32767));
  }
  while (!d.empty() && d.back() == 0) d.pop_back();
  char t[16];
  for (int x : d) { snprintf(t, sizeof t, ",%d", x); r += t; }
  return r + "]";
}
inline std::string num(uint64_t x) { return big(&x, 1, 1); }
inline std::string snum(int64_t x) { uint64_t m = x < 0 ? 0 - (uint64_t)x : (uint64_t)x; return big(&m, 1, x < 0 ? -1 : 1); }
inline std::string num128(uint64_t lo, uint64_t hi) { uint64_t w[2] = {lo, hi}; return big(w, 2, 1); }

// the integer nearest to x * 2^F; not-a-number and infinities become 2^4000
inline std::string fix(double x, int F) {
  uint64_t w[70]; memset(w, 0, sizeof w);
  if (!std::isfinite(x)) { w[62] = 1ULL << 32; return big(w, 63, 1); }
  int e; double m = frexp(fabs(x), &e);              // |x| = m * 2^e, m in [1/2,1)
  uint64_t k = (uint64_t)ldexp(m, 53); int sh = e - 53 + F;
  if (sh < 0) {
    if (sh < -60) k = 0;
    else { uint64_t half = 1ULL << (-sh - 1); k = (k + half) >> -sh; }
    w[0] = k;
  } else {
    w[sh / 64] = k << (sh % 64);
    if (sh % 64) w[sh / 64 + 1] = k >> (64 - sh % 64);
  }
  return big(w, 70, x < 0 ? -1 : 1);
}

// the number the stored words spell
template <int K> std::string z(const Z_Q<K> &A) { return big(A.data, (K + 63) / 64, 1); }

struct Ev {                                           // one event
  std::string s;
  explicit Ev(const char *name) { s = std::string("{\"e\":\"") + name + "\""; }
  Ev &raw(const char *k, const std::string &v) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
  Ev &i(const char *k, long v) { return raw(k, std::to_string(v)); }
  Ev &b(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
  Ev &str(const char *k, const std::string &v) { return raw(k, "\"" + v + "\""); }
  template <int K> Ev &z(const char *k, const Z_Q<K> &A) { return raw(k, vh::z(A)); }
  Ev &u(const char *k, uint64_t v) { return raw(k, num(v)); }
  template <class F> Ev &seq(const char *k, int n, F f) {
    std::string r = "[";
    for (int i = 0; i < n; ++i) { if (i) r += ","; r += f(i); }
    return raw(k, r + "]");
  }
  Ev &ints(const char *k, const int *a, int n) { return seq(k, n, [&](int i) { return std::to_string(a[i]); }); }
  Ev &dbl(const char *k, const double *a, int n, int F) { return seq(k, n, [&](int i) { return fix(a[i], F); }); }
  void end() { s += "}\n"; if (fwrite(s.data(), 1, s.size(), out) != s.size()) { perror("trace"); exit(64); } }
};

// words of classes a specification names: 0..5 boundary values, others random
inline uint64_t word_class(int c) {
  switch (c) {
    case 0: return 0;
    case 1: return ~0ULL;
    case 2: return 1;
    case 3: return 1ULL << 63;
    case 4: return (1ULL << 63) - 1;
    case 5: return ~0ULL - 1;
    case 6: return rng() & 0xFFFFFFFFULL;
    case 7: return rng() << 32;
    default: return rng();
  }
}
template <int K> void randz(Z_Q<K> &A, int mode) {      // mode 0 random classes, 1 uniform, 2 one class everywhere, 3 power of two +-1
  const int n = (K + 63) / 64;
  if (mode == 3) {
    int b = (int)rng.below(K);
    for (int i = 0; i < n; ++i) A.data[i] = 0;
    A.data[b / 64] = 1ULL << (b % 64);
    uint64_t t = rng.below(3);
    if (t) for (int i = 0; i < n; ++i) {                // minus one (t=1) or negated (t=2)
      if (t == 1) { if (A.data[i]-- != 0) break; } else { A.data[i] = ~A.data[i]; }
    }
  } else {
    int c = (int)rng.below(6);
    for (int i = 0; i < n; ++i) A.data[i] = mode == 1 ? rng() : mode == 2 ? word_class(c) : word_class((int)rng.below(9));
  }
  if (K % 64) A.data[n - 1] &= (1ULL << (K % 64)) - 1;
}
}  // namespace vh
