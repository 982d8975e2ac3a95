#pragma once
#include <cstdint>
namespace vh {
static bool isprime(uint64_t n) {                     // deterministic Miller-Rabin with its own arithmetic
  if (n < 4) return n > 1;
  if (n % 2 == 0) return false;
  auto mm = [&](uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % n); };
  uint64_t d = n - 1; int s = 0; while (d % 2 == 0) d /= 2, ++s;
  for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    if (a % n == 0) continue;
    uint64_t x = 1, b = a % n, e = d; for (; e; e >>= 1) { if (e & 1) x = mm(x, b); b = mm(b, b); }
    if (x == 1 || x == n - 1) continue;
    bool ok = false; for (int i = 1; i < s && !ok; ++i) { x = mm(x, x); ok = x == n - 1; }
    if (!ok) return false;
  }
  return true;
}
// the n-th prime = 1 mod step at or above (up) / below (down) lo
static uint64_t prime_up(uint64_t lo, uint64_t step, int n = 0) { uint64_t p = (lo / step) * step + 1; if (p < lo) p += step; for (;; p += step) if (isprime(p) && n-- == 0) return p; }
static uint64_t prime_down(uint64_t hi, uint64_t step, int n = 0) { uint64_t p = ((hi - 1) / step) * step + 1; for (;; p -= step) if (isprime(p) && n-- == 0) return p; }
}
