// C05: word-level modular arithmetic
#include "vh.hpp"
#include "HEAAN/arith/conv/mod.h"
namespace vh {
static uint64_t w() { switch (rng.below(6)) { case 0: return word_class((int)rng.below(9)); case 1: return rng(); case 2: return (1ULL << rng.below(64)) - rng.below(2); case 3: return 0 - rng.below(4); case 4: return rng.below(5); default: return rng() >> rng.below(64); } }
static uint64_t m() { uint64_t q = w(); return q ? q : 1; }
static void ops(uint64_t a, uint64_t b, uint64_t q) {
  Ev("add").u("a", a).u("b", b).u("q", q).u("r", add_mod(a, b, q)).end();
  Ev("sub").u("a", a).u("b", b).u("q", q).u("r", sub_mod(a, b, q)).end();
  Ev("mulm").u("a", a).u("b", b).u("q", q).u("r", mul_mod(a, b, q)).end();
  Ev("mod").u("lo", a).u("hi", b).u("q", q).u("r", mod(a, b, q)).end();
}
static void muls(uint64_t a, uint64_t b) {
  uint64_t lo = ~a, hi = ~b; mul(a, b, lo, hi); Ev("mul").u("a", a).u("b", b).u("lo", lo).u("hi", hi).end();
  lo = ~a; hi = ~b; mul_(a, b, lo, hi); Ev("mul").u("a", a).u("b", b).u("lo", lo).u("hi", hi).end();
}
static const uint64_t primes[] = {2, 3, 5, 7, 11, 13, 17, 97, 193, 257, 7681, 12289, 65537, 786433, 2147483647ULL, 4294967291ULL, 4294967311ULL,
  0xffffffffffc0001ULL, 0x1000000000980001ULL, 0xfffffffee8c0001ULL, 0x1000000011340001ULL, 2305843009213693951ULL, 9223372036854775783ULL, 9223372036854775837ULL,
  18446744069414584321ULL, 18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL};
int drive(int argc, char **argv) {
  init(argc, argv);
  int part = atoi(argv[4]);
  if (part == 0) {
    for (uint64_t q = 1; q < 9; ++q) for (uint64_t a = 0; a < 10; ++a) for (uint64_t b = 0; b < 10; ++b) { ops(a, b, q); Ev("pow").u("a", a).u("b", b).u("q", q).u("r", pow_mod(a, b, q)).end(); }
    const uint64_t e[] = {0, 1, 2, 0x7FFFFFFF, 0x80000000ULL, 0xFFFFFFFFULL, 0x100000000ULL, 0x1FFFFFFFFULL, 0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, 0x8000000000000001ULL, 0xFFFFFFFF00000000ULL, 0xFFFFFFFFFFFFFFFEULL, 0xFFFFFFFFFFFFFFFFULL};
    for (uint64_t a : e) for (uint64_t b : e) { muls(a, b); for (uint64_t q : e) if (q) ops(a, b, q); }
  }
  int n = thorough ? 40000 : 1500;
  for (int i = 0; i < n; ++i) { uint64_t a = w(), b = w(), q = m(); ops(a, b, q); muls(w(), w()); 
    if (i % 3 == 0) Ev("pow").u("a", a).u("b", b).u("q", q).u("r", pow_mod(a, b, q)).end(); }
  // reduced operands of large moduli, the use inside the transforms
  for (int i = 0; i < n / 2; ++i) { uint64_t q = primes[17 + rng.below(11)]; uint64_t a = rng.below(3) ? rng() % q : q - 1 - rng.below(3), b = rng.below(3) ? rng() % q : rng.below(3); ops(a, b, q); }
  for (uint64_t q : primes) for (int i = 0; i < (thorough ? 200 : 8); ++i) {
    uint64_t a = i == 0 ? 1 : i == 1 ? q - 1 : i == 2 ? q + 1 : i == 3 ? 2 : w();
    if (a % q == 0) continue;
    Ev("inv").u("a", a).u("q", q).u("r", inv_mod(a, q)).end();
    uint64_t x = w(), y = w(); Ev("pow").u("a", x).u("b", y).u("q", q).u("r", pow_mod(x, y, q)).end();
  }
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
