// pairs of modulus sizes; VH_PART selects an eighth of them
#pragma once
#include <utility>
#ifndef VH_PART
#define VH_PART 0
#endif
namespace vh {
template <int... I> struct L_ {};
using Sizes = L_<1, 2, 5, 31, 32, 33, 60, 63, 64, 65, 66, 100, 120, 127, 128, 129, 130, 180, 191, 192, 193, 194, 250, 256, 257, 320, 600, 1024, 1450, 2900>;
using Tiny = L_<1, 2, 3, 4, 5, 6, 7, 8>;
template <template <int, int> class F, int A, int... B> void row(L_<B...>) { (((VH_PART >= 8 || (A * 31 + B) % 8 == VH_PART) ? F<A, B>::run() : (void)0), ...); }
template <template <int, int> class F, int... A, class R> void pairs(L_<A...>, R r) { (row<F, A>(r), ...); }
template <template <int> class F, int... A> void singles(L_<A...>) { int i = 0; (((VH_PART >= 8 || i++ % 8 == VH_PART) ? F<A>::run() : (void)0), ...); }
// pairs of sizes off the list: two sequences that meet every remainder modulo 64 with every other, and every distance
constexpr int off_a(int j) { return 1 + (j * 37) % 701; }
constexpr int off_b(int j) { return j % 3 ? 1 + (j * 53 + (j / 64) * 7) % 449 : off_a(j) > 1 ? 1 + (j * 29) % (off_a(j) - 1) : 1; }
template <template <int, int> class F, int... J> void offlist(std::integer_sequence<int, J...>) { (((VH_PART >= 8 || J % 8 == VH_PART) ? F<off_a(J), off_b(J)>::run() : (void)0), ...); }
}
