// C14: rotations and conjugation of keys, plaintexts and ciphertexts
#include "he.hpp"
#include "HEAAN/linear_transform.h"
namespace vh {
static int rmax(int N) { if (rng.below(12) == 0) return 40000 + (int)rng.below(2000000); return (int)rng.below(4) ? (int)rng.below(N + 3) : (int)rng.below(4 * N + 9); }
template <int N> void key_program(int mode, int steps) {
  static int x[N], y[N];
  if (mode < 6) own_key<N>(x, mode); else for (int i = 0; i < N; ++i) x[i] = mode == 6 ? (int)rng.below(2000001) - 1000000 : i + 1;
  auto jx = [&] { return "[" + [&] { std::string s; for (int i = 0; i < N; ++i) { if (i) s += ","; s += snum(x[i]); } return s; }() + "]"; };
  Ev("begin").i("n", N).i("k", 0).raw("x", jx()).end();
  for (int t = 0; t < steps; ++t) {
    int op = (int)rng.below(4), r = op == 0 ? 1 : op == 3 ? 0 : rmax(N);
    for (int i = 0; i < N; ++i) y[i] = 99;
    Copy_<int[N]> c(x);
    if (op == 0) rot<N>(x, y); else if (op == 3) conj<N>(x, y); else rot<N>(x, y, r);
    bool same = c.same();
    memcpy(x, y, sizeof x);
    Ev("auto").str("op", op == 3 ? "conj" : "rot").i("r", r).raw("x", jx()).b("same", same).end();
  }
}
template <int K, int N> void pt_program(int form, int steps) {
  static R_Q<K, N> x, y;
  form_poly(x, form);
  Ev("begin").i("n", N).i("k", K).raw("x", js(x)).end();
  for (int t = 0; t < steps; ++t) {
    int op = (int)rng.below(4), r = op == 0 ? 1 : op == 3 ? 0 : rmax(N);
    form_poly(y, 8);
    Copy_<R_Q<K, N>> c(x);
    if (op == 0) rot<K, N>(x, y); else if (op == 3) conj<K, N>(x, y); else rot<K, N>(x, y, r);
    bool same = c.same();
    x = y;
    Ev("auto").str("op", op == 3 ? "conj" : "rot").i("r", r).raw("x", js(x)).b("same", same).end();
  }
}
// long polynomials, some coefficients
template <int K, int N> void pt_points(int r) {
  static R_Q<K, N> x, y;
  for (int i = 0; i < N; ++i) form(x[i], (int)rng.below(8));
  for (int op = 0; op < 2; ++op) {
    if (op) conj<K, N>(x, y); else rot<K, N>(x, y, r);
    // where coefficient i must go: x^i -> x^(g i)
    long g = 1; if (op) g = 2 * N - 1; else for (int i = 0; i < r % (N / 2 ? N / 2 : 1); ++i) g = g * 5 % (2 * N);
    std::string at = "[", to = "[", src = "[", dst = "[";
    for (int q = 0; q < 200; ++q) {
      long i = q < 4 ? q : q < 8 ? N - 1 - (q - 4) : (long)rng.below(N); long j = i * g % (2 * N) % N;
      const char *c = q ? "," : "";
      at += c + std::to_string(i); to += c + std::to_string(j); src += c + vh::z(x[i]); dst += c + vh::z(y[j]);
    }
    Ev("pt").str("op", op ? "conj" : "rot").i("r", r).i("n", N).i("k", K).raw("at", at + "]").raw("to", to + "]").raw("src", src + "]").raw("dst", dst + "]").end();
  }
}
template <int K, int N> void ct(int R, int few = 0) {
  static R_Q_square<2 * K, N> swk; static R_Q_square<K, N> in, out; static int s[N], t[N];
  for (int q = 0; q < R; ++q) {
    if (few) few_key<N>(s, few); else own_key<N>(s, q % 6);
    bool cj = q % 4 == 3; int r = cj ? 0 : q % 5 == 4 ? (int)rng.below(3 * N) : (int)rng.below(N / 2 + 1);
    long g = 1; if (cj) g = 2 * N - 1; else for (int i = 0; i < r; ++i) g = g * 5 % (2 * N);
    own_auto<N>(s, t, g);
    own_swk<K, N>(t, s, q % 4, q % 3 == 0 ? 4 : 8, swk);
    form_poly(in[0], q % 9); form_poly(in[1], q % 2 ? 4 : 8); form_poly(out[0], 8); form_poly(out[1], 8);
    Copy_<R_Q_square<2 * K, N>> c1(swk); Copy_<R_Q_square<K, N>> c2(in);
    if (cj) conj<K, N>(in, swk, out); else rot_ct<K, N>(in, r, swk, out);
    bool same = c1.same() && c2.same();
    Ev("ct").str("op", cj ? "conj" : "rot").i("r", r).i("k", K).raw("s", ints(s, N)).raw("swk", js(swk)).raw("in", js(in)).raw("out", js(out)).b("same", same).end();
  }
}
int drive(int argc, char **argv) {
  init(argc, argv);
  const int R = thorough ? 120 : 24;
#if VH_PART == 0
  for (int m = 0; m < 8; ++m) { key_program<2>(m, R); key_program<4>(m, R); key_program<8>(m, R); key_program<16>(m, R); key_program<64>(m, R); }
  ct<60, 4>(R); ct<2, 4>(R); ct<32, 8>(R);
#elif VH_PART == 1
  for (int m = 0; m < 8; ++m) { key_program<32>(m, R / 2); key_program<256>(m, 6); key_program<1024>(m, 3); }
  key_program<131072>(7, 2); ct<64, 8>(R);
#elif VH_PART == 2
  for (int m = 0; m < 9; ++m) { pt_program<1, 4>(m, 6); pt_program<60, 8>(m, R / 2); pt_program<64, 4>(m, R / 2); pt_program<65, 2>(m, R / 2); pt_program<128, 16>(m, 8); pt_program<300, 32>(m, 6); }
  ct<65, 4>(R); ct<127, 2>(R);
#elif VH_PART == 3
  for (int m = 0; m < 9; ++m) { pt_program<63, 2>(m, R / 2); pt_program<120, 64>(m, 4); pt_program<1450, 8>(m, 4); }
  pt_points<100, 4096>(77); pt_points<64, 32768>(16384 - 1); pt_points<64, 131072>(70001); pt_points<60, 1024>(511); pt_points<60, 1024>(5000); ct<128, 16>(R / 2);
#elif VH_PART == 4
  ct<300, 8>(R); ct<1450, 4>(R / 2); ct<129, 4>(R);
#elif VH_PART == 5
  ct<60, 64>(R / 2); ct<120, 32>(R / 2); ct<40, 512>(2);
#elif VH_PART == 6
  ct<40, 4096>(5, 6); ct<30, 16384>(5, 4);
#elif VH_PART == 7
  ct<1450, 512>(5, 6); ct<20, 32768>(4, 3);
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
