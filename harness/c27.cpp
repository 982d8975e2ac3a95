// C27: inputs and reports of the experiments, and the utilities underneath
#include "he.hpp"
#include "capture.hpp"
#include "experiment/setup.h"
#include "impl/plaintext.h"
#include <thread>
#include <unistd.h>
namespace vh {
static const int F = 128;
static std::string dv(const double *a, int n) { std::string s = "["; for (int i = 0; i < n; ++i) { if (i) s += ","; s += fix(a[i], F); } return s + "]"; }
static std::string esc(const std::string &t) { std::string s; for (char c : t) { if (c == '\n') s += "\\n"; else if (c == '"' || c == '\\') { s += '\\'; s += c; } else s += c; } return s; }
static std::string qs(const double *a, int n) { std::string s = "["; for (int i = 0; i < n; ++i) { if (i) s += ","; s += std::to_string((int)(a[i] * 4)); } return s + "]"; }
// numbers with few quarters; six digits print exactly up to 9999.75
static double quarter(int m) { switch (m % 5) { case 0: return 0; case 1: return (int)rng.below(9) / 4.0 - 1; case 2: return (int)rng.below(7999) / 4.0 - 1000 + 0.0; case 3: return rng.below(2) ? -9999.0 : 9999.0; default: return (int)rng.below(2001) - 1000.0; } }
static void text(const char *what, const std::string &t, const char *name, const std::string &args) { Ev(what).str("text", esc(t)).str("name", name).raw("x", args).end(); }
static std::string bits(uint32_t x) { std::string s = "["; for (int i = 0; i < 32; ++i) s += (i ? "," : "") + std::to_string(x >> i & 1); return s + "]"; }
static void words() {
  for (int d = 0; d <= 32; ++d) for (int r = 0; r < (d < 5 ? 1 << d : 8); ++r) {
    uint32_t x = d < 5 ? r : r == 0 ? 1u : r == 1 ? 1u << (d - 1) : r == 2 ? ~0u : (uint32_t)rng();
    if (d == 0) x = 0;
    if (r < 5 && d < 32) x &= (1u << d) - 1;
    Ev("rev").i("d", d).raw("x", bits(x)).raw("out", bits(bitReverse(x, d))).raw("all", bits(bitReverse32(x))).end();
  }
  alarm(60);                                                 // a search for an exponent that does not end
  for (int b = 0; b <= 30; ++b) for (int o = -1; o <= 1; ++o) { int n = (1 << b) + o; if (n > 0) Ev("log").i("n", n).i("out", log(n)).end(); }
  for (int r = 0; r < 200; ++r) { int n = 1 + (int)rng.below(1 << (1 + rng.below(29))); Ev("log").i("n", n).i("out", log(n)).end(); }
  for (int n : {2147483647, 2147483646, 1500000000}) Ev("log").i("n", n).i("out", log(n)).end();
  alarm(0);
  for (int h = 0; h < 4; ++h) {
    srand((unsigned)rng()); uint64_t o = 0, a = ~0ULL, last = 0; bool differ = true;
    for (int i = 0; i < 90; ++i) { uint64_t x = rand_uint64(); o |= x; a &= x; if (i && x == last) differ = false; last = x; }
    Ev("rand").u("or", o).u("and", a).b("differ", differ).end();
  }
  for (int r = 0; r < 60; ++r) {
    int a = (int)rng() % 100, b = r % 3 ? (int)rng() % 100 : a; uint64_t c = rng() >> 40, d = rng() >> 40; double x = quarter(r), y = quarter(r + 1);
    Ev("min").i("a", a).i("b", b).i("out", min(a, b)).end(); Ev("min").i("a", (int)c).i("b", (int)d).i("out", (int)min(c, d)).end();
    Ev("min").i("a", (int)(4 * x)).i("b", (int)(4 * y)).i("out", (int)(4 * min(x, y))).end();
  }
}
template <int N> static void arrays(int R) {
  for (int r = 0; r < R; ++r) {
    double a[N]; uint64_t u[N];
    for (int i = 0; i < N; ++i) { a[i] = quarter(r + (r % 2) * i); u[i] = rng() >> (34 + rng.below(30)); if (r == 0) a[i] = u[i] = 0; }
    text("array", captured([&] { print_array<N>(a); }), "", qs(a, N));
    std::string s = "["; for (int i = 0; i < N; ++i) s += (i ? "," : "") + std::to_string(u[i]);
    text("uarray", captured([&] { print_array<N>(u); }), "", s + "]");
  }
}
template <int N> static void dense(int R) {
  for (int r = 0; r < R; ++r) {
    static double a[N][N], b[N][N]; std::string s = "[", t = "[";
    for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) { a[i][j] = quarter(r + i + j); b[i][j] = quarter(r + 2 * i + j); } s += (i ? "," : "") + qs(a[i], N); t += (i ? "," : "") + qs(b[i], N); }
    text("dense", captured([&] { print<N>(a, b); }), "", "{\"r\":" + s + "],\"i\":" + t + "]}");
  }
}
template <int N, int S> static void sparse(int R) {
  for (int r = 0; r < R; ++r) {
    static SparseDiagonal<N, S> A; std::string s = "[";
    for (int k = 0; k < S; ++k) { A.off[k] = (int)rng.below(N); A.zero[k] = r % 5 == 4; for (int i = 0; i < N; ++i) A.vec[k][i] = A.zero[k] ? 0 : r % 4 == 3 && !(k == S - 1 && i == N - 1) ? 0 : quarter(r + (int)rng.below(3)); s += (k ? "," : "") + ("{\"off\":" + std::to_string(A.off[k])) + ",\"v\":" + qs(A.vec[k], N) + "}"; }
    const char *nm = r % 2 ? "A" : "U0r";
    text("sparse", captured([&] { A.print(nm); }), nm, s + "]"); text("max", captured([&] { print_max(A); }), "", s + "]");
  }
}
template <int G> struct E_ {
  static constexpr int N = 1 << G, n = N / 2;
  typedef Message<G> M;
  static void junk(M &m) { for (int i = 0; i < n; ++i) m.r[i] = m.i[i] = 7.5 + i; }
  static Ev m(Ev e, const M &z) { return e.i("g", G).raw("zr", dv(z.r, n)).raw("zi", dv(z.i, n)); }
  static void inputs() {
    static M z; junk(z); set_test_message(z); m(Ev("testmsg").i("k", 1), z).end();
    junk(z); set_evalmod_message(z); m(Ev("evalmsg"), z).end();
    for (int e : {0, 4, 11, 20, 30}) { junk(z); set_test_rounded_message(z, 1ULL << e); m(Ev("rounded").u("D", 1ULL << e), z).end(); }
    junk(z); set_test_rounded_message(z, 1000003); m(Ev("rounded").u("D", 1000003), z).end();
  }
  template <int K> static void matrix() {
    static M A[K]; for (int k = 0; k < K; ++k) junk(A[k]);
    set_test_matrix<G, K>(A); for (int k = 0; k < K; ++k) m(Ev("testmsg").i("k", k), A[k]).end();
    for (int k = 0; k < K; ++k) junk(A[k]);
    set_random_matrix<G, K>(A); for (int k = 0; k < K; ++k) m(Ev("random"), A[k]).end();
  }
  static void random(int R) { for (int r = 0; r < R; ++r) { static M z; junk(z); set_random_message(z); m(Ev("random"), z).end(); } }
  static void reports(int R) {
    for (int r = 0; r < R; ++r) {
      static M a, b; for (int i = 0; i < n; ++i) { a.r[i] = quarter(2 + r % 3); a.i[i] = quarter(2); b = a; }
      b = a; int e = 30 - (int)rng.below(60), f = 30 - (int)rng.below(60), u = r % 3 == 0 ? 0 : r % 3 == 1 ? n - 1 : (int)rng.below(n), v = r % 4 == 0 ? n - 1 : r % 4 == 1 ? 0 : (int)rng.below(n);
      for (int i = 0; i < n; ++i) { a.r[i] = (int)rng.below(8) / 4.0; a.i[i] = -(int)rng.below(8) / 4.0; b.r[i] = a.r[i]; b.i[i] = a.i[i]; }
      if (r % 7 != 6) for (int i = 0; i < n; ++i) { double x = ldexp(rng.below(2) ? 1 : -1, e - (i == u ? 0 : (int)rng.below(4) + 1)); b.r[i] = a.r[i] + x; }
      if (r % 7 != 5) for (int i = 0; i < n; ++i) { double x = ldexp(rng.below(2) ? 1 : -1, f - (i == v ? 0 : (int)rng.below(4) + 1)); b.i[i] = a.i[i] + x; }
      Copy_<M> ca(a), cb(b); std::string t = captured([&] { print_max_error(a, b); });
      Ev("maxerr").str("text", esc(t)).raw("ar", dv(a.r, n)).raw("br", dv(b.r, n)).raw("ai", dv(a.i, n)).raw("bi", dv(b.i, n)).b("same", ca.same() && cb.same()).end();
      for (int i = 0; i < n; ++i) { a.r[i] = quarter(r + i); a.i[i] = quarter(r + 1); }
      const char *nm = r % 2 ? "z" : "z_out 1";
      text("message", captured([&] { print(nm, a); }), nm, "{\"r\":" + qs(a.r, n) + ",\"i\":" + qs(a.i, n) + "}");
      static SimplePlaintext<G> p; static double q[N]; for (int i = 0; i < N; ++i) p[i] = q[i] = quarter(r + i);
      text("plain", captured([&] { print(nm, p); }), nm, qs(q, N));
    }
  }
  static std::string diags(const SparseDiagonal<n, 3> &r, const SparseDiagonal<n, 3> &im) {
    std::string o = "["; for (int k = 0; k < 3; ++k) o += std::string(k ? "," : "") + "{\"offr\":" + std::to_string(((r.off[k] % n) + n) % n) + ",\"offi\":" + std::to_string(((im.off[k] % n) + n) % n) + ",\"re\":" + dv(r.vec[k], n) + ",\"im\":" + dv(im.vec[k], n) + "}";
    return o + "]";
  }
  static void factors() {
    static SparseDiagonal<n, 3> ar[G - 1], ai[G - 1], br[G - 1], bi[G - 1];
    splitU0NR<G>(ar, ai);
    for (int f = 0; f < G - 1; ++f) for (int k = 0; k < 3; ++k) { br[f].off[k] = bi[f].off[k] = 99; for (int i = 0; i < n; ++i) br[f].vec[k][i] = bi[f].vec[k][i] = 5; }
    set_test_U0_matrix<G>(br, bi);
    for (int f = 0; f < G - 1; ++f) Ev("adjoint").i("g", G).raw("A", diags(ar[f], ai[f])).raw("B", diags(br[f], bi[f])).end();
  }
};
static void timers() {
  using C = std::chrono::steady_clock; auto ms = [](C::duration d) { return (long)std::chrono::duration_cast<std::chrono::milliseconds>(d).count(); };
  int k = 0;
  for (int wait : {0, 3, 40, 1250}) {
    std::string name = k++ % 2 ? "Bootstrapping" : "c2s + s2c"; C::time_point o0 = C::now(), i0, i1, o1;
    std::string t = captured([&] { Timer x(name); i0 = C::now(); if (wait) std::this_thread::sleep_for(std::chrono::milliseconds(wait)); i1 = C::now(); x.stop(); });
    o1 = C::now(); size_t p = t.rfind(" : "); long v = p == std::string::npos ? -1 : atol(t.c_str() + p + 3);
    Ev("timer").str("name", name).str("text", esc(t)).i("ms", v).i("lo", ms(i1 - i0)).i("hi", ms(o1 - o0)).end();
  }
}
int drive(int argc, char **argv) {
  init(argc, argv);
  const int X = thorough ? 10 : 1;
#if VH_PART == 0
  words(); timers();
  arrays<1>(3 * X); arrays<2>(5 * X); arrays<9>(6 * X); arrays<10>(6 * X); arrays<11>(6 * X); arrays<64>(6 * X);
  dense<1>(2 * X); dense<2>(3 * X); dense<5>(3 * X); dense<8>(3 * X); sparse<1, 1>(3 * X); sparse<4, 3>(12 * X); sparse<8, 1>(6 * X); sparse<16, 9>(6 * X); sparse<64, 3>(6 * X);
#elif VH_PART == 1
  E_<2>::inputs(); E_<3>::inputs(); E_<4>::inputs(); E_<5>::inputs(); E_<7>::inputs(); E_<9>::inputs();
  E_<2>::matrix<3>(); E_<4>::matrix<16>(); E_<6>::matrix<5>(); E_<9>::matrix<4>(); E_<12>::random(8); E_<9>::random(4);
  Ev("spread").end();
#else
  E_<2>::reports(14 * X); E_<3>::reports(14 * X); E_<4>::reports(14 * X); E_<5>::reports(14 * X); E_<7>::reports(14 * X);
  E_<3>::factors(); E_<4>::factors(); E_<5>::factors(); E_<6>::factors(); E_<7>::factors(); E_<8>::factors();
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
