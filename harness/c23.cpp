// C23: histories of calls.  Every history runs in a process of its own; the parent never calls the library.
#include "he.hpp"
#include "capture.hpp"
#include "HEAAN/bootstrap.h"
#include "HEAAN/endecode.h"
#include "impl/message.h"
#include "impl/plaintext.h"
#include "impl/simple_plaintext.h"
#include <chrono>
#include <functional>
#include <map>
#include <malloc.h>
#include <omp.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef VH_SAN                                                  // C26: the same calls, watched by the sanitizers
#include "sizes.hpp"
#include "experiment/setup.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace vh { static long kept;                              // heap bytes in use after a call, less those before
static std::vector<std::string> faults; static bool in_call = false; }
extern "C" {
void __ubsan_get_current_report_data(const char **, const char **, const char **, unsigned *, unsigned *, char **);
void __ubsan_on_report() {
  const char *k, *m, *fn; unsigned l, c; char *a; __ubsan_get_current_report_data(&k, &m, &fn, &l, &c, &a);
  if (vh::in_call && vh::faults.size() < 8) { std::string f = fn ? fn : ""; size_t p = f.find("include/"); vh::faults.push_back(std::string(k) + " at " + (p == std::string::npos ? f : f.substr(p + 8)) + ":" + std::to_string(l)); }
}
const char *__asan_get_report_description(); int __asan_get_report_access_type();
void __asan_on_error() { if (vh::in_call && vh::faults.size() < 8) vh::faults.push_back(std::string(__asan_get_report_access_type() ? "write " : "read ") + __asan_get_report_description()); }
}
#endif
namespace vh {
struct Dig {
  uint64_t a = 0x243F6A8885A308D3ULL, b = 0x13198A2E03707344ULL;
  void word(uint64_t x) { a = (a ^ x) * 0x9E3779B97F4A7C15ULL; a ^= a >> 29; b = (b + x) * 0xBF58476D1CE4E5B9ULL; b ^= b >> 31; }
  void add(const int *p, int n) { for (int i = 0; i < n; ++i) word((uint64_t)(int64_t)p[i]); }
  void add(const double *p, int n) { for (int i = 0; i < n; ++i) { uint64_t w; double d = p[i] == 0 ? 0 : p[i]; memcpy(&w, &d, 8); word(w); } }
  void add(const uint64_t *p, int n) { for (int i = 0; i < n; ++i) word(p[i]); }
  void add(const std::string &s) { for (unsigned char c : s) word(c); }
  template <int K> void add(const Z_Q<K> &z) { add(z.data, (K + 63) / 64); }
  template <int K, int N> void add(const R_Q<K, N> &p) { for (int i = 0; i < N; ++i) add(p[i]); }
  template <int K, int N> void add(const R_Q_square<K, N> &p) { add(p[0]); add(p[1]); }
  template <int N, int S> void add(const SparseDiagonal<N, S> &m) { for (int s = 0; s < S; ++s) { add(m.vec[s], N); word(m.off[s]); word(m.zero[s]); } }
  template <int G> void add(const Message<G> &m) { add(m.r, 1 << (G - 1)); add(m.i, 1 << (G - 1)); }
  template <int G> void add(const SimplePlaintext<G> &m) { for (int i = 0; i < 1 << G; ++i) { double d = m[i]; add(&d, 1); } }
  std::string hex() const { char t[40]; snprintf(t, sizeof t, "%016lx%016lx", a, b); return t; }
};
static Rng junk(1);                                            // differs between histories
static unsigned callseed = 0;
struct Call {
  int arg; Dig in, out, snap; bool same = true; std::vector<std::function<void(Dig &)>> watched;
  // an argument: part of the key, and looked at again after the call
  template <class X> void arg_(const X &x) { in.add(x); const X *p = &x; watched.push_back([p](Dig &d) { d.add(*p); }); }
  template <class X> void arg_(const X *x, int n) { in.add(x, n); watched.push_back([x, n](Dig &d) { d.add(x, n); }); }
  template <class F> void run(F f) {
    Dig b, a; for (auto &w : watched) w(b);
    srand(callseed);
#ifdef VH_SAN
    const size_t before = __sanitizer_get_current_allocated_bytes();
    in_call = true; f(); in_call = false;
    // the team's threads may still be ending: wait for them before looking
    for (int w = 0; w < 6 && (kept = (long)__sanitizer_get_current_allocated_bytes() - (long)before) > 0; ++w) usleep(w < 3 ? 50 : 1000);
#else
    f();
#endif
    for (auto &w : watched) w(a);
    same = a.hex() == b.hex();
  }
  template <class X> void res(const X &x) { out.add(x); }
  template <class X> void res(const X *x, int n) { out.add(x, n); }
};
struct Op { std::string name; bool rnd; std::function<void(Call &)> f; };
static std::vector<Op> ops;
static std::string tag;
static void op(const char *n, bool rnd, std::function<void(Call &)> f) { ops.push_back({std::string(n) + tag, rnd, f}); }
template <int K> void soil(Z_Q<K> &z) { for (int i = 0; i < (K + 63) / 64; ++i) z.data[i] = junk(); if (K % 64) z.data[(K - 1) / 64] &= (1ULL << (K % 64)) - 1; }
template <int K, int N> void soil(R_Q<K, N> &p) { for (int i = 0; i < N; ++i) soil(p[i]); }
template <int K, int N> void soil(R_Q_square<K, N> &c) { soil(c[0]); soil(c[1]); }
static void soil(double *p, int n) { for (int i = 0; i < n; ++i) p[i] = (double)(int64_t)junk(); }
static void soil(int *p, int n) { for (int i = 0; i < n; ++i) p[i] = (int)junk.below(7) - 3; }
template <int N, int S> void soil(SparseDiagonal<N, S> &m) { for (int s = 0; s < S; ++s) { soil(m.vec[s], N); m.off[s] = (int)junk.below(N); m.zero[s] = junk.below(2); } }
template <int N, int S> void diag(SparseDiagonal<N, S> &r, SparseDiagonal<N, S> &i) {
  for (int s = 0; s < S; ++s) {
    r.off[s] = i.off[s] = (int)((s * 3 + rng.below(2)) % N); r.zero[s] = rng.below(4) == 0; i.zero[s] = rng.below(4) == 0;
    for (int j = 0; j < N; ++j) { r.vec[s][j] = r.zero[s] ? 0 : rng.sym(); i.vec[s][j] = i.zero[s] ? 0 : rng.sym(); }
  }
}
static void reals(double *p, int n) { for (int i = 0; i < n; ++i) p[i] = rng.sym(); }
template <int K, int N> void ct_(R_Q_square<K, N> &c, int a) { form_poly(c[0], a == 0 ? 1 : 8); form_poly(c[1], a == 1 ? 8 : 1); }
template <int K, int N> void swk_(R_Q_square<2 * K, N> &c) { form_poly(c[0], 1); form_poly(c[1], 1); }

template <int K, int N> void arith() {
  typedef R_Q<K, N> P; typedef R_Q_square<K, N> C;
  op("padd", false, [](Call &c) { static P a, b; form_poly(a, 8); form_poly(b, 8); c.in.add(a); c.arg_(b); c.run([&] { a += b; }); c.res(a); });
  op("psub", false, [](Call &c) { static P a, b; form_poly(a, 8); form_poly(b, 8); c.in.add(a); c.arg_(b); c.run([&] { a -= b; }); c.res(a); });
  op("pneg", false, [](Call &c) { static P a; form_poly(a, 8); c.in.add(a); c.run([&] { for (int i = 0; i < N; ++i) a[i].negate(); }); c.res(a); });
  op("pmulw", false, [](Call &c) { static P a; form_poly(a, 8); uint64_t w = rng(); c.in.add(a); c.in.word(w); c.run([&] { a *= w; }); c.res(a); });
  op("conv", false, [](Call &c) { static P a, b, o; form_poly(a, c.arg == 2 ? 4 : 8); form_poly(b, c.arg == 2 ? 4 : 8); soil(o); c.arg_(a); c.arg_(b); c.run([&] { conv<K, N>(a, b, o); }); c.res(o); });
  op("convs", false, [](Call &c) { static P a, o; static int s[N]; own_key<N>(s, c.arg); form_poly(a, 8); soil(o); c.arg_(s, N); c.arg_(a); c.run([&] { conv<K, N>(s, a, o); }); c.res(o); });
  op("ctmul", false, [](Call &c) { static C x; static P b; ct_(x, c.arg); form_poly(b, 8); c.in.add(x); c.arg_(b); c.run([&] { x *= b; }); c.res(x); });
  op("zmul", false, [](Call &c) { static Z_Q<K> a, b; form(a, c.arg); form(b, 0); c.in.add(a); c.arg_(b); c.run([&] { a *= b; }); c.res(a); });
  op("str", false, [](Call &c) { static Z_Q<K> a, b; static char t[K]; form(a, c.arg ? 1 : 4); for (char &x : t) x = (char)junk(); soil(b); c.arg_(a); c.run([&] { a.to_str(t); b.fr_str(t); }); c.res(std::string(t)); c.res(b); });
  op("print", false, [](Call &c) { static C x; ct_(x, c.arg); c.arg_(x); std::string s; s.reserve(1 << 20); c.run([&] { const std::string t = captured([] { x.print(); x[0].print_signed(); x[1].print_unsigned(); }); s.assign(t); }); c.res(s); });
  op("rs", false, [](Call &c) { static C x; static R_Q_square<K - 20, N> y; ct_(x, c.arg); soil(y); c.arg_(x); c.run([&] { RS<K, K - 20, N>(x, y); }); c.res(y); });
  op("raise", false, [](Call &c) { static C x; static R_Q_square<K + 70, N> y; ct_(x, c.arg); soil(y); c.arg_(x); c.run([&] { mod_raise<K, K + 70, N>(x, y); }); c.res(y); });
  op("resize", false, [](Call &c) { static C x; static R_Q_square<K / 2, N> y; ct_(x, c.arg); soil(y); c.arg_(x); c.run([&] { resize(x, y); }); c.res(y); });
  op("convi", false, [](Call &c) { static int a[N], b[N], o[N]; own_key<N>(a, c.arg); own_key<N>(b, 0); soil(o, N); c.arg_(a, N); c.arg_(b, N); c.run([&] { conv<N>(a, b, o); }); c.res(o, N); });
}
template <int K, int N> void he() {
  typedef R_Q<K, N> P; typedef R_Q_square<K, N> C; typedef R_Q_square<2 * K, N> E; typedef HEAAN<K, N> H;
  op("keygen", true, [](Call &c) { static int s[N]; soil(s, N); int h = c.arg == 0 ? N / 2 : c.arg == 1 ? N : 1; c.in.word(h); c.run([&] { H::keygen(h, s); }); c.res(s, N); });
  op("enc", true, [](Call &c) { static int s[N]; static P p; static C x; own_key<N>(s, c.arg); form_poly(p, 8); soil(x); c.arg_(s, N); c.arg_(p); c.run([&] { H::enc(p, s, x); }); c.res(x); });
  op("dec", false, [](Call &c) { static int s[N]; static P p; static C x; own_key<N>(s, c.arg); ct_(x, c.arg); soil(p); c.arg_(s, N); c.arg_(x); c.run([&] { H::dec(x, s, p); }); c.res(p); });
  op("swkgen", true, [](Call &c) { static int s[N], f[N]; static E x; own_key<N>(s, c.arg); for (int &v : f) v = (int)rng.below(9) - 4; soil(x); c.arg_(s, N); c.arg_(f, N); c.run([&] { H::swkgen(f, s, x); }); c.res(x); });
  op("ks", false, [](Call &c) { static C x; static E k; ct_(x, c.arg); swk_<K, N>(k); c.in.add(x); c.arg_(k); c.run([&] { H::ks(k, x); }); c.res(x); });
  op("mul", false, [](Call &c) { static C x, y, o; static E k; ct_(x, c.arg); ct_(y, 2 - c.arg); swk_<K, N>(k); soil(o); c.arg_(x); c.arg_(y); c.arg_(k); c.run([&] { Mul<K, N>(x, y, k, o); }); c.res(o); });
  op("square", false, [](Call &c) { static C x, o; static E k; ct_(x, c.arg); swk_<K, N>(k); soil(o); c.arg_(x); c.arg_(k); c.run([&] { Mul<K, N>(x, x, k, o); }); c.res(o); });
  op("rotkey", false, [](Call &c) { static int s[N], r[N]; own_key<N>(s, 0); soil(r, N); int k = c.arg * 5; c.arg_(s, N); c.in.word(k); c.run([&] { rot<N>(s, r, k); }); c.res(r, N); });
  op("conjkey", false, [](Call &c) { static int s[N], r[N]; own_key<N>(s, c.arg); soil(r, N); c.arg_(s, N); c.run([&] { conj<N>(s, r); }); c.res(r, N); });
  op("rotpt", false, [](Call &c) { static P p, r; form_poly(p, 8); soil(r); int k = c.arg * 3 + 1; c.arg_(p); c.in.word(k); c.run([&] { rot<K, N>(p, r, k); }); c.res(r); });
  op("rotct", false, [](Call &c) { static C x, o; static E k; ct_(x, c.arg); swk_<K, N>(k); soil(o); int r = c.arg + 1; c.arg_(x); c.arg_(k); c.in.word(r); c.run([&] { rot_ct<K, N>(x, r, k, o); }); c.res(o); });
  op("conjct", false, [](Call &c) { static C x, o; static E k; ct_(x, c.arg); swk_<K, N>(k); soil(o); c.arg_(x); c.arg_(k); c.run([&] { conj<K, N>(x, k, o); }); c.res(o); });
}
template <int G> void fourier() {
  static constexpr int N = 1 << G;
  op("fftNR", false, [](Call &c) { static double m[N], r[N / 2], i[N / 2]; reals(m, N); soil(r, N / 2); soil(i, N / 2); c.arg_(m, N); c.run([&] { fftNR<G>(m, r, i); }); c.res(r, N / 2); c.res(i, N / 2); });
  op("ifftNR", false, [](Call &c) { static double m[N], r[N / 2], i[N / 2]; reals(r, N / 2); reals(i, N / 2); soil(m, N); c.arg_(r, N / 2); c.arg_(i, N / 2); c.run([&] { ifftNR<G>(r, i, m); }); c.res(m, N); });
  op("fft", false, [](Call &c) { static double m[N], r[N / 2], i[N / 2]; reals(m, N); soil(r, N / 2); soil(i, N / 2); c.arg_(m, N); c.run([&] { fft<G>(m, r, i); }); c.res(r, N / 2); c.res(i, N / 2); });
  op("ifft", false, [](Call &c) { static double m[N], r[N / 2], i[N / 2]; reals(r, N / 2); reals(i, N / 2); soil(m, N); c.arg_(r, N / 2); c.arg_(i, N / 2); c.run([&] { ifft<G>(r, i, m); }); c.res(m, N); });
  op("dft", false, [](Call &c) { static double m[N], r[N / 2], i[N / 2]; reals(m, N); soil(r, N / 2); soil(i, N / 2); c.arg_(m, N); c.run([&] { dft<N>(m, r, i); }); c.res(r, N / 2); c.res(i, N / 2); });
  op("idft", false, [](Call &c) { static double m[N], r[N / 2], i[N / 2]; reals(r, N / 2); reals(i, N / 2); soil(m, N); c.arg_(r, N / 2); c.arg_(i, N / 2); c.run([&] { idft<N>(r, i, m); }); c.res(m, N); });
  op("split", false, [](Call &c) { static SparseDiagonal<N / 2, 3> r[G - 1], i[G - 1]; for (int n = 0; n < G - 1; ++n) { soil(r[n]); soil(i[n]); } c.run([&] { splitU0NR<G>(r, i); }); for (int n = 0; n < G - 1; ++n) { c.res(r[n]); c.res(i[n]); } });
  op("matmul", false, [](Call &c) { static SparseDiagonal<N / 2, 3> a, b, d, e; static SparseDiagonal<N / 2, 9> o, p; diag(a, b); diag(d, e); soil(o); soil(p); c.arg_(a); c.arg_(b); c.arg_(d); c.arg_(e); c.run([&] { MatMul(a, b, d, e, o, p); }); c.res(o); c.res(p); });
  op("transp", false, [](Call &c) { static SparseDiagonal<N / 2, 3> a, b; diag(a, b); c.in.add(a); c.run([&] { a.transpose(); }); c.res(a); });
  op("simple", false, [](Call &c) { static Message<G> z, o; static SimplePlaintext<G> p, q, r; reals(z.r, N / 2); reals(z.i, N / 2); soil(o.r, N / 2); soil(o.i, N / 2); for (int i = 0; i < N; ++i) p[i] = q[i] = r[i] = (double)junk.below(9); c.arg_(z); int k = c.arg; c.run([&] { encode(z, 1ULL << 40, p); rotate(p, q, k); conv(p, q, r); decode(r, 1ULL << 50, o); }); c.res(p); c.res(q); c.res(r); c.res(o); });
  if constexpr (G > 1) op("tou", false, [](Call &c) { static double a[N], u[N]; reals(a, N); soil(u, N); c.arg_(a, N); c.run([&] { convert_frc_tou(a, u, N); }); c.res(u, N); });
}
template <int K, int G> void code() {
  static constexpr int N = 1 << G; typedef R_Q<K, N> P;
  op("encode", false, [](Call &c) { static double r[N / 2], i[N / 2]; static P p; reals(r, N / 2); reals(i, N / 2); soil(p); uint64_t D = 1ULL << (20 + 10 * c.arg); c.arg_(r, N / 2); c.arg_(i, N / 2); c.in.word(D); c.run([&] { encode<K, G>(r, i, D, p); }); c.res(p); });
  op("decode", false, [](Call &c) { static double r[N / 2], i[N / 2]; static P p; for (int j = 0; j < N; ++j) p[j] = own_small<K>((long)(rng() >> 20) - (1L << 43)); soil(r, N / 2); soil(i, N / 2); c.arg_(p); uint64_t D = 1ULL << (20 + 10 * c.arg); c.in.word(D); c.run([&] { decode<K, G>(p, D, r, i); }); c.res(r, N / 2); c.res(i, N / 2); });
  op("decodel", false, [](Call &c) { static double r[N / 2], i[N / 2]; static P p; for (int j = 0; j < N; ++j) p[j] = own_small<K>((long)(rng() >> 20) - (1L << 43)); soil(r, N / 2); soil(i, N / 2); c.arg_(p); int D = 20 + 10 * c.arg; c.in.word(D); c.run([&] { decode_log<K, G>(p, D, r, i); }); c.res(r, N / 2); c.res(i, N / 2); });
  op("ptmv", false, [](Call &c) { static P p, o; static SparseDiagonal<N / 2, 3> a, b; diag(a, b); form_poly(p, 8); soil(o); c.arg_(p); c.arg_(a); c.arg_(b); c.run([&] { matrix_vector_product<K, G>(p, a, b, 1ULL << 30, o); }); c.res(o); });
}
template <int K, int G, int LD, int GR> void transform() {
  static constexpr int N = 1 << G; typedef R_Q_square<K, N> C; typedef R_Q_square<2 * K, N> E;
  op("cts", true, [](Call &c) { static C x, o[2]; static int s[N]; ct_(x, c.arg); own_key<N>(s, c.arg); soil(o[0]); soil(o[1]); c.arg_(x); c.arg_(s, N); c.run([&] { CoeffToSlot<K, G, LD, GR>(x, s, o); }); c.res(o[0]); c.res(o[1]); });
  op("stc", true, [](Call &c) { static C x, y, o; static int s[N]; ct_(x, c.arg); ct_(y, 2 - c.arg); own_key<N>(s, c.arg); soil(o); c.arg_(x); c.arg_(y); c.arg_(s, N); c.run([&] { SlotToCoeff<K, G, LD, GR>(x, y, s, o); }); c.res(o); });
  op("lt", true, [](Call &c) { static C x, o; static int s[N]; static SparseDiagonal<N / 2, 3> a, b; ct_(x, c.arg); own_key<N>(s, c.arg); diag(a, b); soil(o); c.arg_(x); c.arg_(a); c.arg_(b); c.arg_(s, N); c.run([&] { linear_transform<K, G, LD, 3>(a, b, x, s, o); }); c.res(o); });
  op("group", true, [](Call &c) { static C x, o; static int s[N]; static SparseDiagonal<N / 2, 3> a[G - 1], b[G - 1]; ct_(x, c.arg); own_key<N>(s, c.arg); splitU0NR<G>(a, b); for (int n = 0; n < G - 1; ++n) { soil(o); if (c.arg == 2) { a[n].transpose(); b[n].transpose(); } } c.arg_(x); for (int n = 0; n < G - 1; ++n) { c.arg_(a[n]); c.arg_(b[n]); } c.arg_(s, N); c.run([&] { grouped_serial_linear_transform<K, G, LD, 3, G - 1, GR>(a, b, x, s, o); }); c.res(o); });
  op("ltkey", false, [](Call &c) { static C x, o; static SparseDiagonal<N / 2, 3> a, b; static E k[3]; ct_(x, c.arg); diag(a, b); for (E &e : k) swk_<K, N>(e); soil(o); c.arg_(x); c.arg_(a); c.arg_(b); for (E &e : k) c.arg_(e); const E *p[3] = {&k[0], &k[1], &k[2]}; c.run([&] { linear_transform<K, G, LD, 3>(a, b, x, p, o); }); c.res(o); });
  op("dense", false, [](Call &c) { static C x, o; static double a[N / 2][N / 2], b[N / 2][N / 2]; static E k; ct_(x, c.arg); reals(a[0], N * N / 4); reals(b[0], N * N / 4); swk_<K, N>(k); soil(o); c.arg_(x); c.arg_(k); c.arg_(a[0], N * N / 4); c.arg_(b[0], N * N / 4); c.run([&] { linear_transform<K, G, LD>(a, b, x, k, o); }); c.res(o); });
}
template <int K, int G, int LD> void poly3() {
  static constexpr int N = 1 << G; typedef R_Q_square<K, N> C;
  op("deg7", false, [](Call &c) { static C x; static R_Q_square<2 * K, N> e1; static R_Q_square<2 * (K - LD), N> e2; static R_Q_square<2 * (K - 2 * LD), N> e3; static R_Q_square<K - 3 * LD, N> o; static double u[8]; ct_(x, c.arg); swk_<K, N>(e1); swk_<K - LD, N>(e2); swk_<K - 2 * LD, N>(e3); reals(u, 8); soil(o); c.arg_(x); c.arg_(e1); c.arg_(e2); c.arg_(e3); c.arg_(u, 8); c.run([&] { eval_poly_deg7<K, N, LD>(u, x, e1, e2, e3, o); }); c.res(o); });
  op("deg15", false, [](Call &c) { static C x; static R_Q_square<2 * K, N> e1; static R_Q_square<2 * (K - LD), N> e2; static R_Q_square<2 * (K - 2 * LD), N> e3; static R_Q_square<2 * (K - 3 * LD), N> e4; static R_Q_square<K - 4 * LD, N> o; static double u[16]; ct_(x, c.arg); swk_<K, N>(e1); swk_<K - LD, N>(e2); swk_<K - 2 * LD, N>(e3); swk_<K - 3 * LD, N>(e4); reals(u, 16); soil(o); c.arg_(x); c.arg_(e1); c.arg_(e2); c.arg_(e3); c.arg_(e4); c.arg_(u, 16); c.run([&] { eval_poly_deg15<K, N, LD>(u, x, e1, e2, e3, e4, o); }); c.res(o); });
}
template <int K, int N, int LD> void mod1() {
  op("evalmod", true, [](Call &c) { static R_Q_square<K, N> x; static R_Q_square<K - 12 * LD, N> o; static int s[N]; ct_(x, c.arg); own_key<N>(s, c.arg); soil(o); c.arg_(x); c.arg_(s, N); c.run([&] { EvalMod<K, N, LD, 24>(x, s, o); }); c.res(o); });
}
template <int L, int K, int N> void rns() {
  static const uint64_t q[6] = {0xffffffffffc0001ULL, 0xfffffffff840001ULL, 0x1000000000980001ULL, 97, 193, 0x1000000000b00001ULL};
  op("ntt", false, [](Call &c) { static NTT<N> *t[3]; static uint64_t a[N]; int w = c.arg == 2 ? 3 : c.arg; for (uint64_t &x : a) x = rng() % q[w]; c.in.add(a, N); c.in.word(q[w]); c.run([&] { if (!t[c.arg]) t[c.arg] = new NTT<N>(q[w]); if (c.arg == 1) t[c.arg]->intt(a); else t[c.arg]->ntt(a); }); c.res(a, N); });
  op("crt", false, [](Call &c) { static CRT<L, K> *t; static uint64_t a[L]; static Z_Q<K> z; for (int i = 0; i < L; ++i) a[i] = rng() % q[i]; soil(z); c.arg_(a, L); c.run([&] { if (!t) t = new CRT<L, K>(q); t->crt(a, z); }); c.res(z); });
  op("icrt", false, [](Call &c) { static CRT<L, K> *t; static uint64_t a[L]; static Z_Q<K> z; form(z, c.arg); for (uint64_t &x : a) x = junk(); c.arg_(z); c.run([&] { if (!t) t = new CRT<L, K>(q); t->icrt(z, a); }); c.res(a, L); });
}
static volatile char sink;
static __attribute__((noinline)) void dirty() { char t[1 << 19]; memset(t, (int)junk(), sizeof t); for (size_t i = 0; i < sizeof t; i += 4096) sink = t[i]; }
// a call that leaves more storage in use is made again, up to six times
static void call(int o, int arg, int s, int again = 6) {
  Call c; c.arg = arg; callseed = 1000 + s;
  rng = Rng(7919 * (o + 1) + arg); dirty();
  ops[o].f(c);
#ifdef VH_SAN
  std::string fs = "["; for (const std::string &x : faults) fs += (fs.size() > 1 ? ",\"" : "\"") + x + "\""; faults.clear();
  Ev("call").str("op", ops[o].name).i("arg", arg).b("same", c.same).raw("faults", fs + "]").b("grew", kept > 0).end();
  if (kept > 0 && again) call(o, arg, s, again - 1);
  return;
#endif
  Ev("call").str("op", ops[o].name).b("rnd", ops[o].rnd).str("arg", c.in.hex()).i("seed", s).str("out", c.out.hex()).b("same", c.same).end();
}
#ifndef VH_SAN
// one operation called again and again: every distinct outcome is one event, with the number of times it was seen
static void many(int o) {
  std::map<std::string, std::pair<Call, int>> seen; auto t0 = std::chrono::steady_clock::now(); const double limit = thorough ? 4 : 0.4;
  for (int r = 0; r < 400; ++r) {
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) break;
    Call c; c.arg = r % 7 == 6 ? 1 : r % 3; callseed = 1000 + c.arg % 2; rng = Rng(7919 * (o + 1) + c.arg);
    ops[o].f(c); c.watched.clear();
    ++seen.emplace(std::to_string(c.arg) + c.in.hex() + c.out.hex() + (c.same ? "s" : "c"), std::make_pair(c, 0)).first->second.second;
  }
  for (auto &k : seen) { Call &c = k.second.first; Ev("call").str("op", ops[o].name).b("rnd", ops[o].rnd).str("arg", c.in.hex()).i("seed", c.arg % 2).str("out", c.out.hex()).b("same", c.same).i("times", k.second.second).end(); }
}
#endif
struct Step_ { int o, a, s; };
static void history(int id, const std::vector<Step_> &h) {
  fflush(out); pid_t p = fork();
  if (p < 0) { perror("fork"); exit(64); }
  if (p == 0) {
    junk = Rng(seed * 131071 + id); mallopt(M_PERTURB, (int)junk.below(255) + 1); omp_set_num_threads(1 + id % 4);
    Ev("process").i("id", id).end();
#ifndef VH_SAN
    if (h.size() == 1 && h[0].a < 0) many(h[0].o); else
#endif
    for (const Step_ &x : h) call(x.o, x.a, x.s);
    Ev("exit").end(); fflush(out); _exit(0);
  }
  int st; waitpid(p, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "history %d ended with %d\n", id, st); exit(1); }
}
#ifdef VH_SAN
template <int K> void number() {
  typedef Z_Q<K> Z;
  op("zadd", false, [](Call &c) { static Z a, b; form(a, c.arg); form(b, 0); c.arg_(b); c.run([&] { a += b; a -= b; a += a; a.negate(); }); c.res(a); });
  op("zmul", false, [](Call &c) { static Z a, b; form(a, c.arg); form(b, 1); uint64_t w = rng(); c.arg_(b); c.run([&] { a *= b; a *= w; a *= a; }); c.res(a); });
  op("ztext", false, [](Call &c) { static Z a, b; static char *t = (char *)malloc(400); form(a, c.arg); c.arg_(a); if (K <= 1300) { c.run([&] { a.to_str(t); b.fr_str(t); captured([&] { a.print_unsigned(); }); }); } });
  op("zsign", false, [](Call &c) { static Z a; static volatile double d; static volatile bool n; form(a, c.arg); c.arg_(a); c.run([&] { d = (double)a; n = a.is_bigger_than_halfQ(); }); });
}
template <int A, int B> struct Sh {
  static void run() {
    tag = "@" + std::to_string(A) + "," + std::to_string(B);
    op("zresize", false, [](Call &c) { static Z_Q<A> a; static Z_Q<B> b; form(a, c.arg); c.arg_(a); c.run([&] { resize(a, b); }); });
    op("zshift", false, [](Call &c) { static Z_Q<A> a; static Z_Q<B> b; form(a, c.arg); c.arg_(a); c.run([&] { if constexpr (A >= B) shift_right(a, b); if constexpr (A <= B) shift_left(a, b); }); });
  }
};
template <int K> struct Nb { static void run() { tag = "@" + std::to_string(K); number<K>(); } };
template <int L, int K> void bases() {
  op("bases", false, [](Call &c) {
    static uint64_t q[L], a[L]; static CRT<L, K> *t; static Z_Q<K> z; form(z, c.arg); for (int i = 0; i < L; ++i) q[i] = (1ULL << 60) - 2 * i - 1;
    c.arg_(q, L); c.run([&] { if (!t) t = new CRT<L, K>(q); t->icrt(z, a); t->crt(a, z); });
  });
}
template <int N> void large() {
  op("keyops", true, [](Call &c) { static int s[N], r[N]; c.run([&] { HEAAN<60, N>::keygen(N / 3, s); rot<N>(s, r, c.arg * (N - 1) / 2); conj<N>(r, s); }); });
  op("ntt", false, [](Call &c) { static NTT<N> *t; static uint64_t a[N]; for (uint64_t &x : a) x = rng() % 0xffffffffffc0001ULL; c.run([&] { if (!t) t = new NTT<N>(0xffffffffffc0001ULL); t->ntt(a); t->intt(a); }); });
  op("mulN", false, [](Call &c) { static R_Q<60, N> a, b, o, w; form_poly(a, 8); form_poly(b, 8); c.arg_(a); c.arg_(b); c.run([&] { conv<60, N>(a, b, o); rot<60, N>(o, w, c.arg * 7 + 1); }); });
}

template <int G> void edges() {
  static constexpr int N = 1 << G, h = N / 2; typedef R_Q<100, N> P; typedef R_Q_square<100, N> C; typedef SparseDiagonal<h, 3> D;
  for (int r : {0, 1, 2, h - 1, h, h + 1, N - 1, N, 2 * N - 1, 2 * N, 2 * N + 1, 4 * N}) {
    tag = "@" + std::to_string(N) + "," + std::to_string(r);
    op("erotkey", false, [r](Call &c) { static int s[N], o[N]; own_key<N>(s, c.arg); c.arg_(s, N); c.run([&] { rot<N>(s, o, r); rot<N>(s, o); conj<N>(s, o); }); });
    op("erotpt", false, [r](Call &c) { static P p, o; form_poly(p, 8); c.arg_(p); c.run([&] { rot<100, N>(p, o, r); conj<100, N>(p, o); }); });
    op("erotct", false, [r](Call &c) { static C x, o; static R_Q_square<200, N> k; ct_(x, c.arg); swk_<100, N>(k); c.arg_(x); c.arg_(k); c.run([&] { rot_ct<100, N>(x, r, k, o); }); });
    op("erotsp", false, [r](Call &c) { static SimplePlaintext<G> p, o; for (int i = 0; i < N; ++i) p[i] = rng.sym(); c.arg_(p); c.run([&] { rotate(p, o, r); rotate_once(p, o); }); });
  }
  for (int o = 0; o < h; ++o) {
    tag = "@" + std::to_string(N) + ",o" + std::to_string(o);
    op("ediag", false, [o](Call &c) {
      static D a, b; static SparseDiagonal<h, 9> m, n; static volatile double d; static Message<G> z, w; static P p, q; static C x, y; static int s[N];
      diag(a, b); for (int k = 0; k < 3; ++k) a.off[k] = b.off[k] = (o + k * (c.arg + 1)) % h; own_key<N>(s, c.arg); form_poly(p, 8); ct_(x, c.arg); reals(z.r, h); reals(z.i, h);
      c.arg_(p); c.arg_(x); c.arg_(s, N); c.arg_(z);
      c.run([&] {
        D t = a; t += b; t -= b; t *= 0.5; t.negate(); t.transpose(); t.transpose();
        for (int i = 0; i < h; ++i) for (int j = 0; j < h; ++j) d = t.get_element(i, j);
        for (int i = 0; i < h; ++i) t.set_element(i, (i + a.off[2]) % h, 1.5);
        MatMul(a, b, a, b, m, n); MatMul(a, b, m); matrix_vector_product<G>(z.r, z.i, a, b, w.r, w.i); matrix_vector_product<G, 3>(z, a, b, w);
        matrix_vector_product<100, G>(p, a, b, 1ULL << 30, q); linear_transform<100, G, 30, 3>(a, b, x, s, y);
        t.setzero(); captured([&] { a.print("A"); });
      });
    });
  }
  tag = "@" + std::to_string(N);
  for (uint64_t D_ : {1UL, 3UL, 1UL << 40, (1UL << 62) - 1})
    op(("ecode" + std::to_string(D_)).c_str(), false, [D_](Call &c) {
      static Message<G> z, w; static P p; static R_Q<1000, N> q; static SimplePlaintext<G> sp; reals(z.r, h); reals(z.i, h); double f = c.arg ? 1. / N : 0; for (int i = 0; i < h; ++i) { z.r[i] *= f; z.i[i] *= f; }
      for (int i = 0; i < N; ++i) form(q[i], 4);
      c.arg_(z); c.arg_(q);
      c.run([&] { encode<100, G>(z, D_, p); decode<100, G>(p, D_, w); decode_log<100, G>(p, 40, w); decode<1000, G>(q, D_, w); encode(z, D_, sp); decode(sp, D_, w); captured([&] { print("z", w); print("p", sp); }); });
    });
  op("emsg", false, [](Call &c) {
    static Message<G> z, w, v; static volatile double d; reals(z.r, h); reals(z.i, h); reals(w.r, h); reals(w.i, h); c.arg_(z); c.arg_(w);
    c.run([&] { add(z, w, v); sub(z, w, v); mul(z, w, v); d = norm(z) + sup_norm(z) + square_sum(z); });
  });
  op("ecopies", false, [](Call &c) {
    static P p; static C x; static D a, b; static Message<G> z; static Z_Q<100> w; static SimplePlaintext<G> sp; static bool eq;
    form(w, c.arg); form_poly(p, 8); ct_(x, c.arg); diag(a, b); reals(z.r, h); reals(z.i, h); for (int i = 0; i < N; ++i) sp[i] = rng.sym(); c.arg_(w); c.arg_(p); c.arg_(x); c.arg_(a); c.arg_(z); c.arg_(sp);
    c.run([&] {
      Z_Q<100> *w1 = new Z_Q<100>(w), *w2 = new Z_Q<100>; *w2 = *w1; P *p1 = new P(p), *p2 = new P; *p2 = *p1; C *x1 = new C(x), *x2 = new C; *x2 = *x1;
      D *a1 = new D(a), *a2 = new D; *a2 = *a1; Message<G> *z1 = new Message<G>(z), *z2 = new Message<G>; *z2 = *z1; SimplePlaintext<G> *s1 = new SimplePlaintext<G>(sp), *s2 = new SimplePlaintext<G>; *s2 = *s1;
      Dig d, e; d.add(w); d.add(p); d.add(x); d.add(a); d.add(z); d.add(sp); e.add(*w2); e.add(*p2); e.add(*x2); e.add(*a2); e.add(*z2); e.add(*s2); eq = d.hex() == e.hex();
      w1->setzero(); p1->setzero(); x1->setzero(); a1->setzero();
      delete w1; delete w2; delete p1; delete p2; delete x1; delete x2; delete a1; delete a2; delete z1; delete z2; delete s1; delete s2;
    });
    if (!eq) faults.push_back("a copy differs from its original");
  });
  op("einputs", true, [](Call &c) {
    c.run([&] {
      Message<G> *z = new Message<G>, *w = new Message<G>, *A = new Message<G>[5]; Message<G + 1> *y = new Message<G + 1>;
      set_test_message(*z); set_random_message(*w); set_evalmod_message(*w); set_test_rounded_message(*w, 1ULL << 40); set_test_matrix<G, 5>(A); set_random_matrix<G, 5>(A);
      aggregate(*z, *w, *y); captured([&] { print_max_error(*z, *w); }); matrix_vector_product<G, 5>(*z, A, *w);
      P *p = new P, *q = new P; encode<100, G>(*z, 1ULL << 30, *p); matrix_vector_product<100, G, 5>(*p, A, 1ULL << 30, *q);
      SparseDiagonal<h, 9> *m = new SparseDiagonal<h, 9>; m->setzero(); D *d = new D; RemoveClutter(*m, *d); captured([&] { print_max(*d); });
      SimplePlaintext<G> *s = new SimplePlaintext<G>, *t = new SimplePlaintext<G>, *u = new SimplePlaintext<G>; encode_raw(*z, 1ULL << 20, *s); add(*s, *t, *u); sub(*u, *s, *t); conv(*s, *u, *t);
      delete z; delete w; delete[] A; delete y; delete p; delete q; delete m; delete d; delete s; delete t; delete u;
    });
  });
  if constexpr (h <= 16) op("edense", false, [](Call &c) {
    typedef double Q[h][h]; double (*a)[h] = new Q, (*b)[h] = new Q, (*d)[h] = new Q, (*e)[h] = new Q, *m = new double[N], *r = new double[h], *i = new double[h], *t = new double[1 << 10], *v = new double[1 << 10];
    reals(a[0], h * h); reals(b[0], h * h); reals(m, N); reals(t, 1 << 10);
    c.run([&] {
      matrix_product<h>(a, b, b, a, d, e); mat_to_vecs<h>(a, d); captured([&] { print<h>(a, b); print_array<N>(m); });
      dft<N>(m, r, i); idft<N>(r, i, m); fft<G>(m, r, i); ifft<G>(r, i, m); for (int n = 4; n <= 1 << (3 * c.arg + 4); n *= 2) convert_frc_tou(t + (1 << 10) - n, v + (1 << 10) - n, n);
      for (int dg = 1; dg <= 32; ++dg) bitReverse(0x89abcdefu >> (32 - dg), dg); log(N + c.arg);
    });
    delete[] a; delete[] b; delete[] d; delete[] e; delete[] m; delete[] r; delete[] i; delete[] t; delete[] v;
  });
  op("ekeys", true, [](Call &c) { static int s[N]; c.run([&] { for (int w = 0; w <= N; w += N <= 64 ? 1 : N / 8) HEAAN<100, N>::keygen(w, s); }); });
}
// every degree of polynomial; everything in objects of exactly its size
template <int K, int N, int LD, int D> struct Pdeg {
  template <int I> using Ek = R_Q_square<2 * (K - I * LD), N>;
  static void reg() {
    op(("poly" + std::to_string(D)).c_str(), false, [](Call &c) {
      auto *x = new R_Q_square<K, N>; ct_(*x, c.arg); double *u = new double[D + 1]; reals(u, D + 1);
      auto *e1 = new Ek<0>; auto *e2 = new Ek<1>; auto *e3 = new Ek<2>; auto *e4 = new Ek<3>; auto *e5 = new Ek<4>; auto *e6 = new Ek<5>; auto *e7 = new Ek<6>;
      swk_<K, N>(*e1); swk_<K - LD, N>(*e2); swk_<K - 2 * LD, N>(*e3); swk_<K - 3 * LD, N>(*e4); swk_<K - 4 * LD, N>(*e5); swk_<K - 5 * LD, N>(*e6); swk_<K - 6 * LD, N>(*e7);
      c.run([&] {
        if constexpr (D == 3) { auto *o = new R_Q_square<K - 2 * LD, N>; eval_poly_deg3<K, N, LD>(u, *x, *e1, *e2, *o); delete o; }
        if constexpr (D == 7) { auto *o = new R_Q_square<K - 3 * LD, N>; eval_poly_deg7<K, N, LD>(u, *x, *e1, *e2, *e3, *o); delete o; }
        if constexpr (D == 15) { auto *o = new R_Q_square<K - 4 * LD, N>; eval_poly_deg15<K, N, LD>(u, *x, *e1, *e2, *e3, *e4, *o); delete o; }
        if constexpr (D == 31) { auto *o = new R_Q_square<K - 5 * LD, N>; eval_poly_deg31<K, N, LD>(u, *x, *e1, *e2, *e3, *e4, *e5, *o); delete o; }
        if constexpr (D == 63) { auto *o = new R_Q_square<K - 6 * LD, N>; eval_poly_deg63<K, N, LD>(u, *x, *e1, *e2, *e3, *e4, *e5, *e6, *o); delete o; }
        if constexpr (D == 127) { auto *o = new R_Q_square<K - 7 * LD, N>; eval_poly_deg127<K, N, LD>(u, *x, *e1, *e2, *e3, *e4, *e5, *e6, *e7, *o); delete o; }
      });
      delete x; delete[] u; delete e1; delete e2; delete e3; delete e4; delete e5; delete e6; delete e7;
    });
  }
};
template <int K, int N, int LD> void polys() { Pdeg<K, N, LD, 3>::reg(); Pdeg<K, N, LD, 7>::reg(); Pdeg<K, N, LD, 15>::reg(); Pdeg<K, N, LD, 31>::reg(); Pdeg<K, N, LD, 63>::reg(); Pdeg<K, N, LD, 127>::reg(); }
#endif
#define AT(k, n) tag = "@" #k "," #n
int drive(int argc, char **argv) {
  init(argc, argv);
  setenv("OMP_NUM_THREADS", "4", 1);
#if VH_PART == 0
  AT(120, 8); arith<120, 8>(); he<120, 8>(); AT(120, 16); arith<120, 16>(); he<120, 16>(); AT(121, 8); arith<121, 8>();
#elif VH_PART == 1
  AT(64, 8); arith<64, 8>(); he<64, 8>(); AT(200, 8); arith<200, 8>(); he<200, 8>(); AT(300, 32); he<300, 32>();
#elif VH_PART == 2
  AT(3, 0); fourier<3>(); AT(4, 0); fourier<4>(); AT(5, 0); fourier<5>(); AT(120, 3); code<120, 3>(); AT(120, 4); code<120, 4>(); AT(200, 4); code<200, 4>();
#elif VH_PART == 3
  AT(300.40.1, 8); transform<300, 3, 40, 1>(); AT(300.40.2, 8); transform<300, 3, 40, 2>(); AT(300.30.1, 8); transform<300, 3, 30, 1>(); AT(200.40.2, 8); transform<200, 3, 40, 2>();
#elif VH_PART == 4
  AT(300.40.1, 16); transform<300, 4, 40, 1>(); AT(300.40.3, 16); transform<300, 4, 40, 3>(); AT(240.40.2, 32); transform<240, 5, 40, 2>(); AT(0, 32); fourier<5>(); AT(0, 16); fourier<4>();
#elif VH_PART == 5
  AT(800.60, 8); mod1<800, 8, 60>(); AT(620.45, 8); mod1<620, 8, 45>(); AT(730.55, 16); mod1<730, 16, 55>(); AT(300.50, 8); poly3<300, 3, 50>(); AT(300.50, 16); poly3<300, 4, 50>(); AT(240.40, 8); poly3<240, 3, 40>();
  AT(300.40.1, 8); transform<300, 3, 40, 1>(); AT(300, 8); code<300, 3>(); AT(300, 8); he<300, 8>();
#elif VH_PART == 6
  AT(2.100, 16); rns<2, 100, 16>(); AT(3.170, 16); rns<3, 170, 16>(); AT(3.100, 16); rns<3, 100, 16>(); AT(3.170, 8); rns<3, 170, 8>(); AT(44, 8); arith<44, 8>(); AT(51, 8); arith<51, 8>(); AT(52, 8); arith<52, 8>(); AT(52, 16); arith<52, 16>();
#elif VH_PART == 7
  AT(0, 64); fourier<6>(); AT(0, 256); fourier<8>(); AT(100, 512); code<100, 9>(); AT(200.40.3, 128); transform<200, 7, 40, 3>(); AT(200, 256); he<200, 256>(); AT(1450, 4); he<1450, 4>(); AT(1300, 4); arith<1300, 4>();
#elif VH_PART == 8
  pairs<Sh>(L_<1, 2, 31, 63, 64, 65, 100, 127, 128, 129, 192, 193, 600, 1450>{}, L_<1, 2, 31, 63, 64, 65, 100, 127, 128, 129, 192, 193, 600, 1450>{});
  singles<Nb>(L_<1, 2, 5, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 191, 192, 193, 256, 300, 320, 600, 1023, 1024, 1025, 1300, 1450, 2900>{});
  AT(64, 1); bases<1, 64>(); AT(60, 2); bases<2, 60>(); AT(200, 3); bases<3, 200>(); AT(64, 5); bases<5, 64>(); AT(1450, 25); bases<25, 1450>(); AT(2900, 98); bases<98, 2900>();
  AT(60, 2048); large<2048>(); AT(60, 32768); large<32768>();
#elif VH_PART == 9
  AT(0, 2); fourier<1>(); AT(60, 2); code<60, 1>(); AT(200, 2); code<200, 1>();
  edges<2>(); edges<3>(); edges<4>(); edges<5>();
#elif VH_PART == 10
  AT(400.40, 4); polys<400, 4, 40>(); AT(330.30, 8); polys<330, 8, 30>();
#endif
  std::vector<std::vector<Step_>> hs; const int n = (int)ops.size();
  for (int o = 0; o < n; ++o) for (int a = 0; a < 3; ++a) hs.push_back({{o, a, a % 2}});          // first calls
  std::vector<Step_> up, down;
  for (int o = 0; o < n; ++o) for (int a = 0; a < 3; ++a) { up.push_back({o, a, a % 2}); down.insert(down.begin(), {o, 2 - a, a % 2}); }
  hs.push_back(up); hs.push_back(down);
  for (int o = 0; o < n; ++o) hs.push_back({{o, -1, 0}});                                          // calls by the hundred
#ifdef VH_SAN
  std::vector<Step_> ud = up; ud.insert(ud.end(), down.begin(), down.end()); hs = {ud, down};
#endif
  FILE *f = fopen(argv[4], "r"); if (!f) { perror(argv[4]); return 64; }
  char line[1 << 16]; int R = 0, max = thorough ? 1000000 : 30;
#ifdef VH_SAN
  max = thorough ? 20 : 0;
#endif
  while (R++ < max && fgets(line, sizeof line, f)) {
    std::vector<Step_> h; char *p = line; int z, a, s, k;
    while (sscanf(p, "%d %d %d;%n", &z, &a, &s, &k) == 3) { h.push_back({(z + (int)seed) % n, a, s}); p += k; }
    if (h.size()) hs.push_back(h);
  }
  fclose(f);
  for (size_t i = 0; i < hs.size(); ++i) history((int)i, hs[i]);
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
