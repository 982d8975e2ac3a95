// C24: messages, floating-point plaintexts, and plaintext matrix-vector products
#include "he.hpp"
#include "impl/message.h"
#include "impl/simple_plaintext.h"
#include "impl/plaintext.h"
namespace vh {
static const int F = 128;
static std::string dv(const double *a, int n) { std::string s = "["; for (int i = 0; i < n; ++i) { if (i) s += ","; s += fix(a[i], F); } return s + "]"; }
static double val(int m) {      // multiples of 2^-8 below 2^10, so that products of two and short sums are exact
  switch (m) { case 0: return 0; case 1: return (int)rng.below(3) - 1; case 2: return ((int)rng.below(524288) - 262144) / 256.0; case 3: return 1024; case 4: return -1024; case 5: return 1 / 256.0;
    default: return rng.below(3) ? val(2) : 0; }
}
template <int G> struct D {
  static constexpr int N = 1 << G, n = N / 2;
  typedef Message<G> M; typedef SimplePlaintext<G> P;
  template <int H> static std::string j(const Message<H> &m) { return "[" + dv(m.r, 1 << (H - 1)) + "," + dv(m.i, 1 << (H - 1)) + "]"; }
  static std::string j(const P &p) { return dv(p.data, N); }
  static void fill(M &m, int mode) { for (int i = 0; i < n; ++i) { m.r[i] = val(mode); m.i[i] = val(mode == 3 ? 4 : mode); } }
  static void junk(M &m) { for (int i = 0; i < n; ++i) m.r[i] = m.i[i] = 77 + i; }
  static void fill(P &p, int mode) { for (int i = 0; i < N; ++i) p[i] = val(mode); }
  static void junk(P &p) { for (int i = 0; i < N; ++i) p[i] = 77 + i; }
  static void messages(int R) {
    for (int r = 0; r < R; ++r) {
      M a, b, c; fill(a, r % 7); fill(b, (r / 7 + r) % 7);
      Copy_<M> ca(a), cb(b); auto same = [&] { return ca.same() && cb.same(); };
      auto ev = [&](const char *op) { Ev e("msg"); e.str("op", op).raw("a", j(a)).raw("b", j(b)).raw("c", j(c)).b("same", same()).end(); };
      junk(c); add(a, b, c); ev("add"); junk(c); sub(a, b, c); ev("sub"); junk(c); mul(a, b, c); ev("mul");
      { M d(a); c = d; ev("copy"); M z; c = z; ev("init"); }
      Message<G + 1> big; for (int i = 0; i < N; ++i) big.r[i] = big.i[i] = 5; aggregate(a, b, big);
      Ev("msg").str("op", "agg").raw("a", j(a)).raw("b", j(b)).raw("c", j(big)).b("same", same()).end();
      auto num = [&](const char *op, double x) { Ev("num").str("op", op).raw("a", j(a)).raw("x", fix(x, F)).b("same", same()).end(); };
      num("sq", square_sum(a)); num("norm", norm(a)); num("sup", sup_norm(a));
      // in place
      M x(a); add(x, b, x); c = x; ev("add"); x = a; sub(b, x, x); c = x; Ev("msg").str("op", "sub").raw("a", j(b)).raw("b", j(a)).raw("c", j(c)).b("same", same()).end();
    }
  }
  template <int K> static void matvec(int R) {
    for (int r = 0; r < R; ++r) {
      static M A[K]; M z, c; fill(z, 2); for (int k = 0; k < K; ++k) fill(A[k], r % 4 == 0 && k == r % K ? 0 : 2 + 4 * (int)rng.below(2)); junk(c);
      Copy_<M> cz(z); Copy_<M[K]> cA(A);
      matrix_vector_product<G, K>(z, A, c);
      std::string s = "["; for (int k = 0; k < K; ++k) s += std::string(k ? "," : "") + "{\"off\":" + std::to_string(k) + ",\"re\":" + dv(A[k].r, n) + ",\"im\":" + dv(A[k].i, n) + "}";
      Ev("msgmv").raw("A", s + "]").raw("z", j(z)).raw("c", j(c)).b("same", cz.same() && cA.same()).end();
    }
  }
  template <int S> static void diag(SparseDiagonal<n, S> &Ar, SparseDiagonal<n, S> &Ai, int r, double sc) {
    Ar.setzero(); Ai.setzero();
    int base = (int)rng.below(n);
    for (int k = 0; k < S; ++k) Ar.off[k] = Ai.off[k] = r % 3 == 0 ? (k * (r + 1)) % n : r % 3 == 1 ? (base + k) % n : (int)rng.below(n);
    for (int k = 0; k < S; ++k) {
      bool first = true; for (int q = 0; q < k; ++q) if (Ar.off[q] == Ar.off[k]) first = false;
      if (!first) continue;
      int what = r % 5 == 4 ? (int)rng.below(4) : 3;         // nothing, real, imaginary, both
      for (int i = 0; i < n; ++i) { if (what & 1) Ar.set_element(i, (i + Ar.off[k]) % n, sc * val(6)); if (what & 2) Ai.set_element(i, (i + Ar.off[k]) % n, sc * val(2)); }
    }
  }
  template <int S> static void sparse(int R) {
    for (int r = 0; r < R; ++r) {
      static SparseDiagonal<n, S> Ar, Ai; diag<S>(Ar, Ai, r, 1);
      M z, c; fill(z, 2); junk(c); Copy_<M> cz(z); Copy_<SparseDiagonal<n, S>> c1(Ar), c2(Ai);
      matrix_vector_product<G, S>(z, Ar, Ai, c);
      std::string s = "["; for (int k = 0; k < S; ++k) s += std::string(k ? "," : "") + "{\"off\":" + std::to_string(Ar.off[k]) + ",\"re\":" + dv(Ar.vec[k], n) + ",\"im\":" + dv(Ai.vec[k], n) + "}";
      Ev("msgmv").raw("A", s + "]").raw("z", j(z)).raw("c", j(c)).b("same", cz.same() && c1.same() && c2.same()).end();
    }
  }
  static void plain(int R) {
    for (int r = 0; r < R; ++r) {
      static P a, b, c; fill(a, r % 7); fill(b, (r / 7 + r) % 7); Copy_<P> ca(a), cb(b);
      auto ev = [&](const char *op, int rr = 0) { Ev e("pt"); e.str("op", op).i("r", rr).raw("a", j(a)).raw("b", j(b)).raw("c", j(c)).b("same", ca.same() && cb.same()).end(); };
      junk(c); add(a, b, c); ev("add"); junk(c); sub(a, b, c); ev("sub"); junk(c); conv(a, b, c); ev("conv");
      junk(c); rotate_once(a, c); ev("rot1"); int rr = r == 0 ? 0 : (int)rng.below(N + N / 2); junk(c); rotate(a, c, rr); ev("rot", rr);
      Ev("num").str("op", "psq").raw("a", j(a)).raw("x", fix(square_sum(a), F)).b("same", ca.same()).end();
      Ev("num").str("op", "pnorm").raw("a", j(a)).raw("x", fix(norm(a), F)).b("same", ca.same()).end();
      M z; for (int i = 0; i < n; ++i) { z.r[i] = r % 5 == 1 ? i == r % n : rng.sym() * (r % 3 == 2 ? 1000 : 1); z.i[i] = r % 4 == 1 ? 0 : rng.sym(); }
      const uint64_t Ds[] = {1ULL << 30, 1, 12345, 1ULL << 45, 1ULL << 60, 1ULL << 63, 999999999999999999ULL}; uint64_t De = Ds[r % 7];
      for (int raw = 0; raw < 2; ++raw) {
        Copy_<M> cz(z); junk(c); if (raw) encode_raw(z, De, c); else encode(z, De, c);
        Ev("ptenc").i("g", G).u("D", De).b("raw", raw).raw("z", j(z)).raw("c", j(c)).b("same", cz.same()).end();
      }
      M w; junk(w); Copy_<P> cc(a); decode(a, De, w);
      Ev("ptdec").i("g", G).u("D", De).raw("a", j(a)).raw("z", j(w)).b("same", cc.same()).end();
    }
  }
  static void rounding() {      // constant messages, whose inverse transform is exact
    static const double V[] = {0.5, -0.5, 1.5, -2.5, 0.49999999999999994, -0.49999999999999994, 4503599627370497.0, -4503599627370497.0, 9007199254740991.0, -0.75, 0.25, 3.5, -1e15 - 0.5, 0.0};
    for (double v : V) for (uint64_t De : {uint64_t(1), uint64_t(2), uint64_t(8)}) {
      M z, w; static P c, d, x; for (int i = 0; i < n; ++i) { z.r[i] = v; w.r[i] = -v; z.i[i] = w.i[i] = 0; }
      junk(c); junk(d); encode(z, De, c); encode(w, De, d); encode_raw(z, De, x);
      Ev("ptround").u("D", De).raw("v", fix(v, F)).raw("c", j(c)).raw("d", j(d)).raw("x", j(x)).b("exact", true).end();
    }
    for (int r = 0; r < 12; ++r) {
      M z, w; static P c, d, x; for (int i = 0; i < n; ++i) { z.r[i] = rng.sym(); z.i[i] = rng.sym(); w.r[i] = -z.r[i]; w.i[i] = -z.i[i]; }
      uint64_t De = 1ULL << (5 * r); encode(z, De, c); encode(w, De, d); encode_raw(z, De, x);
      Ev("ptround").u("D", De).raw("v", fix(0, F)).raw("c", j(c)).raw("d", j(d)).raw("x", j(x)).b("exact", false).end();
    }
  }
  template <int K> static void wrap(int R) {
    for (int r = 0; r < R; ++r) {
      static R_Q<K, N> p, q; M z, w; for (int i = 0; i < n; ++i) { z.r[i] = rng.sym(); z.i[i] = rng.sym(); }
      const int ld = 10 + (int)rng.below(K < 64 ? 20 : 50); uint64_t De = r % 2 ? (1ULL << ld) : (1ULL << ld) - 7; double vr[n], vi[n];
      Copy_<M> cz(z); form_poly(p, 8); form_poly(q, 8);
      encode<K, G>(z, De, p); encode<K, G>(z.r, z.i, De, q);
      Ev("agree").raw("x", js(p)).raw("y", js(q)).b("same", cz.same()).end();
      form_poly(p, r % 9); Copy_<R_Q<K, N>> cp(p); junk(w);
      decode<K, G>(p, De, w); decode<K, G>(p, De, vr, vi);
      Ev("agree").raw("x", j(w)).raw("y", "[" + dv(vr, n) + "," + dv(vi, n) + "]").b("same", cp.same()).end();
      junk(w); decode_log<K, G>(p, ld, w); decode_log<K, G>(p, ld, vr, vi);
      Ev("agree").raw("x", j(w)).raw("y", "[" + dv(vr, n) + "," + dv(vi, n) + "]").b("same", cp.same()).end();
    }
  }
  template <int K, int T> static void ptmv(int R) {
    for (int r = 0; r < R; ++r) {
      static R_Q<K, N> pt, out, enc; form_poly(pt, r % 9); form_poly(out, 8); Copy_<R_Q<K, N>> cp(pt); uint64_t De = r % 3 ? 1ULL << 12 : 1ULL << 7;
      std::string s = "["; bool same = true;
      if (r % 2) {
        static M A[T]; for (int k = 0; k < T; ++k) fill(A[k], r % 7 == 3 && k == 1 ? 0 : 2); Copy_<M[T]> cA(A);
        matrix_vector_product<K, G, T>(pt, A, De, out); same = cA.same();
        for (int k = 0; k < T; ++k) { encode<K, G>(A[k].r, A[k].i, De, enc); s += std::string(k ? "," : "") + "{\"off\":" + std::to_string(k) + ",\"enc\":" + js(enc) + "}"; }
      } else {
        static SparseDiagonal<n, 3> Ar, Ai; diag<3>(Ar, Ai, r / 2, 1); Copy_<SparseDiagonal<n, 3>> c1(Ar), c2(Ai);
        matrix_vector_product<K, G>(pt, Ar, Ai, De, out); same = c1.same() && c2.same();
        for (int k = 0; k < 3; ++k) { encode<K, G>(Ar.vec[k], Ai.vec[k], De, enc); s += std::string(k ? "," : "") + "{\"off\":" + std::to_string(Ar.off[k]) + ",\"enc\":" + js(enc) + "}"; }
      }
      Ev("ptmv").i("k", K).raw("pt", js(pt)).raw("E", s + "]").raw("c", js(out)).b("same", same && cp.same()).end();
    }
  }
};
int drive(int argc, char **argv) {
  init(argc, argv);
  const int R = thorough ? 200 : 20;
  switch (atoi(argv[4])) {
    case 0: D<2>::messages(R); D<3>::messages(R); D<5>::messages(R); D<2>::matvec<1>(R); D<2>::matvec<2>(R); D<3>::matvec<4>(R); D<4>::matvec<3>(R); D<4>::matvec<8>(R); D<6>::matvec<5>(4); break;
    case 1: D<2>::sparse<3>(R); D<3>::sparse<3>(R); D<4>::sparse<3>(R); D<3>::sparse<1>(R); D<4>::sparse<7>(R); D<5>::sparse<9>(R); D<7>::messages(4); break;
    case 2: D<2>::plain(R); D<3>::plain(R); D<4>::plain(R); D<2>::rounding(); D<3>::rounding(); D<5>::rounding(); break;
    case 3: D<5>::plain(R); D<7>::plain(R / 4); D<3>::wrap<60>(R); D<4>::wrap<128>(R); D<2>::wrap<300>(R); break;
    case 4: D<2>::ptmv<60, 2>(R); D<3>::ptmv<64, 4>(R); D<4>::ptmv<128, 3>(R); break;
    case 5: D<5>::ptmv<65, 5>(R); D<3>::ptmv<300, 2>(R); D<6>::ptmv<100, 32>(R / 4); break;
  }
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
