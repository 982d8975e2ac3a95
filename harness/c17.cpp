// C17: homomorphic linear transforms
#include "he.hpp"
#include "HEAAN/linear_transform.h"
namespace vh {
static const int F = 128;
static std::string dv(const double *a, int n) { std::string s = "["; for (int i = 0; i < n; ++i) { if (i) s += ","; s += fix(a[i], F); } return s + "]"; }
template <int n> std::string dm(double (*a)[n]) { std::string s = "["; for (int i = 0; i < n; ++i) { if (i) s += ","; s += dv(a[i], n); } return s + "]"; }
// entries: 0 uniform, 1 one entry, 2 constant one, 3 mixed magnitudes, 4 alternating, 5 imaginary or real only (see below)
static double entry(int mode, int i, int n, double A) {
  switch (mode) { case 1: return i == n / 3 ? A : 0; case 2: return 1; case 3: return A * ldexp(rng.sym(), -(int)rng.below(30)); case 4: return i % 2 ? -1 : 1; default: return A * rng.sym(); }
}
template <int K, int N> void own_ct(const int *s, const R_Q<K, N> &pt, int mask, R_Q_square<K, N> &ct) {
  form_poly(ct[1], mask); ct[0] = pt; own_muladd(s, ct[1], ct[0], true);
}
template <int K, int G, int LD> struct T {
  static constexpr int N = 1 << G, n = N / 2;
  typedef R_Q_square<K, N> Ct; typedef R_Q_square<2 * K, N> Key;
  static inline Ct in, out; static inline int s[N];
  template <int S> struct M { SparseDiagonal<n, S> r, i; };
  // offsets 0 distinct, 1 any, 2 all zero, 3 like the transform factors, 4 coinciding pairs
  template <int S> static void fill(M<S> &A, int om, int em, double amp) {
    A.r.setzero(); A.i.setzero();
    int M_ = 1 << rng.below(G > 1 ? G - 1 : 1); if (M_ >= n) M_ = n / 2;
    for (int k = 0; k < S; ++k) {
      int o = om == 0 ? (int)((k * 5 + 1 + (k > 2)) % n) : om == 1 ? (int)rng.below(n) : om == 2 ? 0 : om == 3 ? (k % 3 == 0 ? 0 : k % 3 == 1 ? M_ : (n - M_) % n) : (k & 1) ? A.r.off[k - 1] : (int)rng.below(n);
      A.r.off[k] = A.i.off[k] = o;
      bool zr = em == 5 ? rng.below(3) == 0 : em == 6 ? true : em == 7 ? k != S / 2 : false, zi = em == 5 ? rng.below(2) : em == 6 ? rng.below(2) : em == 7 ? k != S / 2 || rng.below(2) : false;
      for (int i = 0; i < n; ++i) {
        if (!zr) { A.r.vec[k][i] = entry(em, i, n, amp); A.r.zero[k] = false; }
        if (!zi) { A.i.vec[k][i] = entry(em == 2 || em == 4 ? 0 : em, i, n, amp); A.i.zero[k] = false; }
      }
    }
  }
  template <int S> static std::string diags(const M<S> &A, bool enc) {
    static R_Q<K, N> pt; std::string o = "[";
    for (int k = 0; k < S; ++k) {
      bool z = A.r.zero[k] && A.i.zero[k];
      o += std::string(k ? "," : "") + "{\"off\":" + std::to_string(A.r.off[k]) + ",\"zero\":" + (z ? "true" : "false") + ",\"zr\":" + dv(A.r.vec[k], n) + ",\"zi\":" + dv(A.i.vec[k], n);
      if (enc) { encode<K, G>(A.r.vec[k], A.i.vec[k], 1ULL << LD, pt); o += ",\"enc\":" + js(pt); }
      o += "}";
    }
    return o + "]";
  }
  static double amp() { return K < 64 ? ldexp(1, K - 3 - LD) : LD > 60 ? 0.5 : LD > 55 ? 1 : LD > 45 ? 8 : 1000; }
  static Ev ev(const char *e, const char *var) { Ev x(e); x.str("var", var).i("k", K).i("g", G).i("ld", LD).ints("s", s, N).raw("in", js(in)); return x; }
  template <int S> static void sparse(int R) {
    static M<S> A; static Key key[S];
    for (int r = 0; r < R; ++r) {
      own_key<N>(s, r % 6); fill<S>(A, (r + r / 5) % 5, r % 8, amp());
      form_poly(in[0], r % 9); form_poly(in[1], (r / 2) % 9); form_poly(out[0], 8); form_poly(out[1], 8);
      Copy_<M<S>> ca(A); Copy_<Ct> ci(in);
      Ev e = ev("one", "skey"); linear_transform<K, G, LD, S>(A.r, A.i, in, s, out);
      e.raw("A", diags<S>(A, true)).raw("out", js(out)).b("same", ca.same() && ci.same()).end();
      const Key *p[S];
      for (int k = 0; k < S; ++k) {
        int rot[N]; long g = 1; for (int t = 0; t < A.r.off[k]; ++t) g = g * 5 % (2 * N);
        p[k] = &key[k]; bool used = A.r.off[k] && !(A.r.zero[k] && A.i.zero[k]);
        if (used) { own_auto<N>(s, rot, g); own_swk<K, N>(rot, s, (int)rng.below(4), (int)rng.below(9), key[k]); }
        else { form_poly(key[k][0], 8); form_poly(key[k][1], 8); if (A.r.off[k] == 0 && rng.below(2)) p[k] = nullptr; }
      }
      form_poly(out[0], 8); form_poly(out[1], 8);
      Ev f = ev("one", "rkey"); linear_transform<K, G, LD, S>(A.r, A.i, in, p, out);
      f.raw("A", diags<S>(A, true)).raw("out", js(out)).b("same", ca.same() && ci.same()).end();
    }
  }
  static void dense(int R) {
    static double Ar[n][n], Ai[n][n]; static Key key; static M<n> V;
    for (int r = 0; r < R; ++r) {
      own_key<N>(s, r % 6); int em = r % 5;
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { Ar[i][j] = entry(em, (i * 3 + j) % n, n, amp()); Ai[i][j] = r % 3 == 1 ? 0 : entry(em == 2 || em == 4 ? 0 : em, j, n, amp()); }
      if (em == 1) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) Ar[i][j] = i == j, Ai[i][j] = 0;
      if (r % 4 == 2 || r % 4 == 3) {                      // some diagonals vanish: one, two or all but one
        const int how = (int)rng.below(3), h = (int)rng.below(n - 1), h2 = (int)rng.below(n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
          const int d = ((j - i) % n + n) % n;
          if (how == 2 ? d != h2 : d == h || (how == 1 && d == h2)) Ar[i][j] = Ai[i][j] = 0;
        }
      } else if (r % 8 == 4) { const int h = (int)rng.below(n); for (int i = 0; i < n; ++i) Ar[i][(i + h) % n] = 0; }
      V.r.setzero(); V.i.setzero();
      for (int o = 0; o < n; ++o) { V.r.off[o] = V.i.off[o] = o; V.r.zero[o] = V.i.zero[o] = false; for (int j = 0; j < n; ++j) { V.r.vec[o][j] = Ar[j][(o + j) % n]; V.i.vec[o][j] = Ai[j][(o + j) % n]; } }
      int rot[N]; own_auto<N>(s, rot, 5); own_swk<K, N>(rot, s, r % 4, r % 9, key);
      form_poly(in[0], r % 9); form_poly(in[1], (r / 2) % 9); form_poly(out[0], 8); form_poly(out[1], 8);
      Copy_<Ct> ci(in); Copy_<Key> ck(key);
      Ev e = ev("one", "dense"); linear_transform<K, G, LD>(Ar, Ai, in, key, out);
      e.raw("A", diags<n>(V, true)).raw("Mr", dm<n>(Ar)).raw("Mi", dm<n>(Ai)).raw("out", js(out)).b("same", ci.same() && ck.same()).end();
    }
  }
  // how: 0 serial, 1..4 grouped_serial with that group, 12, 13, 14 the grouped functions themselves
  template <int S, int D, int GR> static void serial(int R) {
    static SparseDiagonal<n, S> Ar[D], Ai[D]; static M<S> A[D]; static R_Q<K, N> pt;
    for (int r = 0; r < R; ++r) {
      own_key<N>(s, r % 6);
      for (int d = 0; d < D; ++d) { int em = (r + d) % 8; if (em > 5) em = rng.below(4) ? 0 : em; fill<S>(A[d], (r + d / 2) % 5, em, 2); Ar[d] = A[d].r; Ai[d] = A[d].i; }
      for (int i = 0; i < N; ++i) pt[i] = own_small<K>((long)rng.below(1 << 20) - (1 << 19), r % 3 == 2 ? 60 : 20);
      own_ct(s, pt, r % 9, in); form_poly(out[0], 8); form_poly(out[1], 8);
      Copy_<Ct> ci(in); Copy_<SparseDiagonal<n, S>[D]> c1(Ar), c2(Ai);
      ev("begin", "").end();
      if constexpr (GR == 0) serial_linear_transform<K, G, LD, S, D>(Ar, Ai, in, s, out);
      else if constexpr (GR == 12) grouped2_serial_linear_transform<K, G, LD, S, D>(Ar, Ai, in, s, out);
      else if constexpr (GR == 13) grouped3_serial_linear_transform<K, G, LD, S, D>(Ar, Ai, in, s, out);
      else if constexpr (GR == 14) grouped4_serial_linear_transform<K, G, LD, S, D>(Ar, Ai, in, s, out);
      else grouped_serial_linear_transform<K, G, LD, S, D, GR>(Ar, Ai, in, s, out);
      constexpr int gr = GR > 10 ? GR - 10 : GR ? GR : 1;
      for (int d = 0; d < D; ++d) { Ev("factor").raw("A", diags<S>(A[d], false)).end(); if ((d + 1) % gr == 0) Ev("group").end(); }
      Ev("end").raw("out", js(out)).b("same", ci.same() && c1.same() && c2.same()).end();
    }
  }
};
int drive(int argc, char **argv) {
  init(argc, argv);
  const int X = thorough ? 40 : 3;
#if VH_PART == 0
  T<100, 3, 30>::sparse<3>(24 * X); T<100, 3, 30>::dense(12 * X); T<64, 2, 20>::sparse<2>(20 * X); T<64, 2, 20>::dense(12 * X); T<400, 3, 40>::serial<3, 2, 0>(12 * X);
#elif VH_PART == 1
  T<191, 4, 40>::sparse<3>(24 * X); T<191, 4, 40>::dense(8 * X); T<400, 4, 40>::serial<3, 2, 2>(10 * X); T<400, 4, 40>::serial<3, 4, 2>(10 * X);
#elif VH_PART == 2
  T<65, 4, 50>::sparse<9>(10 * X); T<300, 5, 60>::sparse<3>(16 * X); T<450, 4, 45>::serial<3, 3, 3>(10 * X); T<450, 4, 45>::serial<2, 6, 13>(8 * X);
#elif VH_PART == 3
  T<33, 5, 25>::sparse<5>(16 * X); T<128, 5, 31>::dense(4 * X); T<400, 4, 50>::serial<3, 4, 4>(8 * X); T<400, 3, 50>::serial<2, 4, 14>(10 * X);
#elif VH_PART == 4
  T<320, 6, 45>::sparse<3>(10 * X); T<500, 5, 38>::serial<3, 4, 1>(8 * X); T<500, 5, 38>::serial<3, 4, 12>(8 * X); T<500, 3, 35>::serial<1, 4, 2>(10 * X);
#elif VH_PART == 6
  T<120, 9, 40>::sparse<3>(X); T<300, 9, 40>::serial<3, 8, 4>(1); T<200, 8, 45>::sparse<5>(X); T<128, 7, 33>::dense(1);
#elif VH_PART == 7
  T<62, 10, 30>::sparse<3>(1 + X / 3); T<300, 9, 40>::serial<3, 8, 2>(1); T<400, 8, 50>::serial<3, 7, 1>(1); T<400, 7, 50>::serial<3, 6, 3>(1);
#else
  T<640, 5, 62>::sparse<3>(10 * X); T<257, 3, 55>::sparse<1>(20 * X); T<600, 5, 55>::serial<3, 4, 4>(6 * X); T<450, 5, 48>::serial<3, 3, 13>(8 * X); T<450, 5, 48>::serial<3, 3, 0>(6 * X);
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
