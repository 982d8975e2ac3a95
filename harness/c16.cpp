// C16: programs over sparse diagonal matrices
#include "he.hpp"
#include "HEAAN/matrix/matrix.h"
namespace vh {
static const int E0 = 8;
template <int N, int S> std::string jm(const SparseDiagonal<N, S> &A, int F) {
  std::string s = "[";
  for (int k = 0; k < S; ++k) {
    s += std::string(k ? "," : "") + "{\"off\":" + std::to_string(A.off[k]) + ",\"zero\":" + (A.zero[k] ? "true" : "false") + ",\"v\":[";
    for (int i = 0; i < N; ++i) { if (i) s += ","; s += fix(A.vec[k][i], F); }
    s += "]}";
  }
  return s + "]";
}
template <class G> std::string jg(int n, G g, int F) {
  std::string s = "[";
  for (int i = 0; i < n; ++i) { s += i ? ",[" : "["; for (int j = 0; j < n; ++j) { if (j) s += ","; s += fix(g(i, j), F); } s += "]"; }
  return s + "]";
}
static double val() { int c = (int)rng.below(8); return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? -1 : ((int)rng.below(2049) - 1024) / (c < 5 ? 16.0 : 1.0); }
template <int N, int S> struct P {
  typedef SparseDiagonal<N, S> M;
  static M r[4], old[4];
  static std::string oth(int d) {
    std::string o = "[";
    for (int i = 0; i < 4; ++i) if (i != d) {
      bool same = true;
      for (int k = 0; k < S; ++k) same = same && r[i].off[k] == old[i].off[k] && r[i].zero[k] == old[i].zero[k] && !memcmp(r[i].vec[k], old[i].vec[k], sizeof r[i].vec[k]);
      if (!same) o += (o.size() > 1 ? "," : "") + std::to_string(i);
    }
    return o + "]";
  }
  template <int T> static std::string get(const SparseDiagonal<N, T> &A, int F) { return jg(N, [&](int i, int j) { return A.get_element(i, j); }, F); }
  static void done(Ev &e, int d) { e.i("r", d).raw("A", jm(r[d], E0)).raw("g", get(r[d], E0)).raw("oth", oth(d)).end(); }
  static bool sameoff(int a, int b) { for (int k = 0; k < S; ++k) if (r[a].off[k] != r[b].off[k]) return false; return true; }
  static bool first(const M &A, int k) { for (int j = 0; j < k; ++j) if (A.off[j] == A.off[k]) return false; return true; }
  static void build(M &A, const int *off, int fillmode) {
    A.setzero();
    for (int k = 0; k < S; ++k) A.off[k] = off[k];
    for (int k = 0; k < S; ++k) {
      if (!first(A, k) || fillmode == 0 || (fillmode == 2 && rng.below(2))) continue;
      for (int i = 0; i < N; ++i) if (fillmode != 3 || rng.below(2)) A.set_element(i, (i + off[k]) % N, val());
    }
  }
  template <int T, int S2> static bool clutter(const SparseDiagonal<N, T> &C, std::string &R, std::string &g) {
    if constexpr (S2 < T) {
      for (int k = S2; k < T; ++k) if (!C.zero[k]) return false;
      static SparseDiagonal<N, S2> B; for (int k = 0; k < S2; ++k) { B.off[k] = 77; for (int i = 0; i < N; ++i) B.vec[k][i] = 3; }
      RemoveClutter<N, T, S2>(C, B); R = jm(B, 2 * E0); g = get(B, 2 * E0); return true;
    }
    return false;
  }
  static void mul(int a, int b, int c, bool three) {
    static SparseDiagonal<N, S * S> C; static SparseDiagonal<N, S * S * S> T;
    for (int k = 0; k < S * S; ++k) { C.off[k] = 99; for (int i = 0; i < N; ++i) C.vec[k][i] = 5; }
    Ev e("mul"); e.i("a", a).i("b", b).i("c", c);
    MatMul<N, S, S>(r[a], r[b], C);
    e.raw("C", jm(C, 2 * E0)).raw("g", get(C, 2 * E0));
    std::string R = "[]", g = "[]";
    clutter<S * S, 1>(C, R, g) || clutter<S * S, 2>(C, R, g) || clutter<S * S, 3>(C, R, g) || clutter<S * S, 5>(C, R, g) || clutter<S * S, 7>(C, R, g) || clutter<S * S, 8>(C, R, g) || clutter<S * S, 12>(C, R, g);
    e.raw("R", R).raw("rg", g);
    if (three) { MatMul<N, S * S, S>(C, r[c], T); e.raw("T", jm(T, 3 * E0)).raw("tg", get(T, 3 * E0)); } else e.raw("T", "[]").raw("tg", "[]");
    e.raw("oth", oth(-1)).end();
  }
  static void run(int progs, int steps) {
    for (int p = 0; p < progs; ++p) {
      int off[2][S]; int cfgm = p % 5;
      for (int h = 0; h < 2; ++h) for (int k = 0; k < S; ++k) {
        off[h][k] = cfgm == 0 ? (k ? (k == 1 ? N / 2 : N - 1) : 0) % N : cfgm == 1 ? 0 : cfgm == 2 ? (k % 2 ? N - 1 : 1 % N) : (int)rng.below(N);
        if (cfgm == 4 && k == S - 1 && S > 1) off[h][k] = off[h][0];
      }
      // registers 0,1 share offsets, and 2,3; a register's fill mode: 0 nothing, 1 full, 2 some diagonals, 3 some entries
      for (int i = 0; i < 4; ++i) build(r[i], off[i / 2], p % 7 == 6 && i == 1 ? 0 : 1 + (int)rng.below(3));
      Ev("begin").i("n", N).raw("regs", "[" + jm(r[0], E0) + "," + jm(r[1], E0) + "," + jm(r[2], E0) + "," + jm(r[3], E0) + "]").end();
      double mx = 1024;
      for (int t = 0; t < steps; ++t) {
        for (int i = 0; i < 4; ++i) old[i] = r[i];
        int d = (int)rng.below(4), s = (int)rng.below(4), op = (int)rng.below(14);
        if (op == 0) { int k = (int)rng.below(S), i = (int)rng.below(N), j = (i + r[d].off[k]) % N; double v = val(); Ev e("setel"); e.i("i", i).i("j", j).raw("v", fix(v, E0)); r[d].set_element(i, j, v); done(e, d); }
        else if (op == 1) { if (rng.below(4)) continue; Ev e("zero"); r[d].setzero(); done(e, d); }
        else if (op == 2) { if (rng.below(3)) continue; Ev e("copy"); e.i("s", s); r[d] = r[s]; done(e, d); }
        else if (op <= 4) { if (!sameoff(d, s)) { s = d ^ 1; if (!sameoff(d, s)) continue; } Ev e(op == 3 ? "add" : "sub"); e.i("s", s); if (op == 3) r[d] += r[s]; else r[d] -= r[s]; done(e, d); }
        else if (op == 5) { int a = (int)rng.below(7) - 3; Ev e("scale"); e.i("a", a); r[d] *= (double)a; done(e, d); }
        else if (op == 6) { Ev e("neg"); r[d].negate(); done(e, d); }
        else if (op <= 8) { Ev e("tr"); r[d].transpose(); done(e, d); }
        else if (op <= 10) mul(d, s, (int)rng.below(4), S < 4 && N <= 8 && mx <= 2048 && rng.below(2));
        else if (op == 11) {
          if (!sameoff(0, 1) || !sameoff(2, 3)) continue;
          static SparseDiagonal<N, S * S> Cr, Ci;
          for (int k = 0; k < S * S; ++k) { Cr.off[k] = Ci.off[k] = 9; for (int i = 0; i < N; ++i) Cr.vec[k][i] = Ci.vec[k][i] = 7; }
          MatMul<N, S, S>(r[0], r[1], r[2], r[3], Cr, Ci);
          Ev("cmul").raw("Cr", jm(Cr, 2 * E0)).raw("Ci", jm(Ci, 2 * E0)).raw("gr", get(Cr, 2 * E0)).raw("gi", get(Ci, 2 * E0)).raw("oth", oth(-1)).end();
        } else if constexpr (S == 3) {
          if (!sameoff(0, 1)) continue;
          constexpr int L = __builtin_ctz(N) + 1; double zr[N], zi[N], wr[N], wi[N];
          for (int i = 0; i < N; ++i) { zr[i] = val(); zi[i] = val(); wr[i] = wi[i] = 1e9; }
          Ev e("mv"); e.dbl("zr", zr, N, E0).dbl("zi", zi, N, E0);
          matrix_vector_product<L>(zr, zi, r[0], r[1], wr, wi);
          e.dbl("wr", wr, N, 2 * E0).dbl("wi", wi, N, 2 * E0).raw("oth", oth(-1)).end();
        }
        // keep the entries small enough for exact doubles
        mx = 0; for (int i = 0; i < 4; ++i) for (int k = 0; k < S; ++k) for (int j = 0; j < N; ++j) mx = std::max(mx, fabs(r[i].vec[k][j]));
        if (mx > 40000) break;
      }
      double a[4][N][N], c[2][N][N];
      for (auto &x : a) for (auto &y : x) for (auto &z : y) z = val();
      for (auto &x : c) for (auto &y : x) for (auto &z : y) z = 1e9;
      matrix_product<N>(a[0], a[1], a[2], a[3], c[0], c[1]);
      auto jd = [&](double (*x)[N], int F) { return jg(N, [&](int i, int j) { return x[i][j]; }, F); };
      Ev("dense").raw("Ar", jd(a[0], E0)).raw("Ai", jd(a[1], E0)).raw("Br", jd(a[2], E0)).raw("Bi", jd(a[3], E0)).raw("Cr", jd(c[0], 2 * E0)).raw("Ci", jd(c[1], 2 * E0)).end();
    }
  }
};
template <int N, int S> SparseDiagonal<N, S> P<N, S>::r[4]; template <int N, int S> SparseDiagonal<N, S> P<N, S>::old[4];
// long matrices, one operation at a time
template <int N, int S1, int S2> struct L {
  template <int S> struct Two { SparseDiagonal<N, S> r, i; };
  template <int S> static void build(SparseDiagonal<N, S> &A, const int *off, int fill) {
    A.setzero();
    for (int k = 0; k < S; ++k) A.off[k] = off[k];
    for (int k = 0; k < S; ++k) {
      bool first = true; for (int j = 0; j < k; ++j) if (off[j] == off[k]) first = false;
      if (!first || fill == 0 || (fill == 2 && rng.below(2))) continue;
      for (int i = 0; i < N; ++i) if (fill != 3 || rng.below(2)) A.set_element(i, (i + off[k]) % N, val());
    }
  }
  template <int S> static void offs(int *o, int mode, bool any) {
    int M = 1 << rng.below(__builtin_ctz(N)); bool ok;
    do { ok = true; for (int k = 0; k < S; ++k) o[k] = mode == 0 && k < 3 ? (k == 0 ? 0 : k == 1 ? M : N - M) : mode == 1 ? (k * M) % N : (int)rng.below(N);
      if (!any) for (int k = 0; k < S; ++k) for (int j = 0; j < k; ++j) if (o[k] == o[j]) ok = false; if (!ok) mode = 2; } while (!ok);
  }
  template <int S> static std::string reads(const SparseDiagonal<N, S> &A, int F) {
    std::string s = "["; for (int t = 0; t < 24; ++t) { int i = (int)rng.below(N), j = t % 2 ? (i + A.off[rng.below(S)]) % N : (int)rng.below(N); s += std::string(t ? "," : "") + "{\"i\":" + std::to_string(i) + ",\"j\":" + std::to_string(j) + ",\"v\":" + fix(A.get_element(i, j), F) + "}"; } return s + "]";
  }
  template <int S> static void junk(SparseDiagonal<N, S> &C) { for (int k = 0; k < S; ++k) { C.off[k] = 9; C.zero[k] = true; for (int i = 0; i < N; ++i) C.vec[k][i] = 7; } }
  static void run(int R) {
    static Two<S1> A, A0; static Two<S2> B, B0; static Two<S1 * S2> C;
    for (int r = 0; r < R; ++r) {
      int o1[S1], o2[S2]; offs<S1>(o1, r % 3, false); offs<S2>(o2, (r + r / 3) % 3, false);
      build(A.r, o1, r % 5 == 4 ? 2 : 1); build(A.i, o1, r % 4 == 3 ? 0 : 2); build(B.r, o2, r % 5 == 3 ? 3 : 2); build(B.i, o2, 1 + (int)rng.below(3));
      A0.r = A.r; A0.i = A.i; B0.r = B.r; B0.i = B.i; junk(C.r); junk(C.i);
      auto same = [&] { return jm(A.r, E0) == jm(A0.r, E0) && jm(A.i, E0) == jm(A0.i, E0) && jm(B.r, E0) == jm(B0.r, E0) && jm(B.i, E0) == jm(B0.i, E0); };
      auto ev = [&](const char *op) { Ev e("big"); e.str("op", op).i("n", N).raw("Ar", jm(A.r, E0)).raw("Ai", jm(A.i, E0)).raw("Br", jm(B.r, E0)).raw("Bi", jm(B.i, E0)); return e; };
      { Ev e = ev("mul"); MatMul<N, S1, S2>(A.r, B.r, C.r); e.raw("Cr", jm(C.r, 2 * E0)).raw("g", reads(C.r, 2 * E0)).b("same", same()).end(); }
      { junk(C.r); junk(C.i); Ev e = ev("cmul"); MatMul<N, S1, S2>(A.r, A.i, B.r, B.i, C.r, C.i); e.raw("Cr", jm(C.r, 2 * E0)).raw("Ci", jm(C.i, 2 * E0)).raw("g", reads(C.r, 2 * E0)).raw("gi", reads(C.i, 2 * E0)).b("same", same()).end(); }
      auto one = [&](const char *op) { Ev e = ev(op); SparseDiagonal<N, S1> X; X = A.r; std::string o(op); int a = (int)rng.below(7) - 3;
        if (o == "tr") X.transpose(); else if (o == "neg") X.negate(); else if (o == "scale") X *= (double)a; else if (o == "add") X += A.i; else if (o == "sub") X -= A.i;
        e.i("a", a).raw("Cr", jm(X, E0)).raw("g", reads(X, E0)).b("same", same()).end(); };
      one("tr"); one("neg"); one("scale"); one("add"); one("sub");
      if constexpr (S1 == 3) {
        constexpr int G = __builtin_ctz(N) + 1; static double zr[N], zi[N], wr[N], wi[N];
        for (int i = 0; i < N; ++i) { zr[i] = val(); zi[i] = val(); wr[i] = wi[i] = 1e9; }
        Ev e = ev("mv"); e.dbl("zr", zr, N, E0).dbl("zi", zi, N, E0);
        matrix_vector_product<G>(zr, zi, A.r, A.i, wr, wi);
        e.dbl("wr", wr, N, 2 * E0).dbl("wi", wi, N, 2 * E0).b("same", same()).end();
      }
    }
  }
};
int drive(int argc, char **argv) {
  init(argc, argv);
  const int R = thorough ? 300 : 25, T = 24;
  switch (atoi(argv[4])) {
    case 0: P<2, 1>::run(R, T); P<2, 3>::run(R, T); P<4, 2>::run(R, T); break;
    case 1: P<4, 3>::run(R, T); P<4, 1>::run(R, T); break;
    case 2: P<8, 3>::run(R, T); break;
    case 3: P<8, 2>::run(R, T); P<2, 2>::run(R, T); P<8, 1>::run(R, T); break;
    case 4: P<4, 4>::run(R, T); break;
    case 5: P<16, 3>::run(R / 3, T); break;
    case 6: P<16, 2>::run(R / 3, T); break;
    case 7: L<32, 3, 3>::run(R / 3); L<64, 2, 5>::run(R / 4); L<128, 3, 3>::run(R / 6); L<256, 5, 2>::run(2); break;
    case 8: L<64, 9, 3>::run(2); L<512, 3, 3>::run(2); L<32, 27, 3>::run(2); break;
    case 9: L<1024, 3, 3>::run(2); L<4096, 3, 1>::run(1); break;
  }
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
