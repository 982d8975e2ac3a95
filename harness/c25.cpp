// C25: fast transforms and matrix factors
#include "he.hpp"
#include "HEAAN/matrix/DFT.h"
namespace vh {
static const int F = 128;
static std::string dv(const double *a, int n) { std::string s = "["; for (int i = 0; i < n; ++i) { if (i) s += ","; s += fix(a[i], F); } return s + "]"; }
// 0 uniform, 1 unit vector at u, 2 all equal, 3 mixed magnitudes, 4 large, 5 alternating signs, 6 small, 7 zero
static void fill(double *a, int n, int mode, int u) {
  for (int i = 0; i < n; ++i) switch (mode) {
    case 0: a[i] = rng.sym(); break;
    case 1: a[i] = i == u; break;
    case 2: a[i] = 1; break;
    case 3: a[i] = ldexp(rng.sym(), (int)rng.below(60) - 30); break;
    case 4: a[i] = rng.sym() * 0x1p60; break;
    case 5: a[i] = i % 2 ? -1 : 1; break;
    case 6: a[i] = rng.sym() * 0x1p-40; break;
    default: a[i] = 0;
  }
}
template <int G> struct T {
  static constexpr int N = 1 << G;
  static double m[N], zr[N / 2], zi[N / 2], m2[N], wr[N / 2], wi[N / 2];
  static void fwd(int mode, int u, int which) {
    fill(m, N, mode, u); Copy_<double[N]> c(m);
    fill(zr, N / 2, 0, 0); fill(zi, N / 2, 0, 0);
    if (which == 0) dft<N>(m, zr, zi); else if (which == 1) fft<G>(m, zr, zi); else fftNR<G>(m, zr, zi);
    Ev("fwd").i("g", G).b("nr", which == 2).raw("m", dv(m, N)).raw("zr", dv(zr, N / 2)).raw("zi", dv(zi, N / 2)).b("same", c.same()).end();
    fill(m2, N, 0, 0);
    if (which == 0) idft<N>(zr, zi, m2); else if (which == 1) ifft<G>(zr, zi, m2); else ifftNR<G>(zr, zi, m2);
    Ev("round").raw("a", dv(m, N)).raw("b", dv(m2, N)).end();
  }
  static void inv(int mode, int u, int which) {
    fill(zr, N / 2, mode == 1 && u >= N / 2 ? 7 : mode, u); fill(zi, N / 2, mode == 1 && u < N / 2 ? 7 : mode, u - N / 2);
    Copy_<double[N / 2]> c(zr), d(zi); fill(m, N, 0, 0);
    if (which == 0) idft<N>(zr, zi, m); else if (which == 1) ifft<G>(zr, zi, m); else ifftNR<G>(zr, zi, m);
    Ev("inv").i("g", G).b("nr", which == 2).raw("m", dv(m, N)).raw("zr", dv(zr, N / 2)).raw("zi", dv(zi, N / 2)).b("same", c.same() && d.same()).end();
    if (which == 0) dft<N>(m, wr, wi); else if (which == 1) fft<G>(m, wr, wi); else fftNR<G>(m, wr, wi);
    // one vector, so that the tolerance is relative to all of it
    double a[N], b[N]; for (int i = 0; i < N / 2; ++i) { a[i] = zr[i]; a[i + N / 2] = zi[i]; b[i] = wr[i]; b[i + N / 2] = wi[i]; }
    Ev("round").raw("a", dv(a, N)).raw("b", dv(b, N)).end();
  }
  static void run(int R, bool units) {
    for (int w = 0; w < 3; ++w) {
      for (int r = 0; r < R; ++r) { fwd(r % 8, (int)rng.below(N), w); inv(r % 8, (int)rng.below(N), w); }
      if (units) for (int u = 0; u < N; ++u) { fwd(1, u, w); inv(1, u, w); }
    }
  }
  // long vectors: only some of the outputs are logged
  static std::vector<int> some(int n, int c) { std::vector<int> v{0, 1, n - 1, n / 2, n / 2 - 1}; while ((int)v.size() < c) v.push_back((int)rng.below(n)); return v; }
  static std::string at(const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]"; }
  static std::string pick(const double *a, const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += fix(a[v[i]], F); } return s + "]"; }
  static void large(int c, int mode, int which) {
    int u = (int)rng.below(N);
    fill(m, N, mode, u); Copy_<double[N]> *cm = new Copy_<double[N]>(m);
    fill(zr, N / 2, 2, 0); fill(zi, N / 2, 2, 0);
    if (which == 0) dft<N>(m, zr, zi); else if (which == 1) fft<G>(m, zr, zi); else fftNR<G>(m, zr, zi);
    auto v = some(N / 2, c);
    Ev("fwds").i("g", G).b("nr", which == 2).raw("m", dv(m, N)).raw("at", at(v)).raw("zr", pick(zr, v)).raw("zi", pick(zi, v)).b("same", cm->same()).end();
    fill(m2, N, 2, 0);
    if (which == 0) idft<N>(zr, zi, m2); else if (which == 1) ifft<G>(zr, zi, m2); else ifftNR<G>(zr, zi, m2);
    Ev("round").raw("a", dv(m, N)).raw("b", dv(m2, N)).end();
    delete cm;
    u = (int)rng.below(N);
    fill(zr, N / 2, mode == 1 && u >= N / 2 ? 7 : mode, u); fill(zi, N / 2, mode == 1 && u < N / 2 ? 7 : mode, u - N / 2);
    auto cr = new Copy_<double[N / 2]>(zr), ci = new Copy_<double[N / 2]>(zi);
    if (which == 0) idft<N>(zr, zi, m); else if (which == 1) ifft<G>(zr, zi, m); else ifftNR<G>(zr, zi, m);
    v = some(N, c);
    Ev("invs").i("g", G).b("nr", which == 2).raw("zr", dv(zr, N / 2)).raw("zi", dv(zi, N / 2)).raw("at", at(v)).raw("m", pick(m, v)).b("same", cr->same() && ci->same()).end();
    delete cr; delete ci;
  }
  static void through(int c, int mode) {      // a vector through the factors, multiplied here
    static SparseDiagonal<N / 2, 3> Ar[G - 1], Ai[G - 1];
    splitU0NR<G>(Ar, Ai);
    int u = (int)rng.below(N);
    fill(zr, N / 2, mode == 1 && u >= N / 2 ? 7 : mode, u); fill(zi, N / 2, mode == 1 && u < N / 2 ? 7 : mode, u - N / 2);
    std::string a = dv(zr, N / 2), b = dv(zi, N / 2);
    for (int d = G - 2; d >= 0; --d) {
      for (int i = 0; i < N / 2; ++i) { wr[i] = wi[i] = 0; for (int k = 0; k < 3; ++k) {
        int jr = (i + Ar[d].off[k]) % (N / 2), ji = (i + Ai[d].off[k]) % (N / 2);
        wr[i] += Ar[d].vec[k][i] * zr[jr] - Ai[d].vec[k][i] * zi[ji]; wi[i] += Ar[d].vec[k][i] * zi[jr] + Ai[d].vec[k][i] * zr[ji]; } }
      for (int i = 0; i < N / 2; ++i) { zr[i] = wr[i]; zi[i] = wi[i]; }
    }
    auto v = some(N / 2, c);
    Ev("through").i("g", G).raw("zr", a).raw("zi", b).raw("at", at(v)).raw("wr", pick(wr, v)).raw("wi", pick(wi, v)).end();
  }
  static void factors(int cols) {
    static SparseDiagonal<N / 2, 3> Ar[G - 1], Ai[G - 1];
    splitU0NR<G>(Ar, Ai);
    std::string f = "[";
    for (int d = 0; d < G - 1; ++d) {
      f += d ? ",[" : "[";
      for (int k = 0; k < 3; ++k) f += std::string(k ? "," : "") + "{\"off\":" + std::to_string(Ar[d].off[k]) + ",\"offi\":" + std::to_string(Ai[d].off[k]) + ",\"re\":" + dv(Ar[d].vec[k], N / 2) + ",\"im\":" + dv(Ai[d].vec[k], N / 2) + "}";
      f += "]";
    }
    Ev("factors").i("g", G).raw("f", f + "]").end();
    for (int c = 0; c < cols; ++c) Ev("column").i("c", cols == N / 2 ? c : (int)rng.below(N / 2)).end();
  }
};
template <int G> double T<G>::m[T<G>::N]; template <int G> double T<G>::m2[T<G>::N];
template <int G> double T<G>::zr[T<G>::N / 2]; template <int G> double T<G>::zi[T<G>::N / 2]; template <int G> double T<G>::wr[T<G>::N / 2]; template <int G> double T<G>::wi[T<G>::N / 2];
int drive(int argc, char **argv) {
  init(argc, argv);
  const int R = thorough ? 64 : 16;
  switch (atoi(argv[4])) {
    case 0: T<1>::run(R, true); T<2>::run(R, true); T<3>::run(R, true); T<2>::factors(2); T<3>::factors(4); T<4>::factors(8); break;
    case 1: T<4>::run(R, true); T<5>::run(R, true); T<5>::factors(16); break;
    case 2: T<6>::run(R, thorough); T<6>::factors(thorough ? 32 : 8); break;
    case 3: T<7>::run(R / 2, false); T<7>::factors(thorough ? 64 : 5); break;
    case 4: T<8>::run(R / 2, false); T<8>::factors(3); break;
    case 5: T<9>::run(thorough ? 8 : 2, false); T<9>::factors(2); break;
    case 6: T<10>::run(thorough ? 8 : 1, false); T<10>::factors(1); break;
    case 7: T<11>::large(40, 0, 0); for (int w = 1; w < 3; ++w) { T<12>::large(60, 0, w); T<13>::large(60, 1, w); T<13>::large(60, 3, w); } T<11>::through(60, 0); T<13>::through(60, 1); break;
    case 8: for (int w = 1; w < 3; ++w) T<16>::large(60, w - 1, w); T<15>::through(60, 0); break;
    case 9: for (int w = 1; w < 3; ++w) { T<14>::large(60, 0, w); T<15>::large(60, 2 - w, w); } T<14>::through(60, 3); T<16>::through(60, 0); T<16>::through(60, 1); break;
  }
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
