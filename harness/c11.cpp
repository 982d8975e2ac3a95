// C11: ciphertext programs generated from HEMachine, on ladders of three modulus sizes
#include "he.hpp"
#include "HEAAN/core.h"
#include <fstream>
#include <sstream>
namespace vh {
static std::vector<std::string> programs;
template <int K0, int K1, int K2, int N> struct M {
  R_Q_square<K0, N> r0[3]; R_Q_square<K1, N> r1[3]; R_Q_square<K2, N> r2[3];
  static int key[N];
  template <int LV> auto &at(int d) { if constexpr (LV == 0) return r0[d]; else if constexpr (LV == 1) return r1[d]; else return r2[d]; }
  template <int LV> static constexpr int size() { return LV == 0 ? K0 : LV == 1 ? K1 : K2; }
  // every register, and the places that differ from the copy taken before the step, except the destination
  std::string others(const M &b, int lv, int d) {
    std::string s = "[";
    auto chk = [&](int v, int r, const void *x, const void *y, size_t n) { if ((v != lv || r != d) && memcmp(x, y, n)) { if (s.size() > 1) s += ","; s += std::to_string(10 * v + r); } };
    for (int r = 0; r < 3; ++r) { chk(0, r, &r0[r], &b.r0[r], sizeof r0[r]); chk(1, r, &r1[r], &b.r1[r], sizeof r1[r]); chk(2, r, &r2[r], &b.r2[r], sizeof r2[r]); }
    return s + "]";
  }
  template <int LV> void load(int d, int m) { form_poly(at<LV>(d)[0], m); form_poly(at<LV>(d)[1], m == 8 ? 8 : (int)rng.below(9)); }
  template <int LV> void step(const std::string &op, int d, int s, const M &before) {
    constexpr int K = size<LV>();
    Ev e(op.c_str()); e.i("lv", LV).i("d", d);
    int dl = LV;
    bool arg = true;
    if (op == "load") load<LV>(d, s);
    else if (op == "copy") { at<LV>(d) = at<LV>(s); e.i("s", s); }
    else if (op == "zero") at<LV>(d).setzero();
    else if (op == "add") { at<LV>(d) += at<LV>(s); e.i("s", s); }
    else if (op == "sub") { at<LV>(d) -= at<LV>(s); e.i("s", s); }
    else if (op == "mulw") { uint64_t w = word_class(s); at<LV>(d) *= w; e.u("w", w); }
    else if (op == "mulp") { static R_Q<K, N> p; form_poly(p, s); Copy_<R_Q<K, N>> c(p); e.raw("p", js(p)); at<LV>(d) *= p; arg = c.same(); }
    else if (op == "rs") { if constexpr (LV < 2) { RS<K, size<LV + 1>(), N>(at<LV>(s), at<LV + 1>(d)); e.i("s", s); dl = LV + 1; } }
    std::string o = others(before, dl, d);
    if (!arg) o = "[99]";
    if (dl == LV) e.raw("ct", js(at<LV>(d))); else { if constexpr (LV < 2) e.raw("ct", js(at<LV + 1>(d))); }
    e.raw("oth", o).end();
  }
  void program(const std::string &p, int kmode) {
    own_key<N>(key, kmode);
    for (int r = 0; r < 3; ++r) { load<0>(r, (int)rng.below(9)); load<1>(r, (int)rng.below(9)); load<2>(r, (int)rng.below(9)); }
    Ev e("begin"); e.i("n", N).raw("key", ints(key, N)).raw("size", "[" + std::to_string(K0) + "," + std::to_string(K1) + "," + std::to_string(K2) + "]");
    auto three = [&](auto *r) { return "[" + js(r[0]) + "," + js(r[1]) + "," + js(r[2]) + "]"; };
    e.raw("regs", "[" + three(r0) + "," + three(r1) + "," + three(r2) + "]").end();
    std::istringstream is(p); std::string op; int lv, d, s; char c;
    std::unique_ptr<M> b(new M);
    while (is >> op >> lv >> d >> s >> c) {
      *b = *this;
      if (lv == 0) step<0>(op, d, s, *b); else if (lv == 1) step<1>(op, d, s, *b); else step<2>(op, d, s, *b);
    }
  }
  static void run(int from, int n) { static M m; for (int i = 0; i < n; ++i) m.program(programs[(from + i) % programs.size()], (from + i) % 6); }
};
template <int K0, int K1, int K2, int N> int M<K0, K1, K2, N>::key[N];
int drive(int argc, char **argv) {
  init(argc, argv);
  std::ifstream f(argv[4]); std::string line; while (std::getline(f, line)) if (!line.empty()) programs.push_back(line);
  if (programs.empty()) return 64;
  int R = thorough ? 40 : 5;
  int p0 = VH_PART * 17;
#if VH_PART == 0
  M<120, 60, 30, 4>::run(p0, R); M<130, 65, 1, 2>::run(p0 + 5, R); M<64, 63, 2, 8>::run(p0 + 9, R);
#elif VH_PART == 1
  M<192, 128, 64, 4>::run(p0, R); M<129, 128, 127, 8>::run(p0 + 5, R); M<65, 64, 63, 2>::run(p0 + 9, R);
#elif VH_PART == 2
  M<300, 250, 137, 4>::run(p0, R); M<200, 120, 119, 16>::run(p0 + 5, R);
#elif VH_PART == 3
  M<1450, 1400, 1390, 2>::run(p0, R); M<256, 192, 100, 8>::run(p0 + 5, R); M<10, 5, 4, 4>::run(p0 + 9, R);
#elif VH_PART == 4
  M<60, 40, 20, 64>::run(p0, R / 2 + 1); M<320, 65, 64, 4>::run(p0 + 5, R);
#elif VH_PART == 5
  M<240, 180, 120, 32>::run(p0, R / 2 + 1); M<128, 64, 1, 2>::run(p0 + 5, R);
#elif VH_PART == 6
  M<60, 40, 20, 1024>::run(p0, 1); M<129, 128, 100, 512>::run(p0 + 3, 1);
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
