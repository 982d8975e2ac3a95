// C01: runs register programs on Z_Q<K>.  args: PROGRAMS VH_GROUP
#include "vh.hpp"
#include <fstream>
#include <sstream>
#include <utility>
namespace vh {

struct Op { std::string n; int a, b; };
static std::vector<std::vector<Op>> progs;

static void load_programs(const char *f) {
  std::ifstream in(f); std::string line;
  while (std::getline(in, line)) {
    std::vector<Op> p; std::stringstream ss(line); std::string t;
    while (std::getline(ss, t, ';')) { std::stringstream s2(t); Op o; if (s2 >> o.n >> o.a >> o.b) p.push_back(o); }
    if (!p.empty()) progs.push_back(p);
  }
  if (progs.empty()) exit(64);
}

template <int K> struct M {
  static const int n = (K + 63) / 64;
  Z_Q<K> R[4], S[4];
  void save() { memcpy((void *)S, (void *)R, sizeof R); }
  void log(Ev &e, int d) {
    std::vector<int> oth;
    for (int r = 0; r < 4; ++r) if (r != d && memcmp((void *)&R[r], (void *)&S[r], sizeof R[r])) oth.push_back(r);
    e.i("d", d).z("r", R[d]).ints("oth", oth.data(), (int)oth.size()).end();
  }
  void begin() { Ev("begin").i("k", K).seq("regs", 4, [&](int r) { return vh::z(R[r]); }).end(); }
  void dump() { Ev("dump").seq("regs", 4, [&](int r) { return vh::z(R[r]); }).end(); }
  void step(const Op &o) {
    save();
    int d = o.a, s = o.b;
    if (o.n == "load") { randz(R[d], s); Ev e("load"); log(e, d); }
    else if (o.n == "copy") { if (rng.below(2)) R[d] = R[s]; else { Z_Q<K> t(R[s]); R[d] = t; } Ev e("copy"); log(e.i("s", s), d); }
    else if (o.n == "zero") { R[d].setzero(); Ev e("zero"); log(e, d); }
    else if (o.n == "add") { R[d] += R[s]; Ev e("add"); log(e.i("s", s), d); }
    else if (o.n == "sub") { R[d] -= R[s]; Ev e("sub"); log(e.i("s", s), d); }
    else if (o.n == "mul") { R[d] *= R[s]; Ev e("mul"); log(e.i("s", s), d); }
    else if (o.n == "neg") { R[d].negate(); Ev e("neg"); log(e, d); }
    else if (o.n == "mulw") { uint64_t w = word_class(s); R[d] *= w; Ev e("mulw"); log(e.u("w", w), d); }
    else if (o.n == "clean") { R[d].remove_clutter(); Ev e("clean"); log(e, d); }
    else exit(64);
  }
  void run(const std::vector<Op> &p) {
    for (int r = 0; r < 4; ++r) randz(R[r], r);
    begin();
    for (auto &o : p) step(o);
    dump();
    for (int i = 0; i < 2; ++i) {                     // garbage above bit K
      Z_Q<K> x; for (int j = 0; j < n; ++j) x.data[j] = word_class((int)rng.below(9));
      std::string before = vh::z(x); x.remove_clutter();
      Ev("clut").raw("x", before).z("r", x).end();
    }
  }
};

template <int K> void programs(int count) {
  static M<K> m;
  for (int i = 0; i < count; ++i) m.run(progs[(K * 7 + i) % progs.size()]);
}
// one program at every size From, From + Step, ...
template <int From, int Step, int... J> void sweep(std::integer_sequence<int, J...>) { (programs<From + Step * J>(1), ...); }
// every transition of the machine with two registers, small K
template <int K> void all() {
  static M<K> m;
  const char *ops[] = {"add", "sub", "mul", "copy"};
  for (int r = 0; r < 4; ++r) m.R[r].setzero();
  m.begin();
  for (int a = 0; a < (1 << K); ++a) for (int b = 0; b < (1 << K); ++b) {
    m.save(); m.R[0].data[0] = a; { Ev e("load"); m.log(e, 0); }
    m.save(); m.R[1].data[0] = b; { Ev e("load"); m.log(e, 1); }
    m.save(); m.R[2] = m.R[0]; { Ev e("copy"); m.log(e.i("s", 0), 2); }
    for (auto o : ops) { m.step({"copy", 2, 0}); m.step({o, 2, 1}); }
    if (a == b) { m.step({"neg", 2, 0}); for (auto o : ops) { m.step({"copy", 2, 0}); m.step({o, 2, 2}); } }
  }
}


#ifndef VH_GROUP
#define VH_GROUP 0
#endif
int drive(int argc, char **argv) {
  init(argc, argv);
  load_programs(argv[4]);
  int f = thorough ? 10 : 1;
#if VH_GROUP == 0
  all<2>(); all<3>(); all<4>(); programs<1>(10 * f); programs<1450>(8 * f);
#elif VH_GROUP == 1
  all<5>(); programs<33>(30 * f); programs<3022>(4 * f);
#elif VH_GROUP == 2
  programs<7>(30 * f); programs<31>(20 * f); programs<32>(20 * f); programs<63>(30 * f); programs<64>(30 * f); programs<65>(40 * f); programs<2900>(4 * f);
#elif VH_GROUP == 3
  programs<52>(20 * f); programs<60>(30 * f); programs<96>(20 * f); programs<100>(20 * f); programs<120>(30 * f); programs<2048>(5 * f);
#elif VH_GROUP == 4
  programs<127>(30 * f); programs<128>(50 * f); programs<129>(40 * f); programs<150>(20 * f); programs<180>(20 * f); programs<1300>(6 * f);
#elif VH_GROUP == 5
  programs<191>(20 * f); programs<192>(40 * f); programs<193>(30 * f); programs<200>(20 * f); programs<240>(20 * f); programs<255>(20 * f); programs<1200>(6 * f);
#elif VH_GROUP == 6
  programs<256>(30 * f); programs<257>(20 * f); programs<300>(20 * f); programs<320>(20 * f); programs<384>(20 * f); programs<730>(10 * f);
#elif VH_GROUP >= 8
  sweep<1 + (VH_GROUP - 8), 4>(std::make_integer_sequence<int, 100>{});
  sweep<401 + 13 * (VH_GROUP - 8), 52>(std::make_integer_sequence<int, 22>{});
#else
  programs<512>(20 * f); programs<513>(10 * f); programs<600>(10 * f); programs<1024>(8 * f); programs<1088>(6 * f);
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
