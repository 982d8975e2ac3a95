// C04: decimal text
#include "vh.hpp"
#include "sizes.hpp"
#include "capture.hpp"
#include "HEAAN/core.h"
namespace vh {

static std::string digits(const char *s) { std::string r = "["; for (int i = 0; s[i]; ++i) { if (i) r += ","; r += std::to_string((int)(unsigned char)s[i] - '0'); } return r + "]"; }
template <int K> void value(Z_Q<K> &A, int m) {
  if (m == 0) A.setzero();
  else if (m == 1) { for (int i = 0; i < (K + 63) / 64; ++i) A.data[i] = ~0ULL; A.remove_clutter(); }
  else if (m == 2) { A.setzero(); A.data[0] = rng.below(K < 60 ? 1ULL << K : 1000); }
  else if (m == 3) { A.setzero(); A.data[(K - 1) / 64] = 1ULL << ((K - 1) % 64); }
  else if (m < 9) {                                    // a power of ten, maybe minus one
    int e = (int)rng.below((int)(K * 0.301) + 1); A.setzero(); A.data[0] = 1; A.remove_clutter();
    for (int i = 0; i < e; ++i) A *= (uint64_t)10;
    if (m % 2) { Z_Q<K> one; one.setzero(); one.data[0] = 1; A -= one; }
  } else if (m < 13) {                                 // few bits, many zero half words
    randz(A, m % 4); int b = 1 + (int)rng.below(K);
    for (int i = b; i < K; ++i) A.data[i / 64] &= ~(1ULL << (i % 64));
  } else randz(A, m % 4);
}
// the numerals in a text; junk counts characters other than digits, signs before digits, space, brackets, commas
static std::string numerals(const std::string &t, int &junk) {
  std::string r = "["; junk = 0; bool first = true;
  for (size_t i = 0; i < t.size();) {
    char ch = t[i];
    bool neg = ch == '-';
    size_t j = i + (neg ? 1 : 0);
    if (j < t.size() && isdigit((unsigned char)t[j])) {
      std::string d; while (j < t.size() && isdigit((unsigned char)t[j])) d += t[j++];
      if (!first) r += ","; first = false;
      r += std::string("{\"neg\":") + (neg ? "1" : "0") + ",\"s\":" + digits(d.c_str()) + "}";
      i = j; continue;
    }
    if (!strchr("[](), \n\t", ch) || !ch) ++junk;
    ++i;
  }
  return r + "]";
}
template <int K> struct S {
  static void text() {
    const int reps = thorough ? 120 : (K <= 8 ? 1 << K : K < 300 ? 30 : 18);
    for (int m = 0; m < reps; ++m) {
      Z_Q<K> x, x0, y; value(x, m);
      if (K <= 8 && m < (1 << K)) { x.setzero(); x.data[0] = m; }
      x0 = x;
      char s[520]; memset(s, '#', sizeof s); x.to_str(s);
      Ev("to_str").i("k", K).raw("x", vh::z(x0)).raw("s", digits(s)).b("same", !memcmp(&x, &x0, sizeof x)).end();
      randz(y, 1); y.fr_str(s);
      Ev("fr_str").i("k", K).raw("s", digits(s)).z("r", y).end();
      if (m % 5 == 4 && strlen(s) < 400) {             // the same numeral with leading zeros
        std::string lead(1 + rng.below(40), '0'); lead += s; randz(y, 1); y.fr_str(lead.c_str());
        Ev("fr_str").i("k", K).raw("s", digits(lead.c_str())).z("r", y).end();
      }
      if (m % 3 == 0) {                                // a numeral made digit by digit, of a residue
        int nd = 1 + (int)rng.below((int)((K - 1) * 0.30102) + 1); std::string t; 
        for (int i = 0; i < nd; ++i) t += (char)('0' + (rng.below(3) ? rng.below(10) : (rng.below(2) ? 0 : 9)));
        if (nd * 3.33 < K) { randz(y, 1); y.fr_str(t.c_str()); Ev("fr_str").i("k", K).raw("s", digits(t.c_str())).z("r", y).end(); }
      }
    }
  }
  static void print() {
    const int N = 4;
    for (int rep = 0; rep < (thorough ? 30 : 6); ++rep) {
      static R_Q_square<K, N> p;
      for (int c = 0; c < 2; ++c) for (int i = 0; i < N; ++i) value(p[c][i], rep * 4 + i);
      for (int kind = 0; kind < 4; ++kind) {
        std::string t = captured([&] { if (kind == 0) p[0][0].print_unsigned(); else if (kind == 1) p[0].print_unsigned(); else if (kind == 2) p[0].print_signed(); else p.print(); });
        int junk; std::string n = numerals(t, junk);
        int cnt = kind == 0 ? 1 : kind == 3 ? 2 * N : N;
        Ev("print").i("k", K).b("signed", kind == 2).seq("x", cnt, [&](int i) { return vh::z(p[i / N][i % N]); }).raw("out", n).i("junk", junk).end();
      }
    }
  }
  static void run() { text(); print(); }
};
int drive(int argc, char **argv) {
  init(argc, argv);
  singles<S>(L_<1, 2, 3, 4, 5, 6, 7, 8>{});
  singles<S>(L_<31, 32, 33, 60, 63, 64, 65, 96, 100, 120, 127, 128, 129, 160, 180, 191, 192, 193, 224, 256, 300, 320, 512, 640, 1000, 1024, 1088, 1200, 1250, 1279, 1280, 1281, 1299, 1300>{});
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
