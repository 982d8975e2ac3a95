// C21: raising the modulus, and lowering it again
#include "he.hpp"
#include "HEAAN/bootstrap.h"
namespace vh {
template <int A, int B, int N> void raise(int R) {
  static R_Q_square<A, N> ct, low; static R_Q_square<B, N> up; static int s[N];
  for (int r = 0; r < R; ++r) {
    own_key<N>(s, r % 6);
    form_poly(ct[0], r % 9); form_poly(ct[1], r < 9 ? (r % 2 ? 5 : 7) : (int)rng.below(9));
    if (r % 5 == 4) { own_key<N>(s, 2); form_poly(ct[0], 5); form_poly(ct[1], 5); }      // the extreme multiple
    form_poly(up[0], 8); form_poly(up[1], 4);
    Copy_<R_Q_square<A, N>> c(ct);
    mod_raise<A, B, N>(ct, up);
    Ev("raise").i("a", A).i("b", B).raw("s", ints(s, N)).raw("ct", js(ct)).raw("up", js(up)).b("same", c.same()).end();
    form_poly(low[0], 8); form_poly(low[1], 4);
    Copy_<R_Q_square<B, N>> d(up);
    resize(up, low);
    Ev("lower").raw("ct", js(low)).b("same", d.same()).end();
  }
}
int drive(int argc, char **argv) {
  init(argc, argv);
  const int R = thorough ? 200 : 27;
#if VH_PART == 0
  raise<1, 5, 4>(R); raise<2, 3, 4>(R); raise<10, 40, 2>(R); raise<31, 33, 8>(R); raise<40, 63, 16>(R); raise<60, 61, 4>(R); raise<60, 64, 4>(R); raise<60, 65, 4>(R); raise<60, 60, 4>(R);
#elif VH_PART == 1
  raise<63, 64, 4>(R); raise<63, 128, 4>(R); raise<64, 65, 4>(R); raise<64, 128, 8>(R); raise<64, 300, 8>(R); raise<65, 127, 8>(R); raise<65, 128, 8>(R); raise<65, 129, 4>(R);
#elif VH_PART == 2
  raise<100, 300, 8>(R); raise<127, 129, 8>(R); raise<128, 129, 8>(R); raise<128, 192, 8>(R); raise<128, 256, 2>(R); raise<129, 192, 4>(R); raise<192, 1450, 4>(R);
#elif VH_PART == 3
  raise<50, 1450, 8>(R); raise<80, 1450, 4>(R); raise<64, 1450, 4>(R); raise<1450, 2900, 2>(R); raise<63, 1472, 4>(R); raise<1024, 1450, 2>(R);
#elif VH_PART == 4
  raise<60, 120, 64>(R); raise<50, 1450, 64>(6); raise<40, 320, 256>(4); raise<30, 90, 1024>(2);
#endif
  fini();
  return 0;
}
}
int main(int argc, char **argv) { return vh::drive(argc, argv); }
