// variables of derivatives: printed, read and handed on
#include "help.h"
namespace NS {
static const uint32_t PX = X_TEXT | X_NOTHREAD;
// V variables with given values; a[0] the independent one, a[6], a[7] the shape
#ifdef SIDE_SUT
struct Set {
  double mem[2][16];
  AV av;
  VD g[NV];
  VW u0, u1;
  Set(int indep, int nr, int nc, bool mat, int a)
      : av(indep < NVB ? indep : indep - NVB, indep < NVB ? 0 : 1),
        u0(mem[0], (std::size_t)(nr * nc)), u1(mem[1], (std::size_t)(nr * nc)) {
    int n = nr * nc;
    for (int k = 0; k < NV; k++) {
      if (mat)
        g[k] = matrix(0.0, 0 + nr, 0 + nc);
      else
        g[k].resize((std::size_t)n);
      for (int q = 0; q < n; q++)
        g[k][(std::size_t)q] = gval(a, 16 * k + q);
    }
    av.initBuffer(g[0], g[1], g[2]);
    u0 = g[3];
    u1 = g[4];
    av.initBorrow(u0, u1);
  }
};
#endif
#define SHAPE                                                                      \
  int indep = (int)((unsigned)a[0] % NV);                                          \
  int nr = 1 + (int)((unsigned)a[6] % 4), nc = 1 + (int)((unsigned)a[7] % 4);      \
  bool mat = a[5] & 1;                                                             \
  (void)indep;
#ifdef SIDE_SUT
#define GIVEN(k)
#else
static EV<double> given(int nr, int nc, bool mat, int a, int k) {
  EV<double> e;
  for (int q = 0; q < nr * nc; q++)
    e.v.push_back(gval(a, 16 * k + q));
  e.m = mat;
  e.r = mat ? (std::size_t)nr : 0;
  e.c = mat ? (std::size_t)nc : 0;
  return e;
}
#endif
OP("deriv.print", F_PRINT | F_DERIV, PX, 4) {
  SHAPE
#ifdef SIDE_SUT
  Set s(indep, nr, nc, mat, a[1]);
  V0 x0(s.av);
  V1 x1(s.av);
  V4 x4(s.av);
  switch ((unsigned)a[2] % 3) {
  case 0:
    print(x0, s.av);
    break;
  case 1:
    print(x1, s.av);
    break;
  default:
    print(x4, s.av);
  }
#else
  static const int K[3] = {0, 1, 4};
  print(given(nr, nc, mat, a[1], K[(unsigned)a[2] % 3]));
#endif
}
// dimensions, elements and derivatives of given variables
template <class V> static void look(Out &o, V &x) {
  o.num((double)x.size());
  o.num(x.im());
  if (x.im()) {
    o.num((double)x.nr());
    o.num((double)x.nc());
  }
}
OP("deriv.shape", F_DERIV | F_OBS, 0, 4) {
  SHAPE
#ifdef SIDE_SUT
  Set s(indep, nr, nc, mat, a[1]);
  V0 x0(s.av);
  V2 x2(s.av);
  V3 x3(s.av);
  look(o, x0);
  look(o, x2);
  look(o, x3);
  outv(o, get_derivs(x0));
  outv(o, get_derivs(x2));
  outv(o, get_derivs(x3));
#else
  static const int K[3] = {0, 2, 3};
  for (int k : K) {
    EV<double> e = given(nr, nc, mat, a[1], k);
    look(o, e);
  }
  for (int k : K) {
    EV<double> e;
    e.v.assign((std::size_t)(nr * nc), k == indep ? 1.0 : 0.0);
    outv(o, e);
  }
#endif
}
} // namespace NS
