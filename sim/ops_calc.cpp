// elementwise calculations: results, recycling, shape
#include "help.h"
namespace NS {
#define BINOP(id, op)                                                              \
  OP("calc." id ".dd", F_CALC, 0, 2) {                                             \
    VD &x = w.d(a[1]), &y = fitd(w, x, a[2]);                                      \
    w.wd(a[0]) = x op y;                                                           \
  }                                                                                \
  OP("calc." id ".ds", F_CALC, 0, 1) { w.wd(a[0]) = w.d(a[1]) op gval(a[2], 0); }  \
  OP("calc." id ".sd", F_CALC, 0, 1) { w.wd(a[0]) = gval(a[2], 0) op w.d(a[1]); }  \
  OP("calc." id ".ids", F_CALC | F_CONV, 0, 1) {                                   \
    w.wd(a[0]) = w.i(a[1]) op gval(a[2], 0);                                       \
  }                                                                                \
  OP("calc." id ".sii", F_CALC, 0, 1) {                                            \
    w.wd(a[0]) = (1 + (int)((unsigned)a[2] % 7)) op w.i(a[1]);                     \
  }                                                                                \
  OP("calc." id ".sid", F_CALC | F_CONV, 0, 1) {                                   \
    w.wd(a[0]) = (1 + (int)((unsigned)a[2] % 7)) op w.d(a[1]);                     \
  }                                                                                \
  OP("calc." id ".di", F_CALC | F_CONV, 0, 1) {                                    \
    VD &x = w.d(a[1]);                                                             \
    w.wd(a[0]) = x op fiti(w, x, a[2]);                                            \
  }                                                                                \
  OP("calc." id ".id", F_CALC | F_CONV, 0, 1) {                                    \
    VI &x = w.i(a[1]);                                                             \
    w.wd(a[0]) = x op fitd(w, x, a[2]);                                            \
  }                                                                                \
  OP("calc." id ".dw", F_CALC | F_BORROW, 0, 1) {                                  \
    VW &x = w.w(a[1]);                                                             \
    w.wd(a[0]) = fitd(w, x, a[2]) op x;                                            \
  }                                                                                \
  OP("calc." id ".wd", F_CALC | F_BORROW, 0, 1) {                                  \
    VW &x = w.w(a[1]);                                                             \
    w.wd(a[0]) = x op fitd(w, x, a[2]);                                            \
  }                                                                                \
  OP("calc." id ".nest", F_CALC, 0, 2) {                                           \
    VD &x = w.d(a[1]), &y = fitd(w, x, a[2]);                                      \
    w.wd(a[0]) = (x op y)op(gval(a[3], 1) + x);                                    \
  }                                                                                \
  OP("calc." id ".nest2", F_CALC, 0, 2) {                                          \
    VD &x = w.d(a[1]), &y = fitd(w, x, a[2]);                                      \
    w.wd(a[0]) = x op(y op(x op gval(a[3], 1)));                                   \
  }                                                                                \
  OP("calc." id ".elem", F_CALC | F_OBS, 0, 2) {                                   \
    VD &x = w.d(a[1]), &y = fitd(w, x, a[2]);                                      \
    auto e = x op y;                                                               \
    outv(o, e);                                                                    \
  }
BINOP("add", +)
BINOP("sub", -)
BINOP("mul", *)
BINOP("div", /)
#define BINI(id, op)                                                               \
  OP("calc." id ".ii", F_CALC, 0, 2) {                                             \
    VI &x = w.i(a[1]);                                                             \
    w.wi(a[0]) = x op fiti(w, x, a[2]);                                            \
  }                                                                                \
  OP("calc." id ".isi", F_CALC, 0, 1) { w.wi(a[0]) = w.i(a[1]) op gint(a[2], 0); } \
  OP("calc." id ".iid", F_CALC | F_CONV, 0, 1) {                                   \
    VI &x = w.i(a[1]);                                                             \
    w.wd(a[0]) = x op fiti(w, x, a[2]);                                            \
  }                                                                                \
  OP("calc." id ".bi", F_CALC | F_CONV, 0, 1) {                                    \
    VB &x = w.b(a[1]);                                                             \
    w.wi(a[0]) = x op fiti(w, x, a[2]);                                            \
  }                                                                                \
  OP("calc." id ".db", F_CALC | F_CONV, 0, 1) {                                    \
    VD &x = w.d(a[1]);                                                             \
    w.wd(a[0]) = x op fitb(w, x, a[2]);                                            \
  }
BINI("add", +)
BINI("sub", -)
BINI("mul", *)
// keep the numbers small: otherwise only skipped requests remain
OP("calc.shrink.i", F_CALC, 0, 3) {
  VI &x = w.wi(a[0]);
  x = sinus(x) * 9.0;
}
OP("calc.shrink.d", F_CALC, 0, 3) {
  VD &x = w.wd(a[0]);
  x = sinus(x) * 4.0;
}
OP("calc.pow", F_CALC, 0, 2) { w.wd(a[0]) = w.d(a[1]) ^ 2.0; }
OP("calc.powv", F_CALC, 0, 2) {
  VD &x = w.d(a[1]);
  VD e = coca(2.0, 3.0, 0.0);
  if (fits(x, e))
    w.wd(a[0]) = x ^ e;
}
OP("calc.spow", F_CALC, 0, 1) { w.wd(a[0]) = 2.0 ^ w.d(a[1]); }
OP("calc.powe", F_CALC | F_UNARY, 0, 1) {
  VD &x = w.d(a[1]);
  w.wd(a[0]) = (sinus(x) + 2.0) ^ (cosinus(x) * 0.5);
}
// recycling: lengths which are no multiples of each other
OP("calc.recycle", F_CALC, 0, 5) {
  int n = 1 + (unsigned)a[1] % 7, m = 1 + (unsigned)a[2] % 7, q = 1 + (unsigned)a[3] % 5;
  VD x(sz(n)), y(sz(m)), z(sz(q));
  for (int k = 0; k < n; k++)
    x[k] = gval(a[4], k);
  for (int k = 0; k < m; k++)
    y[k] = gval(a[5], k);
  for (int k = 0; k < q; k++)
    z[k] = gval(a[6], k);
  VD r = x + y;
  outv(o, r);
  VD s = x * y - z;
  outv(o, s);
  VD t = x - (y + z) * 0.5;
  outv(o, t);
  outv(o, x + y);
  outv(o, (x + y) * z);
  w.wd(a[0]) = z / (x * x + 1.0) - y;
}
// shape: matrix with scalar, short vector, matrix
OP("calc.shape", F_CALC, 0, 5) {
  std::size_t r = 1 + (unsigned)a[1] % 4, c = 1 + (unsigned)a[2] % 4;
  VD m(r, c, 0.5), v(sz(1 + (int)((unsigned)a[3] % (unsigned)(r * c))));
  VI k(r, c, 3);
  for (std::size_t q = 0; q < v.size(); q++)
    v[q] = gval(a[4], (int)q);
  for (std::size_t q = 0; q < m.size(); q++)
    m[q] = gval(a[5], (int)q);
  VD x = m + v;
  outv(o, x);
  VD y = v - m;
  outv(o, y);
  VD z = m * k;
  outv(o, z);
  VD u = 2.0 * (m + 1.0) - v;
  outv(o, u);
  outv(o, m * m + v);
  outv(o, -(m + v));
  VD t = sinus(m * v) + m;
  outv(o, t);
  w.wd(a[0]) = (m + k) / 2;
}
OP("calc.deep", F_CALC, 0, 3) {
  VD &x = w.d(a[1]), &y = fitd(w, x, a[2]);
  if (fits(x, y))
    w.wd(a[0]) = ((x + 1.0) * (x - 2.0) + (y * 0.5 - x) * (y + x)) / (x * x + y * y + 1.0);
}
OP("calc.stored", F_CALC, 0, 3) { // an expression is evaluated when it is used
  VD &x = w.d(a[1]), &y = fitd(w, x, a[2]);
  auto e = x + y;
  auto f = x * y;
  VD r = e - f;
  outv(o, r);
  outv(o, e);
  w.wd(a[0]) = e * f;
}
OP("calc.mixed", F_CALC | F_CONV, 0, 3) {
  VD &x = w.d(a[1]);
  VI &y = fiti(w, x, a[2]);
  w.wd(a[0]) = x * y + 1 - y / 2.0 + true * x;
}
OP("calc.accumulate", F_CALC | F_ALIAS, X_NOSWEEP, 2) {
  VD &x = w.wd(a[0]);
  VD s = x * 0.0;
  int n = 1 + (unsigned)a[1] % 6;
  for (int k = 0; k < n; k++)
    s = s + x * (0.25 * k);
  outv(o, s);
}
} // namespace NS
