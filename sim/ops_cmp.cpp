// comparisons and unary functions
#include "help.h"
namespace NS {
#define CMPOP(id, op)                                                              \
  OP("cmp." id ".dd", F_CMP, 0, 2) {                                               \
    VD &x = w.d(a[1]);                                                             \
    w.wb(a[0]) = x op fitd(w, x, a[2]);                                            \
  }                                                                                \
  OP("cmp." id ".ds", F_CMP, 0, 1) { w.wb(a[0]) = w.d(a[1]) op gval(a[2], 0); }    \
  OP("cmp." id ".sd", F_CMP, 0, 1) { w.wb(a[0]) = gval(a[2], 0) op w.d(a[1]); }    \
  OP("cmp." id ".ii", F_CMP, 0, 1) {                                               \
    VI &x = w.i(a[1]);                                                             \
    w.wb(a[0]) = x op fiti(w, x, a[2]);                                            \
  }                                                                                \
  OP("cmp." id ".is", F_CMP, 0, 1) { w.wb(a[0]) = w.i(a[1]) op gint(a[2], 0); }    \
  OP("cmp." id ".di", F_CMP | F_CONV, 0, 1) {                                      \
    VD &x = w.d(a[1]);                                                             \
    w.wb(a[0]) = x op fiti(w, x, a[2]);                                            \
  }                                                                                \
  OP("cmp." id ".dw", F_CMP | F_BORROW, 0, 1) {                                    \
    VW &x = w.w(a[1]);                                                             \
    w.wb(a[0]) = fitd(w, x, a[2]) op x;                                            \
  }                                                                                \
  OP("cmp." id ".expr", F_CMP | F_CALC, 0, 1) {                                    \
    VD &x = w.d(a[1]), &y = fitd(w, x, a[2]);                                      \
    outv(o, (x + 0.5) op(y * gval(a[3], 0)));                                      \
    w.wd(a[0]) = (x + 0.5) op(y * gval(a[3], 0));                                  \
  }                                                                                \
  OP("cmp." id ".if", F_CMP, 0, 1) {                                               \
    VD x = gval(a[1], 0), y = gval(a[2], 0);                                       \
    if (x op y)                                                                    \
      o.num(1);                                                                    \
    if (x op gval(a[3], 0))                                                        \
      o.num(2);                                                                    \
  }
CMPOP("eq", ==)
CMPOP("ne", !=)
CMPOP("lt", <)
CMPOP("le", <=)
CMPOP("gt", >)
CMPOP("ge", >=)
OP("cmp.shape", F_CMP, 0, 3) {
  std::size_t r = 1 + (unsigned)a[1] % 4, c = 1 + (unsigned)a[2] % 4;
  VD m(r, c);
  for (std::size_t q = 0; q < m.size(); q++)
    m[q] = gval(a[5], (int)q);
  VB x = m > 0.0;
  outv(o, x);
  VB y = m == m;
  outv(o, y);
  VD z = (m <= 1.0) * 2.0;
  outv(o, z);
  w.wb(a[0]) = 1.0 != m;
}
OP("cmp.count", F_CMP, 0, 2) { // logical values in calculations
  VD &x = w.d(a[1]);
  VD y = (x > gval(a[2], 0)) * x + 0.25;
  outv(o, y);
}
// ---- unary functions ------------------------------------------------------------
#define UN(name, fn, pre)                                                          \
  OP("unary." name ".d", F_UNARY, 0, 1) {                                          \
    VD x = w.d(a[1]) pre;                                                          \
    w.wd(a[0]) = fn(x);                                                            \
  }                                                                                \
  OP("unary." name ".expr", F_UNARY | F_CALC, 0, 1) {                              \
    VD &x = w.d(a[1]);                                                             \
    outv(o, fn((x pre) + 0.0));                                                    \
    w.wd(a[0]) = fn(x pre) * gval(a[2], 0) + fn(x pre);                            \
  }
UN("minus", -, +0.0)
UN("sin", sinus, +0.0)
UN("cos", cosinus, +0.0)
UN("tan", tangens, *0.1)
UN("atan", atangens, +0.0)
UN("sinh", sinush, *0.25)
UN("cosh", cosinush, *0.25)
UN("tanh", tangensh, +0.0)
UN("exp", exp, *0.25)
UN("asin", asinus, *0.1)
UN("acos", acosinus, *0.1)
#define UNP(name, fn)                                                              \
  OP("unary." name ".d", F_UNARY, 0, 1) {                                          \
    VD x = w.d(a[1]) * w.d(a[1]) + 0.5;                                            \
    w.wd(a[0]) = fn(x);                                                            \
  }                                                                                \
  OP("unary." name ".expr", F_UNARY | F_CALC, 0, 1) {                              \
    VD &x = w.d(a[1]);                                                             \
    w.wd(a[0]) = fn(x * x + 0.5) - gval(a[2], 0);                                  \
  }
UNP("ln", ln)
UNP("sqrt", sqroot)
OP("unary.i", F_UNARY | F_CONV, 0, 2) {
  VI &x = w.i(a[1]);
  outv(o, -x);
  outv(o, tangensh(x));
  w.wd(a[0]) = sinus(x) + (-x);
}
OP("unary.w", F_UNARY | F_BORROW, 0, 2) {
  VW &x = w.w(a[1]);
  outv(o, cosinus(x));
  w.wd(a[0]) = -x;
}
OP("unary.nest", F_UNARY, 0, 2) {
  VD &x = w.d(a[1]);
  outv(o, -(-x));
  w.wd(a[0]) = sinus(cosinus(sinus(x)) * 2.0);
}
OP("unary.scalar", F_UNARY, 0, 1) {
  VD x = gval(a[1], 0);
  VD y;
  y = sinus(x);
  outv(o, y);
  VD z;
  z = exp(x * 0.1);
  outv(o, z);
}
OP("unary.subset", F_UNARY | F_SUBR, 0, 2) {
  VD &x = w.d(a[1]);
  VI i = idx_i(a[2], (long)x.size(), 1 + (int)((unsigned)a[3] % 5));
  w.wd(a[0]) = sinus(subset(x, i)) + 1.0;
}
OP("unary.matrix", F_UNARY, 0, 3) {
  VD &x = w.d(matd(w, a[1]));
  VD y;
  y = sinus(x);
  outv(o, y);
  VD z;
  z = -x;
  outv(o, z);
  VD u = sinus(x * 2.0) + cosinus(x);
  outv(o, u);
  w.wd(a[0]) = atangens(x);
}
// NA and Inf
OP("special.isna", F_CMP, 0, 2) {
  VD x = w.d(a[1]);
  x[0] = NA;
  VB r = isNA(x);
  outv(o, r);
  w.wb(a[0]) = isNA(w.d(a[2]));
}
OP("special.isinf", F_CMP, 0, 2) {
  VD x = w.d(a[1]);
  x[x.size() - 1] = Inf;
  VB r = isInf(x);
  outv(o, r);
  w.wb(a[0]) = isInf(w.d(a[2]));
}
OP("special.propagate", F_CALC | F_CMP, 0, 2) {
  VD x = w.d(a[1]);
  x[0] = NA;
  VD y = x + 1.0;
  VD z = sinus(x) * x;
  o.num((double)y[0]);
  o.num((double)z[0]);
  x[0] = Inf;
  VD u = x - 1.0;
  o.num((double)u[0]);
  VD v = 1.0 / x;
  o.num((double)v[0]);
}
} // namespace NS
