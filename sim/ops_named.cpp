// results with a name: they are used more than once and stay what they are
#include "kinds.h"
#ifndef PART
#define PART 0
#endif
namespace NS {
inline int nlen(int a) { return (unsigned)a % 3 ? glen(a) : 17 + (int)((unsigned)a % 40); }
// one and two assignments to vectors which had another size before
#define NM(id, ...)                                                                \
  OP("named.asg." id, F_OWN | F_SEQ, 0, 3) {                                       \
    auto r = __VA_ARGS__;                                                          \
    VD x, y(sz(nlen(a[4])));                                                       \
    x = r;                                                                         \
    y = r;                                                                         \
    outv(o, x);                                                                    \
    outv(o, y);                                                                    \
    outv(o, r);                                                                    \
    w.wd(a[0]) = r;                                                                \
  }                                                                                \
  OP("named.conv." id, F_OWN | F_CONV, 0, 2) {                                     \
    auto r = __VA_ARGS__;                                                          \
    VI x;                                                                          \
    VB y;                                                                          \
    x = r;                                                                         \
    y = r;                                                                         \
    outv(o, x);                                                                    \
    outv(o, y);                                                                    \
    x = r;                                                                         \
    outv(o, x);                                                                    \
    w.wi(a[0]) = r;                                                                \
  }                                                                                \
  OP("named.keep." id, F_OWN | F_CALC, 0, 2) { /* the target is changed */         \
    auto r = __VA_ARGS__;                                                          \
    VD x;                                                                          \
    x = r;                                                                         \
    x[0] = gval(a[4], 0);                                                          \
    x = x + r;                                                                     \
    outv(o, x);                                                                    \
    outv(o, r);                                                                    \
    x = r;                                                                         \
    w.wd(a[0]) = x * 2.0;                                                          \
  }                                                                                \
  OP("named.arg." id, F_OWN | F_SEQ, 0, 2) {                                       \
    auto r = __VA_ARGS__;                                                          \
    VD x, y;                                                                       \
    x = coca(r, gval(a[4], 0), r);                                                 \
    y = rep(r, 2);                                                                 \
    outv(o, x);                                                                    \
    outv(o, y);                                                                    \
    o.num((double)r.size());                                                        \
    w.wd(a[0]) = r;                                                                \
  }                                                                                \
  OP("named.bor." id, F_BORROW, 0, 2) {                                            \
    auto r = __VA_ARGS__;                                                          \
    VW &v = w.w(a[4]);                                                             \
    v = r;                                                                         \
    outv(o, v);                                                                    \
    v = r;                                                                         \
    outv(o, v);                                                                    \
    outv(o, r);                                                                    \
  }                                                                                \
  OP("named.copy." id, F_OWN, 0, 2) { /* a copy of the result */                   \
    auto r = __VA_ARGS__;                                                          \
    auto s = r;                                                                    \
    VD x, y;                                                                       \
    x = s;                                                                         \
    y = r * 1. + s;                                                                   \
    outv(o, x);                                                                    \
    outv(o, y);                                                                    \
    auto t = std::move(s);                                                         \
    outv(o, t);                                                                    \
    w.wd(a[0]) = t;                                                                \
  }
#if PART == 0
NM("colon", colon(gint(a[1], 0), gint(a[1], 0) + nlen(a[2])))
NM("colond", colon(gval(a[1], 0), gval(a[1], 0) - (double)nlen(a[2])))
NM("repd", rep(gval(a[1], 0), nlen(a[2])))
NM("repv", rep(w.d(a[1]), 1 + (int)((unsigned)a[2] % 4)))
#elif PART == 1
NM("coca", coca(gval(a[1], 0), gint(a[2], 1), gbool(a[2], 2)))
NM("cocav", coca(w.d(a[1]), w.i(a[2])))
NM("cocai", coca(w.i(a[1]), w.b(a[2]), 3))
NM("cocab", coca(w.b(a[1]), true, w.b(a[2])))
#elif PART == 2
NM("mat", matrix(gval(a[1], 0), 1 + (int)((unsigned)a[2] % 7), 1 + (int)((unsigned)a[3] % 7)))
NM("mati", matrix(colon(1, (1 + (int)((unsigned)a[2] % 7)) * 3), 1 + (int)((unsigned)a[2] % 7), 3))
NM("num", vector_numeric(nlen(a[1])))
NM("int", vector_integer(nlen(a[1])))
#elif PART == 3
NM("na", isNA(w.d(a[1])))
NM("inf", isInf(w.d(a[1])))
NM("dim", dim(w.d(matd(w, a[1]))))
NM("nawi", isNA(w.i(a[1])))
#endif
} // namespace NS
