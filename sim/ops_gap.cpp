// argument types which the other files do not combine
#include "kinds.h"
namespace NS {
static int cnt(int a) { return 1 + (int)((unsigned)a % 5); }
static int over(int a, long n) { return (int)n + 1 + (int)((unsigned)a % 5); }
static int bad(int a, long n) { return (a & 1) ? over(a >> 1, n) : -(int)((unsigned)(a >> 1) % 4); }
#if PART == 0
// ---- one element of a matrix: row and column of both types, inside and outside ---------
#define ATQ(id, T, POOL, WPOOL, S)                                                 \
  static T &mx_##id(World &w, int k) {                                             \
    for (int j = 0; j < 4; j++)                                                    \
      if (w.POOL(k + j).im())                                                      \
        return w.POOL(k + j);                                                      \
    return w.POOL(k);                                                              \
  }                                                                                \
  OP("gap.at." #id, F_OBS | F_SUBM | F_REJ, 0, 3) {                                \
    T &x = mx_##id(w, a[0]);                                                       \
    long nr = (long)x.nr(), nc = (long)x.nc();                                     \
    if (!nr || !nc)                                                                \
      nr = nc = 2;                                                                 \
    unsigned h = (unsigned)a[1] % 16;                                              \
    double r = h == 1 ? bad(a[2], nr) : gidx(a[2], 0, nr);                         \
    double c = h == 2 ? bad(a[3], nc) : gidx(a[3], 0, nc);                         \
    switch ((unsigned)a[4] % 4) {                                                  \
    case 0:                                                                        \
      o.num((double)at(x, (int)r, (int)c));                                        \
      break;                                                                       \
    case 1:                                                                        \
      o.num((double)at(x, r, (int)c));                                             \
      break;                                                                       \
    case 2:                                                                        \
      o.num((double)at(x, (int)r, c));                                             \
      break;                                                                       \
    default:                                                                       \
      o.num((double)at(x, r, c));                                                  \
    }                                                                              \
  }                                                                                \
  OP("gap.atw." #id, F_OBS | F_SUBM | F_REJ | F_SUBW, 0, 3) {                      \
    T &x = w.WPOOL(a[0]);                                                          \
    long nr = (long)x.nr(), nc = (long)x.nc();                                     \
    if (!nr || !nc)                                                                \
      nr = nc = 2;                                                                 \
    unsigned h = (unsigned)a[1] % 16;                                              \
    double r = h == 1 ? bad(a[2], nr) : gidx(a[2], 0, nr);                         \
    double c = h == 2 ? bad(a[3], nc) : gidx(a[3], 0, nc);                         \
    switch ((unsigned)a[4] % 4) {                                                  \
    case 0:                                                                        \
      at(x, (int)r, (int)c) = S(a[5], 0);                                          \
      break;                                                                       \
    case 1:                                                                        \
      at(x, r, (int)c) = S(a[5], 0);                                               \
      break;                                                                       \
    case 2:                                                                        \
      at(x, (int)r, c) = S(a[5], 0);                                               \
      break;                                                                       \
    default:                                                                       \
      at(x, r, c) = S(a[5], 0);                                                    \
    }                                                                              \
  }                                                                                \
  OP("gap.atx." #id, F_OBS | F_SUBM | F_REJ | F_CALC, 0, 3) {                      \
    T &x = mx_##id(w, a[0]);                                                       \
    long nr = (long)x.nr(), nc = (long)x.nc();                                     \
    if (!nr || !nc)                                                                \
      nr = nc = 2;                                                                 \
    unsigned h = (unsigned)a[1] % 16;                                              \
    double r = h == 1 ? bad(a[2], nr) : gidx(a[2], 0, nr);                         \
    double c = h == 2 ? bad(a[3], nc) : gidx(a[3], 0, nc);                         \
    switch ((unsigned)a[4] % 4) {                                                  \
    case 0:                                                                        \
      o.num((double)at(x * 2, (int)r, (int)c));                                    \
      break;                                                                       \
    case 1:                                                                        \
      o.num((double)at(x * 2, r, (int)c));                                         \
      break;                                                                       \
    case 2:                                                                        \
      o.num((double)at(x * 2, (int)r, c));                                         \
      break;                                                                       \
    default:                                                                       \
      o.num((double)at(x * 2, r, c));                                              \
    }                                                                              \
  }
ATQ(d, VD, d, wd, gval)
ATQ(i, VI, i, wi, gint)
ATQ(b, VB, b, wb, gbool)
ATQ(w, VW, w, w, gval)
OP("gap.atempty", F_REJ | F_OBS, 0, 3) {
  VD e;
  switch ((unsigned)a[0] % 6) {
  case 0:
    o.num(at(e, 1));
    break;
  case 1:
    o.num(at(e, 1.0));
    break;
  case 2:
    o.num(at(e, 1, 1));
    break;
  case 3:
    o.num(at(e, 1.0, 1));
    break;
  case 4:
    at(e, 0) = 1;
    break;
  default:
    at(e, 1.0, 2.0) = 3;
  }
}
#elif PART == 1
// ---- matrix: fill, rows and columns are scalars or vectors of length 1 and 2 -----------
template <class T> static T few(int a, int v) {
  T x(sz(1 + ((unsigned)a % 4 == 0)));
  x[0] = v;
  if (x.size() > 1)
    x[1] = 1 + (int)((unsigned)(a >> 2) % 3);
  return x;
}
static const uint32_t WX = X_WARN | X_NOTHREAD;
#define GM(id, V, R, C)                                                            \
  OP("gap.mat." id, F_SEQ | F_PRINT, WX, 1) {                                      \
    int n = cnt(a[2]), m = cnt(a[3]);                                              \
    w.wd(a[0]) = matrix(V, R, C);                                                  \
  }                                                                                \
  OP("gap.mati." id, F_SEQ | F_PRINT | F_CONV, WX, 1) {                            \
    int n = cnt(a[2]), m = cnt(a[3]);                                              \
    w.wi(a[0]) = matrix(V, R, C);                                                  \
  }
GM("s.v.s", gval(a[1], 0), few<VI>(a[4], n), 0 + m)
GM("s.v.d", gint(a[1], 0), few<VD>(a[4], n), (double)m)
GM("s.s.v", gval(a[1], 0), 0 + n, few<VI>(a[5], m))
GM("s.d.v", gbool(a[1], 0), (double)n, few<VD>(a[5], m))
GM("s.v.v", gval(a[1], 0), few<VI>(a[4], n), few<VD>(a[5], m))
GM("v.v.s", colon(1, n * m), few<VI>(a[4], n), 0 + m)
GM("v.v.d", colon(1, n * m) * gval(a[1], 0), few<VD>(a[4], n), (double)m)
GM("v.s.v", colon(1, n * m), 0 + n, few<VI>(a[5], m))
GM("v.d.v", colon(1, n * m) + gval(a[1], 0), (double)n, few<VD>(a[5], m))
GM("v.v.v", colon(1, n * m), few<VD>(a[4], n), few<VI>(a[5], m))
GM("r.v.s", rep(gval(a[1], 0), n * m), few<VI>(a[4], n), 0 + m)
GM("r.v.v", rep(gbool(a[1], 0), n * m), few<VI>(a[4], n), few<VI>(a[5], m))
GM("l.v.s", VD(rep(gval(a[1], 0), n * m)), few<VI>(a[4], n), 0 + m)
GM("l.v.v", VI(colon(1, n * m)), few<VI>(a[4], n), few<VI>(a[5], m))
OP("gap.matempty", F_SEQ | F_REJ, 0, 3) {
  VI e;
  switch ((unsigned)a[1] % 4) {
  case 0:
    w.wd(a[0]) = matrix(gval(a[2], 0), std::move(e), 1 + 0);
    break;
  case 1:
    w.wd(a[0]) = matrix(gval(a[2], 0), 1 + 0, std::move(e));
    break;
  case 2:
    w.wd(a[0]) = matrix(colon(1, 2), std::move(e), 2 + 0);
    break;
  default:
    w.wd(a[0]) = matrix(colon(1, 2), 2 + 0, std::move(e));
  }
}
#elif PART == 2
// ---- colon: start and end of different types ---------------------------------------------
template <class T> static T few(int a, int k) {
  T x(sz(1 + ((unsigned)a % 3 == 0) + ((unsigned)a % 9 == 0)));
  for (std::size_t j = 0; j < x.size(); j++) {
    if constexpr (std::is_same_v<T, VD>)
      x[j] = (double)((int)(ah(a, k + (int)j) % 23) - 11) * 0.5;
    else if constexpr (std::is_same_v<T, VI>)
      x[j] = (int)(ah(a, k + (int)j) % 23) - 11;
    else
      x[j] = ah(a, k + (int)j) & 1;
  }
  return x;
}
static int si(int a) { return (int)(ah(a, 90) % 23) - 11; }
static double sd(int a) { return (double)((int)(ah(a, 91) % 41) - 20) * 0.5; }
static bool sb(int a) { return ah(a, 92) & 1; }
static const uint32_t WX = X_WARN | X_NOTHREAD;
#define GC(T1, T2)                                                                 \
  OP("gap.colon." #T1 #T2, F_SEQ | F_PRINT, WX, 1) {                               \
    T1 x = few<T1>(a[1], 0);                                                       \
    T2 y = few<T2>(a[2], 5);                                                       \
    w.wd(a[0]) = colon(x, y);                                                      \
    }                                                                              \
  OP("gap.coloni." #T1 #T2, F_SEQ | F_PRINT | F_CONV, WX, 1) {                     \
    T1 x = few<T1>(a[1], 0);                                                       \
    T2 y = few<T2>(a[2], 5);                                                       \
    w.wi(a[0]) = colon(x, y) + gint(a[3], 0);                                      \
  }
GC(VD, VD) GC(VD, VI) GC(VI, VD) GC(VI, VI) GC(VD, VB) GC(VB, VD) GC(VI, VB) GC(VB, VI)
#define GS(T1, S)                                                                  \
  OP("gap.colonvs." #T1 #S, F_SEQ | F_PRINT, WX, 1) {                              \
    T1 x = few<T1>(a[1], 0);                                                       \
    w.wd(a[0]) = colon(x, S(a[2]));                                                \
  }                                                                                \
  OP("gap.colonsv." #T1 #S, F_SEQ | F_PRINT, WX, 1) {                              \
    T1 x = few<T1>(a[1], 0);                                                       \
    w.wd(a[0]) = colon(S(a[2]), x);                                                \
  }
GS(VD, si) GS(VD, sd) GS(VD, sb) GS(VI, si) GS(VI, sd) GS(VI, sb) GS(VB, si) GS(VB, sd)
OP("gap.colonempty", F_SEQ | F_REJ, 0, 3) {
  VI e, x = coca(1);
  switch ((unsigned)a[1] % 4) {
  case 0:
    w.wd(a[0]) = colon(e, x);
    break;
  case 1:
    w.wd(a[0]) = colon(x, e);
    break;
  case 2:
    w.wd(a[0]) = colon(1, e);
    break;
  default:
    w.wd(a[0]) = colon(e, 1);
  }
}
OP("gap.repempty", F_SEQ | F_REJ, 0, 2) {
  VI e;
  if (a[1] & 1)
    w.wd(a[0]) = rep(1.0, e);
  else
    w.wd(a[0]) = rep(e, 2);
}
#elif PART == 3
// ---- TRUE and FALSE as index of a dimension with all other indices ------------------------
#define GT(K)                                                                      \
  OP("gap.true." #K, F_SUBM | F_SUBR | F_REJ, 0, 1) {                              \
    VD &x = w.d(matd(w, a[1]));                                                    \
    long n = (long)x.nr(), m = (long)x.nc();                                       \
    if (!n || !m)                                                                  \
      n = m = 2;                                                                   \
    bool q = (unsigned)a[4] % 4;                                                   \
    auto i = IX_##K(a[5] & 1 ? n : m, a[2]);                                       \
    if (a[5] & 1)                                                                  \
      w.wd(a[0]) = subset(x, i, q);                                                \
    else                                                                           \
      w.wd(a[0]) = subset(x, q, i);                                                \
  }                                                                                \
  OP("gap.truew." #K, F_SUBM | F_SUBW | F_REJ, 0, 1) {                             \
    VD &x = w.wd(a[1]);                                                            \
    long n = (long)x.nr(), m = (long)x.nc();                                       \
    if (!n || !m)                                                                  \
      n = m = 2;                                                                   \
    bool q = (unsigned)a[4] % 4;                                                   \
    auto i = IX_##K(a[5] & 1 ? n : m, a[2]);                                       \
    if (a[5] & 1)                                                                  \
      subset(x, i, q) = gval(a[3], 0);                                             \
    else                                                                           \
      subset(x, q, i) = gval(a[3], 0);                                             \
  }                                                                                \
  OP("gap.truex." #K, F_SUBM | F_SUBR | F_REJ | F_CALC, 0, 1) {                    \
    VD &x = w.d(matd(w, a[1]));                                                    \
    long n = (long)x.nr(), m = (long)x.nc();                                       \
    if (!n || !m)                                                                  \
      n = m = 2;                                                                   \
    bool q = (unsigned)a[4] % 4;                                                   \
    auto i = IX_##K(a[5] & 1 ? n : m, a[2]);                                       \
    if (a[5] & 1)                                                                  \
      w.wd(a[0]) = subset(x + 1.0, i, q);                                          \
    else                                                                           \
      w.wd(a[0]) = subset(x + 1.0, q, i);                                          \
  }
GT(int)
GT(dbl)
GT(vi)
GT(vd)
GT(vb)
GT(vbs)
GT(vbl)
OP("gap.truetrue", F_SUBM | F_SUBR | F_REJ, 0, 2) {
  VD &x = w.d(matd(w, a[1]));
  bool p = (unsigned)a[2] % 4, q = (unsigned)a[3] % 4;
  if (a[4] & 1)
    w.wd(a[0]) = subset(x, p, q);
  else
    w.wd(a[0]) = subset(x * 2.0, p, q);
}
// indices without elements
template <class E> static void emp(World &w, const int *a) {
  VD &x = w.d(matd(w, a[1]));
  E e;
  switch ((unsigned)a[2] % 6) {
  case 0:
    w.wd(a[0]) = subset(x, e, 1);
    break;
  case 1:
    w.wd(a[0]) = subset(x, 1, e);
    break;
  case 2:
    w.wd(a[0]) = subset(x, true, e);
    break;
  case 3:
    w.wd(a[0]) = subset(x, e, true);
    break;
  case 4:
    w.wd(a[0]) = subset(x, e, e);
    break;
  default: {
    VI i = coca(1, 1);
    w.wd(a[0]) = subset(x, i, e);
  }
  }
}
OP("gap.nonei", F_SUBM | F_SUBR | F_REJ, 0, 1) { emp<VI>(w, a); }
OP("gap.noned", F_SUBM | F_SUBR | F_REJ, 0, 1) { emp<VD>(w, a); }
OP("gap.noneb", F_SUBM | F_SUBR | F_REJ, 0, 1) { emp<VB>(w, a); }
#endif
} // namespace NS
