// all ways to look at an object agree with each other
#include "help.h"
namespace NS {
static int cnt(int a) { return 1 + (int)((unsigned)a % 7); }
template <class X> static double elem(const X &x) { return (double)x[0]; }
// elements by index, by position, by subset, by iteration; lengths; dimensions
#define OBS(id, T, POOL)                                                           \
  OP("obs." id ".index", F_OBS, 0, 4) {                                            \
    T &x = w.POOL(a[0]);                                                           \
    int n = length(x);                                                             \
    o.num(n);                                                                      \
    o.num((double)x.size());                                                       \
    for (int k = 1; k <= n; k++) {                                                 \
      o.num((double)x[(std::size_t)(k - 1)]);                                      \
      o.num((double)at(x, k));                                                     \
      o.num((double)at(x, (double)k));                                             \
    }                                                                              \
  }                                                                                \
  OP("obs." id ".loop", F_OBS, 0, 4) {                                             \
    T &x = w.POOL(a[0]);                                                           \
    int n = 0;                                                                     \
    double s = 0;                                                                  \
    for (const auto &v : x) {                                                      \
      o.num((double)v);                                                            \
      s += (double)v;                                                              \
      n++;                                                                         \
    }                                                                              \
    o.num(n);                                                                      \
    o.num(s);                                                                      \
    o.num((double)x.back());                                                       \
  }                                                                                \
  OP("obs." id ".subset", F_OBS | F_SUBR, 0, 3) {                                  \
    T &x = w.POOL(a[0]);                                                           \
    int n = (int)x.size();                                                         \
    for (int q = 0; q < 3; q++) {                                                  \
      int k = gidx(a[1], q, n);                                                    \
      VD y;                                                                        \
      y = subset(x, k);                                                            \
      o.num((double)y.size());                                                     \
      o.num((double)y[0]);                                                         \
      o.num(elem(subset(x, k)));                                              \
      o.num(elem(x(k)));                                                      \
    }                                                                              \
    VD z;                                                                          \
    z = subset(x, colon(1, n));                                                    \
    outv(o, z);                                                                    \
    z = subset(x, true);                                                           \
    outv(o, z);                                                                    \
  }                                                                                \
  OP("obs." id ".shape", F_OBS, 0, 4) {                                            \
    T &x = w.POOL(a[0]);                                                           \
    o.num(x.im());                                                                 \
    if (x.im()) {                                                                  \
      o.num((double)x.nr());                                                       \
      o.num((double)x.nc());                                                       \
      VI d = dim(x);                                                               \
      outv(o, d);                                                                  \
      for (int i = 1; i <= (int)x.nr(); i++)                                       \
        for (int j = 1; j <= (int)x.nc(); j++) {                                   \
          o.num((double)at(x, i, j));                                              \
          o.num((double)at(x, (double)i, j));                                      \
          o.num((double)at(x, i, (double)j));                                      \
          o.num((double)at(x, (double)i, (double)j));                              \
          o.num(elem(subset(x, i, j)));                                       \
        }                                                                          \
    }                                                                              \
  }                                                                                \
  OP("obs." id ".na", F_OBS, 0, 2) {                                               \
    T &x = w.POOL(a[0]);                                                           \
    VB p = isNA(x);                                                                \
    VB q = isInf(x);                                                               \
    outv(o, p);                                                                    \
    outv(o, q);                                                                    \
  }                                                                                \
  OP("obs." id ".copy", F_OBS, 0, 3) {                                             \
    T &x = w.POOL(a[0]);                                                           \
    VD y;                                                                          \
    y = x;                                                                         \
    outv(o, y);                                                                    \
    outv(o, x);                                                                    \
    VD z = coca(x, x);                                                             \
    outv(o, z);                                                                    \
  }                                                                                \
  OP("obs." id ".view", F_OBS | F_SUBR, 0, 3) {                                    \
    T &x = w.POOL(a[0]);                                                           \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));                                 \
    auto s = subset(x, i);                                                         \
    o.num((double)s.size());                                                       \
    outv(o, s);                                                                    \
    for (const auto &v : s)                                                        \
      o.num((double)v);                                                            \
  }                                                                                \
  OP("obs." id ".back", F_OBS, 0, 2) {                                             \
    T &x = w.POOL(a[0]);                                                           \
    o.num((double)x.back());                                                       \
    o.num((double)x[x.size() - 1]);                                                \
    o.num((double)at(x, (int)x.size()));                                           \
  }                                                                                \
  OP("obs." id ".scalar", F_OBS, 0, 2) {                                           \
    T &x = w.POOL(a[0]);                                                           \
    VD y;                                                                          \
    y = subset(x, gidx(a[1], 0, (long)x.size()));                                  \
    double s = y;                                                                  \
    o.num(s);                                                                      \
  }
OBS("d", VD, d)
OBS("i", VI, i)
OBS("b", VB, b)
OBS("w", VW, w)

OP("obs.scalar.d", F_OBS, 0, 3) { // conversion: the first element
  double s = w.d(a[0]);
  o.num(s);
  int t = w.i(a[1]);
  o.num(t);
  double u = w.w(a[2]);
  o.num(u);
}
OP("obs.scalar.b", F_OBS | F_PRINT, X_WARN | X_NOTHREAD, 3) { // a warning for longer ones
  bool s = w.b(a[0]);
  o.num(s);
}
OP("obs.if", F_OBS | F_CMP | F_PRINT, X_WARN | X_NOTHREAD, 3) {
  VD &x = w.d(a[0]);
  if (x > gval(a[1], 0))
    o.num(1);
  else
    o.num(0);
}
OP("obs.if1", F_OBS | F_CMP, 0, 3) { // no warning, since one element
  VD &x = w.d(a[0]);
  double v = gval(a[1], 0);
  int k = gidx(a[2], 0, (long)x.size());
  if (subset(x, k) > v)
    o.num(1);
  else
    o.num(0);
  for (int q = 0; q < 3 && subset(x, k) > v; q++)
    v += 4;
  o.num(v);
}
// expressions
OP("obs.expr", F_OBS | F_CALC, 0, 5) {
  VD &x = w.d(a[0]);
  VD &y = fitd(w, x, a[1]);
  auto e = x + y;
  o.num((double)e.size());
  outv(o, e);
  VD z = x + y;
  outv(o, z);
}
OP("obs.expr2", F_OBS | F_CALC, 0, 3) {
  VD &x = w.d(a[0]);
  outv(o, x * 2.0 - 1.0);
  VD z;
  z = x * 2.0 - 1.0;
  outv(o, z);
  o.num((double)z[0] - elem(x * 2.0 - 1.0));
}
OP("obs.expr.at", F_OBS | F_CALC, 0, 3) {
  VD &x = w.d(matd(w, a[0]));
  if (x.im())
    for (int i = 1; i <= (int)x.nr(); i++)
      for (int j = 1; j <= (int)x.nc(); j++)
        o.num((double)at(x + 1.0, i, j));
}
OP("obs.unary", F_OBS | F_UNARY, 0, 3) {
  VD &x = w.d(a[0]);
  auto e = -x;
  outv(o, e);
  VD z;
  z = e;
  outv(o, z);
}
OP("obs.cmp", F_OBS | F_CMP, 0, 3) {
  VD &x = w.d(a[0]);
  double v = gval(a[1], 0);
  auto e = x > v;
  outv(o, e);
  VB z;
  z = e;
  outv(o, z);
}
OP("obs.seq", F_OBS | F_SEQ, 0, 3) {
  auto e = colon(gint(a[0], 0), gint(a[0], 1));
  outv(o, e);
  auto f = coca(gval(a[0], 0), gval(a[0], 1));
  outv(o, f);
  auto g = rep(gval(a[0], 2), cnt(a[1]));
  outv(o, g);
  VI x = colon(gint(a[0], 0), gint(a[0], 1));
  outv(o, x);
}
OP("obs.seqloop", F_OBS | F_SEQ, 0, 3) { // for (i in 1:n)
  int n = cnt(a[0]);
  double s = 0;
  int c = 0;
  for (auto &i : colon(1, n)) {
    s += i;
    c++;
  }
  o.num(s);
  o.num(c);
  for (auto &i : coca(gval(a[1], 0), gval(a[1], 1)))
    o.num(i);
}
OP("obs.looprw", F_OBS | F_OWN, 0, 3) { // write by iteration, read by index
  VD &x = w.wd(a[0]);
  double q = gval(a[1], 0);
  for (auto &v : x)
    v = v * 0.5 + q;
}
OP("obs.looprw.i", F_OBS | F_OWN, 0, 2) {
  VI &x = w.wi(a[0]);
  int q = gint(a[1], 0);
  for (auto &v : x)
    v = q - v;
}
OP("obs.backw", F_OBS | F_OWN, 0, 3) {
  VD &x = w.wd(a[0]);
  x.back() = gval(a[1], 0);
}
OP("obs.atw", F_OBS | F_OWN, 0, 3) {
  VD &x = w.wd(a[0]);
  at(x, gidx(a[1], 0, (long)x.size())) = gval(a[2], 0);
}
OP("obs.atw.m", F_OBS | F_OWN, 0, 3) {
  VD &x = *w.D[wmatd(w, a[0])];
  if (x.im())
    at(x, gidx(a[1], 0, (long)x.nr()), gidx(a[2], 0, (long)x.nc())) = gval(a[3], 0);
}
OP("obs.len1", F_OBS, 0, 1) {
  o.num((double)length(gval(a[0], 0)));
  o.num((double)length(gint(a[0], 0)));
}
OP("obs.na1", F_OBS, 0, 1) {
  o.num(isNA(NA));
  o.num(isNA(gval(a[0], 0)));
  o.num(isInf(Inf));
  o.num(isInf(-Inf));
  o.num(isInf(gval(a[0], 0)));
  o.num(isNA(Inf));
  o.num(isInf(NA));
}
static double special(int a) {
  switch ((unsigned)a % 6) {
  case 0:
    return NA;
  case 1:
    return Inf;
  case 2:
    return -Inf;
  case 3:
    return 0.0 * Inf; // not a number
  case 4:
    return 1e300;
  }
  return gval(a, 3);
}
OP("obs.na2", F_OBS, 0, 6) { // numbers which are not ordinary
  double x = special(a[0]);
  o.num(isNA(x));
  o.num(isInf(x));
  o.num(isNA(-x));
  o.num(isInf(-x));
  o.num(isNA(x + 1.0));
  o.num(isInf(x * -2.0));
  o.num(isNA(gint(a[1], 0)));
  o.num(isInf(gint(a[1], 0)));
  o.num(isNA(gbool(a[1], 0)));
  o.num(isInf(gbool(a[1], 0)));
}
OP("obs.nav", F_OBS, 0, 6) {
  int n = 1 + (int)((unsigned)a[7] % 6);
  VD x(sz(n));
  for (int k = 0; k < n; k++)
    x[(std::size_t)k] = special(a[k % 6] + 31 * k);
  outv(o, x);
  VB p = isNA(x);
  VB q = isInf(x);
  outv(o, p);
  outv(o, q);
  VB p2 = isNA(x + 1.0);
  VB q2 = isInf(x * -1.0);
  outv(o, p2);
  outv(o, q2);
  VB p3 = isInf(x * x);
  outv(o, p3);
}
OP("obs.nam", F_OBS | F_SUBW, 0, 4) { // matrix, and replaced by a mask
  int r = 1 + (int)((unsigned)a[6] % 3), c = 1 + (int)((unsigned)a[7] % 3);
  VD x((std::size_t)r, (std::size_t)c);
  for (int k = 0; k < r * c; k++)
    x[(std::size_t)k] = special(a[k % 6] + 31 * k);
  VB p;
  p = isNA(x);
  outv(o, p);
  p = isInf(x);
  outv(o, p);
  subset(x, isNA(x)) = 1.0;
  outv(o, x);
  subset(x, isInf(x)) = 2.0;
  outv(o, x);
}
OP("obs.empty", F_OBS, 0, 2) {
  VD x;
  VI y;
  VB z;
  o.num((double)x.size());
  o.num((double)length(y));
  o.num((double)z.size());
  o.num(x.im());
  for (auto &v : x)
    o.num(v);
}
OP("obs.dim.expr", F_OBS, 0, 2) {
  VD &x = w.d(matd(w, a[0]));
  if (x.im()) {
    VI d = dim(x);
    outv(o, d);
    int m = x.nr() * x.nc() == x.size();
    o.num(m);
  }
}
OP("obs.const", F_OBS, 0, 3) { // observers of const objects
  const VD &x = w.d(a[0]);
  outv(o, x);
  for (const auto &v : x)
    o.num(v);
  o.num((double)x.back());
  double s = x;
  o.num(s);
}
// every observer of one object which has changed its size
template <class V> static void every(Out &o, V &x) {
  const V &c = x;
  std::size_t n = x.size();
  o.num((double)n);
  o.num((double)length(x));
  int q = 0;
  for (auto &e : x) {
    o.num((double)e);
    q++;
  }
  o.num(q);
  q = 0;
  for (const auto &e : c) {
    o.num((double)e);
    q++;
  }
  o.num(q);
  o.num((double)x.back());
  o.num((double)c.back());
  for (std::size_t k = 0; k < n; k++)
    o.num((double)c[k]);
  VD z;
  z = x;
  o.num((double)z.size());
  VB t = isNA(x);
  o.num((double)t.size());
  VD y = x + 0.0;
  o.num((double)y.size());
  o.num((double)y[n - 1]);
}
OP("obs.view.resized", F_OBS | F_BORROW, X_NOSWEEP, 4) {
  VW &x = w.w(a[0]);
  std::size_t all = x.size();
  if (!x.im()) {
    x.resize((std::size_t)(1 + (unsigned)a[1] % all));
    every(o, x);
    x.resize((std::size_t)(1 + (unsigned)a[2] % all));
    every(o, x);
    x.resize(all);
  }
  every(o, x);
}
OP("obs.view.part", F_OBS | F_BORROW, 0, 2) { // stays shrunk
  double mem[40];
  int n = 1 + (int)((unsigned)a[0] % 40);
  for (int k = 0; k < n; k++)
    mem[k] = gval(a[1], k);
  VW u(mem, (std::size_t)n);
  u.resize((std::size_t)(1 + (unsigned)a[2] % (unsigned)n));
  every(o, u);
  VW v(mem, (std::size_t)n);
  v = 0.0 + gval(a[3], 0); // one element
  every(o, v);
}
OP("obs.resized", F_OBS | F_OWN, 0, 2) {
  VD x = w.d(a[0]) + 0.0;
  if (!x.im()) {
    x.resize((std::size_t)(1 + (unsigned)a[1] % x.size()));
    every(o, x);
  }
  VI y;
  y = w.i(a[2]);
  if (!y.im()) {
    y.resize((std::size_t)(1 + (unsigned)a[3] % y.size()));
    every(o, y);
  }
  VD z = x;
  every(o, z);
}
} // namespace NS
