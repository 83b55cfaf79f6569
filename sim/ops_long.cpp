// operations on long objects: local, rarely very long
#include "help.h"
namespace NS {
static const uint32_t LX = X_NOSWEEP | X_NOTHREAD;
#ifdef SIDE_SUT
struct Big {
  int z;
};
#endif
#define BIG [[maybe_unused]] Big big_{}
static int len(const int *a) { // one of 24 is very long
  unsigned h = (unsigned)ah(a[7], 5), q = h % 24, r = h >> 8;
  return q == 0 ? 65530 + (int)(r % 900) : q < 4 ? 8180 + (int)(r % 9000) : q < 12 ? 1000 + (int)(r % 3200) : 240 + (int)(r % 300);
}
static double val(int a, int k) { return (double)((k * 37 + (a & 63)) % 1009) * 0.25 - 100.0; }
template <class X> static void sum(Out &o, const X &x) { // exact: multiples of 0.25
  std::size_t n = x.size();
  o.num((double)n);
  o.num(x.im() ? 1 : 0);
  if (x.im()) {
    o.num((double)x.nr());
    o.num((double)x.nc());
  }
  double s = 0, t = 0;
  for (std::size_t k = 0; k < n; k++) {
    s += (double)x[k] * (double)(k % 251 + 1);
    t += (double)x[k];
    if (k % 4096 == 4095) {
      o.num(s);
      o.num(t);
      s = t = 0;
    }
  }
  o.num(s);
  o.num(t);
}
static VD mk(int n, int a) {
  VD x(sz(n));
  for (int k = 0; k < n; k++)
    x[(std::size_t)k] = val(a, k);
  return x;
}
static VI mki(int n, int a) {
  VI x(sz(n));
  for (int k = 0; k < n; k++)
    x[(std::size_t)k] = (int)val(a, k);
  return x;
}
static VD one(double x) {
  VD r = coca(x);
  return r;
}
static VB mkb(int n, int a) {
  VB x(sz(n));
  for (int k = 0; k < n; k++)
    x[(std::size_t)k] = ah(a, k) % 3 != 0;
  return x;
}
OP("long.copy", F_OWN, LX, 1) {
  BIG;
  int n = len(a);
  VD x = mk(n, a[0]);
  VD y = x;
  y[(std::size_t)((unsigned)a[1] % (unsigned)n)] = 0.25;
  sum(o, x);
  sum(o, y);
  VI z;
  z = y;
  sum(o, z);
  y = z;
  x = VD(3.0);
  x = y;
  sum(o, x);
  VB b;
  b = x;
  sum(o, b);
}
OP("long.shorter", F_OWN | F_GROW, LX, 1) {
  BIG;
  int n = len(a);
  VD x = mk(n, a[0]);
  x = mk(n / 2 + 1, a[1]);
  sum(o, x);
  x = mk(n - 1, a[2]);
  sum(o, x);
  x = mk(n + n / 5, a[3]);
  sum(o, x);
}
OP("long.calc", F_CALC, LX, 1) {
  BIG;
  int n = len(a);
  VD x = mk(n, a[0]), y = mk(1 + (int)((unsigned)a[1] % 7), a[2]), z;
  VI i = mki(n, a[3]);
  z = x + y * 2.0 - i;
  sum(o, z);
  z = 1.0 - x;
  sum(o, z);
  z = y + x;
  sum(o, z);
  z = x + x - 0.5 * i;
  sum(o, z);
}
OP("long.mat", F_CALC, LX, 1) {
  BIG;
  int n = len(a), c = 2 + (int)((unsigned)a[1] % 5), r = n / c;
  VD x = matrix(mk(r * c, a[0]), 0 + r, 0 + c), y;
  y = x + mk(r, a[2]);
  sum(o, y);
  y = x * 2.0 + x;
  sum(o, y);
}
OP("long.cmp", F_CMP, LX, 1) {
  BIG;
  int n = len(a);
  VD x = mk(n, a[0]);
  VI y = mki(n, a[1]);
  VB b;
  b = x > y;
  sum(o, b);
  b = x <= 3.0;
  sum(o, b);
  b = y == y;
  sum(o, b);
  b = (x < y) != mkb(n, a[2]);
  sum(o, b);
}
OP("long.neg", F_UNARY, LX, 1) {
  BIG;
  int n = len(a);
  VD x = mk(n, a[0]), y;
  y = -x;
  sum(o, y);
  x = -(x + 1.0);
  sum(o, x);
}
OP("long.subr", F_SUBR, LX, 1) {
  BIG;
  int n = len(a);
  VD x = mk(n, a[0]), y;
  VI i(sz(n));
  for (int k = 0; k < n; k++)
    i[(std::size_t)k] = n - (int)((unsigned)(k * 7 + a[1] % 5) % (unsigned)n);
  y = subset(x, i);
  sum(o, y);
  y = subset(x, mkb(n, a[2]));
  sum(o, y);
  y = subset(x, true);
  sum(o, y);
  y = subset(x, colon(2, n));
  sum(o, y);
  o.num((double)subset(x, n));
  o.num((double)x(n - 1));
  VD q(sz(n)); // numbers as positions
  for (int k = 0; k < n; k++)
    q[(std::size_t)k] = (double)(n - k) + 0.5 * (k % 2) * (k > 0);
  y = subset(x, q);
  sum(o, y);
}
OP("long.view", F_VIEW | F_SUBR, LX, 1) { // stored
  BIG;
  int n = len(a);
  VD x = mk(n, a[0]), y;
  auto s = subset(x, mkb(n, a[1]));
  y = s;
  sum(o, y);
  x = mk(n + 5, a[2]);
  y = s;
  sum(o, y);
  x[0] = 0.5;
  y = s + 1.0;
  sum(o, y);
}
OP("long.subm", F_SUBM, LX, 1) {
  BIG;
  int n = len(a), c = 2 + (int)((unsigned)a[1] % 300), r = n / c + 1;
  VD x = matrix(mk(r * c, a[0]), 0 + r, 0 + c), y;
  y = subset(x, true, c);
  sum(o, y);
  y = subset(x, r, true);
  sum(o, y);
  y = subset(x, mkb(r, a[2]), true);
  sum(o, y);
  y = subset(x, true, mkb(c, a[3]));
  sum(o, y);
  y = subset(x, colon(2, r), colon(1, c));
  sum(o, y);
  o.num((double)subset(x, r, c));
}
OP("long.subw", F_SUBW, LX, 1) {
  BIG;
  int n = len(a);
  VD x = mk(n, a[0]);
  VB b = mkb(n, a[1]);
  int m = 0;
  for (int k = 0; k < n; k++)
    m += b[(std::size_t)k] ? 1 : 0;
  subset(x, b) = mk(m, a[2]);
  sum(o, x);
  subset(x, colon(n, 1)) = mk(n, a[3]);
  sum(o, x);
  subset(x, x > 0.0) = 0.5;
  sum(o, x);
  subset(x, n) = -1.0;
  sum(o, x);
  VI i = mki(n, a[4]);
  subset(i, b) = mk(m, a[5]);
  sum(o, i);
}
OP("long.subwm", F_SUBW, LX, 1) {
  BIG;
  int n = len(a), c = 2 + (int)((unsigned)a[1] % 60), r = n / c + 1;
  VD x = matrix(mk(r * c, a[0]), 0 + r, 0 + c);
  subset(x, true, c) = mk(r, a[2]);
  sum(o, x);
  subset(x, r, true) = mk(c, a[3]);
  sum(o, x);
  subset(x, colon(1, r - 1), colon(2, c)) = mk((r - 1) * (c - 1), a[4]);
  sum(o, x);
}
OP("long.alias", F_ALIAS, LX, 1) {
  BIG;
  int n = len(a);
  VD x = mk(n, a[0]);
  VD y = x + 1.0;
  x = coca(x, y);
  sum(o, x);
  x = subset(x, colon(2 * n, 1));
  sum(o, x);
  subset(x, colon(1, n)) = subset(x, colon(n + 1, 2 * n)) + subset(x, colon(n, 1));
  sum(o, x);
  x = x + subset(x, 2);
  sum(o, x);
  x = subset(x, mkb(2 * n, a[1]));
  sum(o, x);
}
OP("long.borrow", F_BORROW, LX, 1) {
  BIG;
  int n = len(a);
  VD x = mk(n, a[0]);
  double *p = &x[0];
  VW u(p, (std::size_t)n);
  VW v(p + n / 3, (std::size_t)(n - n / 3));
  u = u + 1.0;
  sum(o, x);
  v = mk(n - n / 3, a[1]);
  sum(o, u);
  subset(u, mkb(n, a[2])) = 0.75;
  sum(o, v);
  v = subset(u, colon(n - n / 3, 1)) + v;
  sum(o, x);
  x[(std::size_t)(n - 1)] = 0.25;
  sum(o, v);
}
OP("long.seq", F_SEQ, LX, 1) {
  BIG;
  int n = len(a);
  VI x = colon(1, n);
  sum(o, x);
  VD y = colon(n * 0.5, -n * 0.5);
  sum(o, y);
  VD z = rep(coca(1, 2.5, -3), n / 3);
  sum(o, z);
  z = coca(x, y, mkb(n, a[0]), 1.5);
  sum(o, z);
  z = vector_numeric(0 + n);
  sum(o, z);
  z = rep(mk(n, a[1]), 2);
  sum(o, z);
  VD m;
  m = matrix(0.25, 0 + n, 2);
  sum(o, m);
}
OP("long.grow", F_GROW, LX, 2) {
  BIG;
  int n = len(a);
  RS r(1 + (std::size_t)((unsigned)a[0] % 3));
  double s = 0;
  for (int k = 0; k < n; k++)
    r.push_back(val(a[1], k));
  o.num((double)r.size());
  auto look = [&](RS &q) {
    double t = 0;
    for (std::size_t k = 0; k < q.size(); k++)
      t += (double)q[k] * (double)(k % 251 + 1);
    o.num((double)q.size());
    o.num(t);
  };
  look(r);
  (void)s;
  RS q;
  q = r;
  look(q);
  q.realloc((std::size_t)(n + 700));
  look(q);
  r.resize((std::size_t)(n / 2 + 1));
  look(r);
  RS t(r);
  look(t);
  t = q;
  look(t);
  t.fill(0.25);
  look(t);
}
OP("long.interp", F_INTERP, LX, 1) {
  BIG;
  int n = len(a);
  VD t(sz(n)), y = mk(n, a[0]);
  for (int k = 0; k < n; k++)
    t[(std::size_t)k] = k * 2.0;
  for (int k = 0; k < 6; k++) {
    double q = (double)(ah(a[1], k) % (uint64_t)(8 * n)) * 0.25;
    o.num(li(one(q), t, y));
  }
  o.num(li(one(-1.0), t, y));
  o.num(li(one(2.0 * n), t, y));
  o.num(li(one(2.0 * (n - 1) - 1.0), t, y));
}
OP("long.obs", F_OBS, LX, 1) {
  BIG;
  int n = len(a);
  VD x = mk(n, a[0]);
  o.num((double)length(x));
  o.num(x.back());
  double s = 0;
  for (auto &e : x)
    s += e;
  o.num(s);
  x[(std::size_t)((unsigned)a[1] % (unsigned)n)] = NAN;
  x[(std::size_t)((unsigned)a[2] % (unsigned)n)] = INFINITY;
  VB b;
  b = isNA(x);
  sum(o, b);
  b = isInf(x);
  sum(o, b);
  o.num((double)at(x, n - 1));
  VD y;
  y = subset(x, isNA(x));
  o.num((double)y.size());
  VD m = matrix(mk(n - n % 2, a[3]), 2, n / 2);
  sum(o, dim(m));
  o.num((double)at(m, 2, n / 2));
}
OP("long.deriv", F_DERIV, LX, 2) {
  BIG;
  int n = len(a);
  if (n > 20000)
    n = 20000 + n % 7;
  VD x = mk(n, a[0]), y = mk((unsigned)a[1] & 1 ? n : 1, a[2]), z, e;
#ifdef SIDE_SUT
  AV av(0, 0);
  z = x;
  av.initBuffer(x, y, z);
  V0 v0(av);
  V1 v1(av);
  V2 v2(av);
  v2 = v0 * v1 + v0;
  z = av.varBuffer[2];
  e = get_derivs(v2);
  sum(o, z);
  sum(o, e);
  v2 = v2 * v0;
  z = av.varBuffer[2];
  e = get_derivs(v2);
#else
  z = x * y + x;
  e = y + x * 0.0 + 1.0;
  sum(o, z);
  sum(o, e);
  e = e * x + z;
  z = z * x;
#endif
  sum(o, z);
  sum(o, e);
}
} // namespace NS
