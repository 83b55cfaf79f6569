// interpolation
#include "help.h"
namespace NS {
static VD one(double x) {
  VD r = coca(x);
  return r;
}
static VD times_(int a, int n) { // strictly increasing
  VD t(sz(n));
  double s = gval(a, 50);
  for (int k = 0; k < n; k++) {
    t[(std::size_t)k] = s;
    s += gpos(a, k);
  }
  return t;
}
static VD vals(int a, int n) {
  VD v(sz(n));
  for (int k = 0; k < n; k++)
    v[(std::size_t)k] = gval(a, k);
  return v;
}
OP("li.scalar", F_INTERP, 0, 8) {
  int n = 1 + (int)((unsigned)a[1] % 9);
  VD t = times_(a[2], n), y = vals(a[3], n);
  o.num(li(one(gval(a[4], 0)), t, y));
  o.num(li(one(gval(a[4], 1) * 3.0), t, y));
}
OP("li.node", F_INTERP, 0, 6) { // at a given time and between
  int n = 2 + (int)((unsigned)a[1] % 8);
  VD t = times_(a[2], n), y = vals(a[3], n);
  for (int k = 0; k < n; k++)
    o.num(li(one((double)t[(std::size_t)k]), t, y));
  for (int k = 0; k + 1 < n; k++)
    o.num(li(one(0.5 * ((double)t[(std::size_t)k] + (double)t[(std::size_t)(k + 1)])), t, y));
  o.num(li(one((double)t[0] - 1.0), t, y));
  o.num(li(one((double)t[(std::size_t)(n - 1)] + 1.0), t, y));
}
OP("li.int", F_INTERP, 0, 3) {
  int n = 1 + (int)((unsigned)a[1] % 9);
  VD t = times_(a[2], n), y = vals(a[3], n);
  o.num(li(one(gint(a[4], 0)), t, y));
}
OP("li.vec", F_INTERP, 0, 4) {
  int n = 1 + (int)((unsigned)a[1] % 9);
  VD t = times_(a[2], n), y = vals(a[3], n);
  VD p = coca(gval(a[4], 0));
  o.num(li(p, t, y));
}
OP("li.pool", F_INTERP, 0, 5) { // the values are an object of the program
  VD &y = w.d(a[1]);
  VD t = times_(a[2], (int)y.size());
  o.num(li(one(gval(a[4], 0)), t, y));
  o.num(li(one((double)t[0] + gpos(a[4], 1)), t, y));
}
OP("li.view", F_INTERP | F_BORROW, 0, 4) {
  VW &y = w.w(a[1]);
  VD t = times_(a[2], (int)y.size());
  o.num(li(one(gval(a[4], 0)), t, y));
}
OP("li.ivals", F_INTERP | F_CONV, 0, 3) {
  VI &y = w.i(a[1]);
  VD t = times_(a[2], (int)y.size());
  o.num(li(one(gval(a[4], 0)), t, y));
}
OP("li.itimes", F_INTERP | F_CONV, 0, 3) {
  int n = 1 + (int)((unsigned)a[1] % 9);
  VI t = colon(1, n);
  VD y = vals(a[3], n);
  o.num(li(one(1.0 + 0.25 * (double)((unsigned)a[2] % 40)), t, y));
}
OP("li.grid", F_INTERP, 0, 3) { // a whole curve, stored
  int n = 2 + (int)((unsigned)a[1] % 6);
  VD t = times_(a[2], n), y = vals(a[3], n);
  VD r(sz(12));
  for (int k = 0; k < 12; k++)
    r[(std::size_t)k] = li(one((double)t[0] - 0.5 + 0.75 * k), t, y);
  outv(o, r);
  w.wd(a[0]) = r;
}
OP("li.expr", F_INTERP | F_CALC, 0, 2) {
  int n = 2 + (int)((unsigned)a[1] % 6);
  VD t = times_(a[2], n), y = vals(a[3], n);
  o.num(li(one(gval(a[4], 0)), t + 1.0, y * 2.0));
}
OP("li.mismatch", F_INTERP | F_REJ, 0, 3) {
  int n = 2 + (int)((unsigned)a[1] % 6);
  VD t = times_(a[2], n), y = vals(a[3], n + ((a[5] & 1) ? 1 : -1));
  o.num(li(one(gval(a[4], 0)), t, y));
}
OP("li.mismatch2", F_INTERP | F_REJ, 0, 3) { // the time is a temporary, calculated or selected
  int n = 2 + (int)((unsigned)a[1] % 6);
  VD t = times_(a[2], n), y = vals(a[3], n + ((a[5] & 1) ? 1 : -1)), p = one(gval(a[4], 0));
  switch ((unsigned)a[6] % 5) {
  case 0:
    o.num(li(p + 0.0, t, y));
    break;
  case 1:
    o.num(li(coca((double)p[0]), t, y));
    break;
  case 2:
    o.num(li(subset(p, 1), t, y));
    break;
  case 3:
    o.num(li(p, t + 1.0, y * 2.0));
    break;
  default:
    o.num(li(p + 0.0, t, y * 2.0));
  }
}
OP("li.times2", F_INTERP | F_REJ, 0, 2) {
  int n = 2 + (int)((unsigned)a[1] % 6);
  VD t = times_(a[2], n), y = vals(a[3], n);
  VD p = coca(gval(a[4], 0), gval(a[4], 1));
  o.num(li(p, t, y));
}
OP("li.nan", F_INTERP, 0, 3) { // a missing time
  int n = 2 + (int)((unsigned)a[1] % 6);
  VD t = times_(a[2], n), y = vals(a[3], n), p = one(NAN);
  switch ((unsigned)a[4] % 5) {
  case 0:
    o.num(li(p, t, y));
    break;
  case 1:
    o.num(li(p + 0.0, t, y));
    break;
  case 2:
    o.num(li(coca(NAN), t, y));
    break;
  case 3:
    o.num(li(subset(p, 1), t, y));
    break;
  default:
    o.num(li(p, t + 1.0, y * 2.0));
  }
}
OP("li.empty", F_INTERP | F_REJ, 0, 2) {
  VD t, y;
  o.num(li(one(gval(a[4], 0)), t, y));
}
// cubic interpolation
static double node(const VD &t, int k) { return t[(std::size_t)((unsigned)k % (unsigned)t.size())]; }
OP("cmr.scalar", F_CUBIC, 0, 6) {
  int n = 4 + (int)((unsigned)a[1] % 9);
  VD t = times_(a[2], n), y = vals(a[3], n);
  o.num(cmr(gval(a[4], 0), t, y));
  o.num(cmr(node(t, a[5]) + 0.1, t, y));
  o.num(cmr(gint(a[4], 1), t, y));
}
OP("cmr.node", F_CUBIC, 0, 8) { // at every node and twice in each interval
  int n = 4 + (int)((unsigned)a[1] % 9);
  VD t = times_(a[2], n), y = vals(a[3], n);
  for (int k = 0; k < n; k++)
    o.num(cmr(node(t, k), t, y));
  for (int k = 0; k + 1 < n; k++) {
    double u = node(t, k), v = node(t, k + 1);
    o.num(cmr(u + 0.5 * (v - u), t, y));
    o.num(cmr(u + (0.1 + 0.2 * (double)((unsigned)a[4] % 5)) * (v - u), t, y));
  }
  o.num(cmr(node(t, 0) - 1.0, t, y));
  o.num(cmr(node(t, n - 1) + 1.0, t, y));
}
OP("cmr.vec", F_CUBIC | F_PRINT, X_WARN | X_NOTHREAD, 6) {
  int n = 4 + (int)((unsigned)a[1] % 6);
  VD t = times_(a[2], n), y = vals(a[3], n);
  VD p = coca((double)t[0] + gpos(a[4], 0));
  o.num(cmr(p, t, y));
  VD q = coca(node(t, a[5]) + 0.25, 1.0, 2.0); // only the first is used
  if (a[6] & 1)
    o.num(cmr(q, t, y));
  o.num(cmr(p + 0.25, t, y));
  o.num(cmr(subset(q, 1), t, y));
}
OP("cmr.pool", F_CUBIC, 0, 6) {
  VD &y = w.d(a[1]);
  VD t = times_(a[2], (int)y.size());
  if (y.size() >= 4) {
    VD r(sz(3));
    for (int k = 0; k < 3; k++)
      r[(std::size_t)k] = cmr((double)t[0] + gpos(a[4], k), t, y);
    outv(o, r);
  }
}
OP("cmr.view", F_CUBIC | F_BORROW, 0, 4) { // table on borrowed memory
  VW &y = w.w(a[1]);
  VD t = times_(a[2], (int)y.size());
  o.num(cmr(node(t, a[4]) + 0.25, t, y));
  o.num(cmr(node(t, a[5]), t, y));
}
OP("cmr.sub", F_CUBIC | F_SUBR, 0, 4) { // table selected from a larger one
  VD &d = w.d(a[1]);
  int n = 4 + (int)((unsigned)a[6] % 5);
  VI z = idx_i(a[2], (long)d.size(), n);
  VD t = times_(a[3], n);
  o.num(cmr(node(t, a[4]) + 0.25, t, subset(d, z)));
  o.num(cmr(node(t, a[5]), t, subset(d, z)));
}
OP("cmr.into", F_CUBIC | F_ALIAS, 0, 3) { // the result replaces a node
  VD &y = w.wd(a[0]);
  VD t = times_(a[2], (int)y.size());
  if (y.size() >= 4)
    at(y, 1 + (int)((unsigned)a[5] % (unsigned)y.size())) = cmr(node(t, a[4]) + 0.25, t, y);
}
OP("cmr.table", F_CUBIC, 0, 4) { // a whole curve, stored
  int n = 4 + (int)((unsigned)a[1] % 6);
  VD t = times_(a[2], n), y = vals(a[3], n);
  VD r(sz(16));
  for (int k = 0; k < 16; k++)
    r[(std::size_t)k] = cmr((double)t[0] - 0.5 + 0.75 * k, t, y);
  outv(o, r);
  w.wd(a[0]) = r;
}
OP("cmr.few", F_CUBIC | F_REJ, 0, 3) {
  int n = 1 + (int)((unsigned)a[1] % 3);
  VD t = times_(a[2], n), y = vals(a[3], n);
  o.num(cmr(gval(a[4], 0), t, y));
}
OP("cmr.mismatch", F_CUBIC | F_REJ, 0, 3) {
  int n = 4 + (int)((unsigned)a[1] % 6);
  VD t = times_(a[2], n), y = vals(a[3], n + ((a[5] & 1) ? 1 : -1));
  o.num(cmr(gval(a[4], 0), t, y));
}
} // namespace NS
