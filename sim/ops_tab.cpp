// reading of objects which no operation changes: in runs with shared objects all
// callers read the same ones at the same time
#include "kinds.h"
namespace NS {
#define TABS                                                                       \
  [[maybe_unused]] VD &t = *w.T.t, &y = *w.T.y, &m = *w.T.m;                       \
  [[maybe_unused]] VI &k = *w.T.k;                                                 \
  [[maybe_unused]] VB &q = *w.T.q;                                                 \
  [[maybe_unused]] VW &v = *w.T.w;                                                 \
  [[maybe_unused]] const VD &ct = t, &cy = y, &cm = m;                             \
  [[maybe_unused]] const VI &ck = k;                                               \
  [[maybe_unused]] const VB &cq = q;                                               \
  [[maybe_unused]] const VW &cv = v;                                               \
  [[maybe_unused]] int n = (int)t.size()
#define TT(id, fam, fl, wt, ...)                                                   \
  OP("tab." id, fam, fl, wt) {                                                     \
    TABS;                                                                          \
    __VA_ARGS__                                                                    \
  }
static VD p1(double x) {
  VD r = coca(x);
  return r;
}
TT("li", F_INTERP, 0, 4, for (int j = 0; j < 3; j++) o.num(
       li(p1((double)t[(std::size_t)0] + gpos(a[1], j)), t, y));)
TT("li.const", F_INTERP, 0, 3, for (int j = 0; j < 3; j++) o.num(
       li(p1((double)ct[(std::size_t)0] + gpos(a[1], j)), ct, cy));)
TT("li.view", F_INTERP | F_BORROW, 0, 3, for (int j = 0; j < 3; j++) o.num(
       li(p1((double)t[(std::size_t)0] + gpos(a[1], j)), t, v));)
TT("li.int", F_INTERP, 0, 2, o.num(li(p1((double)t[(std::size_t)0] + gpos(a[1], 0)), t, k));)
TT("li.at", F_INTERP, 0, 2, o.num(li(p1(at(t, gidx(a[1], 0, n))), t, y));)
TT("cmr", F_CUBIC, 0, 4, for (int j = 0; j < 3; j++) o.num(
       cmr((double)t[(std::size_t)0] + gpos(a[1], j), t, y));)
TT("cmr.const", F_CUBIC, 0, 3, for (int j = 0; j < 3; j++) o.num(
       cmr((double)t[(std::size_t)0] + gpos(a[1], j), ct, cy));)
TT("cmr.view", F_CUBIC | F_BORROW, 0, 3, for (int j = 0; j < 3; j++) o.num(
       cmr((double)t[(std::size_t)0] + gpos(a[1], j), t, v));)
TT("curve", F_INTERP | F_CUBIC, 0, 3, {
  VD r(sz(8));
  for (int j = 0; j < 8; j++)
    r[(std::size_t)j] = li(p1((double)t[(std::size_t)0] + gpos(a[1], j)), t, y) +
                        cmr((double)t[(std::size_t)0] + gpos(a[1], j + 8), t, y);
  w.wd(a[0]) = r;
})
// selection
TT("sub.i", F_SUBR, 0, 2, w.wd(a[0]) = subset(y, k);)
TT("sub.i1", F_SUBR, 0, 2, w.wd(a[0]) = subset(t, ck);)
TT("sub.b", F_SUBR, 0, 2, w.wd(a[0]) = subset(y, q);)
TT("sub.b1", F_SUBR, 0, 2, w.wd(a[0]) = subset(t, cq);)
TT("sub.v", F_SUBR | F_BORROW, 0, 2, w.wd(a[0]) = subset(v, k);)
TT("sub.v1", F_SUBR | F_BORROW, 0, 2, w.wd(a[0]) = subset(v, q);)
TT("sub.m", F_SUBM, 0, 3, {
  int i = gidx(a[1], 0, (long)m.nr()), j = gidx(a[1], 1, (long)m.nc());
  VD r = m * 1.0;
  r = subset(m, i, true);
  outv(o, r);
  o.num((double)at(m, i, j));
  w.wd(a[0]) = subset(m, true, j);
})
TT("sub.mm", F_SUBM, 0, 2, {
  VI i = idx_i(a[1], (long)m.nr(), 3);
  VB j = idx_b(a[2], (long)m.nc());
  w.wd(a[0]) = subset(m, i, j);
})
TT("sub.expr", F_SUBR | F_CALC, 0, 3,
   w.wd(a[0]) = subset(y, k) * subset(t, k) + subset(v, k);)
TT("sub.into", F_SUBW, 0, 2, {
  VD r(sz(n));
  subset(r, k) = subset(y, k);
  subset(r, q) = gval(a[1], 0);
  w.wd(a[0]) = r;
})
TT("at", F_SUBR, 0, 2, {
  int i = gidx(a[1], 0, n);
  o.num((double)at(y, i));
  o.num((double)at(v, i));
  o.num((double)at(k, i));
  o.num(at(q, i) ? 1 : 0);
})
// calculations
TT("calc", F_CALC, 0, 3, w.wd(a[0]) = y * t + v - k;)
TT("calc.const", F_CALC, 0, 3, w.wd(a[0]) = cy * ct + 2.0 - ck;)
TT("calc.fn", F_CALC, 0, 3, w.wd(a[0]) = sinus(y) + cosinus(cy) - exp(t * 0.125);)
TT("calc.self", F_CALC, 0, 2, w.wd(a[0]) = (y + y) * y - cy * y;)
TT("calc.neg", F_CALC, 0, 2, w.wd(a[0]) = -y;)
TT("calc.neg1", F_CALC, 0, 2, w.wd(a[0]) = -cm;)
TT("calc.mat", F_CALC, 0, 3, w.wd(a[0]) = m * 2.0 + cm;)
TT("calc.rec", F_CALC, 0, 2, w.wd(a[0]) = y + p1(gval(a[1], 0));)
TT("calc.rec1", F_CALC, 0, 2, w.wd(a[0]) = w.d(a[2]) * p1(2.0) + t;)
TT("cmp", F_CMP, 0, 2, w.wb(a[0]) = y > t;)
TT("cmp1", F_CMP, 0, 2, w.wb(a[0]) = cy <= v;)
TT("cmp2", F_CMP, 0, 2, w.wb(a[0]) = q == (k < 3);)
TT("copy", F_OWN, 0, 3, {
  VD r = y;
  VD s(t);
  r[(std::size_t)0] = gval(a[1], 0);
  outv(o, r);
  w.wd(a[0]) = s;
})
TT("copy.conv", F_OWN | F_CONV, 0, 2, w.wi(a[0]) = y;)
TT("copy.conv1", F_OWN | F_CONV, 0, 2, w.wd(a[0]) = k;)
TT("copy.conv2", F_OWN | F_CONV, 0, 2, w.wb(a[0]) = k;)
TT("copy.conv3", F_OWN | F_CONV, 0, 2, w.wi(a[0]) = q;)
TT("copy.view", F_BORROW, 0, 2, w.wd(a[0]) = v;)
TT("copy.view1", F_BORROW, 0, 2, w.wi(a[0]) = v;)
TT("copy.mat", F_OWN, 0, 3, VD r = cm; outv(o, r); w.wd(a[0]) = m;)
TT("copy.toview", F_BORROW, 0, 2, {
  double b[12];
  VW z(b, (std::size_t)n);
  z = y;
  outv(o, z);
  z = v;
  outv(o, z);
})
// functions
TT("length", F_OWN, 0, 2, o.num((double)length(y)); o.num((double)length(cq)); o.num((double)length(v));)
TT("dim", F_SEQ, 0, 2, { VI d; d = dim(m); outv(o, d); })
TT("na", F_OBS, 0, 2, w.wb(a[0]) = isNA(y);)
TT("na1", F_OBS, 0, 2, w.wb(a[0]) = isInf(t);)
TT("coca", F_SEQ, 0, 2, w.wd(a[0]) = coca(y, gval(a[1], 0), k);)
TT("coca1", F_SEQ, 0, 2, w.wd(a[0]) = coca(t, cy);)
TT("rep", F_SEQ, 0, 2, w.wd(a[0]) = rep(y, 2);)
TT("rep1", F_SEQ, 0, 2, w.wi(a[0]) = rep(k, 2);)
TT("colon", F_SEQ, 0, 2, w.wd(a[0]) = colon(at(k, 1), at(k, 2));)
TT("matrix", F_SEQ, 0, 2, w.wd(a[0]) = matrix(coca(y, t), 0 + n, 2);)
TT("iter", F_OWN, 0, 2, {
  double x = 0;
  for (std::size_t j = 0; j < y.size(); j++)
    x += (double)ck[j] + (double)y[j] + (double)cv[j];
  o.num(x);
})
TT("own", F_OWN, 0, 2, { // an own object of the same length afterwards
  VD r = y + t;
  r = r * y;
  w.wd(a[0]) = r + y;
})
} // namespace NS
