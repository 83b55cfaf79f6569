// writing to subsets
#include "kinds.h"
namespace NS {
static int cnt(int a) { return 1 + (int)((unsigned)a % 7); }
static int mc(int a) { return 1 + (int)((unsigned)a % 4); }
static VD vals(int a, int n) {
  VD v(sz(n < 1 ? 1 : n));
  for (int k = 0; k < n; k++)
    v[(std::size_t)k] = gval(a, k);
  return v;
}
static VI ivals(int a, int n) {
  VI v(sz(n < 1 ? 1 : n));
  for (int k = 0; k < n; k++)
    v[(std::size_t)k] = gint(a, k);
  return v;
}
static VB bvals(int a, int n) {
  VB v(sz(n < 1 ? 1 : n));
  for (int k = 0; k < n; k++)
    v[(std::size_t)k] = gbool(a, k);
  return v;
}
// target x (numeric, integer, logical, borrowed); all kinds of index
#define SUBW(id, T, TGT, fam)                                                      \
  OP("subw." id ".int.s", F_SUBW | fam, 0, 1) {                                    \
    T &x = w.TGT(a[0]);                                                            \
    subset(x, gidx(a[1], 0, (long)x.size())) = gval(a[2], 0);                      \
  }                                                                                \
  OP("subw." id ".int.i", F_SUBW | fam, 0, 1) {                                    \
    T &x = w.TGT(a[0]);                                                            \
    subset(x, gidx(a[1], 0, (long)x.size())) = gint(a[2], 0);                      \
  }                                                                                \
  OP("subw." id ".dbl.s", F_SUBW | fam, 0, 1) {                                    \
    T &x = w.TGT(a[0]);                                                            \
    subset(x, (double)gidx(a[1], 0, (long)x.size())) = gval(a[2], 0);              \
  }                                                                                \
  OP("subw." id ".true.s", F_SUBW | fam, 0, 1) {                                   \
    T &x = w.TGT(a[0]);                                                            \
    subset(x, true) = gval(a[2], 0);                                               \
  }                                                                                \
  OP("subw." id ".true.v", F_SUBW | fam, 0, 1) {                                   \
    T &x = w.TGT(a[0]);                                                            \
    subset(x, true) = vals(a[2], (int)x.size());                                   \
  }                                                                                \
  OP("subw." id ".vi.s", F_SUBW | fam, 0, 2) {                                     \
    T &x = w.TGT(a[0]);                                                            \
    subset(x, idx_i(a[1], (long)x.size(), cnt(a[2]))) = gval(a[3], 0);             \
  }                                                                                \
  OP("subw." id ".vi.v", F_SUBW | fam, 0, 4) {                                     \
    T &x = w.TGT(a[0]);                                                            \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));                                 \
    subset(x, i) = vals(a[3], (int)i.size());                                      \
  }                                                                                \
  OP("subw." id ".vi.iv", F_SUBW | fam, 0, 2) {                                    \
    T &x = w.TGT(a[0]);                                                            \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));                                 \
    subset(x, i) = ivals(a[3], (int)i.size());                                     \
  }                                                                                \
  OP("subw." id ".vi.bv", F_SUBW | fam, 0, 1) {                                    \
    T &x = w.TGT(a[0]);                                                            \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));                                 \
    subset(x, i) = bvals(a[3], (int)i.size());                                     \
  }                                                                                \
  OP("subw." id ".vi.e", F_SUBW | F_CALC | fam, 0, 3) {                            \
    T &x = w.TGT(a[0]);                                                            \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));                                 \
    VD v = vals(a[3], (int)i.size());                                              \
    subset(x, i) = v * 0.5 + gval(a[4], 0);                                        \
  }                                                                                \
  OP("subw." id ".vd.s", F_SUBW | fam, 0, 1) {                                     \
    T &x = w.TGT(a[0]);                                                            \
    subset(x, idx_d(a[1], (long)x.size(), cnt(a[2]))) = gval(a[3], 0);             \
  }                                                                                \
  OP("subw." id ".vd.v", F_SUBW | fam, 0, 2) {                                     \
    T &x = w.TGT(a[0]);                                                            \
    VD i = idx_d(a[1], (long)x.size(), cnt(a[2]));                                 \
    subset(x, i) = vals(a[3], (int)i.size());                                      \
  }                                                                                \
  OP("subw." id ".vb.s", F_SUBW | fam, 0, 2) {                                     \
    T &x = w.TGT(a[0]);                                                            \
    subset(x, idx_b(a[1], (long)x.size())) = gval(a[3], 0);                        \
  }                                                                                \
  OP("subw." id ".vb.v", F_SUBW | fam, 0, 2) {                                     \
    T &x = w.TGT(a[0]);                                                            \
    VB i = idx_b(a[1], (long)x.size());                                            \
    int n = 0;                                                                     \
    for (std::size_t k = 0; k < i.size(); k++)                                     \
      n += i[k] ? 1 : 0;                                                           \
    subset(x, i) = vals(a[3], n);                                                  \
  }                                                                                \
  OP("subw." id ".cmp", F_SUBW | F_CMP | fam, 0, 2) {                              \
    T &x = w.TGT(a[0]);                                                            \
    double v = (double)x[(std::size_t)(gidx(a[1], 0, (long)x.size()) - 1)];        \
    subset(x, x >= v) = gval(a[2], 0);                                             \
  }                                                                                \
  OP("subw." id ".colon", F_SUBW | F_SEQ | fam, 0, 2) {                            \
    T &x = w.TGT(a[0]);                                                            \
    int p = gidx(a[1], 0, (long)x.size()), q = gidx(a[1], 1, (long)x.size());      \
    subset(x, colon(p, q)) = colon(q, p);                                          \
  }                                                                                \
  OP("subw." id ".fromsub", F_SUBW | F_SUBR | fam, 0, 2) {                         \
    T &x = w.TGT(a[0]);                                                            \
    VD &y = w.d(a[4]);                                                             \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));                                 \
    VI j = idx_i(a[3], (long)y.size(), (int)i.size());                             \
    subset(x, i) = subset(y, j);                                                   \
  }                                                                                \
  OP("subw." id ".wrong", F_SUBW | F_REJ | fam, 0, 2) { /* other length */         \
    T &x = w.TGT(a[0]);                                                            \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));                                 \
    subset(x, i) = vals(a[3], cnt(a[4]));                                          \
  }                                                                                \
  OP("subw." id ".outside", F_SUBW | F_REJ | fam, 0, 2) {                          \
    T &x = w.TGT(a[0]);                                                            \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]) + 1);                             \
    i[(std::size_t)((unsigned)a[3] % i.size())] =                                  \
        (a[4] & 1) ? (int)x.size() + 1 + (int)((unsigned)a[5] % 3) : -(int)((unsigned)a[5] % 3); \
    subset(x, i) = vals(a[6], (int)i.size());                                      \
  }                                                                                \
  OP("subw." id ".outside.s", F_SUBW | F_REJ | fam, 0, 2) {                        \
    T &x = w.TGT(a[0]);                                                            \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]) + 1);                             \
    i[(std::size_t)((unsigned)a[3] % i.size())] =                                  \
        (a[4] & 1) ? (int)x.size() + 1 + (int)((unsigned)a[5] % 3) : -(int)((unsigned)a[5] % 3); \
    subset(x, i) = gval(a[6], 0);                                                  \
  }                                                                                \
  OP("subw." id ".at", F_SUBW | F_OBS | fam, 0, 3) {                               \
    T &x = w.TGT(a[0]);                                                            \
    at(x, gidx(a[1], 0, (long)x.size())) = gint(a[2], 0) != 0;                     \
  }                                                                                \
  OP("subw." id ".atd", F_SUBW | F_OBS | fam, 0, 1) {                              \
    T &x = w.TGT(a[0]);                                                            \
    at(x, (double)gidx(a[1], 0, (long)x.size())) = gint(a[2], 0) != 0;             \
  }
// matrices
#define RI_int(n, a) gidx(a, 0, n)
#define RI_dbl(n, a) (double)gidx(a, 0, n)
#define RI_true(n, a) true
#define RI_vi(n, a) idx_i(a, n, mc(a))
#define RI_vd(n, a) idx_d(a, n, mc(a))
#define RI_vb(n, a) idx_b(a, n)
#define RI_vbs(n, a) idx_b(a, 1 + (long)((unsigned)(a) % (unsigned)(n)))
#define RI_vbl(n, a) idx_b(a, (n) + 1 + (long)((unsigned)(a) % 3))
#define SUBWM(id, T, MAT, fam, R, C)                                               \
  OP("subwm." id "." #R "." #C, F_SUBW | fam, 0, 1) {                              \
    Mat<T> mm(MAT, a[5]);                                                          \
    T &x = *mm.x;                                                                  \
    long nr = x.im() ? (long)x.nr() : 1, nc = x.im() ? (long)x.nc() : 1;           \
    auto &&r = RI_##R(nr, a[1]);                                                   \
    auto &&c = RI_##C(nc, a[2]);                                                   \
    if (a[4] & 1)                                                                  \
      subset(x, r, c) = gval(a[3], 0);                                             \
    else {                                                                         \
      int n = (int)subset(x, r, c).size();                                         \
      subset(x, r, c) = vals(a[3], n);                                             \
    }                                                                              \
    if (mm.x == &mm.loc)                                                           \
      outv(o, x);                                                                  \
  }
#define SUBWM_ROW(id, T, MAT, fam, R)                                              \
  SUBWM(id, T, MAT, fam, R, int)                                                   \
  SUBWM(id, T, MAT, fam, R, dbl)                                                   \
  SUBWM(id, T, MAT, fam, R, true)                                                  \
  SUBWM(id, T, MAT, fam, R, vi)                                                    \
  SUBWM(id, T, MAT, fam, R, vd)                                                    \
  SUBWM(id, T, MAT, fam, R, vb)
/* masks which are recycled or too long beside one number */
#define SUBWM_MASK(id, T, MAT, fam)                                                \
  SUBWM(id, T, MAT, fam, int, vbs)                                                 \
  SUBWM(id, T, MAT, fam, dbl, vbs)                                                 \
  SUBWM(id, T, MAT, fam, vbs, int)                                                 \
  SUBWM(id, T, MAT, fam, vbs, dbl)                                                 \
  SUBWM(id, T, MAT, fam | F_REJ, int, vbl)                                         \
  SUBWM(id, T, MAT, fam | F_REJ, dbl, vbl)                                         \
  SUBWM(id, T, MAT, fam | F_REJ, vbl, int)                                         \
  SUBWM(id, T, MAT, fam | F_REJ, vbl, dbl)
#define SUBWM_ALL(id, T, MAT, fam)                                                 \
  SUBWM_MASK(id, T, MAT, fam)                                                      \
  SUBWM_ROW(id, T, MAT, fam, int)                                                  \
  SUBWM_ROW(id, T, MAT, fam, dbl)                                                  \
  SUBWM_ROW(id, T, MAT, fam, true)                                                 \
  SUBWM_ROW(id, T, MAT, fam, vi)                                                   \
  SUBWM_ROW(id, T, MAT, fam, vd)                                                   \
  SUBWM_ROW(id, T, MAT, fam, vb)
#ifndef PART
#define PART 0
#endif
#if PART == 0
SUBW("d", VD, wd, 0)
#elif PART == 1
SUBW("i", VI, wi, F_CONV)
#elif PART == 2
SUBW("b", VB, wb, F_CONV)
#elif PART == 3
SUBW("w", VW, w, F_BORROW)
OP("subw.make.w", F_SUBW | F_BORROW, 0, 20) {
  VW &x = w.w(a[0]);
  int n = (int)x.size();
  int r = 1 + (int)((unsigned)a[1] % 4);
  while (n % r)
    r--;
  x = matrix(x + 0.0, 0 + r, n / r);
}
#elif PART == 4
SUBWM_ALL("d", VD, (*w.D[wmatd(w, a[0])]), 0)
#elif PART == 5
SUBWM_ALL("i", VI, (*w.I[wmati(w, a[0])]), F_CONV)
#elif PART == 7
SUBWM_ALL("w", VW, w.w(a[0]), F_BORROW)
#elif PART == 8
SUBWM_ALL("b", VB, (*w.B[wmatb(w, a[0])]), F_CONV)
#elif PART == 6
OP("subwm.make.d", F_SUBW | F_OWN, 0, 8) {
  VD x((std::size_t)(1 + (unsigned)a[1] % 5), (std::size_t)(1 + (unsigned)a[2] % 5));
  for (std::size_t k = 0; k < x.size(); k++)
    x[k] = gval(a[3], (int)k);
  w.wd(a[0]) = x;
}
OP("subwm.make.i", F_SUBW | F_OWN, 0, 8) {
  VI x((std::size_t)(1 + (unsigned)a[1] % 5), (std::size_t)(1 + (unsigned)a[2] % 5));
  for (std::size_t k = 0; k < x.size(); k++)
    x[k] = gint(a[3], (int)k);
  w.wi(a[0]) = x;
}
OP("subwm.make.b", F_SUBW | F_OWN, 0, 8) {
  VB x((std::size_t)(1 + (unsigned)a[1] % 5), (std::size_t)(1 + (unsigned)a[2] % 5));
  for (std::size_t k = 0; k < x.size(); k++)
    x[k] = gbool(a[3], (int)k);
  w.wb(a[0]) = x;
}
OP("subwm.make.w", F_SUBW | F_BORROW, 0, 12) {
  VW &x = w.w(a[0]);
  int n = (int)x.size();
  int r = 1 + (int)((unsigned)a[1] % 4);
  while (n % r)
    r--;
  x = matrix(x + 0.0, 0 + r, n / r);
}
OP("subwm.at", F_SUBW | F_OBS, 0, 8) {
  VD &x = *w.D[wmatd(w, a[0])];
  long nr = x.im() ? (long)x.nr() : 1, nc = x.im() ? (long)x.nc() : 1;
  at(x, gidx(a[1], 0, nr), gidx(a[2], 0, nc)) = gval(a[3], 0);
}
OP("subwm.at.d", F_SUBW | F_OBS, 0, 3) {
  VI &x = *w.I[wmati(w, a[0])];
  long nr = x.im() ? (long)x.nr() : 1, nc = x.im() ? (long)x.nc() : 1;
  at(x, (double)gidx(a[1], 0, nr), (double)gidx(a[2], 0, nc)) = gint(a[3], 0);
}
OP("subwm.expr", F_SUBW | F_CALC, 0, 8) { // matrix into a part of a matrix
  VD &x = *w.D[wmatd(w, a[0])];
  long nr = x.im() ? (long)x.nr() : 1, nc = x.im() ? (long)x.nc() : 1;
  VI r = idx_i(a[1], nr, mc(a[3])), c = idx_i(a[2], nc, mc(a[4]));
  VD m(r.size(), c.size());
  for (std::size_t k = 0; k < m.size(); k++)
    m[k] = gval(a[5], (int)k);
  if (a[6] & 1)
    subset(x, r, c) = m;
  else
    subset(x, r, c) = m * 2.0 - 1.0;
}
OP("subwm.exprind", F_SUBW | F_CALC, 0, 6) { // calculations as index
  VD &x = *w.D[wmatd(w, a[0])];
  long nr = x.im() ? (long)x.nr() : 1, nc = x.im() ? (long)x.nc() : 1;
  VI r = idx_i(a[1], nr, mc(a[3])), c = idx_i(a[2], nc, mc(a[4]));
  r = r - 1;
  VD e = c * 1.0;
  subset(x, r + 1, e * 1.0) = gval(a[5], 0);
}
OP("subwm.outside", F_SUBW | F_REJ, 0, 8) {
  VD &x = *w.D[wmatd(w, a[0])];
  long nr = x.im() ? (long)x.nr() : 1, nc = x.im() ? (long)x.nc() : 1;
  VI r = idx_i(a[1], nr, mc(a[3])), c = idx_i(a[2], nc, mc(a[4]));
  VI &k = (a[5] & 1) ? r : c;
  k[(std::size_t)((unsigned)a[6] % k.size())] =
      (a[5] & 2) ? (int)((a[5] & 1) ? nr : nc) + 1 : -(int)((unsigned)a[6] % 2);
  if (a[5] & 4)
    subset(x, r, c) = gval(a[7], 0);
  else
    subset(x, r, c) = vals(a[7], (int)(r.size() * c.size()));
}
OP("subw.many", F_SUBW, 0, 3) { // large vectors, repeated positions
  int n = 50 + (int)((unsigned)a[1] % 150);
  VD x(sz(n));
  VI i = idx_i(a[2], n, 40);
  VD v = vals(a[3], 40);
  subset(x, i) = v;
  outv(o, x);
  subset(x, x != 0.0) = 1.5;
  outv(o, x);
  w.wd(a[0]) = subset(x, i);
}
OP("subw.call", F_SUBW, 0, 4) { // x(i) is the same as subset(x, i)
  VD &x = w.wd(a[0]);
  VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));
  auto s = x(i);
  outv(o, s);
  x(i) = vals(a[3], (int)i.size());
}
OP("subw.elem.d", F_SUBW, 0, 3) { // one element of a view
  VD &x = w.wd(a[0]);
  VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));
  auto s = subset(x, i);
  outv(o, s);
  s[(std::size_t)((unsigned)a[3] % i.size())] = gval(a[4], 0);
}
OP("subw.elem.i", F_SUBW, 0, 2) {
  VI &x = w.wi(a[0]);
  VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));
  auto s = subset(x, i);
  outv(o, s);
  s[(std::size_t)((unsigned)a[3] % i.size())] = gint(a[4], 0);
}
OP("subw.elem.b", F_SUBW, 0, 2) {
  VB &x = w.wb(a[0]);
  VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));
  auto s = subset(x, i);
  outv(o, s);
  s[(std::size_t)((unsigned)a[3] % i.size())] = gbool(a[4], 0);
}
OP("subw.elem.w", F_SUBW | F_BORROW, 0, 2) {
  VW &x = w.w(a[0]);
  VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));
  auto s = subset(x, i);
  outv(o, s);
  s[(std::size_t)((unsigned)a[3] % i.size())] = gval(a[4], 0);
}
OP("subw.loop", F_SUBW, 0, 3) { // a loop over a view changes its elements
  VD &x = w.wd(a[0]);
  VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));
  auto s = subset(x, i);
  double v = gval(a[3], 0);
  for (auto &q : s) {
    q = q * 0.5 + v;
    v = v + 0.25;
  }
}
OP("subwm.elem", F_SUBW, 0, 3) {
  VD &x = *w.D[wmatd(w, a[0])];
  long nr = x.im() ? (long)x.nr() : 1, nc = x.im() ? (long)x.nc() : 1;
  VI r = idx_i(a[1], nr, mc(a[3])), c = idx_i(a[2], nc, mc(a[4]));
  auto s = subset(x, r, c);
  outv(o, s);
  s[(std::size_t)((unsigned)a[5] % s.size())] = gval(a[6], 0);
}
OP("subwm.call", F_SUBW, 0, 4) {
  VD &x = *w.D[wmatd(w, a[0])];
  long nr = x.im() ? (long)x.nr() : 1, nc = x.im() ? (long)x.nc() : 1;
  VI r = idx_i(a[1], nr, mc(a[3])), c = idx_i(a[2], nc, mc(a[4]));
  auto s = x(r, c);
  outv(o, s);
  x(r, c) = gval(a[5], 0);
}
#endif
} // namespace NS
