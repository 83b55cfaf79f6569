// reading parts of matrices: every kind of index for rows and columns
#include "kinds.h"
namespace NS {
static int mc(int a) { return 1 + (int)((unsigned)a % 4); }
#define RI_int(n, a) gidx(a, 0, n)
#define RI_dbl(n, a) (double)gidx(a, 0, n)
#define RI_true(n, a) true
#define RI_vi(n, a) idx_i(a, n, mc(a))
#define RI_vd(n, a) idx_d(a, n, mc(a))
#define RI_vb(n, a) idx_b(a, n)
#define RI_vbs(n, a) idx_b(a, 1 + (long)((unsigned)(a) % (unsigned)(n)))
#define RI_vbl(n, a) idx_b(a, (n) + 1 + (long)((unsigned)(a) % 3))
#define SUBM(id, MAT, T, TGT, fam, R, C)                                           \
  OP("subm." id "." #R "." #C, F_SUBM | fam, 0, 1) {                               \
    Mat<T> mm(MAT, a[4]);                                                          \
    T &x = *mm.x;                                                                  \
    long nr = x.im() ? (long)x.nr() : 2, nc = x.im() ? (long)x.nc() : 2;           \
    auto &&r = RI_##R(nr, a[2]);                                                   \
    auto &&c = RI_##C(nc, a[3]);                                                   \
    auto s = subset(x, r, c);                                                      \
    outv(o, s);                                                                    \
    w.TGT(a[0]) = s;                                                               \
  }
#define SUBM_ROW(id, MAT, T, TGT, fam, R)                                          \
  SUBM(id, MAT, T, TGT, fam, R, int)                                               \
  SUBM(id, MAT, T, TGT, fam, R, dbl)                                               \
  SUBM(id, MAT, T, TGT, fam, R, true)                                              \
  SUBM(id, MAT, T, TGT, fam, R, vi)                                                \
  SUBM(id, MAT, T, TGT, fam, R, vd)                                                \
  SUBM(id, MAT, T, TGT, fam, R, vb)
/* masks which are recycled or too long beside one number */
#define SUBM_MASK(id, MAT, T, TGT, fam)                                            \
  SUBM(id, MAT, T, TGT, fam, int, vbs)                                             \
  SUBM(id, MAT, T, TGT, fam, dbl, vbs)                                             \
  SUBM(id, MAT, T, TGT, fam, vbs, int)                                             \
  SUBM(id, MAT, T, TGT, fam, vbs, dbl)                                             \
  SUBM(id, MAT, T, TGT, fam | F_REJ, int, vbl)                                     \
  SUBM(id, MAT, T, TGT, fam | F_REJ, dbl, vbl)                                     \
  SUBM(id, MAT, T, TGT, fam | F_REJ, vbl, int)                                     \
  SUBM(id, MAT, T, TGT, fam | F_REJ, vbl, dbl)
#define SUBM_ALL(id, MAT, T, TGT, fam)                                             \
  SUBM_MASK(id, MAT, T, TGT, fam)                                                  \
  SUBM_ROW(id, MAT, T, TGT, fam, int)                                              \
  SUBM_ROW(id, MAT, T, TGT, fam, dbl)                                              \
  SUBM_ROW(id, MAT, T, TGT, fam, true)                                             \
  SUBM_ROW(id, MAT, T, TGT, fam, vi)                                               \
  SUBM_ROW(id, MAT, T, TGT, fam, vd)                                               \
  SUBM_ROW(id, MAT, T, TGT, fam, vb)
#ifndef PART
#define PART 0
#endif
#if PART == 0
SUBM_ALL("d", w.d(matd(w, a[1])), VD, wd, 0)
#elif PART == 1
SUBM_ALL("i", w.i(mati(w, a[1])), VI, wi, F_CONV)
#elif PART == 2
// a matrix in borrowed memory
static VW &matw(World &w, int k) {
  VW &x = w.w(k);
  return x;
}
OP("subm.make.w", F_SUBM | F_BORROW, 0, 30) {
  VW &x = w.w(a[0]);
  int n = (int)x.size();
  int r = 1 + (int)((unsigned)a[1] % 4);
  while (n % r)
    r--;
  x = matrix(x + 0.0, 0 + r, n / r);
}
SUBM_ALL("w", matw(w, a[1]), VW, wd, F_BORROW)
#elif PART == 3
// a calculation with a matrix
#define SUBC(R, C) \
  OP("subm.calc." #R "." #C, F_SUBM | F_CALC, 0, 1) { \
    Mat<VD> mm(w.d(matd(w, a[1])), a[7]); \
  VD &x = *mm.x; \
    long nr = x.im() ? (long)x.nr() : 2, nc = x.im() ? (long)x.nc() : 2; \
    auto &&r = RI_##R(nr, a[2]); \
    auto &&c = RI_##C(nc, a[3]); \
    w.wd(a[0]) = subset(x * 2.0, r, c); \
  }
#define SUBC_ROW(R)                                                                \
  SUBC(R, int) SUBC(R, dbl) SUBC(R, true) SUBC(R, vi) SUBC(R, vd) SUBC(R, vb)
SUBC_ROW(int)
SUBC_ROW(dbl)
SUBC_ROW(true)
SUBC_ROW(vi)
SUBC_ROW(vd)
SUBC_ROW(vb)
SUBC(int, vbs) SUBC(dbl, vbs) SUBC(vbs, int) SUBC(vbs, dbl)
SUBC(int, vbl) SUBC(dbl, vbl) SUBC(vbl, int) SUBC(vbl, dbl)
#elif PART == 4
SUBM_ROW("b", w.b(matb(w, a[1])), VB, wb, F_CONV, true)
SUBM_ROW("b", w.b(matb(w, a[1])), VB, wb, F_CONV, vi)
SUBM_ROW("b", w.b(matb(w, a[1])), VB, wb, F_CONV, vb)
SUBM_ROW("b", w.b(matb(w, a[1])), VB, wb, F_CONV, int)
SUBM_ROW("b", w.b(matb(w, a[1])), VB, wb, F_CONV, dbl)
SUBM_ROW("b", w.b(matb(w, a[1])), VB, wb, F_CONV, vd)
SUBM_MASK("b", w.b(matb(w, a[1])), VB, wb, F_CONV)
// expressions as index
OP("subm.expr", F_SUBM | F_CALC, 0, 8) {
  Mat<VD> mm(w.d(matd(w, a[1])), a[7]);
  VD &x = *mm.x;
  long nr = x.im() ? (long)x.nr() : 2, nc = x.im() ? (long)x.nc() : 2;
  VI r = idx_i(a[2], nr, mc(a[4]));
  r = r - 1;
  VD c = idx_d(a[3], nc, mc(a[5]));
  auto s = subset(x, r + 1, c * 1.0);
  outv(o, s);
  w.wd(a[0]) = s;
}
OP("subm.seq", F_SUBM | F_SEQ, 0, 8) {
  Mat<VD> mm(w.d(matd(w, a[1])), a[7]);
  VD &x = *mm.x;
  long nr = x.im() ? (long)x.nr() : 2, nc = x.im() ? (long)x.nc() : 2;
  w.wd(a[0]) = subset(x, colon(1, (int)gidx(a[2], 0, nr)), coca((int)gidx(a[3], 0, nc), 1));
}
OP("subm.cmp", F_SUBM | F_CMP, 0, 8) {
  Mat<VD> mm(w.d(matd(w, a[1])), a[7]);
  VD &x = *mm.x;
  long nr = x.im() ? (long)x.nr() : 2;
  VD k = colon(1, (int)nr);
  w.wd(a[0]) = subset(x, k >= (double)gidx(a[2], 0, nr), true);
}
OP("subm.call", F_SUBM, 0, 8) {
  Mat<VD> mm(w.d(matd(w, a[1])), a[7]);
  VD &x = *mm.x;
  long nr = x.im() ? (long)x.nr() : 2, nc = x.im() ? (long)x.nc() : 2;
  VI r = idx_i(a[2], nr, mc(a[4])), c = idx_i(a[3], nc, mc(a[5]));
  outv(o, -subset(x, r, c));
  w.wd(a[0]) = subset(x, r, c) + subset(x, r, c) * 2.0;
}
OP("subm.nested", F_SUBM, 0, 6) {
  Mat<VD> mm(w.d(matd(w, a[1])), a[7]);
  VD &x = *mm.x;
  long nr = x.im() ? (long)x.nr() : 2;
  VI r = idx_i(a[2], nr, mc(a[4]));
  auto s = subset(x, r, true);
  outv(o, s);
  VI q = idx_i(a[3], (long)s.size(), mc(a[5]));
  w.wd(a[0]) = subset(subset(x, r, true), q);
}
OP("subm.linear", F_SUBM | F_SUBR, 0, 8) { // one index: elements in column order
  Mat<VD> mm(w.d(matd(w, a[1])), a[7]);
  VD &x = *mm.x;
  VI q = idx_i(a[3], (long)x.size(), mc(a[5]));
  auto s = subset(x, q);
  outv(o, s);
  w.wd(a[0]) = s;
}
OP("subm.at", F_SUBM | F_OBS, 0, 12) {
  Mat<VD> mm(w.d(matd(w, a[1])), a[7]);
  VD &x = *mm.x;
  long nr = x.im() ? (long)x.nr() : 2, nc = x.im() ? (long)x.nc() : 2;
  o.num((double)at(x, gidx(a[2], 0, nr), gidx(a[3], 0, nc)));
  o.num((double)at(x, (double)gidx(a[2], 1, nr), gidx(a[3], 1, nc)));
  Mat<VI> mi(w.i(mati(w, a[4])), a[7]);
  VI &y = *mi.x;
  nr = y.im() ? (long)y.nr() : 2;
  nc = y.im() ? (long)y.nc() : 2;
  o.num((double)at(y, gidx(a[5], 0, nr), gidx(a[6], 0, nc)));
}
OP("subm.ctor", F_SUBM, 0, 6) {
  Mat<VD> mm(w.d(matd(w, a[1])), a[7]);
  VD &x = *mm.x;
  long nr = x.im() ? (long)x.nr() : 2, nc = x.im() ? (long)x.nc() : 2;
  VD y;
  y = subset(x, idx_i(a[2], nr, mc(a[4])), idx_b(a[3], nc));
  outv(o, y);
}
OP("subm.iterate", F_SUBM | F_OBS, 0, 8) {
  Mat<VD> mm(w.d(matd(w, a[1])), a[7]);
  VD &x = *mm.x;
  long nr = x.im() ? (long)x.nr() : 2, nc = x.im() ? (long)x.nc() : 2;
  auto s = subset(x, idx_i(a[2], nr, mc(a[4])), idx_i(a[3], nc, mc(a[5])));
  for (auto e : s)
    o.num((double)e);
}
OP("subm.big", F_SUBM, 0, 8) { // larger matrices
  int r = 3 + (int)((unsigned)a[1] % 12), c = 3 + (int)((unsigned)a[2] % 12);
  VD x((std::size_t)r, (std::size_t)c);
  for (int k = 0; k < r * c; k++)
    x[(std::size_t)k] = k;
  VI p = idx_i(a[3], r, 5), q = idx_i(a[4], c, 4);
  VD y;
  y = subset(x, p, q);
  outv(o, y);
  y = subset(x, idx_b(a[5], r), q);
  outv(o, y);
  y = subset(x, (int)gidx(a[6], 0, r), true);
  outv(o, y);
  w.wd(a[0]) = subset(x, true, (int)gidx(a[7], 0, c));
}
#endif
} // namespace NS
