// reading subsets of vectors; views which outlive changes of their base
#include "help.h"
namespace NS {
static int cnt(int a) { return 1 + (int)((unsigned)a % 7); }
// subset by a scalar, a vector, an expression, a call
#define SUBR(id, T, POOL, fam)                                                     \
  OP("subr." id ".int", F_SUBR | fam, 0, 2) {                                      \
    T &x = w.POOL(a[1]);                                                           \
    auto s = subset(x, gidx(a[2], 0, (long)x.size()));                             \
    outv(o, s);                                                                    \
    w.wd(a[0]) = s;                                                                \
  }                                                                                \
  OP("subr." id ".dbl", F_SUBR | fam, 0, 1) {                                      \
    T &x = w.POOL(a[1]);                                                           \
    w.wd(a[0]) = subset(x, (double)gidx(a[2], 0, (long)x.size()));                 \
  }                                                                                \
  OP("subr." id ".true", F_SUBR | fam, 0, 2) {                                     \
    T &x = w.POOL(a[1]);                                                           \
    auto s = subset(x, true);                                                      \
    outv(o, s);                                                                    \
    w.wd(a[0]) = s;                                                                \
  }                                                                                \
  OP("subr." id ".vi", F_SUBR | fam, 0, 4) {                                       \
    T &x = w.POOL(a[1]);                                                           \
    VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));                                 \
    auto s = subset(x, i);                                                         \
    outv(o, s);                                                                    \
    w.wd(a[0]) = s;                                                                \
  }                                                                                \
  OP("subr." id ".vd", F_SUBR | fam, 0, 2) {                                       \
    T &x = w.POOL(a[1]);                                                           \
    VD i = idx_d(a[2], (long)x.size(), cnt(a[3]));                                 \
    auto s = subset(x, i);                                                         \
    outv(o, s);                                                                    \
    w.wd(a[0]) = s;                                                                \
  }                                                                                \
  OP("subr." id ".vb", F_SUBR | fam, 0, 3) {                                       \
    T &x = w.POOL(a[1]);                                                           \
    VB i = idx_b(a[2], (long)x.size());                                            \
    auto s = subset(x, i);                                                         \
    outv(o, s);                                                                    \
    w.wd(a[0]) = s;                                                                \
  }                                                                                \
  OP("subr." id ".vbrec", F_SUBR | fam, 0, 2) { /* recycled logical index */       \
    T &x = w.POOL(a[1]);                                                           \
    long m = 1 + (long)((unsigned)a[3] % x.size());                                \
    VB i = idx_b(a[2], m);                                                         \
    w.wd(a[0]) = subset(x, i);                                                     \
  }                                                                                \
  OP("subr." id ".expri", F_SUBR | fam, 0, 2) {                                    \
    T &x = w.POOL(a[1]);                                                           \
    VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));                                 \
    i = i - 1;                                                                     \
    w.wd(a[0]) = subset(x, i + 1);                                                 \
  }                                                                                \
  OP("subr." id ".exprd", F_SUBR | fam, 0, 1) {                                    \
    T &x = w.POOL(a[1]);                                                           \
    VD i = idx_d(a[2], (long)x.size(), cnt(a[3]));                                 \
    w.wd(a[0]) = subset(x, i * 2.0 / 2.0);                                         \
  }                                                                                \
  OP("subr." id ".cmp", F_SUBR | F_CMP | fam, 0, 2) {                              \
    T &x = w.POOL(a[1]);                                                           \
    w.wd(a[0]) = subset(x, x >= (double)x[(std::size_t)(gidx(a[2], 0, (long)x.size()) - 1)]); \
  }                                                                                \
  OP("subr." id ".colon", F_SUBR | F_SEQ | fam, 0, 2) {                            \
    T &x = w.POOL(a[1]);                                                           \
    int p = gidx(a[2], 0, (long)x.size()), q = gidx(a[2], 1, (long)x.size());      \
    w.wd(a[0]) = subset(x, colon(p, q));                                           \
  }                                                                                \
  OP("subr." id ".coca", F_SUBR | F_SEQ | fam, 0, 2) {                             \
    T &x = w.POOL(a[1]);                                                           \
    int p = gidx(a[2], 0, (long)x.size()), q = gidx(a[2], 1, (long)x.size());      \
    w.wd(a[0]) = subset(x, coca(p, q, p));                                         \
  }                                                                                \
  OP("subr." id ".sub", F_SUBR | fam, 0, 2) { /* the index is a subset */          \
    T &x = w.POOL(a[1]);                                                           \
    VI i = idx_i(a[2], (long)x.size(), cnt(a[3]) + 1);                             \
    w.wd(a[0]) = subset(x, subset(i, coca(2, 1)));                                 \
  }                                                                                \
  OP("subr." id ".call", F_SUBR | fam, 0, 2) {                                     \
    T &x = w.POOL(a[1]);                                                           \
    VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));                                 \
    VD y;                                                                          \
    y = subset(x, i) + 1;                                                          \
    outv(o, y);                                                                    \
    w.wd(a[0]) = subset(x, i) * subset(x, i) - gval(a[4], 0);                      \
  }                                                                                \
  OP("subr." id ".at", F_SUBR | F_OBS | fam, 0, 3) {                               \
    T &x = w.POOL(a[1]);                                                           \
    long n = (long)x.size();                                                       \
    o.num((double)at(x, gidx(a[2], 0, n)));                                        \
    o.num((double)at(x, (double)gidx(a[2], 1, n)));                                \
  }
SUBR("d", VD, d, 0)
SUBR("i", VI, i, F_CONV)
SUBR("b", VB, b, F_CONV)
SUBR("w", VW, w, F_BORROW)

// a calculation as base
#define SUBE(id, IDX, wt)                                                          \
  OP("subr.calc." id, F_SUBR | F_CALC, 0, wt) {                                    \
    VD &x = w.d(a[1]);                                                             \
    long n = (long)x.size();                                                       \
    w.wd(a[0]) = subset(x + gval(a[4], 0), IDX);                                   \
  }
SUBE("int", gidx(a[2], 0, n), 1)
SUBE("dbl", (double)gidx(a[2], 0, n), 1)
SUBE("true", true, 1)
SUBE("vi", idx_i(a[2], n, cnt(a[3])), 1)
SUBE("vd", idx_d(a[2], n, cnt(a[3])), 1)
SUBE("vb", idx_b(a[2], n), 1)
OP("subr.nested", F_SUBR, 0, 3) {
  VD &x = w.d(a[1]);
  VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));
  VI j = idx_i(a[4], (long)i.size(), cnt(a[5]));
  w.wd(a[0]) = subset(subset(x, i), j);
}
OP("subr.rvec", F_SUBR | F_SEQ, 0, 2) {
  VD &x = w.d(a[1]);
  w.wd(a[0]) = subset(coca(x, 1.0, 2.0), (int)gidx(a[2], 0, (long)x.size() + 2));
}
OP("subr.into.i", F_SUBR | F_CONV, 0, 2) {
  VI &x = w.i(a[1]);
  w.wi(a[0]) = subset(x, idx_i(a[2], (long)x.size(), cnt(a[3])));
}
OP("subr.into.b", F_SUBR | F_CONV, 0, 2) {
  VB &x = w.b(a[1]);
  w.wb(a[0]) = subset(x, idx_i(a[2], (long)x.size(), cnt(a[3])));
}
OP("subr.ctor", F_SUBR, 0, 2) {
  VD &x = w.d(a[1]);
  VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));
  VD y;
  y = subset(x, i);
  outv(o, y);
  y[0] = 99; // a copy
  outv(o, x);
}
OP("subr.length", F_SUBR | F_OBS, 0, 1) {
  VD &x = w.d(a[1]);
  VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));
  o.num((double)subset(x, i).size());
  o.num((double)subset(x, true).size());
}
OP("subr.iterate", F_SUBR | F_OBS, 0, 3) {
  VD &x = w.d(a[1]);
  VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));
  auto s = subset(x, i);
  for (auto e : s)
    o.num((double)e);
}
OP("subr.iterate.b", F_SUBR | F_OBS, 0, 1) {
  VD &x = w.d(a[1]);
  VB i = idx_b(a[2], (long)x.size());
  auto s = subset(x, i);
  for (auto e : s)
    o.num((double)e);
}
// ---- a view reads the current elements of its base ---------------------------------
OP("view.elem", F_VIEW | F_SUBR, 0, 3) {
  VD &x = w.wd(a[1]);
  VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));
  auto s = subset(x, i);
  outv(o, s);
  x[(std::size_t)(gidx(a[4], 0, (long)x.size()) - 1)] = gval(a[5], 0);
  outv(o, s);
}
OP("view.assign", F_VIEW | F_SUBR, X_NOSWEEP, 3) {
  VD &x = w.wd(a[1]);
  VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));
  auto s = subset(x, i);
  x = x + 1.0; // new memory
  outv(o, s);
  x = x * 2.0;
  VD y = s + 0.5;
  outv(o, y);
}
OP("view.grow", F_VIEW | F_SUBR, X_NOSWEEP, 3) {
  VD &x = w.wd(a[1]);
  VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));
  auto s = subset(x, i);
  x = coca(x, gval(a[4], 0), gval(a[4], 1), gval(a[4], 2));
  outv(o, s);
  for (int k = 0; k < 30; k++)
    x = coca(x, 0.25 * k);
  outv(o, s);
  x = subset(x, colon(1, 5));
  VD y;
  y = s; // may be outside of the vector now
  outv(o, y);
}
OP("view.shrink", F_VIEW | F_SUBR | F_REJ, X_NOSWEEP, 3) {
  VD &x = w.wd(a[1]);
  VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));
  auto s = subset(x, i);
  x = gval(a[4], 0); // one element is left
  VD y;
  y = s;
  outv(o, y);
}
OP("view.two", F_VIEW | F_SUBR, X_NOSWEEP, 2) {
  VD &x = w.wd(a[1]);
  VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));
  VI j = idx_i(a[4], (long)x.size(), (int)i.size());
  auto s = subset(x, i);
  auto t = subset(x, j);
  x = x - 1.0;
  VD y = s + t;
  outv(o, y);
  x[0] = gval(a[5], 0);
  VD z;
  z = s * t;
  outv(o, z);
}
OP("view.w", F_VIEW | F_SUBR | F_BORROW | F_EXT, 0, 3) {
  VW &x = w.w(a[1]);
  VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));
  auto s = subset(x, i);
  outv(o, s);
  int e = (unsigned)a[4] % NE;
  w.ext[e][(unsigned)a[5] % (unsigned)w.extn[e]] = gval(a[6], 0);
  outv(o, s);
}
OP("view.index", F_VIEW | F_SUBR, 0, 2) { // the index is copied
  VD &x = w.d(a[1]);
  VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));
  auto s = subset(x, i);
  for (std::size_t k = 0; k < i.size(); k++)
    i[k] = 1;
  outv(o, s);
  i = colon(1, 20);
  outv(o, s);
}
OP("view.matrix", F_VIEW | F_SUBM, 0, 3) {
  VD &x = w.wd(wmatd(w, a[1]) - w.sd);
  if (x.im()) {
    auto s = subset(x, true, (int)gidx(a[2], 0, (long)x.nc()));
    auto t = subset(x, (int)gidx(a[3], 0, (long)x.nr()), true);
    outv(o, s);
    outv(o, t);
    x[(std::size_t)(gidx(a[4], 0, (long)x.size()) - 1)] = gval(a[5], 0);
    outv(o, s);
    outv(o, t);
  }
}
} // namespace NS
