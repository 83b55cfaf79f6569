// invalid requests
#include "help.h"
namespace NS {
static VD one(double x) {
  VD r = coca(x);
  return r;
}
static int cnt(int a) { return 1 + (int)((unsigned)a % 7); }
static int over(int a, long n) { return (int)n + 1 + (int)((unsigned)a % 5); }
static int under(int a) { return -(int)((unsigned)a % 4); }
static int bad(int a, long n) { return (a & 1) ? over(a >> 1, n) : under(a >> 1); }
#define REJ(id, T, POOL, WPOOL)                                                    \
  OP("rej." id ".index", F_REJ | F_OBS, 0, 2) {                                    \
    T &x = w.POOL(a[0]);                                                           \
    o.num((double)x[x.size() + (unsigned)a[1] % 4]);                               \
  }                                                                                \
  OP("rej." id ".at", F_REJ | F_OBS, 0, 2) {                                       \
    T &x = w.POOL(a[0]);                                                           \
    o.num((double)at(x, bad(a[1], (long)x.size())));                               \
  }                                                                                \
  OP("rej." id ".atd", F_REJ | F_OBS, 0, 1) {                                      \
    T &x = w.POOL(a[0]);                                                           \
    o.num((double)at(x, (double)bad(a[1], (long)x.size())));                       \
  }                                                                                \
  OP("rej." id ".atw", F_REJ | F_OBS, 0, 2) {                                      \
    T &x = w.WPOOL(a[0]);                                                          \
    at(x, bad(a[1], (long)x.size())) = gbool(a[2], 0);                             \
  }                                                                                \
  OP("rej." id ".atm", F_REJ | F_OBS | F_SUBM, 0, 2) {                             \
    T &x = w.POOL(a[0]);                                                           \
    if (!x.im() || (a[1] & 1))                                                     \
      o.num((double)at(x, bad(a[2], (long)x.nr()), gidx(a[3], 0, (long)x.nc())));  \
    else                                                                           \
      o.num((double)at(x, gidx(a[2], 0, (long)x.nr()), bad(a[3], (long)x.nc())));  \
  }                                                                                \
  OP("rej." id ".atmw", F_REJ | F_OBS | F_SUBM, 0, 2) {                            \
    T &x = w.WPOOL(a[0]);                                                          \
    if (!x.im() || (a[1] & 1))                                                     \
      at(x, gidx(a[2], 0, (long)x.nr()), bad(a[3], (long)x.nc())) = 1;             \
    else                                                                           \
      at(x, bad(a[2], (long)x.nr()), gidx(a[3], 0, (long)x.nc())) = 1;             \
  }                                                                                \
  OP("rej." id ".sub", F_REJ | F_SUBR, 0, 2) {                                     \
    T &x = w.POOL(a[1]);                                                           \
    w.wd(a[0]) = subset(x, bad(a[2], (long)x.size()));                             \
  }                                                                                \
  OP("rej." id ".subd", F_REJ | F_SUBR, 0, 1) {                                    \
    T &x = w.POOL(a[1]);                                                           \
    w.wd(a[0]) = subset(x, (double)bad(a[2], (long)x.size()));                     \
  }                                                                                \
  OP("rej." id ".subv", F_REJ | F_SUBR, 0, 2) {                                    \
    T &x = w.POOL(a[1]);                                                           \
    VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));                                 \
    i[(std::size_t)((unsigned)a[4] % i.size())] = bad(a[5], (long)x.size());       \
    w.wd(a[0]) = subset(x, i);                                                     \
  }                                                                                \
  OP("rej." id ".subvd", F_REJ | F_SUBR, 0, 1) {                                   \
    T &x = w.POOL(a[1]);                                                           \
    VD i = idx_d(a[2], (long)x.size(), cnt(a[3]));                                 \
    i[(std::size_t)((unsigned)a[4] % i.size())] = bad(a[5], (long)x.size());       \
    w.wd(a[0]) = subset(x, i);                                                     \
  }                                                                                \
  OP("rej." id ".subfalse", F_REJ | F_SUBR, 0, 1) {                                \
    T &x = w.POOL(a[1]);                                                           \
    VB i(sz((int)x.size()));                                                       \
    w.wd(a[0]) = subset(x, i);                                                     \
  }                                                                                \
  OP("rej." id ".sub1false", F_REJ | F_SUBR, 0, 1) {                               \
    T &x = w.POOL(a[1]);                                                           \
    w.wd(a[0]) = subset(x, false);                                                 \
  }                                                                                \
  OP("rej." id ".subcolon", F_REJ | F_SUBR, 0, 1) {                                \
    T &x = w.POOL(a[1]);                                                           \
    w.wd(a[0]) = subset(x, colon(1, over(a[2], (long)x.size())));                  \
  }                                                                                \
  OP("rej." id ".subcolon0", F_REJ | F_SUBR, 0, 1) {                               \
    T &x = w.POOL(a[1]);                                                           \
    w.wd(a[0]) = subset(x, colon(0, (int)x.size()));                               \
  }                                                                                \
  OP("rej." id ".subm", F_REJ | F_SUBM, 0, 3) {                                    \
    T &x = w.POOL(a[1]);                                                           \
    VI r = idx_i(a[2], x.im() ? (long)x.nr() : 1, 2);                              \
    VI c = idx_i(a[3], x.im() ? (long)x.nc() : 1, 2);                              \
    if (x.im()) {                                                                  \
      if (a[4] & 1)                                                                \
        r[(std::size_t)((unsigned)a[5] % 2)] = bad(a[6], (long)x.nr());            \
      else                                                                         \
        c[(std::size_t)((unsigned)a[5] % 2)] = bad(a[6], (long)x.nc());            \
    }                                                                              \
    w.wd(a[0]) = subset(x, r, c);                                                  \
  }                                                                                \
  OP("rej." id ".subms", F_REJ | F_SUBM, 0, 2) {                                   \
    T &x = w.POOL(a[1]);                                                           \
    if (!x.im() || (a[2] & 1))                                                     \
      w.wd(a[0]) = subset(x, bad(a[3], (long)x.nr()), true);                       \
    else                                                                           \
      w.wd(a[0]) = subset(x, true, bad(a[3], (long)x.nc()));                       \
  }                                                                                \
  OP("rej." id ".wsub", F_REJ | F_SUBW, 0, 2) {                                    \
    T &x = w.WPOOL(a[0]);                                                          \
    subset(x, bad(a[1], (long)x.size())) = gbool(a[2], 0);                         \
  }                                                                                \
  OP("rej." id ".wsubv", F_REJ | F_SUBW, 0, 2) {                                   \
    T &x = w.WPOOL(a[0]);                                                          \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]) + 1);                             \
    i[(std::size_t)((unsigned)a[3] % i.size())] = bad(a[4], (long)x.size());       \
    subset(x, i) = gint(a[5], 0);                                                  \
  }                                                                                \
  OP("rej." id ".wlen", F_REJ | F_SUBW, 0, 2) {                                    \
    T &x = w.WPOOL(a[0]);                                                          \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]) + 1);                             \
    VI v(sz((int)i.size() + ((a[3] & 1) ? 1 : -1)));                               \
    subset(x, i) = v;                                                              \
  }                                                                                \
  OP("rej." id ".wlenx", F_REJ | F_SUBW | F_CALC, 0, 2) {                          \
    T &x = w.WPOOL(a[0]);                                                          \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]) + 1);                             \
    VD v(sz((int)i.size() + ((a[3] & 1) ? 1 : -1)));                               \
    subset(x, i) = v * 2.0 + 1.0;                                                  \
  }                                                                                \
  OP("rej." id ".wfalse", F_REJ | F_SUBW, 0, 1) {                                  \
    T &x = w.WPOOL(a[0]);                                                          \
    VB i(sz((int)x.size()));                                                       \
    subset(x, i) = gbool(a[2], 0);                                                 \
  }                                                                                \
  OP("rej." id ".wsubm", F_REJ | F_SUBW | F_SUBM, 0, 2) {                          \
    T &x = w.WPOOL(a[0]);                                                          \
    if (!x.im() || (a[2] & 1))                                                     \
      subset(x, bad(a[3], (long)x.nr()), true) = gbool(a[4], 0);                   \
    else                                                                           \
      subset(x, true, bad(a[3], (long)x.nc())) = gbool(a[4], 0);                   \
  }                                                                                \
  OP("rej." id ".rhs", F_REJ | F_SUBR | F_CALC, 0, 2) { /* within a calculation */ \
    T &x = w.POOL(a[1]);                                                           \
    VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));                                 \
    i[(std::size_t)((unsigned)a[4] % i.size())] = bad(a[5], (long)x.size());       \
    w.wd(a[0]) = w.d(a[6]) * 2.0 + subset(x, i);                                   \
  }
#ifndef PART
#define PART -1
#endif
#if PART == 0
REJ("d", VD, d, wd)
#elif PART == 1
REJ("i", VI, i, wi)
#elif PART == 2
REJ("b", VB, b, wb)
#elif PART == 3
REJ("w", VW, w, w)
#elif PART == 4
// ---- lengths --------------------------------------------------------------------
OP("rej.rep", F_REJ | F_SEQ, 0, 2) { w.wd(a[0]) = rep(w.d(a[1]), under(a[2])); }
OP("rej.rep2", F_REJ | F_SEQ, 0, 1) { w.wi(a[0]) = rep(gint(a[1], 0), under(a[2])); }
OP("rej.matrix", F_REJ | F_SEQ, 0, 2) { w.wd(a[0]) = matrix(gval(a[1], 0), under(a[2]), cnt(a[3])); }
OP("rej.matrix2", F_REJ | F_SEQ, 0, 2) { w.wd(a[0]) = matrix(gval(a[1], 0), cnt(a[3]), under(a[2])); }
OP("rej.matrix3", F_REJ | F_SEQ, 0, 3) {
  int r = cnt(a[2]), c = cnt(a[3]);
  w.wd(a[0]) = matrix(colon(1, r * c + 1 + (int)((unsigned)a[4] % 3)), 0 + r, 0 + c);
}
OP("rej.matrix4", F_REJ | F_SEQ, 0, 2) { // too few elements
  int r = cnt(a[2]) + 1, c = cnt(a[3]) + 1;
  w.wd(a[0]) = matrix(colon(1, r * c - 1), 0 + r, 0 + c);
}
OP("rej.vector", F_REJ | F_SEQ, 0, 2) { w.wd(a[0]) = vector_numeric(under(a[1])); }
OP("rej.vectori", F_REJ | F_SEQ, 0, 1) { w.wi(a[0]) = vector_integer(under(a[1])); }
OP("rej.vectorl", F_REJ | F_SEQ, 0, 1) { w.wb(a[0]) = vector_logical(under(a[1])); }
OP("rej.vectorv", F_REJ | F_SEQ, 0, 2) { // the length has to be one number
  VI n = coca(cnt(a[1]), cnt(a[2]));
  w.wd(a[0]) = vector_numeric(n);
}
OP("rej.resize", F_REJ | F_GROW, 0, 2) { w.wd(a[0]).resize(0); }
OP("rej.ctor", F_REJ | F_OWN, 0, 1) {
  VD x(sz(0));
  outv(o, x);
}
OP("rej.ctorm", F_REJ | F_OWN, 0, 1) {
  VD x((std::size_t)0, (std::size_t)cnt(a[1]));
  outv(o, x);
}
// ---- empty vectors ----------------------------------------------------------------
OP("rej.empty", F_REJ | F_OWN, 0, 3) {
  VD e;
  w.wd(a[0]) = e;
}
OP("rej.emptycalc", F_REJ | F_CALC, 0, 3) {
  VD e;
  w.wd(a[0]) = e + w.d(a[1]);
}
OP("rej.emptycalc2", F_REJ | F_CALC, 0, 2) {
  VD e;
  w.wd(a[0]) = w.d(a[1]) * e - 1.0;
}
OP("rej.emptysub", F_REJ | F_SUBR, 0, 2) {
  VD e;
  w.wd(a[0]) = subset(e, cnt(a[1]));
}
OP("rej.emptyat", F_REJ | F_OBS, 0, 2) {
  VD e;
  o.num((double)at(e, 1));
}
OP("rej.emptyindex", F_REJ | F_OBS, 0, 2) {
  VD e;
  o.num((double)e[(std::size_t)((unsigned)a[0] % 3)]);
}
OP("rej.emptyscalar", F_REJ | F_OBS, 0, 2) {
  VD e;
  double x = e;
  o.num(x);
}
OP("rej.emptysubindex", F_REJ | F_SUBR, 0, 2) {
  VI e;
  w.wd(a[0]) = subset(w.d(a[1]), e);
}
OP("rej.emptysubl", F_REJ | F_SUBR, 0, 2) {
  VB e;
  w.wd(a[0]) = subset(w.d(a[1]), e);
}
// ---- vectors which are no matrices ---------------------------------------------------
OP("rej.dim", F_REJ | F_OBS, 0, 2) {
  VI d = dim(w.d(a[0]));
  outv(o, d);
}
OP("rej.dimi", F_REJ | F_OBS, 0, 1) {
  VI d = dim(w.i(a[0]));
  outv(o, d);
}
OP("rej.vecsubm", F_REJ | F_SUBM, 0, 2) {
  VD &x = w.d(a[1]);
  if (!x.im())
    w.wd(a[0]) = subset(x, true, 1);
}
OP("rej.vecsubmw", F_REJ | F_SUBM | F_SUBW, 0, 2) {
  VD &x = w.wd(a[1]);
  if (!x.im())
    subset(x, 1, 1) = 2.0;
}
OP("rej.calcsubm", F_REJ | F_SUBM | F_CALC, 0, 2) {
  VD &x = w.d(a[1]);
  if (!x.im())
    w.wd(a[0]) = subset(x + 1.0, 1, 1);
}
OP("rej.calcat", F_REJ | F_SUBM | F_CALC, 0, 2) {
  VD &x = w.d(matd(w, a[1]));
  if (x.im())
    o.num((double)at(x + 1.0, bad(a[2], (long)x.nr()), 1));
}
OP("rej.calcsub", F_REJ | F_SUBR | F_CALC, 0, 2) {
  VD &x = w.d(a[1]);
  w.wd(a[0]) = subset(x * 2.0, bad(a[2], (long)x.size()));
}
OP("rej.calcsubv", F_REJ | F_SUBR | F_CALC, 0, 2) {
  VD &x = w.d(a[1]);
  VI i = idx_i(a[2], (long)x.size(), cnt(a[3]));
  i[(std::size_t)((unsigned)a[4] % i.size())] = bad(a[5], (long)x.size());
  w.wd(a[0]) = subset(x * 2.0, i);
}
OP("rej.li", F_REJ | F_INTERP, 0, 2) {
  VD t = colon(1, 4) * 1.0, y = colon(1, 3) * 2.0;
  o.num(li(one(gval(a[0], 0)), t, y));
}
OP("rej.litime", F_REJ | F_INTERP, 0, 2) {
  VD t = colon(1, 4) * 1.0, y = colon(1, 4) * 2.0;
  VD p = coca(1.5, 2.5);
  o.num(li(p, t, y));
}
#endif
} // namespace NS
