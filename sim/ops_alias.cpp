// the target of an assignment occurs on the right-hand side
#include "help.h"
namespace NS {
static int cnt(int a) { return 1 + (int)((unsigned)a % 7); }
#define ALI(id, T, TGT)                                                            \
  OP("alias." id ".self", F_ALIAS, 0, 1) {                                         \
    T &x = w.TGT(a[0]);                                                            \
    x = x;                                                                         \
  }                                                                                \
  OP("alias." id ".sub1", F_ALIAS | F_SUBR, 0, 1) {                                \
    T &x = w.TGT(a[0]);                                                            \
    x = subset(x, gidx(a[1], 0, (long)x.size()));                                  \
  }                                                                                \
  OP("alias." id ".sub", F_ALIAS | F_SUBR, 0, 3) {                                 \
    T &x = w.TGT(a[0]);                                                            \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));                                 \
    x = subset(x, i);                                                              \
  }                                                                                \
  OP("alias." id ".subb", F_ALIAS | F_SUBR, 0, 2) {                                \
    T &x = w.TGT(a[0]);                                                            \
    VB i = idx_b(a[1], (long)x.size());                                            \
    x = subset(x, i);                                                              \
  }                                                                                \
  OP("alias." id ".reverse", F_ALIAS | F_SUBR, 0, 3) {                             \
    T &x = w.TGT(a[0]);                                                            \
    x = subset(x, colon((int)x.size(), 1));                                        \
  }                                                                                \
  OP("alias." id ".coca", F_ALIAS | F_SEQ, 0, 2) {                                 \
    T &x = w.TGT(a[0]);                                                            \
    x = coca(x, x);                                                                \
  }                                                                                \
  OP("alias." id ".coca2", F_ALIAS | F_SEQ, 0, 1) {                                \
    T &x = w.TGT(a[0]);                                                            \
    x = coca(x, (double)gint(a[1], 0), x);                                         \
  }                                                                                \
  OP("alias." id ".rep", F_ALIAS | F_SEQ, 0, 1) {                                  \
    T &x = w.TGT(a[0]);                                                            \
    if (x.size() < 60)                                                             \
      x = rep(x, 1 + (int)((unsigned)a[1] % 3));                                   \
  }                                                                                \
  /* parts of the vector are moved within the vector */                           \
  OP("alias." id ".shiftup", F_ALIAS | F_SUBW | F_SUBR, 0, 3) {                    \
    T &x = w.TGT(a[0]);                                                            \
    int n = (int)x.size();                                                         \
    if (n > 1)                                                                     \
      subset(x, colon(2, n)) = subset(x, colon(1, n - 1));                         \
  }                                                                                \
  OP("alias." id ".shiftdown", F_ALIAS | F_SUBW | F_SUBR, 0, 3) {                  \
    T &x = w.TGT(a[0]);                                                            \
    int n = (int)x.size();                                                         \
    if (n > 1)                                                                     \
      subset(x, colon(1, n - 1)) = subset(x, colon(2, n));                         \
  }                                                                                \
  OP("alias." id ".swap2", F_ALIAS | F_SUBW | F_SUBR, 0, 3) {                      \
    T &x = w.TGT(a[0]);                                                            \
    int p = gidx(a[1], 0, (long)x.size()), q = gidx(a[1], 1, (long)x.size());      \
    VI i = coca(p, q);                                                             \
    VI j = coca(q, p);                                                             \
    subset(x, i) = subset(x, j);                                                   \
  }                                                                                \
  OP("alias." id ".perm", F_ALIAS | F_SUBW | F_SUBR, 0, 4) {                       \
    T &x = w.TGT(a[0]);                                                            \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[3]));                                 \
    VI j = idx_i(a[2], (long)x.size(), (int)i.size());                             \
    subset(x, i) = subset(x, j);                                                   \
  }                                                                                \
  OP("alias." id ".revsub", F_ALIAS | F_SUBW | F_SUBR, 0, 2) {                     \
    T &x = w.TGT(a[0]);                                                            \
    int n = (int)x.size();                                                         \
    subset(x, colon(1, n)) = subset(x, colon(n, 1));                               \
  }                                                                                \
  OP("alias." id ".subwhole", F_ALIAS | F_SUBW, 0, 2) {                            \
    T &x = w.TGT(a[0]);                                                            \
    int n = (int)x.size();                                                         \
    subset(x, colon(n, 1)) = x;                                                    \
  }                                                                                \
  OP("alias." id ".subtrue", F_ALIAS | F_SUBW, 0, 1) {                             \
    T &x = w.TGT(a[0]);                                                            \
    subset(x, true) = subset(x, colon((int)x.size(), 1));                          \
  }
ALI("d", VD, wd)
ALI("i", VI, wi)
ALI("b", VB, wb)
ALI("w", VW, w)

#define ALIC(id, T, TGT)                                                           \
  OP("alias." id ".dbl", F_ALIAS | F_CALC, 0, 3) {                                 \
    T &x = w.TGT(a[0]);                                                            \
    x = x + x;                                                                     \
    if ((double)x[0] > 1e6 || (double)x[0] < -1e6)                                 \
      x = x * 0;                                                                   \
  }                                                                                \
  OP("alias." id ".affine", F_ALIAS | F_CALC, 0, 3) {                              \
    T &x = w.TGT(a[0]);                                                            \
    x = x * gint(a[1], 0) - x + gint(a[1], 1);                                     \
  }                                                                                \
  OP("alias." id ".neg", F_ALIAS | F_UNARY, 0, 2) {                                \
    T &x = w.TGT(a[0]);                                                            \
    x = -x;                                                                        \
  }                                                                                \
  OP("alias." id ".addrev", F_ALIAS | F_CALC | F_SUBR, 0, 4) {                     \
    T &x = w.TGT(a[0]);                                                            \
    x = x + subset(x, colon((int)x.size(), 1)) * 1;                                \
  }                                                                                \
  OP("alias." id ".recyc", F_ALIAS | F_CALC | F_SUBR, 0, 3) {                      \
    T &x = w.TGT(a[0]);                                                            \
    VI i = idx_i(a[1], (long)x.size(), 1 + (int)((unsigned)a[2] % x.size()));      \
    x = subset(x, i) - x;                                                          \
  }                                                                                \
  OP("alias." id ".subacc", F_ALIAS | F_CALC | F_SUBW | F_SUBR, 0, 3) {            \
    T &x = w.TGT(a[0]);                                                            \
    VI i = idx_i(a[1], (long)x.size(), cnt(a[3]));                                 \
    VI j = idx_i(a[2], (long)x.size(), (int)i.size());                             \
    subset(x, i) = subset(x, i) + subset(x, j) * 2;                                \
  }                                                                                \
  OP("alias." id ".first", F_ALIAS | F_CALC | F_SUBR, 0, 3) {                      \
    T &x = w.TGT(a[0]); /* each element minus the first */                         \
    x = x - subset(x, gidx(a[1], 0, (long)x.size()));                              \
  }                                                                                \
  OP("alias." id ".maskw", F_ALIAS | F_CMP | F_SUBW, 0, 2) {                       \
    T &x = w.TGT(a[0]);                                                            \
    double v = (double)x[(std::size_t)(gidx(a[1], 0, (long)x.size()) - 1)];        \
    subset(x, x <= v) = subset(x, x <= v) + 1;                                     \
  }                                                                                \
  OP("alias." id ".maskr", F_ALIAS | F_CMP | F_SUBR, 0, 2) {                       \
    T &x = w.TGT(a[0]);                                                            \
    double v = (double)x[(std::size_t)(gidx(a[1], 0, (long)x.size()) - 1)];        \
    x = subset(x, x >= v);                                                         \
  }                                                                                \
  OP("alias." id ".cmp", F_ALIAS | F_CMP, 0, 2) {                                  \
    T &x = w.TGT(a[0]);                                                            \
    x = x > (double)x[0];                                                          \
  }
ALIC("d", VD, wd)
ALIC("i", VI, wi)
ALIC("w", VW, w)

// the vector is used as its own index
OP("alias.index.read", F_ALIAS | F_SUBR, 0, 3) {
  VI &x = w.wi(a[0]);
  VI i = idx_i(a[1], (long)x.size(), (int)x.size());
  o.num((double)i.size());
  x = subset(i, i);
}
OP("alias.index.own", F_ALIAS | F_SUBR | F_SUBW, X_NOSWEEP, 3) {
  VI &x = w.wi(a[0]);
  x = idx_i(a[1], (long)x.size(), (int)x.size());
  x = subset(x, x);
  outv(o, x);
  subset(x, x) = x;
}
OP("alias.index.calc", F_ALIAS | F_SUBR, X_NOSWEEP, 2) {
  VI &x = w.wi(a[0]);
  x = idx_i(a[1], (long)x.size(), (int)x.size());
  x = subset(x, x) + x;
}
OP("alias.index.dbl", F_ALIAS | F_SUBR | F_SUBW, X_NOSWEEP, 2) {
  VD &x = w.wd(a[0]);
  x = idx_d(a[1], (long)x.size(), (int)x.size());
  subset(x, x) = subset(x, x) + 0.0;
}
OP("alias.index.lgl", F_ALIAS | F_SUBR, 0, 2) {
  VB &x = w.wb(a[0]);
  x = subset(x, x);
}
OP("alias.index.lglw", F_ALIAS | F_SUBW, 0, 2) {
  VB &x = w.wb(a[0]);
  subset(x, x) = false;
}
OP("alias.index.colon", F_ALIAS | F_SEQ, 0, 2) {
  VI &x = w.wi(a[0]);
  x = colon(1, (int)x.size());
}
// matrices
OP("alias.m.rows", F_ALIAS | F_SUBM, 0, 3) {
  VD &x = *w.D[wmatd(w, a[0])];
  if (x.im()) {
    VI r = idx_i(a[1], (long)x.nr(), 1 + (int)((unsigned)a[2] % 3));
    VI c = idx_i(a[3], (long)x.nc(), 1 + (int)((unsigned)a[4] % 3));
    x = subset(x, r, c);
  }
}
OP("alias.m.row", F_ALIAS | F_SUBM, 0, 1) {
  VD &x = *w.D[wmatd(w, a[0])];
  if (x.im())
    x = subset(x, gidx(a[1], 0, (long)x.nr()), true);
}
OP("alias.m.flip", F_ALIAS | F_SUBM, 0, 2) {
  VD &x = *w.D[wmatd(w, a[0])];
  if (x.im())
    x = subset(x, colon((int)x.nr(), 1), colon((int)x.nc(), 1));
}
OP("alias.m.fliprows", F_ALIAS | F_SUBM | F_SUBW, 0, 3) {
  VD &x = *w.D[wmatd(w, a[0])];
  if (x.im())
    subset(x, colon((int)x.nr(), 1), true) = subset(x, colon(1, (int)x.nr()), true);
}
OP("alias.m.swapcols", F_ALIAS | F_SUBM | F_SUBW, 0, 3) {
  VD &x = *w.D[wmatd(w, a[0])];
  if (x.im() && x.nc() > 1) {
    VI p = coca(1, 2);
    VI q = coca(2, 1);
    subset(x, true, p) = subset(x, true, q);
  }
}
OP("alias.m.swaprows.i", F_ALIAS | F_SUBM | F_SUBW, 0, 2) {
  VI &x = *w.I[wmati(w, a[0])];
  if (x.im() && x.nr() > 1) {
    VI p = coca(1, 2);
    VI q = coca(2, 1);
    subset(x, p, true) = subset(x, q, true);
  }
}
OP("alias.m.row2col", F_ALIAS | F_SUBM | F_SUBW, 0, 2) {
  VD &x = *w.D[wmatd(w, a[0])];
  if (x.im() && x.nr() == x.nc())
    subset(x, gidx(a[1], 0, (long)x.nr()), true) =
        subset(x, true, gidx(a[2], 0, (long)x.nc()));
}
OP("alias.m.calc", F_ALIAS | F_CALC, 0, 2) {
  VD &x = *w.D[wmatd(w, a[0])];
  x = x * 0.5 + x;
}
OP("alias.m.addrow", F_ALIAS | F_CALC | F_SUBM, 0, 2) {
  VD &x = *w.D[wmatd(w, a[0])];
  if (x.im())
    x = x + subset(x, true, 1);
}
OP("alias.m.matrix", F_ALIAS | F_SEQ, 0, 2) {
  VD &x = w.wd(a[0]);
  int n = (int)x.size();
  x = matrix(x + 0.0, 0 + n, 1 + 0);
}
OP("alias.m.tovec", F_ALIAS | F_SUBR, 0, 1) {
  VD &x = *w.D[wmatd(w, a[0])];
  x = subset(x, colon(1, (int)x.size()));
}
// overlapping views of the memory of the caller
OP("alias.view.copy", F_ALIAS | F_BORROW, 0, 3) {
  VW &x = *w.W[0], &y = *w.W[2];
  if (y.size() <= x.size() && (a[0] & 1)) {
    if (y.size() == x.size())
      x = y;
    else
      subset(x, colon(1, (int)y.size())) = y;
  } else if (x.size() >= y.size())
    y = subset(x, colon(1, (int)y.size()));
}
OP("alias.view.calc", F_ALIAS | F_BORROW | F_CALC, 0, 3) {
  VW &x = *w.W[0], &y = *w.W[2];
  if (y.size() <= x.size()) {
    if (a[0] & 1)
      x = x - y;
    else
      x = y * 0.5 + x;
  }
}
OP("alias.view.sub", F_ALIAS | F_BORROW | F_SUBW, 0, 3) {
  VW &x = *w.W[0], &y = *w.W[2];
  int m = 1 + (int)((unsigned)a[1] % 5);
  VI i = idx_i(a[2], (long)x.size(), m);
  VI j = idx_i(a[3], (long)y.size(), m);
  if (a[0] & 1)
    subset(x, i) = subset(y, j);
  else
    subset(y, j) = subset(x, i) + 1.0;
}
OP("alias.view.rev", F_ALIAS | F_BORROW, 0, 2) {
  VW &x = *w.W[0], &y = *w.W[2];
  if (a[0] & 1)
    x = subset(x, colon((int)x.size(), 1));
  else
    y = subset(y, colon((int)y.size(), 1)) + y;
}
OP("alias.view.thrud", F_ALIAS | F_BORROW | F_CALC, 0, 1) { // D through both
  VW &x = *w.W[0], &y = *w.W[2];
  w.wd(a[0]) = x + y;
}
// both sides of a stored expression refer to the target
OP("alias.stored", F_ALIAS | F_CALC, 0, 3) {
  VD &x = w.wd(a[0]);
  auto e = x + x;
  x = e;
  if ((double)x[0] > 1e6 || (double)x[0] < -1e6)
    x = 0.0;
}
OP("alias.storedsub", F_ALIAS | F_SUBR, 0, 3) {
  VD &x = w.wd(a[0]);
  VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));
  auto s = subset(x, i);
  x = s;
}
OP("alias.storedsub2", F_ALIAS | F_SUBR | F_SUBW, 0, 2) {
  VD &x = w.wd(a[0]);
  int n = (int)x.size();
  auto s = subset(x, colon(1, n));
  auto t = subset(x, colon(n, 1));
  s = t;
}
// two views of one part of the memory, shifted against each other
struct Pair2 {
  double *p;
  int n, o1, o2;
};
static Pair2 shifted(World &w, const int *a) {
  int e = (int)((unsigned)a[0] % NE);
  int all = w.extn[e];
  int n = 1 + (int)((unsigned)a[1] % (unsigned)all);
  int o1 = (int)((unsigned)a[2] % (unsigned)(all - n + 1));
  int o2 = (int)((unsigned)a[3] % (unsigned)(all - n + 1));
  if (o1 == o2 && n > 1 && n == all) { // leave room for a shift
    n = n - 1 - (int)((unsigned)a[4] % 2) % n;
    n = n < 1 ? 1 : n;
    o1 = (a[2] >> 3) & 1;
    o2 = 1 - o1;
  }
  return Pair2{w.ext[e], n, o1, o2};
}
#define SHIFTED(id, ...)                                                           \
  OP("alias.shift." id, F_ALIAS | F_BORROW, 0, 2) {                                \
    Pair2 q = shifted(w, a);                                                       \
    std::size_t n = (std::size_t)q.n;                                              \
    VW x(q.p + q.o1, n), y(q.p + q.o2, n);                                         \
    __VA_ARGS__                                                                    \
    outv(o, x);                                                                    \
    outv(o, y);                                                                    \
  }
SHIFTED("copy", x = y;)
SHIFTED("calc", x = y * 2.0;)
SHIFTED("calc2", x = y - x;)
SHIFTED("neg", x = -y;)
SHIFTED("all", x = subset(y, true);)
SHIFTED("rev", x = subset(y, colon((int)n, 1));)
SHIFTED("suball", subset(x, true) = y;)
SHIFTED("subrev", subset(x, colon((int)n, 1)) = y;)
SHIFTED("subcalc", subset(x, colon(1, (int)n)) = y + 1.0;)
SHIFTED("subsub", subset(x, colon((int)n, 1)) = subset(y, colon(1, (int)n));)
SHIFTED("copied", VW z = y; x = z;)
SHIFTED("grow", x.resize(1 + (n - 1) / 2); x = y;)
SHIFTED("growc", x.resize(1 + (n - 1) / 2); x = x + y;)
SHIFTED("viad", VD v = y + 0.0; x = v;)
SHIFTED("stored", auto e = y + 1.0; x = e;)
SHIFTED("coca", x = subset(coca(x, y), colon((int)n, 2 * (int)n - 1));)
} // namespace NS
