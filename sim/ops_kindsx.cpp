// kinds of operands in subsets, elements, interpolation and scalar contexts
#include "kinds.h"
#ifndef PART
#define PART 0
#endif
namespace NS {
#if PART == 0
// ---- subsets with one index: base of every kind, index of every kind ----------------
#define KSUB(K)                                                                    \
  OP("ksub.vi." #K, F_SUBR, 0, 1) {                                                \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      long n = (long)x.size();                                                     \
      w.wd(a[0]) = subset(FWD(x), IX_vi(n, a[2]));                                 \
    });                                                                            \
  }                                                                                \
  OP("ksub.vb." #K, F_SUBR, 0, 1) {                                                \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      long n = (long)x.size();                                                     \
      VB q = idx_b(a[2], 1 + (long)((unsigned)a[3] % (unsigned)n));                \
      w.wd(a[0]) = subset(FWD(x), q);                                              \
    });                                                                            \
  }                                                                                \
  OP("ksub.num." #K, F_SUBR, 0, 1) {                                               \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      long n = (long)x.size();                                                     \
      outv(o, subset(FWD(x), IX_int(n, a[2])));                                    \
      w.wi(a[0]) = subset(FWD(x), IX_dbl(n, a[3]));                                \
    });                                                                            \
  }                                                                                \
  OP("ksub.true." #K, F_SUBR, 0, 1) {                                              \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = subset(FWD(x), true); });      \
  }
KINDS_SUB(KSUB)
#elif PART == 1
#define KIDX(K)                                                                    \
  OP("kidx.d." #K, F_SUBR, 0, 1) {                                                 \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = subset(w.d(a[2]), FWD(x)); }); \
  }                                                                                \
  OP("kidx.i." #K, F_SUBR | F_CONV, 0, 1) {                                        \
    K_##K::go(w, a[1], [&](auto &&x) { w.wi(a[0]) = subset(w.i(a[2]), FWD(x)); }); \
  }                                                                                \
  OP("kidx.w." #K, F_SUBR | F_BORROW, 0, 1) {                                      \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = subset(w.w(a[2]), FWD(x)); }); \
  }
KINDS_VEC(KIDX)
KINDS_NUM(KIDX)
#elif PART == 2
// the index is valid
#define VIDX(id, T, POOL, TGT, OUT, fam, IX)                                           \
  OP("vidx." id "." #IX, F_SUBR | fam, 0, 1) {                                     \
    T &x = w.POOL(a[1]);                                                           \
    long n = (long)x.size();                                                       \
    outv(o, subset(x, IX_##IX(n, a[2])));                                          \
    auto q = IX_##IX(n, a[3]);                                                     \
    w.OUT(a[0]) = subset(x, q);                                                    \
  }                                                                                \
  OP("vidxw." id "." #IX, F_SUBW | fam, 0, 1) {                                    \
    T &x = w.TGT(a[0]);                                                            \
    long n = (long)x.size();                                                       \
    auto q = IX_##IX(n, a[2]);                                                     \
    VD v = locv<VD>(a[3]);                                                         \
    o.num((double)subset(x, q).size());                                            \
    if ((unsigned)a[4] % 4)                                                        \
      v = rep(gval(a[3], 0), (int)subset(x, q).size());                            \
    fillv(v, a[5]);                                                                \
    subset(x, q) = v;                                                              \
  }
#define VIDX_T(id, T, POOL, TGT, OUT, fam)                                              \
  VIDX(id, T, POOL, TGT, OUT, fam, int) VIDX(id, T, POOL, TGT, OUT, fam, dbl)                \
  VIDX(id, T, POOL, TGT, OUT, fam, true) VIDX(id, T, POOL, TGT, OUT, fam, vi)                \
  VIDX(id, T, POOL, TGT, OUT, fam, vd) VIDX(id, T, POOL, TGT, OUT, fam, vb)                  \
  VIDX(id, T, POOL, TGT, OUT, fam, vbs) VIDX(id, T, POOL, TGT, OUT, fam, ri)                 \
  VIDX(id, T, POOL, TGT, OUT, fam, rd) VIDX(id, T, POOL, TGT, OUT, fam, seq)
VIDX_T("d", VD, d, wd, wd, 0)
VIDX_T("i", VI, i, wi, wi, F_CONV)
VIDX_T("b", VB, b, wb, wb, F_CONV)
VIDX_T("w", VW, w, w, wd, F_BORROW)
#elif PART == 3
// ---- elements ---------------------------------------------------------------------
#define KAT(K)                                                                     \
  OP("kat." #K, F_OBS | F_SUBM, 0, 1) {                                            \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      long nr = x.im() ? (long)x.nr() : 2, nc = x.im() ? (long)x.nc() : 2;         \
      o.num((double)at(FWD(x), gidx(a[2], 0, nr), gidx(a[3], 0, nc)));                  \
      o.num((double)at(FWD(x), gidx(a[2], 1, nr), (double)gidx(a[3], 1, nc)));          \
      o.num((double)at(FWD(x), (double)gidx(a[2], 2, nr), gidx(a[3], 2, nc)));          \
      o.num((double)at(FWD(x), (double)gidx(a[2], 3, nr), (double)gidx(a[3], 3, nc)));  \
    });                                                                            \
  }                                                                                \
  OP("kat.out." #K, F_REJ | F_SUBM, 0, 1) {                                        \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      long nr = x.im() ? (long)x.nr() : 2, nc = x.im() ? (long)x.nc() : 2;         \
      int r = (int)((unsigned)a[2] % (unsigned)(nr + 2));                          \
      int c = (int)((unsigned)a[3] % (unsigned)(nc + 2));                          \
      if ((unsigned)a[4] % 2)                                                      \
        o.num((double)at(FWD(x), 0 + r, 0 + c));                                        \
      else                                                                         \
        o.num((double)at(FWD(x), (double)r, (double)c));                                \
    });                                                                            \
  }
KINDS_AT(KAT)
#define KITER(K)                                                                   \
  OP("kiter." #K, F_OBS, 0, 1) {                                                   \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      for (auto e : x)                                                             \
        o.num((double)e);                                                          \
    });                                                                            \
  }
KINDS_IT(KITER)
#elif PART == 4
// ---- one number is needed -----------------------------------------------------------
#define KIF(K)                                                                     \
  OP("kif." #K, F_OBS | F_PRINT, X_WARN | X_NOTHREAD, 1) {                         \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      if (x)                                                                       \
        o.num(1);                                                                  \
    });                                                                            \
  }
KINDS_VEC(KIF)
KINDS_NUM(KIF)
#define KCOL(K)                                                                    \
  OP("kcolon." #K, F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 1) {                      \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = colon(FWD(x), gint(a[2], 0)); }); \
  }                                                                                \
  OP("kcolon2." #K, F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 1) {                     \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = colon(gval(a[2], 0), FWD(x)); }); \
  }
KINDS_COLON(KCOL)
KINDS_NUM(KCOL)
#elif PART == 5
#define KREPN(K)                                                                   \
  OP("krepn." #K, F_SEQ | F_PRINT | F_REJ, X_WARN | X_NOTHREAD, 1) {               \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = rep(coca(1.0, 2.0), FWD(x)); }); \
  }                                                                                \
  OP("krepn2." #K, F_SEQ | F_PRINT | F_REJ, X_WARN | X_NOTHREAD, 1) {              \
    K_##K::go(w, a[1], [&](auto &&x) { w.wi(a[0]) = rep(gint(a[2], 0), FWD(x)); }); \
  }
KINDS_VEC(KREPN)
KINDS_NUM(KREPN)
#define KMATN(K)                                                                   \
  OP("kmatn." #K, F_SEQ | F_PRINT | F_REJ, X_WARN | X_NOTHREAD, 1) {               \
    int n = 1 + (int)((unsigned)a[2] % 3);                                         \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = matrix(gval(a[3], 0), FWD(x), 0 + n); }); \
  }                                                                                \
  OP("kmatn2." #K, F_SEQ | F_PRINT | F_REJ, X_WARN | X_NOTHREAD, 1) {              \
    int n = 1 + (int)((unsigned)a[2] % 3);                                         \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = matrix(gint(a[3], 0), (double)n, FWD(x)); }); \
  }
KINDS_MAT(KMATN)
KINDS_NUM(KMATN)
#elif PART == 6
#define KVN(K)                                                                     \
  OP("kvn." #K, F_SEQ | F_PRINT | F_REJ, X_WARN | X_NOTHREAD, 1) {                 \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = vector_numeric(FWD(x)); });    \
  }                                                                                \
  OP("kvi." #K, F_SEQ | F_PRINT | F_REJ, X_WARN | X_NOTHREAD, 1) {                 \
    K_##K::go(w, a[1], [&](auto &&x) { w.wi(a[0]) = vector_integer(FWD(x)); });    \
  }                                                                                \
  OP("kvb." #K, F_SEQ | F_PRINT | F_REJ, X_WARN | X_NOTHREAD, 1) {                 \
    K_##K::go(w, a[1], [&](auto &&x) { w.wb(a[0]) = vector_logical(FWD(x)); });    \
  }
KINDS_COLON(KVN)
KINDS_NUM(KVN)
#elif PART == 7
// ---- interpolation --------------------------------------------------------------------
static VD grid(int a, int n) { // strictly increasing, any spacing
  static const double step[6] = {0.25, 1.0, 1e-3, 1e-6, 50.0, 1e4};
  VD t(sz(n));
  double s = gval(a, 50), u = step[ah(a, 51) % 6];
  for (int k = 0; k < n; k++) {
    t[(std::size_t)k] = s;
    s += u * (double)(1 + ah(a, k) % 5);
  }
  return t;
}
static VD when(const VD &t, int a) { // a time within, at a node or outside
  std::size_t n = t.size(), k = ah(a, 1) % n, j = k + 1 < n ? k + 1 : k;
  double f = (double)(ah(a, 2) % 5) * 0.25;
  double v = t[k] + f * (t[j] - t[k]);
  if (ah(a, 3) % 10 == 0)
    v = t[0] - 1.0;
  if (ah(a, 3) % 10 == 1)
    v = t[n - 1] + 1.0;
  VD r = coca(v);
  return r;
}
#define KLI(K)                                                                     \
  OP("kli.y." #K, F_INTERP, 0, 2) {                                                \
    K_##K::go(w, a[1], [&](auto &&y) {                                             \
      VD t = grid(a[2], (int)y.size()), p = when(t, a[3]);                         \
      o.num((double)li(p, t, y));                                                  \
      VD q = when(t, a[4]);                                                        \
      o.num((double)li(q, t, FWD(y)));                                             \
    });                                                                            \
  }                                                                                \
  OP("kcmr.y." #K, F_CUBIC, 0, 1) {                                       \
    K_##K::go(w, a[1], [&](auto &&y_) {                                            \
      VD y;                                                                        \
      y = y_;                                                                      \
      VD t = grid(a[2], (int)y.size()), p = when(t, a[3]);                         \
      o.num((double)cmr(p, t, y));                                                 \
    });                                                                            \
  }
KINDS_LEN(KLI)
OP("kli.grid", F_INTERP, 0, 20) {
  int n = 1 + (int)((unsigned)a[1] % 12);
  VD t = grid(a[2], n), y(sz(n));
  fillv(y, a[3]);
  for (int k = 0; k < 4; k++) {
    VD p = when(t, a[4] + k);
    o.num((double)li(p, t, y));
  }
}
OP("kli.t", F_INTERP, 0, 6) { // the time is a temporary, a calculation, ...
  int n = 1 + (int)((unsigned)a[1] % 12);
  VD t = grid(a[2], n), y(sz(n));
  fillv(y, a[3]);
  VD p = when(t, a[4]);
  VW &b = w.w(a[5]);
  o.num((double)li(p + 0.0, t, y));
  o.num((double)li(coca((double)p[0]), t, y));
  o.num((double)li(subset(p, 1), t, y));
  o.num((double)li(p, t * 1.0, y + 0.25));
  VI z = idx_i(a[6], (long)b.size(), 1);
  o.num((double)li(subset(b, z), t, y));
}
OP("kcmr.grid", F_CUBIC, X_WARN, 12) {
  int n = 1 + (int)((unsigned)a[1] % 12);
  VD t = grid(a[2], n), y(sz(n));
  fillv(y, a[3]);
  for (int k = 0; k < 4; k++) {
    VD p = when(t, a[4] + k);
    o.num((double)cmr(p, t, y));
  }
}
#elif PART == 8
// ---- targets: borrowed memory and subsets ----------------------------------------------
#define KTGT(K)                                                                    \
  OP("ktgt.w." #K, F_BORROW, 0, 1) {                                               \
    K_##K::go(w, a[1], [&](auto &&x) { w.w(a[0]) = FWD(x); });                     \
  }                                                                                \
  OP("ktgt.lw." #K, F_BORROW, 0, 1) { /* a view of exactly this length */          \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      double buf[150];                                                             \
      std::size_t n = x.size();                                                    \
      if (n > 150)                                                                 \
        return;                                                                    \
      for (std::size_t k = 0; k < n; k++)                                          \
        buf[k] = -1;                                                               \
      VW v(buf, n);                                                                \
      v = FWD(x);                                                                  \
      outv(o, v);                                                                  \
      for (std::size_t k = 0; k < n; k++)                                          \
        o.num(buf[k]);                                                             \
    });                                                                            \
  }
KINDS_VEC(KTGT)
#elif PART == 9
#define KSW(K)                                                                     \
  OP("ksw.d." #K, F_SUBW, 0, 1) {                                                  \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      VD &t = w.wd(a[0]);                                                          \
      VI q = idx_i(a[2], (long)t.size(), (int)x.size());                           \
      subset(t, q) = FWD(x);                                                       \
    });                                                                            \
  }                                                                                \
  OP("ksw.i." #K, F_SUBW | F_CONV, 0, 1) {                                         \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      VI &t = w.wi(a[0]);                                                          \
      VI q = idx_i(a[2], (long)t.size(), (int)x.size());                           \
      subset(t, q) = FWD(x);                                                       \
    });                                                                            \
  }                                                                                \
  OP("ksw.b." #K, F_SUBW | F_CONV, 0, 1) {                                         \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      VB &t = w.wb(a[0]);                                                          \
      VI q = idx_i(a[2], (long)t.size(), (int)x.size());                           \
      subset(t, q) = FWD(x);                                                       \
    });                                                                            \
  }
KINDS_VEC(KSW)
#elif PART == 10
#define KSWM(K)                                                                    \
  OP("kswm.d." #K, F_SUBW | F_SUBM, 0, 1) {                                        \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      VD t = locm<VD>(a[2]);                                                       \
      int n = (int)x.size(), r = 1 + (int)((unsigned)a[3] % 3);                    \
      while (n % r)                                                                \
        r--;                                                                       \
      VI p = idx_i(a[4], (long)t.nr(), r), q = idx_i(a[5], (long)t.nc(), n / r);   \
      subset(t, p, q) = FWD(x);                                                    \
      outv(o, t);                                                                  \
    });                                                                            \
  }                                                                                \
  OP("ksww." #K, F_SUBW | F_BORROW, 0, 1) {                                        \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      VW &t = w.w(a[0]);                                                           \
      VI q = idx_i(a[2], (long)t.size(), (int)x.size());                           \
      subset(t, q) = FWD(x);                                                       \
    });                                                                            \
  }
KINDS_VEC(KSWM)
#elif PART == 11
// ---- concatenation: the type is the common type of all arguments -------------------------
#define CC_d gval(a[1], 0)
#define CC_i gint(a[2], 0)
#define CC_b gbool(a[3], 0)
#define CC_D w.d(a[4])
#define CC_I w.i(a[5])
#define CC_B w.b(a[6])
#define CC_r coca(gint(a[7], 0), 2)
#define COC2(X, Y)                                                                 \
  OP("coc." #X #Y, F_SEQ, 0, 1) {                                                  \
    outv(o, coca(CC_##X, CC_##Y));                                                 \
    w.wd(a[0]) = coca(CC_##X, CC_##Y);                                             \
  }
#define COC3(X, Y, Z)                                                              \
  OP("coc." #X #Y #Z, F_SEQ, 0, 1) { w.wd(a[0]) = coca(CC_##X, CC_##Y, CC_##Z); }
#define COC4(X, Y, Z, U)                                                           \
  OP("coc." #X #Y #Z #U, F_SEQ, 0, 1) {                                            \
    w.wd(a[0]) = coca(CC_##X, CC_##Y, CC_##Z, CC_##U);                             \
  }
#define C2(X) COC2(X, d) COC2(X, i) COC2(X, b) COC2(X, D) COC2(X, I) COC2(X, B) COC2(X, r)
#define C3(X, Y) COC3(X, Y, d) COC3(X, Y, i) COC3(X, Y, b) COC3(X, Y, D) COC3(X, Y, I) COC3(X, Y, B)
#define C33(X) C3(X, d) C3(X, i) C3(X, b) C3(X, D) C3(X, I) C3(X, B)
C2(d) C2(i) C2(b) C2(D) C2(I) C2(B) C2(r)
C33(d) C33(i) C33(b) C33(D) C33(I) C33(B)
#elif PART == 12
#define CC_d gval(a[1], 0)
#define CC_i gint(a[2], 0)
#define CC_b gbool(a[3], 0)
#define CC_D w.d(a[4])
#define CC_I w.i(a[5])
#define CC_B w.b(a[6])
#define CC_r coca(gint(a[7], 0), 2)
#define COC4(X, Y, Z, U)                                                           \
  OP("coc." #X #Y #Z #U, F_SEQ, 0, 1) {                                            \
    w.wd(a[0]) = coca(CC_##X, CC_##Y, CC_##Z, CC_##U);                             \
  }
#define C4(X, Y, Z) COC4(X, Y, Z, d) COC4(X, Y, Z, i) COC4(X, Y, Z, b)
#define C44(X, Y) C4(X, Y, d) C4(X, Y, i) C4(X, Y, b)
#define C444(X) C44(X, d) C44(X, i) C44(X, b)
C444(d) C444(i) C444(b) C444(B) C444(I) C444(D)
OP("coc.many", F_SEQ, 0, 4) {
  outv(o, coca(gint(a[1], 0), gint(a[1], 1), gint(a[1], 2), gint(a[1], 3), gint(a[1], 4),
               gval(a[1], 5)));
  outv(o, coca(gval(a[1], 0), gint(a[1], 1), gbool(a[1], 2), w.i(a[3]), w.d(a[4]), w.b(a[5]),
               coca(1, true)));
  w.wd(a[0]) = coca(gbool(a[1], 0), gbool(a[1], 1), w.b(a[2]), gint(a[1], 2), gbool(a[1], 3));
}
#endif
} // namespace NS
