// every kind of operand as the only argument
#include "kinds.h"
#ifndef PART
#define PART 0
#endif
namespace NS {
#if PART == 0
// ---- assignment and construction -----------------------------------------------
#define KASG(K)                                                                    \
  OP("kasg.d." #K, F_OWN, 0, 1) {                                                  \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = FWD(x); });                    \
  }                                                                                \
  OP("kasg.i." #K, F_OWN | F_CONV, 0, 1) {                                         \
    K_##K::go(w, a[1], [&](auto &&x) { w.wi(a[0]) = FWD(x); });                    \
  }                                                                                \
  OP("kasg.b." #K, F_OWN | F_CONV, 0, 1) {                                         \
    K_##K::go(w, a[1], [&](auto &&x) { w.wb(a[0]) = FWD(x); });                    \
  }
KINDS_VEC(KASG)
KINDS_NUM(KASG)
#elif PART == 1
#define KCTOR(K)                                                                   \
  OP("kctor.d." #K, F_OWN, 0, 1) {                                                 \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      VD y = FWD(x);                                                               \
      outv(o, y);                                                                  \
      w.wd(a[0]) = y;                                                              \
    });                                                                            \
  }                                                                                \
  OP("kctor.i." #K, F_OWN | F_CONV, 0, 1) {                                        \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      VI y = FWD(x);                                                               \
      outv(o, y);                                                                  \
      w.wi(a[0]) = y;                                                              \
    });                                                                            \
  }                                                                                \
  OP("kctor.b." #K, F_OWN | F_CONV, 0, 1) {                                        \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      VB y = FWD(x);                                                               \
      outv(o, y);                                                                  \
      w.wb(a[0]) = y;                                                              \
    });                                                                            \
  }
KINDS_CTOR(KCTOR)
#elif PART == 2
// ---- observers ------------------------------------------------------------------
#define KOBS(K)                                                                    \
  OP("kobs.len." #K, F_OBS, 0, 2) {                                                \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      o.num((double)x.size());                                                     \
      o.num(x.im());                                                               \
      if (x.im()) {                                                                \
        o.num((double)x.nr());                                                     \
        o.num((double)x.nc());                                                     \
      }                                                                            \
    });                                                                            \
  }                                                                                \
  OP("kobs.elem." #K, F_OBS, 0, 1) {                                               \
    K_##K::go(w, a[1], [&](auto &&x) { outv(o, x); });                             \
  }
KINDS_VEC(KOBS)
#define KLEN(K)                                                                    \
  OP("kobs.length." #K, F_OBS, 0, 1) {                                             \
    K_##K::go(w, a[1], [&](auto &&x) { o.num((double)length(FWD(x))); });          \
  }
KINDS_LEN(KLEN)
KINDS_NUM(KLEN)
#define KDIM(K)                                                                    \
  OP("kobs.dim." #K, F_OBS, 0, 1) {                                                \
    K_##K::go(w, a[1], [&](auto &&x) { w.wi(a[0]) = dim(FWD(x)); });               \
  }
KINDS_VEC(KDIM)
#elif PART == 3
#define KNA(K)                                                                     \
  OP("kobs.na." #K, F_OBS, 0, 2) {                                                 \
    K_##K::go(w, a[1], [&](auto &&x) { w.wb(a[0]) = isNA(FWD(x)); });              \
  }                                                                                \
  OP("kobs.inf." #K, F_OBS, 0, 2) {                                                \
    K_##K::go(w, a[1], [&](auto &&x) { w.wb(a[0]) = isInf(FWD(x)); });             \
  }
KINDS_NA(KNA)
#elif PART == 4
// ---- printing -------------------------------------------------------------------
#define KPRINT(K)                                                                  \
  OP("kprint." #K, F_PRINT, X_TEXT | X_NOTHREAD, 1) {                              \
    K_##K::go(w, a[1], [&](auto &&x) { print(FWD(x)); });                          \
  }
KINDS_VEC(KPRINT)
KINDS_NUM(KPRINT)
#elif PART == 5
// ---- unary functions --------------------------------------------------------------
#define KUN(K)                                                                     \
  OP("kun." #K, F_UNARY, 0, 2) {                                                   \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      outv(o, -x);                                                                 \
      outv(o, exp(x));                                                             \
      outv(o, sqroot(x));                                                          \
      w.wd(a[0]) = sinus(FWD(x));                                                  \
    });                                                                            \
  }                                                                                \
  OP("kun2." #K, F_UNARY, 0, 1) {                                                  \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      outv(o, cosinus(x));                                                         \
      outv(o, tangensh(x));                                                        \
      outv(o, atangens(x));                                                        \
      outv(o, ln(x));                                                              \
      w.wd(a[0]) = -(FWD(x));                                                      \
    });                                                                            \
  }
KINDS_VEC(KUN)
#elif PART == 6
// ---- rep and concatenation ----------------------------------------------------------
#define KSEQ(K)                                                                    \
  OP("kseq.rep.d." #K, F_SEQ, 0, 1) {                                              \
    int n = 1 + (int)((unsigned)a[2] % 4);                                         \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = rep(FWD(x), n); });            \
  }
KINDS_VEC(KSEQ)
KINDS_NUM(KSEQ)
#define KCOCA(K)                                                                   \
  OP("kseq.coca1." #K, F_SEQ, 0, 1) {                                              \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = coca(FWD(x)); });              \
  }                                                                                \
  OP("kseq.coca2." #K, F_SEQ, 0, 1) {                                              \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      outv(o, coca(x, gbool(a[2], 1)));                                            \
      w.wi(a[0]) = coca(gint(a[2], 0), FWD(x));                                    \
    });                                                                            \
  }
KINDS_COCA(KCOCA)
KINDS_NUM(KCOCA)
#elif PART == 7
// ---- matrix ---------------------------------------------------------------------------
#define KMAT(K)                                                                    \
  OP("kseq.mat." #K, F_SEQ, 0, 1) {                                                \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      int n = (int)x.size(), r = 1 + (int)((unsigned)a[2] % 4);                    \
      if ((unsigned)a[3] % 8)                                                      \
        while (n % r)                                                              \
          r--;                                                                     \
      w.wd(a[0]) = matrix(FWD(x), 0 + r, n / r);                                   \
    });                                                                            \
  }                                                                                \
  OP("kseq.mati." #K, F_SEQ | F_CONV, 0, 1) {                                      \
    K_##K::go(w, a[1], [&](auto &&x) {                                             \
      int n = (int)x.size(), r = 1 + (int)((unsigned)a[2] % 4);                    \
      if ((unsigned)a[3] % 8)                                                      \
        while (n % r)                                                              \
          r--;                                                                     \
      w.wi(a[0]) = matrix(FWD(x), (double)r, (double)(n / r));                     \
    });                                                                            \
  }
KINDS_MAT(KMAT)
#elif PART == 8
// ---- the number of rows, of repetitions, ... is a vector of length one ------------------
template <class T> static T one(int v) {
  T x(sz(1));
  x[0] = v;
  return x;
}
#define KARG(id, mk)                                                               \
  OP("karg.rep." id, F_SEQ, 0, 2) {                                                \
    int n = 1 + (int)((unsigned)a[2] % 4);                                         \
    w.wd(a[0]) = rep(w.d(a[1]), mk(n));                                            \
  }                                                                                \
  OP("karg.repi." id, F_SEQ, 0, 1) {                                               \
    int n = 1 + (int)((unsigned)a[2] % 4);                                         \
    w.wi(a[0]) = rep(gint(a[1], 0), mk(n));                                        \
  }                                                                                \
  OP("karg.mat." id, F_SEQ, 0, 2) {                                                \
    int n = 1 + (int)((unsigned)a[2] % 4), m = 1 + (int)((unsigned)a[3] % 4);      \
    w.wd(a[0]) = matrix(gval(a[1], 0), mk(n), mk(m));                              \
  }                                                                                \
  OP("karg.matv." id, F_SEQ, 0, 2) {                                               \
    int n = 1 + (int)((unsigned)a[2] % 4), m = 1 + (int)((unsigned)a[3] % 4);      \
    w.wi(a[0]) = matrix(colon(1, n * m), mk(n), mk(m));                            \
  }                                                                                \
  OP("karg.vec." id, F_SEQ, 0, 2) {                                                \
    int n = 1 + (int)((unsigned)a[2] % 9);                                         \
    outv(o, vector_integer(mk(n)));                                                \
    outv(o, vector_logical(mk(n)));                                                \
    w.wd(a[0]) = vector_numeric(mk(n));                                            \
  }                                                                                \
  OP("karg.colon." id, F_SEQ, 0, 2) {                                              \
    int n = 1 + (int)((unsigned)a[2] % 9), m = 1 + (int)((unsigned)a[3] % 9);      \
    w.wd(a[0]) = colon(mk(n), mk(m));                                              \
  }                                                                                \
  OP("karg.coloni." id, F_SEQ, 0, 1) {                                             \
    int n = 1 + (int)((unsigned)a[2] % 9), m = 1 + (int)((unsigned)a[3] % 9);      \
    outv(o, colon(mk(n), 0 + m));                                                  \
    w.wi(a[0]) = colon(0 + n, mk(m));                                              \
  }
#define MK_i(n) (0 + n)
#define MK_d(n) ((double)n)
#define MK_vi(n) one<VI>(n)
#define MK_vd(n) one<VD>(n)
#define MK_ri(n) coca(0 + n)
#define MK_rd(n) coca((double)n)
#define MK_xi(n) (one<VI>(n) + 0)
#define MK_xd(n) (one<VD>(n) * 1.0)
KARG("i", MK_i)
KARG("d", MK_d)
KARG("vi", MK_vi)
KARG("vd", MK_vd)
KARG("ri", MK_ri)
KARG("rd", MK_rd)
KARG("xi", MK_xi)
KARG("xd", MK_xd)
#endif
} // namespace NS
