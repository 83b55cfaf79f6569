// sequences and concatenations among the constants of a set of variables, and
// sequences between two objects
#include "kinds.h"
#ifndef PART
#define PART 0
#endif
namespace NS {
#ifdef SIDE_SUT
#define AVSEQ(f, ...)                                                              \
  {                                                                                \
    f<0>(*w.av, __VA_ARGS__);                                                      \
    auto &c_ = w.av->varConstants[0];                                              \
    o.num((double)c_.size());                                                      \
    for (std::size_t k_ = 0; k_ < c_.size(); k_++)                                 \
      o.num(c_[k_]);                                                               \
  }
#else
#define AVSEQ(f, ...)                                                              \
  {                                                                                \
    auto c_ = f(__VA_ARGS__);                                                      \
    o.num((double)c_.size());                                                      \
    for (std::size_t k_ = 0; k_ < c_.size(); k_++)                                 \
      o.num((double)c_[k_]);                                                       \
  }
#endif
#if PART == 0
#define AVC(K)                                                                     \
  OP("avcolon." #K, F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 1) {                     \
    K_##K::go(w, a[1], [&](auto &&x) { AVSEQ(colon, FWD(x), gint(a[2], 0)) });     \
  }                                                                                \
  OP("avcolon2." #K, F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 1) {                    \
    K_##K::go(w, a[1], [&](auto &&x) { AVSEQ(colon, gval(a[2], 0), FWD(x)) });     \
  }                                                                                \
  OP("avcolon3." #K, F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 1) {                    \
    VI &e = w.i(a[2]);                                                             \
    K_##K::go(w, a[1], [&](auto &&x) { AVSEQ(colon, FWD(x), e) });                 \
  }                                                                                \
  OP("avcolon4." #K, F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 1) {                    \
    const VD &e = w.d(a[2]);                                                       \
    K_##K::go(w, a[1], [&](auto &&x) { AVSEQ(colon, e, FWD(x)) });                 \
  }
KINDS_COLON(AVC)
#elif PART == 1
#define AVK(K)                                                                     \
  OP("avcoca." #K, F_SEQ, 0, 1) {                                                  \
    K_##K::go(w, a[1], [&](auto &&x) { AVSEQ(coca, FWD(x)) });                     \
  }                                                                                \
  OP("avcoca2." #K, F_SEQ, 0, 1) {                                                 \
    VI &e = w.i(a[2]);                                                             \
    K_##K::go(w, a[1], [&](auto &&x) { AVSEQ(coca, gval(a[3], 0), FWD(x), e) });   \
  }                                                                                \
  OP("avcoca3." #K, F_SEQ, 0, 1) {                                                 \
    VD &e = w.d(a[2]);                                                             \
    K_##K::go(w, a[1], [&](auto &&x) { AVSEQ(coca, e, gint(a[3], 0), FWD(x)) });   \
  }
KINDS_COCA(AVK)
#elif PART == 2
#define PC(K)                                                                      \
  OP("pcolon." #K, F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 1) {                      \
    VI &e = w.i(a[2]);                                                             \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = colon(FWD(x), e); });          \
  }                                                                                \
  OP("pcolon2." #K, F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 1) {                     \
    VD &e = w.d(a[2]);                                                             \
    K_##K::go(w, a[1], [&](auto &&x) { w.wd(a[0]) = colon(e, FWD(x)); });          \
  }                                                                                \
  OP("pcolon3." #K, F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 1) {                     \
    K_##K::go(w, a[1], [&](auto &&x) { w.wi(a[0]) = colon(FWD(x), coca(gint(a[2], 0))); }); \
  }                                                                                \
  OP("pcolon4." #K, F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 1) {                     \
    const VI e = coca(gint(a[2], 0));                                              \
    K_##K::go(w, a[1], [&](auto &&x) { w.wi(a[0]) = colon(e + 0, FWD(x)); });      \
  }
KINDS_COLON(PC)
#elif PART == 3
// vectors of a given length: zeros, whatever the constant contained before
#ifdef SIDE_SUT
#define AVVEC AVSEQ
#else
#define AVVEC(f, x) AVSEQ(mkzero<double>, x)
#endif
#define AVV(id, f)                                                                 \
  OP("avvec." id, F_SEQ, 0, 3) {                                                   \
    int n = glen(a[1]) - ((unsigned)a[2] % 8 == 0 ? 40 : 0);                       \
    AVVEC(f, n);                                                                   \
  }                                                                                \
  OP("avvec.d." id, F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 2) {                     \
    double n = glen(a[1]) * 0.75 - ((unsigned)a[2] % 8 == 0 ? 40 : 0);             \
    AVVEC(f, n);                                                                   \
  }                                                                                \
  OP("avvec.s." id, F_SEQ, 0, 1) { AVVEC(f, (std::size_t)(glen(a[1]) - 1)); }      \
  OP("avvec.v." id, F_SEQ | F_REJ, 0, 2) { /* a vector of length one */            \
    VI n = coca(glen(a[1]));                                                       \
    if ((unsigned)a[2] % 6 == 0)                                                   \
      n.resize(2);                                                                 \
    AVVEC(f, n);                                                                   \
  }                                                                                \
  OP("avvec.r." id, F_SEQ, 0, 2) { AVVEC(f, coca(glen(a[1]))); }                   \
  OP("avvec.old." id, F_SEQ | F_HIST_, 0, 4) { /* another content before */        \
    int s = gint(a[1], 0), m = 1 + (int)((unsigned)a[2] % 30);                     \
    AVSEQ(colon, s, s + m);                                                        \
    int n = 1 + (int)((unsigned)a[3] % 20);                                        \
    AVVEC(f, n);                                                                   \
  }
#define F_HIST_ 0
AVV("num", vector_numeric)
AVV("int", vector_integer)
AVV("lgl", vector_logical)
#endif
} // namespace NS
