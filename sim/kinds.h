// One operand of every kind which the library accepts, built from the pools.
// `K_x<...>::go(w, a, f)` calls f with the operand.
#pragma once
#include "help.h"
namespace NS {
template <class T> inline void fillv(T &x, int a) {
  for (std::size_t k = 0; k < x.size(); k++) {
    if constexpr (std::is_same_v<T, VB>)
      x[k] = gbool(a, (int)k);
    else if constexpr (std::is_same_v<T, VI>)
      x[k] = gint(a, (int)k);
    else
      x[k] = gval(a, (int)k);
  }
}
// small local matrix
template <class T> inline T locm(int a) {
  T x((std::size_t)(1 + (unsigned)a % 4), (std::size_t)(1 + (unsigned)(a >> 4) % 4));
  fillv(x, a);
  return x;
}
// local vector of a length which divides or does not divide
template <class T> inline T locv(int a) {
  T x(sz(1 + (int)((unsigned)a % 8)));
  fillv(x, a);
  return x;
}
// the matrix of the pool or, if there is none (and sometimes although), a local one
template <class T> struct Mat {
  T loc;
  T *x;
  Mat(T &p, int a) : loc((std::size_t)(1 + (unsigned)a % 4), (std::size_t)(1 + (unsigned)(a >> 4) % 4)) {
    for (std::size_t k = 0; k < loc.size(); k++) {
      if constexpr (std::is_same_v<T, VB>)
        loc[k] = gbool(a, (int)k);
      else if constexpr (std::is_same_v<T, VI>)
        loc[k] = gint(a, (int)k);
      else
        loc[k] = gval(a, (int)k);
    }
    x = p.im() ? &p : (a & 15) == 0 ? &p : &loc;
  }
};
template <> struct Mat<VW> { // in borrowed memory
  double buf[16];
  VW loc;
  VW *x;
  Mat(VW &p, int a)
      : loc(buf, (std::size_t)((1 + (unsigned)a % 4) * (1 + (unsigned)(a >> 4) % 4))) {
    VD m((std::size_t)(1 + (unsigned)a % 4), (std::size_t)(1 + (unsigned)(a >> 4) % 4));
    for (std::size_t k = 0; k < m.size(); k++)
      m[k] = gval(a, (int)k);
    loc = m;
    x = p.im() ? &p : (a & 15) == 0 ? &p : &loc;
  }
};
template <class X> inline int nsel(const X &x, int a) {
  return 1 + (int)((unsigned)a % 5);
}
// indices of a dimension of length n
#define IX_int(n, a) gidx(a, 0, n)
#define IX_dbl(n, a) (double)gidx(a, 0, n)
#define IX_true(n, a) true
#define IX_vi(n, a) idx_i(a, n, 1 + (int)((unsigned)(a) % 4))
#define IX_vd(n, a) idx_d(a, n, 1 + (int)((unsigned)(a) % 4))
#define IX_vb(n, a) idx_b(a, n)
#define IX_vbs(n, a) idx_b(a, 1 + (long)((unsigned)(a) % (unsigned)(n)))
#define IX_vbl(n, a) idx_b(a, (n) + 1 + (long)((unsigned)(a) % 3))
#define IX_ri(n, a) coca(gidx(a, 0, n), gidx(a, 1, n))
#define IX_rd(n, a) coca((double)gidx(a, 0, n), (double)gidx(a, 1, n))
#define IX_seq(n, a) colon(1, gidx(a, 0, n))
#define KIND(name, ...)                                                            \
  struct K_##name {                                                                \
    template <class F> static void go(World &w, int a, F f) { __VA_ARGS__ }        \
  };
// pool vectors
KIND(ld, f(w.d(a));)
KIND(li, f(w.i(a));)
KIND(lb, f(w.b(a));)
KIND(lw, f(w.w(a));)
// constant vectors
KIND(cd, const VD &x = w.d(a); f(x);)
KIND(ci, const VI &x = w.i(a); f(x);)
KIND(cb, const VB &x = w.b(a); f(x);)
// local matrices
KIND(md, VD x = locm<VD>(a); f(x);)
KIND(mi, VI x = locm<VI>(a); f(x);)
KIND(mb, VB x = locm<VB>(a); f(x);)
// subsets
KIND(sdi, VD &x = w.d(a); VI q = idx_i(a, (long)x.size(), nsel(x, a)); f(subset(x, q));)
KIND(sdb, VD &x = w.d(a); VB q = idx_b(a, (long)x.size()); f(subset(x, q));)
KIND(sii, VI &x = w.i(a); VI q = idx_i(a, (long)x.size(), nsel(x, a)); f(subset(x, q));)
KIND(sbi, VB &x = w.b(a); VI q = idx_i(a, (long)x.size(), nsel(x, a)); f(subset(x, q));)
KIND(swi, VW &x = w.w(a); VI q = idx_i(a, (long)x.size(), nsel(x, a)); f(subset(x, q));)
KIND(sdm, VD x = locm<VD>(a); VI r = idx_i(a + 1, (long)x.nr(), nsel(x, a));
     VI c = idx_i(a + 2, (long)x.nc(), nsel(x, a + 1)); f(subset(x, r, c));)
KIND(sim, VI x = locm<VI>(a); VI r = idx_i(a + 1, (long)x.nr(), nsel(x, a));
     VI c = idx_i(a + 2, (long)x.nc(), nsel(x, a + 1)); f(subset(x, r, c));)
// subsets with a name
KIND(nsd, VD &x = w.d(a); VI q = idx_i(a, (long)x.size(), nsel(x, a));
     auto s = subset(x, q); f(s);)
// temporaries which own their memory
KIND(rd, f(coca(gval(a, 0), gval(a, 1), gval(a, 2)));)
KIND(ri, f(coca(gint(a, 0), gint(a, 1)));)
KIND(rb, f(coca(gbool(a, 0), gbool(a, 1)));)
KIND(rmd, int n = 1 + (int)((unsigned)a % 3);
     f(matrix(coca(gval(a, 0), gval(a, 1), gval(a, 2), gval(a, 3), gval(a, 4), gval(a, 5)),
              0 + n, 6 / n));)
KIND(rmi, int n = 1 + (int)((unsigned)a % 3);
     f(matrix(coca(gint(a, 0), gint(a, 1), gint(a, 2), gint(a, 3), gint(a, 4), gint(a, 5)),
              0 + n, 6 / n));)
KIND(rmb, int n = 1 + (int)((unsigned)a % 3);
     f(matrix(coca(gbool(a, 0), gbool(a, 1), gbool(a, 2), gbool(a, 3), gbool(a, 4),
                   gbool(a, 5)),
              0 + n, 6 / n));)
KIND(nrd, auto r = coca(gval(a, 0), gval(a, 1), gval(a, 2)); f(r);)
KIND(nri, auto r = coca(gint(a, 0), gint(a, 1), gint(a, 2)); f(r);)
// calculations
KIND(xd, VD &x = w.d(a); VD &y = fitd(w, x, a + 1); f(x + y);)
KIND(xi, VI &x = w.i(a); f(x + gint(a, 0));)
KIND(xb, VD &x = w.d(a); f(x > gval(a, 0));)
KIND(xw, VW &x = w.w(a); f(x * 2.0);)
KIND(ud, VD &x = w.d(a); f(-x);)
KIND(us, VD &x = w.d(a); f(sinus(x));)
KIND(nx, VD &x = w.d(a); VD &y = fitd(w, x, a + 1); auto e = x * y; f(e);)
KIND(xm, VD x = locm<VD>(a); f(x * 0.5);)
// numbers
KIND(d, f(gval(a, 0));)
KIND(i, f(gint(a, 0));)
KIND(b, f(gbool(a, 0));)
// kinds which the functions accept
#define KINDS_VEC(X) X(ld) X(li) X(lb) X(lw) X(cd) X(ci) X(cb) X(md) X(mi) X(mb) \
      X(sdi) X(sdb) X(sii) X(sbi) X(swi) X(sdm) X(sim) X(nsd) X(rd) X(ri) X(rb) \
      X(rmd) X(rmi) X(rmb) X(nrd) X(nri) X(xd) X(xi) X(xb) X(xw) X(ud) X(us) X(nx) \
      X(xm)
#define KINDS_NUM(X) X(d) X(i) X(b)
#define KINDS_LEN(X) X(ld) X(li) X(lb) X(lw) X(cd) X(ci) X(cb) X(md) X(mi) X(mb) \
      X(xd) X(xi) X(xb) X(xw) X(nx) X(xm)
#define KINDS_NA(X) X(ld) X(li) X(lb) X(lw) X(cd) X(ci) X(cb) X(md) X(mi) X(mb) \
      X(xd) X(xi) X(xb) X(xw) X(xm)
#define KINDS_COCA(X) X(ld) X(li) X(lb) X(lw) X(cd) X(ci) X(cb) X(md) X(mi) X(mb) \
      X(rd) X(ri) X(rb) X(rmd) X(rmi) X(rmb) X(nrd) X(nri)
#define KINDS_MAT(X) X(sdi) X(sdb) X(sii) X(sbi) X(swi) X(sdm) X(sim) X(rd) X(ri) \
      X(rb) X(rmd) X(rmi) X(rmb) X(xd) X(xi) X(xb) X(xw) X(ud) X(us) X(xm)
#define KINDS_CTOR(X) X(rd) X(ri) X(rb) X(rmd) X(rmi) X(rmb) X(xd) X(xi) X(xb) X(xw) \
      X(xm)
#define KINDS_SUB(X) X(ld) X(li) X(lb) X(lw) X(md) X(mi) X(mb) X(sdi) X(sdb) X(sii) \
      X(sbi) X(swi) X(sdm) X(sim) X(rd) X(ri) X(rb) X(rmd) X(rmi) X(rmb) X(xd) X(xi) \
      X(xb) X(xw) X(ud) X(us) X(xm)
#define KINDS_COLON(X) X(ld) X(li) X(lb) X(lw) X(cd) X(ci) X(cb) X(md) X(mi) X(mb) \
      X(rd) X(ri) X(rb) X(rmd) X(rmi) X(rmb) X(nrd) X(nri) X(xd) X(xi) X(xb) X(xw) \
      X(ud) X(us) X(xm)
#define KINDS_AT(X) X(ld) X(li) X(lb) X(lw) X(cd) X(ci) X(cb) X(md) X(mi) X(mb) \
      X(sdi) X(sdb) X(sii) X(sbi) X(swi) X(sdm) X(sim) X(nsd) X(rd) X(ri) X(rb) \
      X(rmd) X(rmi) X(rmb) X(nrd) X(nri) X(xd) X(xi) X(xb) X(xw) X(ud) X(us) X(xm)
#define KINDS_IT(X) X(ld) X(li) X(lb) X(lw) X(cd) X(ci) X(cb) X(md) X(mi) X(mb) \
      X(sdi) X(sdb) X(sii) X(sbi) X(swi) X(sdm) X(sim) X(nsd) X(rd) X(ri) X(rb) \
      X(rmd) X(rmi) X(rmb) X(nrd) X(nri)
#define FWD(x) std::forward<decltype(x)>(x)
} // namespace NS
