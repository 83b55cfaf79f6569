// choice of operands, identical on both sides
#pragma once
#include "world.h"
namespace NS {
template <class X, class Y> inline bool fits(const X &x, const Y &y) {
  if (x.im() && y.im())
    return x.nr() == y.nr() && x.nc() == y.nc();
  if (x.im())
    return y.size() <= x.size();
  if (y.im())
    return x.size() <= y.size();
  return true;
}
template <class X> inline VD &fitd(World &w, const X &x, int k) {
  for (int q = 0; q < ND; q++)
    if (fits(x, w.d(k + q)))
      return w.d(k + q);
  return w.d(k);
}
template <class X> inline VI &fiti(World &w, const X &x, int k) {
  for (int q = 0; q < NI; q++)
    if (fits(x, w.i(k + q)))
      return w.i(k + q);
  return w.i(k);
}
template <class X> inline VB &fitb(World &w, const X &x, int k) {
  for (int q = 0; q < NB; q++)
    if (fits(x, w.b(k + q)))
      return w.b(k + q);
  return w.b(k);
}
template <class X> inline VW &fitw(World &w, const X &x, int k) {
  for (int q = 0; q < NW; q++)
    if (fits(x, w.w(k + q)))
      return w.w(k + q);
  return w.w(k);
}
// the k-th numeric vector which is a matrix (or k itself)
inline int matd(World &w, int k) {
  for (int q = 0; q < ND; q++)
    if (w.d(k + q).im())
      return (int)((unsigned)(k + q) % ND);
  return (int)((unsigned)k % ND);
}
inline int mati(World &w, int k) {
  for (int q = 0; q < NI; q++)
    if (w.i(k + q).im())
      return (int)((unsigned)(k + q) % NI);
  return (int)((unsigned)k % NI);
}
inline int matb(World &w, int k) {
  for (int q = 0; q < NB; q++)
    if (w.b(k + q).im())
      return (int)((unsigned)(k + q) % NB);
  return (int)((unsigned)k % NB);
}
inline int wmatd(World &w, int k) { // writable
  for (int q = 0; q < ND; q++)
    if (w.wd(k + q).im())
      return w.kd(k + q);
  return w.kd(k);
}
inline int wmati(World &w, int k) {
  for (int q = 0; q < NI; q++)
    if (w.wi(k + q).im())
      return w.ki(k + q);
  return w.ki(k);
}
inline int wmatb(World &w, int k) {
  for (int q = 0; q < NB; q++)
    if (w.wb(k + q).im())
      return w.kb(k + q);
  return w.kb(k);
}
// index vectors; about one of `bad` requests contains an invalid index
inline VI idx_i(int a, long n, int m) {
  VI x(sz(m));
  for (int k = 0; k < m; k++)
    x[(std::size_t)k] = gidx(a, k, n);
  return x;
}
inline VD idx_d(int a, long n, int m) {
  VD x(sz(m));
  for (int k = 0; k < m; k++)
    x[(std::size_t)k] = (double)gidx(a, k, n);
  return x;
}
inline VB idx_b(int a, long n) { // at least one TRUE
  VB x(sz((int)(n < 1 ? 1 : n)));
  for (long k = 0; k < n; k++)
    x[(std::size_t)k] = gbool(a, (int)k);
  x[(std::size_t)(gidx(a, 9, n) - 1)] = true;
  return x;
}
} // namespace NS
