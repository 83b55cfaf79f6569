// vectors made from stores, views made from borrowed memory
#include "help.h"
namespace NS {
template <class T, class V> static void look(Out &o, const V &x) {
  o.num((double)x.size());
  o.num(x.im() ? 1 : 0);
  if (x.im()) {
    o.num((double)x.nr());
    o.num((double)x.nc());
  }
  for (std::size_t k = 0; k < x.size(); k++)
    o.num((double)x[k]);
}
template <class T> static T el(int a, int k) {
  if constexpr (std::is_same_v<T, bool>)
    return gbool(a, k);
  else if constexpr (std::is_same_v<T, int>)
    return gint(a, k);
  else
    return gval(a, k);
}
// from a store: an own copy with the shape of the store
template <class T, class V> static V from(Out &o, const int *a) {
  int nr = 1 + (int)((unsigned)a[0] % 5), nc = 1 + (int)((unsigned)a[1] % 5), n = nr * nc;
  bool mat = a[2] & 1;
#ifdef SIDE_SUT
  Buffer<T> b(n);
  for (int k = 0; k < n; k++)
    b[(std::size_t)k] = el<T>(a[3], k);
  if (mat)
    b.setMatrix(true, (std::size_t)nr, (std::size_t)nc);
  V x(b);
  const Buffer<T> &cb = b;
  V y(cb);
  b[0] = el<T>(a[3], 100); // the store of the caller is its own
  y[(std::size_t)(n - 1)] = el<T>(a[3], 101);
  V z(std::move(b));
#else
  EV<T> e;
  for (int k = 0; k < n; k++)
    e.v.push_back((double)el<T>(a[3], k));
  e.m = mat;
  e.r = mat ? (std::size_t)nr : 0;
  e.c = mat ? (std::size_t)nc : 0;
  V x = e, y = e;
  e.v[0] = (double)el<T>(a[3], 100);
  y[(std::size_t)(n - 1)] = el<T>(a[3], 101);
  V z = e;
#endif
  look<T>(o, x);
  look<T>(o, y);
  look<T>(o, z);
  switch ((unsigned)a[4] % 3) {
  case 0:
    return x;
  case 1:
    return y;
  default:
    return z;
  }
}
OP("ctor.store.d", F_OWN | F_GROW, 0, 3) { w.wd(a[5]) = from<double, VD>(o, a); }
OP("ctor.store.i", F_OWN | F_GROW, 0, 2) { w.wi(a[5]) = from<int, VI>(o, a); }
OP("ctor.store.b", F_OWN | F_GROW, 0, 2) { w.wb(a[5]) = from<bool, VB>(o, a); }
// from rows and columns
OP("ctor.rowcol", F_OWN, 0, 2) {
  int nr = 1 + (int)((unsigned)a[0] % 6), nc = 1 + (int)((unsigned)a[1] % 6);
  VD x((std::size_t)nr, (std::size_t)nc);
  look<double>(o, x);
  VD y((std::size_t)nr, (std::size_t)nc, gval(a[2], 0));
  look<double>(o, y);
  y = y + x;
  w.wd(a[3]) = y;
}
OP("ctor.irowcol", F_OWN, 0, 2) {
  int nr = 1 + (int)((unsigned)a[0] % 6), nc = 1 + (int)((unsigned)a[1] % 6);
  VI x((std::size_t)nr, (std::size_t)nc);
  look<int>(o, x);
  VI y((std::size_t)nr, (std::size_t)nc, (double)gint(a[2], 0));
  look<int>(o, y);
  w.wi(a[3]) = y;
}
// a view from borrowed memory: no copy
OP("ctor.memview", F_BORROW | F_OWN, 0, 4) {
  int nr = 1 + (int)((unsigned)a[0] % 5), nc = 1 + (int)((unsigned)a[1] % 5), n = nr * nc;
  bool mat = a[2] & 1;
  double mem[32];
  for (int k = 0; k < n; k++)
    mem[k] = gval(a[3], k);
#ifdef SIDE_SUT
  Borrow<double> b(mem, (std::size_t)n);
  if (mat)
    b.setMatrix(true, (std::size_t)nr, (std::size_t)nc);
  VW u(b);
  VW v(std::move(b));
#else
  VW u = mat ? VW(mem, (std::size_t)nr, (std::size_t)nc) : VW(mem, (std::size_t)n);
  VW v = mat ? VW(mem, (std::size_t)nr, (std::size_t)nc) : VW(mem, (std::size_t)n);
#endif
  look<double>(o, u);
  u[(std::size_t)((unsigned)a[4] % (unsigned)n)] = gval(a[3], 40);
  mem[n - 1] = gval(a[3], 41);
  look<double>(o, v);
  v = v * 2.0 + u;
  look<double>(o, u);
  subset(u, 1) = gval(a[3], 42);
  for (int k = 0; k < n; k++)
    o.num(mem[k]);
  w.wd(a[5]) = v + 0.0;
}
} // namespace NS
