// a caller who catches a rejection and goes on with its own objects
#include "help.h"
namespace NS {
#ifdef SIDE_SUT
typedef std::runtime_error Rej;
#else
typedef Err Rej;
#endif
template <class F> static void attempt(Out &o, F f) {
  try {
    f();
    o.num(1);
  } catch (const Rej &) {
    o.num(0);
  }
}
static void look(Out &o, VW &u) {
  o.num((double)u.size());
  o.num(u.im() ? 1 : 0);
  for (std::size_t k = 0; k < u.size(); k++)
    o.num(u[k]);
}
// ---- a view without memory, or of no element -------------------------------------
static void request(World &w, VW &u, Out &o, int kind, const int *a) {
  switch ((unsigned)kind % 12) {
  case 0:
    attempt(o, [&] { u = gval(a[1], 0); });
    break;
  case 1:
    attempt(o, [&] { u = gint(a[1], 0); });
    break;
  case 2:
    attempt(o, [&] { u = w.d(a[2]); });
    break;
  case 3:
    attempt(o, [&] { u = w.i(a[2]); });
    break;
  case 4:
    attempt(o, [&] { u = w.d(a[2]) + 1.0; });
    break;
  case 5:
    attempt(o, [&] { u = coca(gval(a[1], 0), gval(a[1], 1)); });
    break;
  case 6:
    attempt(o, [&] { u = subset(w.d(a[2]), 1); });
    break;
  case 7:
    attempt(o, [&] { u[(unsigned)a[1] % 3] = 1.0; });
    break;
  case 8:
    attempt(o, [&] { at(u, 1 + (int)((unsigned)a[1] % 3)) = 1.0; });
    break;
  case 9:
    attempt(o, [&] { subset(u, 1 + (int)((unsigned)a[1] % 3)) = 1.0; });
    break;
  case 10:
    attempt(o, [&] { u.resize((std::size_t)((unsigned)a[1] % 3)); });
    break;
  default:
    attempt(o, [&] { u = w.w(a[2]); });
  }
  look(o, u);
}
OP("try.unbound", F_BORROW | F_REJ, X_NOSWEEP, 4) {
  VW u;
  for (int q = 0; q < 3; q++)
    request(w, u, o, (int)(ah(a[0], q) % 12), a + q % 2);
  VD x = w.d(a[3]);
  x = 2.0;
  outv(o, x);
}
OP("try.zero", F_BORROW | F_REJ, X_NOSWEEP, 5) {
  int e = (int)((unsigned)a[3] % NE);
  VW u(w.ext[e] + (unsigned)a[4] % (unsigned)(w.extn[e] + 1), (std::size_t)0);
  for (int q = 0; q < 3; q++)
    request(w, u, o, (int)(ah(a[0], q) % 12), a + q % 2);
}
// ---- a view of a part of the memory of the caller: accepted and rejected requests ---
OP("try.part", F_BORROW | F_REJ | F_EXT, X_NOSWEEP, 4) {
  int e = (int)((unsigned)a[3] % NE);
  int off = (int)((unsigned)a[4] % (unsigned)w.extn[e]);
  VW u(w.ext[e] + off, (std::size_t)(1 + (unsigned)a[5] % (unsigned)(w.extn[e] - off)));
  for (int q = 0; q < 4; q++)
    request(w, u, o, (int)(ah(a[0], q) % 12), a + q % 2);
}
// ---- a matrix in the memory of the caller ---------------------------------------------
static VW mat(World &w, const int *a, int &e, int &r, int &c) {
  e = (int)((unsigned)a[0] % NE);
  r = 1 + (int)((unsigned)a[1] % 3);
  if (r > w.extn[e])
    r = w.extn[e];
  c = w.extn[e] / r;
  return VW(w.ext[e], (std::size_t)r, (std::size_t)c);
}
OP("borrow.rc", F_BORROW | F_SUBM, 0, 4) {
  int e, r, c;
  VW m = mat(w, a, e, r, c);
  outv(o, m);
  o.num(at(m, 1 + (int)((unsigned)a[2] % (unsigned)r), 1 + (int)((unsigned)a[3] % (unsigned)c)));
  VD x;
  x = m;
  outv(o, x);
  VD y = m + 1.0;
  outv(o, y);
  VD z;
  z = subset(m, 1 + (int)((unsigned)a[2] % (unsigned)r), true);
  outv(o, z);
  VI d = dim(m);
  outv(o, d);
}
OP("borrow.rcw", F_BORROW | F_EXT | F_SUBW, 0, 4) {
  int e, r, c;
  VW m = mat(w, a, e, r, c);
  int i = 1 + (int)((unsigned)a[2] % (unsigned)(r + 1)), j = 1 + (int)((unsigned)a[3] % (unsigned)c);
  if ((unsigned)a[4] % 3 == 0)
    at(m, i, j) = gval(a[5], 0);
  else if ((unsigned)a[4] % 3 == 1)
    subset(m, i, j) = gval(a[5], 0);
  else
    subset(m, true, j) = gval(a[5], 0);
}
OP("borrow.rca", F_BORROW | F_EXT, X_NOSWEEP, 3) { // assigned, other shapes
  int e, r, c;
  VW m = mat(w, a, e, r, c);
  switch ((unsigned)a[2] % 5) {
  case 0:
    m = m * 2.0;
    break;
  case 1:
    m = matrix(gval(a[3], 0), (int)c, (int)r);
    break;
  case 2:
    m = gval(a[3], 0);
    break;
  case 3: {
    VD x(sz(r * c));
    for (int k = 0; k < r * c; k++)
      x[(std::size_t)k] = gval(a[3], k);
    m = x;
    break;
  }
  default:
    m = w.d(a[3]);
  }
  outv(o, m);
}
// ---- own objects after a rejected request -----------------------------------------------
template <class V, class G> static void own(World &w, Out &o, const int *a, G g) {
  int n = 1 + (int)((unsigned)a[0] % 6);
  V x(sz(n)), y;
  for (int k = 0; k < n; k++)
    x[(std::size_t)k] = g(a[1], k);
  for (int q = 0; q < 3; q++) {
    switch (ah(a[2], q) % 9) {
    case 0:
      attempt(o, [&] { x.resize((std::size_t)0); });
      break;
    case 1:
      attempt(o, [&] { subset(x, n + 1) = g(a[3], 0); });
      break;
    case 2:
      attempt(o, [&] { x = y; });
      break;
    case 3:
      attempt(o, [&] { x = subset(w.d(a[4]), (int)w.d(a[4]).size() + 1); });
      break;
    case 4:
      attempt(o, [&] { subset(x, true) = w.d(a[4]); });
      break;
    case 5:
      attempt(o, [&] { x = matrix(1.0, (int)(ah(a[3], q) % 3), 2); });
      break;
    case 6:
      attempt(o, [&] { at(x, (int)(ah(a[3], q) % 3)) = g(a[3], 1); });
      break;
    case 7:
      attempt(o, [&] { x = y + w.d(a[4]); });
      break;
    default:
      attempt(o, [&] { x = w.d(a[4]); });
    }
    outv(o, x);
    outv(o, y);
  }
  attempt(o, [&] { y = x; });
  outv(o, y);
}
OP("try.own.d", F_OWN | F_REJ, 0, 4) { own<VD>(w, o, a, [](int s, int k) { return gval(s, k); }); }
OP("try.own.i", F_OWN | F_REJ | F_CONV, 0, 3) { own<VI>(w, o, a, [](int s, int k) { return gint(s, k); }); }
OP("try.own.b", F_OWN | F_REJ | F_CONV, 0, 3) { own<VB>(w, o, a, [](int s, int k) { return gbool(s, k); }); }
// ---- a stored selection after a rejected request -------------------------------------------
OP("try.sub", F_SUBR | F_SUBW | F_REJ, X_NOSWEEP, 4) {
  VD &x = w.wd(a[0]);
  if (!x.size())
    return;
  int n = 1 + (int)((unsigned)a[1] % 4);
  VI k(sz(n));
  for (int q = 0; q < n; q++)
    k[(std::size_t)q] = gidx(a[1], q, (long)x.size() + ((unsigned)a[2] % 6 == 0));
  auto s = subset(x, k);
  for (int q = 0; q < 3; q++) {
    switch (ah(a[3], q) % 5) {
    case 0:
      attempt(o, [&] { s = gval(a[4], q); });
      break;
    case 1:
      attempt(o, [&] { s = w.d(a[4]); });
      break;
    case 2:
      attempt(o, [&] { s = s + 1.0; });
      break;
    case 3:
      attempt(o, [&] { o.num(s[ah(a[4], q) % s.size()]); });
      break;
    default:
      attempt(o, [&] { x = s; });
    }
    o.num((double)s.size());
    outv(o, x);
  }
}
} // namespace NS
