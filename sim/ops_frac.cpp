// positions with decimals (they are ignored), missing and huge positions
#include "help.h"
namespace NS {
// a one based position with decimals
static double fi(int a, int k, long n) {
  static const double F[4] = {0.25, 0.5, 0.75, 0.999};
  return gidx(a, k, n) + F[ah(a, k + 50) % 4];
}
static double odd(int a) {
  static const double O[10] = {NAN, INFINITY, -INFINITY, 1e300, -1e300, 4294967297.0, 1.8446744073709552e19, 9.3e18, 0.5, -0.5};
  return O[(unsigned)a % 10];
}
OP("frac.read", F_SUBR, 0, 3) {
  VD &x = w.d(a[1]);
  long n = (long)x.size();
  o.num((double)subset(x, fi(a[2], 0, n)));
  VD i = coca(fi(a[2], 1, n), fi(a[2], 2, n), (double)gidx(a[2], 3, n));
  VD y;
  y = subset(x, i);
  outv(o, y);
  y = subset(x, i + 0.0);
  outv(o, y);
  w.wd(a[0]) = subset(x, fi(a[2], 4, n));
}
OP("frac.write", F_SUBW, X_NOSWEEP, 3) {
  VD &x = w.wd(a[0]);
  long n = (long)x.size();
  subset(x, fi(a[2], 0, n)) = gval(a[3], 0);
  VD i = coca(fi(a[2], 1, n), fi(a[2], 2, n));
  subset(x, i) = coca(gval(a[3], 1), gval(a[3], 2));
}
OP("frac.mat", F_SUBM, 0, 4) {
  VD &x = w.d(matd(w, a[1]));
  if (!x.im())
    return;
  long r = (long)x.nr(), c = (long)x.nc();
  VD y;
  o.num((double)subset(x, fi(a[2], 0, r), fi(a[2], 1, c)));
  o.num((double)subset(x, gidx(a[2], 2, r), fi(a[2], 3, c)));
  o.num((double)subset(x, fi(a[2], 4, r), gidx(a[2], 5, c)));
  y = subset(x, true, fi(a[2], 6, c));
  outv(o, y);
  y = subset(x, fi(a[2], 7, r), true);
  outv(o, y);
  VD i = coca(fi(a[2], 8, r), fi(a[2], 9, r)), j = coca(fi(a[2], 10, c), (double)gidx(a[2], 11, c));
  y = subset(x, i, j);
  outv(o, y);
  y = subset(x, i, true);
  outv(o, y);
  y = subset(x, i, fi(a[2], 12, c));
  outv(o, y);
  y = subset(x, fi(a[2], 13, r), j);
  outv(o, y);
  y = subset(x, true, j);
  outv(o, y);
  VB b(sz((int)c));
  for (long k = 0; k < c; k++)
    b[(std::size_t)k] = k == 0 || gbool(a[3], (int)k);
  y = subset(x, fi(a[2], 14, r), b);
  outv(o, y);
  VI q = coca(gidx(a[2], 15, c), gidx(a[2], 16, c));
  y = subset(x, fi(a[2], 17, r), q);
  outv(o, y);
}
OP("frac.matw", F_SUBW, X_NOSWEEP, 3) {
  VD &x = w.wd(wmatd(w, a[0]));
  if (!x.im())
    return;
  long r = (long)x.nr(), c = (long)x.nc();
  subset(x, fi(a[2], 0, r), fi(a[2], 1, c)) = gval(a[3], 0);
  subset(x, true, fi(a[2], 2, c)) = gval(a[3], 1);
  subset(x, fi(a[2], 3, r), true) = gval(a[3], 2);
}
OP("frac.at", F_OBS, 0, 3) {
  VD &x = w.d(a[1]);
  o.num((double)at(x, fi(a[2], 0, (long)x.size())));
  VD &m = w.d(matd(w, a[1]));
  if (m.im())
    o.num((double)at(m, fi(a[2], 1, (long)m.nr()), fi(a[2], 2, (long)m.nc())));
}
OP("odd.read", F_SUBR | F_REJ, 0, 4) {
  VD &x = w.d(a[1]);
  double q = odd(a[2]);
  VD y;
  switch ((unsigned)a[3] % 5) {
  case 0:
    y = subset(x, q);
    break;
  case 1:
    y = subset(x, coca(1.0, q));
    break;
  case 2: {
    VD i = coca(q, 1.0);
    y = subset(x, i);
    break;
  }
  case 3:
    o.num((double)at(x, q));
    break;
  default:
    y = x(q);
  }
  outv(o, y);
}
OP("odd.write", F_SUBW | F_REJ, 0, 4) {
  VD &x = w.wd(a[1]);
  double q = odd(a[2]);
  switch ((unsigned)a[3] % 4) {
  case 0:
    subset(x, q) = gval(a[4], 0);
    break;
  case 1:
    subset(x, coca(1.0, q)) = gval(a[4], 0);
    break;
  case 2: {
    VD i = coca(1.0, q);
    subset(x, i) = coca(gval(a[4], 0), gval(a[4], 1));
    break;
  }
  default:
    at(x, q) = gval(a[4], 0);
  }
}
OP("odd.mat", F_SUBM | F_REJ, 0, 4) {
  VD &x = w.d(matd(w, a[1]));
  if (!x.im())
    return;
  double q = odd(a[2]);
  VD y, i = coca(1.0, q);
  switch ((unsigned)a[3] % 8) {
  case 0:
    y = subset(x, q, 1.0);
    break;
  case 1:
    y = subset(x, 1.0, q);
    break;
  case 2:
    y = subset(x, i, true);
    break;
  case 3:
    y = subset(x, true, i);
    break;
  case 4:
    y = subset(x, q, i);
    break;
  case 5:
    y = subset(x, true, q);
    break;
  case 6:
    o.num((double)at(x, q, 1.0));
    break;
  default:
    o.num((double)at(x, 1, q));
  }
  outv(o, y);
}
} // namespace NS
