// dimensions which do not fit
#include "help.h"
namespace NS {
static VD mm(const int *a, int k, bool swap) {
  int r = 1 + (int)((unsigned)a[1] % 4), c = 1 + (int)((unsigned)a[2] % 4);
  if (k == 1)
    switch ((unsigned)a[3] % 6) {
    case 0:
      c++;
      break;
    case 1:
      r++;
      break;
    case 2:
      r++;
      c++;
      break;
    case 3:
      break; // fits
    default:
      std::swap(r, c); // the same number of elements
    }
  if (k == 2) { // a vector
    int n = r * c + (int)((unsigned)a[3] % 3) * (int)(1 + (unsigned)a[4] % 3);
    VD v(sz(n));
    for (int q = 0; q < n; q++)
      v[(std::size_t)q] = gval(a[5], q);
    return v;
  }
  (void)swap;
  VD m = matrix(0.0, 0 + r, 0 + c);
  for (std::size_t q = 0; q < m.size(); q++)
    m[q] = gval(a[5] + k, (int)q);
  return m;
}
#define TWO                                                                        \
  VD x = mm(a, 0, false), y = mm(a, (unsigned)a[6] % 3 ? 1 : 2, false);
OP("conf.assign", F_CALC | F_REJ, 0, 4) {
  TWO
  switch ((unsigned)a[7] % 6) {
  case 0:
    w.wd(a[0]) = x + y;
    break;
  case 1:
    w.wd(a[0]) = y - x;
    break;
  case 2:
    w.wd(a[0]) = (x * 2.0) * y;
    break;
  case 3:
    w.wd(a[0]) = x / (y + 1.0);
    break;
  case 4:
    w.wd(a[0]) = 1.0 + (x + y);
    break;
  default:
    w.wd(a[0]) = -x + y;
  }
}
OP("conf.cmp", F_CMP | F_REJ, 0, 3) {
  TWO
  switch ((unsigned)a[7] % 5) {
  case 0:
    w.wb(a[0]) = x < y;
    break;
  case 1:
    w.wb(a[0]) = y >= x;
    break;
  case 2:
    w.wb(a[0]) = x == y;
    break;
  case 3:
    w.wb(a[0]) = x + 1.0 != y;
    break;
  default:
    w.wb(a[0]) = x > -y;
  }
}
OP("conf.int", F_CALC | F_REJ | F_CONV, 0, 3) {
  TWO
  VI i, j;
  i = x > 0.0;
  j = y > 0.0;
  switch ((unsigned)a[7] % 4) {
  case 0:
    w.wi(a[0]) = i + j;
    break;
  case 1:
    w.wd(a[0]) = i * y;
    break;
  case 2:
    w.wd(a[0]) = y - i;
    break;
  default:
    w.wb(a[0]) = i < j;
  }
}
OP("conf.pool", F_CALC | F_REJ, 0, 4) { // objects of the program
  VD &x = w.d(a[1]), &y = w.d(a[2]);
  w.wd(a[0]) = x + y;
}
OP("conf.view", F_BORROW | F_CALC | F_REJ, 0, 3) {
  VW &x = w.w(a[1]);
  VD &y = w.d(matd(w, a[2]));
  w.w(a[0]) = x * y;
}
OP("conf.subset", F_SUBW | F_CALC | F_REJ, 0, 3) {
  TWO
  VD &z = w.wd(a[0]);
  subset(z, true) = x + y;
}
OP("conf.sub", F_SUBM | F_CALC | F_REJ, 0, 3) { // selections
  TWO
  VD z = mm(a, 0, false);
  switch ((unsigned)a[7] % 4) {
  case 0:
    w.wd(a[0]) = subset(x, true, true) + y;
    break;
  case 1:
    w.wd(a[0]) = y + subset(z, colon(1, (int)z.nr()), true);
    break;
  case 2:
    w.wd(a[0]) = subset(x, colon(1, 1), true) + subset(z, true, true);
    break;
  default:
    w.wd(a[0]) = subset(x, true) + y; // a vector
  }
}
OP("conf.self", F_ALIAS | F_CALC | F_REJ, 0, 3) {
  VD &z = w.wd(a[0]);
  VD y = mm(a, 0, false);
  switch ((unsigned)a[7] % 3) {
  case 0:
    z = z + y;
    break;
  case 1:
    z = y * z;
    break;
  default:
    z = (z + 1.0) - y;
  }
}
OP("conf.print", F_PRINT | F_CALC | F_REJ, X_TEXT | X_NOTHREAD, 3) {
  TWO
  print(x + y);
}
OP("conf.seq", F_SEQ | F_CALC | F_REJ, 0, 2) {
  TWO
  VD z;
  z = matrix(x + y, 2, 1);
  outv(o, z);
}
OP("conf.observe", F_OBS | F_CALC | F_REJ, 0, 3) {
  TWO
  auto e = x + y;
  outv(o, e);
}
} // namespace NS
