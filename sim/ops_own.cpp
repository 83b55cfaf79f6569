// containers as independent values: construction, copies, assignment, conversion
#include "world.h"
#include <memory>
namespace NS {
// ---- assignment between pools ---------------------------------------------------
#define ASG(id, tgt, src, fam)                                                     \
  OP("assign." id, F_OWN | fam, 0, 3) { w.tgt(a[0]) = w.src(a[1]); }
ASG("dd", wd, d, 0)
ASG("di", wd, i, F_CONV)
ASG("db", wd, b, F_CONV)
ASG("dw", wd, w, F_BORROW)
ASG("ii", wi, i, 0)
ASG("id", wi, d, F_CONV)
ASG("ib", wi, b, F_CONV)
ASG("bb", wb, b, 0)
ASG("bd", wb, d, F_CONV)
ASG("bi", wb, i, F_CONV)
OP("assign.sd", F_OWN, 0, 1) { w.wd(a[0]) = gval(a[1], 0); }
OP("assign.si", F_OWN | F_CONV, 0, 1) { w.wd(a[0]) = gint(a[1], 0); }
OP("assign.sb", F_OWN | F_CONV, 0, 1) { w.wd(a[0]) = gbool(a[1], 0); }
OP("assign.isd", F_OWN | F_CONV, 0, 1) { w.wi(a[0]) = gval(a[1], 0); }
OP("assign.isi", F_OWN, 0, 1) { w.wi(a[0]) = gint(a[1], 0); }
OP("assign.bsb", F_OWN, 0, 1) { w.wb(a[0]) = gbool(a[1], 0); }
OP("assign.bsi", F_OWN | F_CONV, 0, 1) { w.wb(a[0]) = gint(a[1], 0); }

// ---- construction ---------------------------------------------------------------
OP("ctor.si", F_OWN, 0, 2) {
  VD x(sz(glen(a[1])));
  outv(o, x);
  w.wd(a[0]) = x;
}
OP("ctor.rc", F_OWN, 0, 3) {
  VD x((std::size_t)(1 + (unsigned)a[1] % 4), (std::size_t)(1 + (unsigned)a[2] % 4));
  outv(o, x);
  w.wd(a[0]) = x;
}
OP("ctor.rcv", F_OWN, 0, 3) {
  VD x((std::size_t)(1 + (unsigned)a[1] % 4), (std::size_t)(1 + (unsigned)a[2] % 4),
       gval(a[3], 0));
  outv(o, x);
  w.wd(a[0]) = x;
}
OP("ctor.ircv", F_OWN, 0, 2) {
  VI x((std::size_t)(1 + (unsigned)a[1] % 4), (std::size_t)(1 + (unsigned)a[2] % 4),
       gint(a[3], 0));
  outv(o, x);
  w.wi(a[0]) = x;
}
OP("ctor.brc", F_OWN, 0, 1) {
  VB x((std::size_t)(1 + (unsigned)a[1] % 4), (std::size_t)(1 + (unsigned)a[2] % 4));
  outv(o, x);
  w.wb(a[0]) = x;
}
OP("ctor.ptr", F_OWN, 0, 2) { // copies the memory of the caller
  int e = (unsigned)a[1] % NE;
  VD x(w.ext[e], (std::size_t)(1 + (unsigned)a[2] % (unsigned)w.extn[e]));
  outv(o, x);
  x[0] = 4711; // must not reach the memory of the caller
  w.wd(a[0]) = x;
}
OP("ctor.ptrrc", F_OWN, 0, 2) {
  int e = (unsigned)a[1] % NE;
  int n = w.extn[e];
  int r = 1 + (unsigned)a[2] % 3;
  int c = 1 + (unsigned)a[3] % 3;
  if (r * c > n) {
    r = 1;
    c = 1;
  }
  VD x(w.ext[e], (std::size_t)r, (std::size_t)c);
  outv(o, x);
  x[0] = 4711;
  w.wd(a[0]) = x;
}
OP("ctor.scalar", F_OWN, 0, 2) {
  VD x(gval(a[1], 0)), y(true), z(3);
  outv(o, x);
  outv(o, y);
  outv(o, z);
  VB p(gbool(a[2], 0));
  VI q(gint(a[2], 1));
  outv(o, p);
  outv(o, q);
  w.wd(a[0]) = x;
}
OP("ctor.expr", F_OWN | F_CALC, 0, 3) {
  VD x = w.d(a[1]) + gval(a[2], 0);
  outv(o, x);
  w.wd(a[0]) = x;
}
OP("ctor.coca", F_OWN | F_SEQ, 0, 2) {
  VD x = coca(gval(a[1], 0), gval(a[1], 1), gint(a[1], 2));
  VI y = coca(gint(a[1], 3), gint(a[1], 4));
  VB z = coca(gbool(a[1], 3), gbool(a[1], 4), true);
  outv(o, x);
  outv(o, y);
  outv(o, z);
  w.wd(a[0]) = x;
}
OP("ctor.convdi", F_OWN | F_CONV, 0, 2) {
  VI x = w.d(a[1]) + 0.0;
  VB y = w.d(a[1]) * 1.0;
  VD z = w.i(a[2]) + 0;
  outv(o, x);
  outv(o, y);
  outv(o, z);
}

// ---- copies are independent -----------------------------------------------------
OP("copy.d", F_OWN, 0, 4) {
  VD &x = w.d(a[0]);
  VD y = x;
  y[0] = gval(a[1], 0) + 100;
  outv(o, x);
  outv(o, y);
  VD z(y);
  z = z + 1.0;
  outv(o, y);
  outv(o, z);
  o.num(y.im());
}
OP("copy.i", F_OWN, 0, 2) {
  VI &x = w.i(a[0]);
  VI y = x;
  y[0] = gint(a[1], 0) + 100;
  outv(o, x);
  outv(o, y);
}
OP("copy.b", F_OWN, 0, 2) {
  VB &x = w.b(a[0]);
  VB y = x;
  y[y.size() - 1] = gbool(a[1], 0);
  outv(o, x);
  outv(o, y);
}
static VD ret_by_value(const VD &x, double s) {
  VD r = x * s;
  return r;
}
static VD ret_local(int n, double s) {
  VD r(sz(n));
  r.fill(s);
  return r;
}
static double take_by_value(VD x, double s) {
  x[0] = s;
  x = x + s;
  return (double)x[0];
}
OP("copy.fn", F_OWN, 0, 3) {
  VD &x = w.d(a[1]);
  o.num(take_by_value(x, gval(a[2], 0)));
  outv(o, x);
  VD r = ret_by_value(x, gval(a[3], 0));
  outv(o, r);
  w.wd(a[0]) = ret_local(glen(a[4]), gval(a[5], 0));
}
OP("copy.array", F_OWN, 0, 3) {
  int n = 1 + (unsigned)a[1] % 5;
  std::unique_ptr<VD[]> v(new VD[(std::size_t)n]);
  for (int k = 0; k < n; k++)
    v[k] = w.d(a[2] + k);
  std::unique_ptr<VD> u(new VD(v[0]));
  for (int k = 0; k < n; k++)
    v[k][0] = k + 0.5;
  for (int k = 0; k < n; k++)
    outv(o, v[k]);
  outv(o, *u);
  w.wd(a[0]) = *u;
}
struct Pair {
  VD x;
  VI y;
};
OP("copy.member", F_OWN, 0, 2) {
  Pair p{w.d(a[1]), w.i(a[2])};
  Pair q = p;
  q.x[0] = 17;
  q.y[0] = 18;
  Pair r(q);
  r = p;
  outv(o, p.x);
  outv(o, p.y);
  outv(o, q.x);
  outv(o, q.y);
  outv(o, r.x);
  outv(o, r.y);
  w.wd(a[0]) = q.x;
}
OP("copy.move", F_OWN, 0, 3) {
  VD x = w.d(a[1]);
  VD y = std::move(x);
  outv(o, y);
  VD z(std::move(y));
  outv(o, z);
  w.wd(a[0]) = std::move(z);
}
OP("copy.swap", F_OWN, X_NOSWEEP, 3) {
  VD &x = w.wd(a[0]), &y = w.wd(a[1]);
  VD t = x;
  x = y;
  y = t;
}
OP("copy.rotate", F_OWN, X_NOSWEEP, 2) {
  VI &x = w.wi(a[0]), &y = w.wi(a[1]);
  VI t = x;
  x = y;
  y = t;
}
OP("copy.chain", F_OWN, X_NOSWEEP, 2) {
  w.wd(a[0]) = w.d(a[1]) + 1.0;
  w.wd(a[2]) = w.wd(a[0]);
  w.wd(a[3]) = w.wd(a[2]) * 2.0;
}
OP("copy.loop", F_OWN, X_NOSWEEP, 3) { // the same target again and again
  VD &x = w.wd(a[0]);
  int n = 2 + (unsigned)a[1] % 6;
  for (int k = 0; k < n; k++) {
    int m = glen(a[2] + k);
    VD y(sz(m));
    y.fill((double)k + 0.25);
    x = y;
    o.num((double)x.size());
    o.num((double)x[m - 1]);
  }
}
OP("copy.growshrink", F_OWN, X_NOSWEEP, 3) {
  VD &x = w.wd(a[0]);
  VD big(sz(20 + (int)((unsigned)a[1] % 60)));
  big.fill(gval(a[2], 0));
  VD small = coca(gval(a[3], 0), gval(a[3], 1));
  x = big;
  x = small;
  outv(o, x);
  x = big;
  outv(o, x);
  x = gval(a[4], 0);
  outv(o, x);
  x = big;
  VD y = x;
  x = small;
  outv(o, y);
}

// ---- object lifetimes -------------------------------------------------------------
OP("life.replace", F_OWN, 0, 3) {
  VD *n = new VD(w.d(a[1]));
  int k = w.kd(a[0]);
  delete w.D[k];
  w.D[k] = n;
}
OP("life.replace.i", F_OWN, 0, 1) {
  VI *n = new VI(w.i(a[1]));
  int k = w.ki(a[0]);
  delete w.I[k];
  w.I[k] = n;
}
OP("life.replace.b", F_OWN, 0, 1) {
  VB *n = new VB(w.b(a[1]));
  int k = w.kb(a[0]);
  delete w.B[k];
  w.B[k] = n;
}
OP("life.temp", F_OWN, 0, 2) {
  double s = 0;
  for (int k = 0; k < 3; k++) {
    VD x = w.d(a[0] + k);
    VD y = x + w.d(a[0] + k);
    s += (double)y[0];
  }
  o.num(s);
}
OP("life.empty", F_OWN, 0, 2) { // default construct, then assign
  VD x;
  o.num((double)x.size());
  VD y = w.d(a[1]);
  x = y;
  outv(o, x);
  VI z;
  z = w.i(a[2]);
  outv(o, z);
  w.wd(a[0]) = x;
}

// ---- elements ---------------------------------------------------------------------
OP("elem.set", F_OWN | F_OBS, 0, 4) {
  VD &x = w.wd(a[0]);
  x[(std::size_t)(gidx(a[1], 0, (long)x.size()) - 1)] = gval(a[2], 0);
}
OP("elem.iset", F_OWN | F_OBS, 0, 2) {
  VI &x = w.wi(a[0]);
  x[(std::size_t)(gidx(a[1], 0, (long)x.size()) - 1)] = gint(a[2], 0);
}
OP("elem.bset", F_OWN | F_OBS, 0, 2) {
  VB &x = w.wb(a[0]);
  x[(std::size_t)(gidx(a[1], 0, (long)x.size()) - 1)] = gbool(a[2], 0);
}
OP("elem.fill", F_OWN | F_GROW, 0, 2) { w.wd(a[0]).fill(gval(a[1], 0)); }
OP("elem.ifill", F_OWN | F_GROW, 0, 1) { w.wi(a[0]).fill(gint(a[1], 0)); }
OP("elem.bfill", F_OWN | F_GROW, 0, 1) { w.wb(a[0]).fill(gbool(a[1], 0)); }
OP("elem.resize", F_OWN | F_GROW, 0, 3) { // within the size: elements are kept
  VD &x = w.wd(a[0]);
  std::size_t n = 1 + (unsigned)a[1] % x.size();
  if (!x.im())
    x.resize(n);
}
OP("elem.grow", F_OWN | F_GROW, 0, 3) { // growth: all elements are written
  VD &x = w.wd(a[0]);
  if (!x.im()) {
    std::size_t m = x.size(), n = x.size() + (unsigned)a[1] % 9;
    x.resize(n);
    for (std::size_t k = m; k < n; k++)
      o.num((double)x[k]); // new elements are zero
    for (std::size_t k = 0; k < n; k++)
      x[k] = gval(a[2], (int)k);
  }
}
// special values
OP("elem.special", F_OWN | F_UNARY, 0, 1) {
  VD &x = w.wd(a[0]);
  static const double sp[6] = {INFINITY, -INFINITY, NAN, 1e300, -0.0, 5e-324};
  x[(std::size_t)(gidx(a[1], 0, (long)x.size()) - 1)] = sp[(unsigned)a[2] % 6];
}
} // namespace NS
