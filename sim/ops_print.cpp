// printing and diagnostics
#include "help.h"
#ifdef SIDE_SUT
#include <iostream>
#endif
namespace NS {
static int cnt(int a) { return 1 + (int)((unsigned)a % 7); }
static const uint32_t PX = X_TEXT | X_NOTHREAD;
OP("print.d", F_PRINT, PX, 6) { print(w.d(a[0])); }
OP("print.i", F_PRINT, PX, 4) { print(w.i(a[0])); }
OP("print.b", F_PRINT, PX, 4) { print(w.b(a[0])); }
OP("print.w", F_PRINT | F_BORROW, PX, 4) { print(w.w(a[0])); }
OP("print.dm", F_PRINT, PX, 5) { print(w.d(matd(w, a[0]))); }
OP("print.im", F_PRINT, PX, 3) { print(w.i(mati(w, a[0]))); }
OP("print.bm", F_PRINT, PX, 3) { print(w.b(matb(w, a[0]))); }
OP("print.sd", F_PRINT, PX, 3) { print(gval(a[0], 0)); }
OP("print.si", F_PRINT, PX, 3) { print(gint(a[0], 0)); }
OP("print.sb", F_PRINT, PX, 3) { print(gbool(a[0], 0)); }
OP("print.text", F_PRINT, PX, 2) { print("some text"); }
OP("print.line", F_PRINT, PX, 2) { print(); }
OP("print.several", F_PRINT, PX, 3) {
  print("x");
  print(w.d(a[0]));
  print();
  print(w.b(a[1]));
  print(gint(a[2], 0));
}
OP("print.calc", F_PRINT | F_CALC, PX, 4) { print(w.d(a[0]) * 2.0 + 1.0); }
OP("print.calci", F_PRINT | F_CALC, PX, 2) { print(w.i(a[0]) + 1); }
OP("print.calc2", F_PRINT | F_CALC, PX, 2) {
  VD &x = w.d(a[0]);
  print(x + fitd(w, x, a[1]));
}
OP("print.cmp", F_PRINT | F_CMP, PX, 3) { print(w.d(a[0]) > gval(a[1], 0)); }
OP("print.neg", F_PRINT | F_UNARY, PX, 3) { print(-w.d(a[0])); }
OP("print.colon", F_PRINT | F_SEQ, PX, 2) { print(colon(gint(a[0], 0), gint(a[0], 1))); }
OP("print.coca", F_PRINT | F_SEQ, PX, 2) { print(coca(gval(a[0], 0), gint(a[0], 1))); }
OP("print.rep", F_PRINT | F_SEQ, PX, 1) { print(rep(gbool(a[0], 0), cnt(a[1]))); }
OP("print.matrix", F_PRINT | F_SEQ, PX, 2) { print(matrix(gval(a[0], 0), cnt(a[1]), cnt(a[2]))); }
OP("print.sub", F_PRINT | F_SUBR, PX, 3) {
  VD &x = w.d(a[0]);
  VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));
  print(subset(x, i));
}
OP("print.call", F_PRINT | F_SUBR, PX, 2) {
  VD &x = w.d(a[0]);
  print(x(gidx(a[1], 0, (long)x.size())));
}
OP("print.view", F_PRINT | F_SUBR, PX, 2) {
  VI &x = w.i(a[0]);
  auto s = subset(x, gidx(a[1], 0, (long)x.size()));
  print(s);
}
OP("print.subi", F_PRINT | F_SUBR, PX, 2) {
  VI &x = w.i(a[0]);
  print(subset(x, idx_i(a[1], (long)x.size(), cnt(a[2]))));
}
OP("print.subb", F_PRINT | F_SUBR, PX, 2) {
  VB &x = w.b(a[0]);
  print(subset(x, idx_i(a[1], (long)x.size(), cnt(a[2]))));
}
OP("print.subcmp", F_PRINT | F_SUBR | F_CMP, PX, 2) {
  VD &x = w.d(a[0]);
  print(subset(x < gval(a[1], 0), gidx(a[2], 0, (long)x.size())));
}
OP("warn.ifsub", F_PRINT | F_SUBR, X_WARN | X_NOTHREAD, 3) {
  VB &x = w.b(a[0]);
  if (subset(x, idx_i(a[1], (long)x.size(), cnt(a[2]))))
    o.num(1);
}
OP("warn.ifcmp", F_PRINT | F_SUBR | F_CMP, X_WARN | X_NOTHREAD, 3) {
  VD &x = w.d(a[0]);
  if (subset(x, idx_i(a[1], (long)x.size(), cnt(a[2]))) >= gval(a[3], 0))
    o.num(1);
}
OP("warn.ifnum", F_PRINT | F_SUBR, X_WARN | X_NOTHREAD, 1) { // a number: no warning
  VD &x = w.d(a[0]);
  double v = subset(x, idx_i(a[1], (long)x.size(), cnt(a[2])));
  o.num(v);
}
OP("print.subm", F_PRINT | F_SUBM, PX, 3) {
  VD &x = w.d(matd(w, a[0]));
  if (x.im()) {
    VI r = idx_i(a[1], (long)x.nr(), 1 + (int)((unsigned)a[2] % 3));
    print(subset(x, r, true));
  }
}
OP("print.outside", F_PRINT | F_REJ | F_SUBR, X_NOTHREAD, 2) { // rejected
  VD &x = w.d(a[0]);
  print(subset(x, (int)x.size() + 1 + (int)((unsigned)a[1] % 3)));
}
OP("print.dim", F_PRINT | F_OBS, PX, 2) {
  VD &x = w.d(matd(w, a[0]));
  if (x.im())
    print(dim(x));
}
OP("print.length", F_PRINT | F_OBS, PX, 2) { print(length(w.d(a[0]))); }
OP("print.special", F_PRINT, PX, 2) {
  VD x = coca(NA, Inf, -Inf, gval(a[0], 0));
  print(x);
}
OP("print.mixed", F_PRINT, PX, 2) { // logical, then numeric
  print(gbool(a[0], 0));
  print(w.b(a[0]));
  print(gint(a[1], 0));
  print(w.i(a[1]));
  print(gval(a[2], 0));
}
OP("print.then", F_PRINT | F_OWN, X_NOTHREAD | X_NOSWEEP | X_TEXT, 3) { // output does not change
  VD &x = w.wd(a[0]);
  print(x);
  x = x + 0.0;
  print(x);
}
// ---- warnings: exactly when only a part of an argument is used -----------------
static const uint32_t WX = X_WARN | X_NOTHREAD;
OP("warn.colon", F_PRINT | F_SEQ, WX, 4) {
  VI &x = w.i(a[1]), &y = w.i(a[2]);
  w.wi(a[0]) = colon(x, y);
}
OP("warn.colon1", F_PRINT | F_SEQ, WX, 3) { // no warning
  VI x = coca(gint(a[1], 0));
  w.wi(a[0]) = colon(x, gint(a[2], 0));
}
OP("warn.rep", F_PRINT | F_SEQ, WX, 4) {
  VI t(sz(1 + (int)((unsigned)a[2] % 3)));
  for (std::size_t k = 0; k < t.size(); k++)
    t[k] = 1 + (int)(ah(a[3], (int)k) % 3);
  w.wd(a[0]) = rep(w.d(a[1]), t);
}
OP("warn.if", F_PRINT | F_CMP, WX, 4) {
  VD &x = w.d(a[0]);
  if (x == gval(a[1], 0))
    o.num(1);
}
OP("warn.bool", F_PRINT, WX, 3) {
  bool s = w.b(a[0]);
  o.num(s);
}
OP("warn.matrix", F_PRINT | F_SEQ, WX, 3) {
  VI r(sz(1 + (int)((unsigned)a[1] % 2)));
  for (std::size_t k = 0; k < r.size(); k++)
    r[k] = 2 + (int)k;
  VI c(sz(1 + (int)((unsigned)a[2] % 2)));
  for (std::size_t k = 0; k < c.size(); k++)
    c[k] = 1 + (int)k;
  w.wd(a[0]) = matrix(gval(a[3], 0), r + 0, c + 0);
}
OP("warn.size", F_PRINT | F_SEQ, WX, 3) {
  w.wd(a[0]) = vector_numeric(1.0 + (double)((unsigned)a[1] % 9) * 0.5);
}
// ---- streams ------------------------------------------------------------------
#ifdef SIDE_SUT
#define OS(x) (std::cout << x << std::endl)
#define OSD(x) (std::cout << x.d << std::endl)
#else
template <class X> static void os_(const X &x) {
  std::ostringstream s;
  s << "Vec [ ";
  for (std::size_t k = 0; k < x.size(); k++) {
    double v = (double)x[k];
    s << v << " ";
  }
  s << "]\n";
  out_text += s.str();
}
#define OS(x) os_(x)
#define OSD(x) os_(x)
#endif
template <class X> static bool small(const X &x) { // integers are not rounded
  for (std::size_t k = 0; k < x.size(); k++)
    if (std::fabs((double)x[k]) >= 1e6)
      return false;
  return true;
}
OP("os.d", F_PRINT | F_OWN, PX, 3) { OS(w.d(a[0])); }
OP("os.i", F_PRINT | F_OWN, PX, 3) {
  if (small(w.i(a[0])))
    OS(w.i(a[0]));
}
OP("os.w", F_PRINT | F_BORROW, PX, 3) { OS(w.w(a[0])); }
OP("os.store.d", F_PRINT | F_OWN, PX, 2) { OSD(w.d(a[0])); }
OP("os.store.w", F_PRINT | F_BORROW, PX, 2) { OSD(w.w(a[0])); }
OP("os.store.i", F_PRINT | F_OWN, PX, 2) {
  if (small(w.i(a[0])))
    OSD(w.i(a[0]));
}
OP("os.raw", F_PRINT | F_GROW, PX, 3) {
  RS &r = w.r(a[0]);
  OS(r);
}
OP("os.sel", F_PRINT | F_SUBR, PX, 3) { // a selection
  VD &x = w.d(a[0]);
  auto s = subset(x, idx_i(a[1], (long)x.size(), cnt(a[2])));
  OS(s);
  OS(subset(x, gidx(a[3], 0, (long)x.size())));
}
OP("os.seli", F_PRINT | F_SUBR, PX, 2) {
  VI &x = w.i(a[0]);
  auto s = subset(x, idx_i(a[1], (long)x.size(), cnt(a[2])));
  bool ok = true;
  for (std::size_t k = 0; k < s.size(); k++)
    if (std::abs((double)s[k]) >= 1e6)
      ok = false;
  if (ok)
    OS(s);
}
OP("os.selw", F_PRINT | F_SUBR | F_BORROW, PX, 2) {
  VW &x = w.w(a[0]);
  auto s = subset(x, idx_i(a[1], (long)x.size(), cnt(a[2])));
  OS(s);
}
OP("os.selm", F_PRINT | F_SUBM, PX, 2) {
  VD &x = w.d(matd(w, a[0]));
  if (x.im()) {
    auto s = subset(x, idx_i(a[1], (long)x.nr(), 1 + (int)((unsigned)a[2] % 3)), true);
    OS(s);
  }
}
OP("os.two", F_PRINT | F_OWN, PX, 2) {
  VD x = w.d(a[0]) * 0.5;
  OS(x);
  x = coca(gval(a[1], 0), gval(a[1], 1));
  OS(x);
  print(x);
}
// ---- variables with derivatives ----------------------------------------------
#ifdef SIDE_SUT
#define VARS                                                                       \
  AV &av = *w.av;                                                                  \
  V0 x0(av);                                                                       \
  V1 x1(av);                                                                       \
  V3 x3(av)
#define PV(k) print(x##k, av)
#else
#define VARS
static void pv(World &w, int k) {
  EV<double> e;
  const DV &x = w.av->x[k];
  e.v = x.v;
  e.m = x.m;
  e.r = x.r;
  e.c = x.c;
  print(e);
}
#define PV(k) pv(w, k)
#endif
OP("print.var", F_PRINT | F_DERIV, PX, 3) {
  VARS;
  PV(0);
  PV(3);
}
OP("print.var1", F_PRINT | F_DERIV, PX, 3) {
  VARS;
  PV(1);
  PV(1);
}
} // namespace NS
