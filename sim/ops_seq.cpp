// colon, rep, coca, matrix and vectors of a given length
#include "help.h"
namespace NS {
static int sm(int a) { return 1 + (int)((unsigned)a % 6); }
// ---- colon --------------------------------------------------------------------------
OP("colon.ii", F_SEQ, 0, 4) { w.wi(a[0]) = colon(gint(a[1], 0), gint(a[2], 0)); }
OP("colon.iid", F_SEQ | F_CONV, 0, 2) { w.wd(a[0]) = colon(gint(a[1], 0), gint(a[2], 0)); }
OP("colon.dd", F_SEQ, 0, 4) { w.wd(a[0]) = colon(gval(a[1], 0), gval(a[2], 0)); }
OP("colon.id", F_SEQ, 0, 3) { w.wd(a[0]) = colon(gint(a[1], 0), gval(a[2], 0)); }
OP("colon.di", F_SEQ, 0, 3) { w.wd(a[0]) = colon(gval(a[1], 0), gint(a[2], 0)); }
OP("colon.long", F_SEQ, 0, 2) {
  int s = gint(a[1], 0) * 3;
  w.wi(a[0]) = colon(s, s + (int)((unsigned)a[2] % 150));
}
OP("colon.down", F_SEQ, 0, 2) {
  int s = gint(a[1], 0) * 3;
  w.wi(a[0]) = colon(s, s - (int)((unsigned)a[2] % 60));
}
OP("colon.one", F_SEQ, 0, 1) {
  int s = gint(a[1], 0);
  w.wi(a[0]) = colon(s, s);
}
OP("colon.vec", F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 3) { // only the first elements are used
  VI &x = w.i(a[1]), &y = w.i(a[2]);
  w.wi(a[0]) = colon(x, y);
}
OP("colon.vecd", F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 3) {
  VD &x = w.d(a[1]), &y = w.d(a[2]);
  w.wd(a[0]) = colon(x, y);
}
OP("colon.vecs", F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 2) {
  VI &x = w.i(a[1]);
  w.wi(a[0]) = colon(1, x);
}
OP("colon.svec", F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 2) {
  VI &x = w.i(a[1]);
  w.wi(a[0]) = colon(x, gint(a[2], 0));
}
OP("colon.vec1", F_SEQ, 0, 2) { // vectors of length one
  VI x = coca(gint(a[1], 0));
  VI y = coca(gint(a[2], 0));
  w.wi(a[0]) = colon(x, y);
}
OP("colon.calc", F_SEQ | F_CALC, 0, 3) {
  w.wd(a[0]) = colon(gint(a[1], 0), gint(a[2], 0)) * 2 + gval(a[3], 0);
}
OP("colon.ctor", F_SEQ, 0, 2) {
  VI x = colon(gint(a[1], 0), gint(a[2], 0));
  VD y = colon(gval(a[1], 0), gval(a[1], 0) + (double)sm(a[2]));
  outv(o, x);
  outv(o, y);
}
OP("colon.size", F_SEQ | F_OBS, 0, 2) {
  o.num((double)colon(gint(a[1], 0), gint(a[2], 0)).size());
}
// ---- rep --------------------------------------------------------------------------------
OP("rep.s", F_SEQ, 0, 2) { w.wd(a[0]) = rep(gval(a[1], 0), sm(a[2])); }
OP("rep.i", F_SEQ, 0, 2) { w.wi(a[0]) = rep(gint(a[1], 0), sm(a[2])); }
OP("rep.b", F_SEQ, 0, 1) { w.wb(a[0]) = rep(gbool(a[1], 0), sm(a[2])); }
OP("rep.d", F_SEQ, 0, 3) { w.wd(a[0]) = rep(w.d(a[1]), sm(a[2]) % 3 + 1); }
OP("rep.iv", F_SEQ, 0, 2) { w.wi(a[0]) = rep(w.i(a[1]), sm(a[2]) % 3 + 1); }
OP("rep.bv", F_SEQ, 0, 1) { w.wb(a[0]) = rep(w.b(a[1]), sm(a[2]) % 3 + 1); }
OP("rep.w", F_SEQ | F_BORROW, 0, 1) { w.wd(a[0]) = rep(w.w(a[1]), sm(a[2]) % 3 + 1); }
OP("rep.dbl", F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 2) { // 2.0 or 2.5 times
  w.wd(a[0]) = rep(w.d(a[1]), 1.0 + (double)((unsigned)a[2] % 5) * 0.5);
}
OP("rep.v", F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 2) { // times is a vector
  VI t(sz(1 + (int)((unsigned)a[2] % 3)));
  for (std::size_t k = 0; k < t.size(); k++)
    t[k] = 1 + (int)(ah(a[3], (int)k) % 3);
  w.wd(a[0]) = rep(w.d(a[1]), t);
}
OP("rep.zero", F_SEQ | F_REJ, 0, 2) { w.wd(a[0]) = rep(w.d(a[1]), -(int)((unsigned)a[2] % 3)); }
OP("rep.colon", F_SEQ, 0, 2) { w.wi(a[0]) = rep(colon(1, sm(a[1])), sm(a[2])); }
OP("rep.coca", F_SEQ, 0, 2) {
  w.wd(a[0]) = rep(coca(gval(a[1], 0), gval(a[1], 1)), sm(a[2]));
}
OP("rep.expr", F_SEQ | F_CALC, 0, 2) { w.wd(a[0]) = rep(w.d(a[1]) + 1.0, 2); }
// ---- coca ---------------------------------------------------------------------------------
OP("coca.s1", F_SEQ, 0, 1) { w.wd(a[0]) = coca(gval(a[1], 0)); }
OP("coca.s3", F_SEQ, 0, 2) {
  w.wd(a[0]) = coca(gval(a[1], 0), gval(a[1], 1), gval(a[1], 2));
}
OP("coca.mix", F_SEQ | F_CONV, 0, 2) {
  w.wd(a[0]) = coca(gint(a[1], 0), gval(a[1], 1), gbool(a[1], 2));
}
OP("coca.i", F_SEQ, 0, 2) { w.wi(a[0]) = coca(gint(a[1], 0), gint(a[1], 1)); }
OP("coca.ib", F_SEQ | F_CONV, 0, 2) { w.wi(a[0]) = coca(gbool(a[1], 0), gint(a[1], 1)); }
OP("coca.b", F_SEQ, 0, 2) { w.wb(a[0]) = coca(gbool(a[1], 0), gbool(a[1], 1), gbool(a[1], 2)); }
OP("coca.dd", F_SEQ, 0, 4) { w.wd(a[0]) = coca(w.d(a[1]), w.d(a[2])); }
OP("coca.ddd", F_SEQ, 0, 2) { w.wd(a[0]) = coca(w.d(a[1]), gval(a[2], 0), w.d(a[3])); }
OP("coca.di", F_SEQ | F_CONV, 0, 2) { w.wd(a[0]) = coca(w.d(a[1]), w.i(a[2])); }
OP("coca.id", F_SEQ | F_CONV, 0, 2) { w.wd(a[0]) = coca(w.i(a[1]), gval(a[2], 0)); }
OP("coca.ii", F_SEQ, 0, 2) { w.wi(a[0]) = coca(w.i(a[1]), w.i(a[2]), gint(a[3], 0)); }
OP("coca.bi", F_SEQ | F_CONV, 0, 2) { w.wi(a[0]) = coca(w.b(a[1]), w.i(a[2])); }
OP("coca.bb", F_SEQ, 0, 2) { w.wb(a[0]) = coca(w.b(a[1]), w.b(a[2])); }
OP("coca.w", F_SEQ | F_BORROW, 0, 2) { w.wd(a[0]) = coca(w.w(a[1]), w.d(a[2])); }
OP("coca.nest", F_SEQ, 0, 2) {
  w.wd(a[0]) = coca(coca(gval(a[1], 0), gval(a[1], 1)), coca(gval(a[1], 2)));
}
OP("coca.calc", F_SEQ | F_CALC, 0, 2) {
  w.wd(a[0]) = coca(gval(a[1], 0), gval(a[1], 1)) + coca(1, 2, 3);
}
OP("coca.trunc", F_SEQ | F_CONV, 0, 2) { w.wi(a[0]) = coca(gval(a[1], 0), gval(a[1], 1)); }
// ---- matrix -------------------------------------------------------------------------------
OP("matrix.s", F_SEQ, 0, 3) { w.wd(a[0]) = matrix(gval(a[1], 0), sm(a[2]), sm(a[3])); }
OP("matrix.si", F_SEQ, 0, 2) { w.wi(a[0]) = matrix(gint(a[1], 0), sm(a[2]), sm(a[3])); }
OP("matrix.sb", F_SEQ, 0, 1) { w.wb(a[0]) = matrix(gbool(a[1], 0), sm(a[2]), sm(a[3])); }
OP("matrix.v", F_SEQ, 0, 4) {
  int r = sm(a[2]), c = sm(a[3]);
  w.wd(a[0]) = matrix(colon(1, r * c) * 0.5, 0 + r, 0 + c);
}
OP("matrix.iv", F_SEQ, 0, 3) {
  int r = sm(a[2]), c = sm(a[3]);
  w.wi(a[0]) = matrix(colon(1, r * c), 0 + r, 0 + c);
}
OP("matrix.pool", F_SEQ, 0, 3) {
  VD &x = w.d(a[1]);
  int n = (int)x.size(), r = sm(a[2]);
  if (n % r == 0)
    w.wd(a[0]) = matrix(x + 0.0, 0 + r, n / r);
}
OP("matrix.wrong", F_SEQ | F_REJ, 0, 2) { // other number of elements
  VD &x = w.d(a[1]);
  w.wd(a[0]) = matrix(x + 0.0, sm(a[2]), sm(a[3]));
}
OP("matrix.zero", F_SEQ | F_REJ, 0, 2) {
  w.wd(a[0]) = matrix(gval(a[1], 0), (int)((unsigned)a[2] % 3) - 1, (int)((unsigned)a[3] % 3) - 1);
}
OP("matrix.dbl", F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 2) {
  w.wd(a[0]) = matrix(gval(a[1], 0), 1.0 + (double)((unsigned)a[2] % 5) * 0.5, 0 + sm(a[3]));
}
OP("matrix.ctor", F_SEQ, 0, 1) {
  VD x = matrix(gval(a[1], 0), sm(a[2]), sm(a[3]));
  outv(o, x);
  VI y;
  y = matrix(colon(1, 6), 2, 3);
  outv(o, y);
  outv(o, dim(y));
}
OP("matrix.calc", F_SEQ | F_CALC, 0, 2) {
  int r = sm(a[2]), c = sm(a[3]);
  w.wd(a[0]) = matrix(gval(a[1], 0), 0 + r, 0 + c) + matrix(colon(1, r * c) * 1.0, 0 + r, 0 + c);
}
// ---- vectors of a given length ----------------------------------------------------------
OP("vector.num", F_SEQ, 0, 2) { w.wd(a[0]) = vector_numeric(glen(a[1])); }
OP("vector.int", F_SEQ, 0, 2) { w.wi(a[0]) = vector_integer(glen(a[1])); }
OP("vector.lgl", F_SEQ, 0, 2) { w.wb(a[0]) = vector_logical(glen(a[1])); }
OP("vector.dbl", F_SEQ | F_PRINT, X_WARN | X_NOTHREAD, 2) {
  w.wd(a[0]) = vector_numeric(1.0 + (double)((unsigned)a[1] % 9) * 0.5);
}
OP("vector.dbli", F_SEQ, X_NOTHREAD, 1) {
  w.wi(a[0]) = vector_integer(1.0 + (double)((unsigned)a[1] % 9) * 0.5);
}
OP("vector.dbll", F_SEQ, X_NOTHREAD, 1) {
  w.wb(a[0]) = vector_logical(1.0 + (double)((unsigned)a[1] % 9) * 0.5);
}
OP("vector.zero", F_SEQ | F_REJ, 0, 1) { w.wd(a[0]) = vector_numeric(-(int)((unsigned)a[1] % 3)); }
OP("vector.zeroi", F_SEQ | F_REJ, 0, 1) { w.wi(a[0]) = vector_integer(-(int)((unsigned)a[1] % 3)); }
OP("vector.zerol", F_SEQ | F_REJ, 0, 1) { w.wb(a[0]) = vector_logical(-(int)((unsigned)a[1] % 3)); }
OP("vector.v1", F_SEQ, 0, 2) { // the length is a vector of length one
  VI n = coca(glen(a[1]));
  w.wd(a[0]) = vector_numeric(n);
}
OP("vector.fill", F_SEQ, 0, 3) {
  VD x = vector_numeric(glen(a[1]));
  for (std::size_t k = 0; k < x.size(); k++)
    x[k] = gval(a[2], (int)k);
  outv(o, x);
  w.wd(a[0]) = x;
}
OP("vector.index", F_SEQ | F_SUBW, X_NOSWEEP, 2) {
  VD &x = w.wd(a[0]);
  x = vector_numeric(glen(a[1]));
  subset(x, colon(1, (int)x.size())) = colon((int)x.size(), 1);
}
} // namespace NS
