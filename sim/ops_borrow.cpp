// borrowed buffers: the memory belongs to the caller
#include "help.h"
namespace NS {
static int cnt(int a) { return 1 + (int)((unsigned)a % 7); }
static VD vals(int a, int n) {
  VD v(sz(n < 1 ? 1 : n));
  for (int k = 0; k < n; k++)
    v[(std::size_t)k] = gval(a, k);
  return v;
}
static void rebind(World &w, int k) { // a new view of the same memory
  unsigned q = (unsigned)k % NW;
  VW *n = new VW(w.ext[w.wext[q]] + w.woff[q],
                 (std::size_t)(w.extn[w.wext[q]] - w.woff[q]));
  delete w.W[q];
  w.W[q] = n;
}
// ---- the owner writes; the views read -----------------------------------------
OP("ext.write", F_EXT, 0, 6) {
  int e = (unsigned)a[0] % NE;
  w.ext[e][(unsigned)a[1] % (unsigned)w.extn[e]] = gval(a[2], 0);
}
OP("ext.fill", F_EXT, 0, 2) {
  int e = (unsigned)a[0] % NE;
  for (int k = 0; k < w.extn[e]; k++)
    w.ext[e][k] = gval(a[2], k);
}
OP("ext.writeread", F_EXT | F_BORROW, X_NOSWEEP, 4) {
  VW &x = w.w(a[0]);
  unsigned q = (unsigned)a[0] % NW;
  int k = (int)(ah(a[1], 0) % x.size());
  w.ext[w.wext[q]][w.woff[q] + k] = gval(a[2], 0);
  o.num((double)x[(std::size_t)k]);
  VD y = x + 1.0;
  outv(o, y);
}
OP("borrow.rebind", F_BORROW | F_EXT, 0, 5) { rebind(w, a[0]); }
OP("borrow.rebindread", F_BORROW, 0, 2) {
  unsigned q = (unsigned)a[0] % NW;
  VW v(w.ext[w.wext[q]] + w.woff[q], (std::size_t)1);
  outv(o, v);
}
// ---- assignment ------------------------------------------------------------------
OP("borrow.vec", F_BORROW, 0, 6) { w.w(a[0]) = vals(a[1], (int)w.w(a[0]).size()); }
OP("borrow.d", F_BORROW, 0, 2) { w.w(a[0]) = w.d(a[1]); }
OP("borrow.i", F_BORROW | F_CONV, 0, 2) { w.w(a[0]) = w.i(a[1]); }
OP("borrow.b", F_BORROW | F_CONV, 0, 2) { w.w(a[0]) = w.b(a[1]); }
OP("borrow.expr", F_BORROW | F_CALC, 0, 5) {
  VW &x = w.w(a[0]);
  VD y = vals(a[1], (int)x.size());
  x = y * 2.0 + 1.0;
}
OP("borrow.expr2", F_BORROW | F_CALC, 0, 4) {
  VW &x = w.w(a[0]);
  x = x * 0.5 + gval(a[1], 0);
}
OP("borrow.unary", F_BORROW | F_UNARY, 0, 2) {
  VW &x = w.w(a[0]);
  VD y = vals(a[1], (int)x.size());
  x = sinus(y);
}
OP("borrow.cmp", F_BORROW | F_CMP, 0, 2) {
  VW &x = w.w(a[0]);
  x = x > gval(a[1], 0);
}
OP("borrow.scalar", F_BORROW, 0, 1) { w.w(a[0]) = gval(a[1], 0); }
OP("borrow.scalari", F_BORROW, 0, 1) { w.w(a[0]) = gint(a[1], 0); }
OP("borrow.coca", F_BORROW | F_SEQ, 0, 2) {
  w.w(a[0]) = coca(gval(a[1], 0), gval(a[1], 1), gval(a[1], 2));
}
OP("borrow.colon", F_BORROW | F_SEQ, 0, 3) {
  VW &x = w.w(a[0]);
  x = colon(gint(a[1], 0), gint(a[1], 0) + (int)x.size() - 1);
}
OP("borrow.rep", F_BORROW | F_SEQ, 0, 3) {
  VW &x = w.w(a[0]);
  x = rep(gval(a[1], 0), (int)x.size());
}
OP("borrow.sub", F_BORROW | F_SUBR, 0, 3) {
  VW &x = w.w(a[0]);
  VD &y = w.d(a[1]);
  VI i = idx_i(a[2], (long)y.size(), (int)x.size());
  x = subset(y, i);
}
OP("borrow.subi", F_BORROW | F_SUBR | F_CONV, 0, 2) {
  VW &x = w.w(a[0]);
  VI &y = w.i(a[1]);
  VI i = idx_i(a[2], (long)y.size(), (int)x.size());
  x = subset(y, i);
}
OP("borrow.matrix", F_BORROW | F_SEQ, 0, 4) {
  VW &x = w.w(a[0]);
  int n = (int)x.size();
  int r = 1 + (int)((unsigned)a[1] % 3);
  if (n % r == 0)
    x = matrix(vals(a[2], n) + 0.0, 0 + r, n / r);
}
OP("borrow.matrixpool", F_BORROW, 0, 2) {
  VW &x = w.w(a[0]);
  VD &y = w.d(matd(w, a[1]));
  x = y;
}
OP("borrow.frommatrix", F_BORROW, 0, 2) { // a view which is a matrix, read
  VW &x = w.w(a[0]);
  VD y = x + 0.0;
  outv(o, y);
  outv(o, x);
  w.wd(a[1]) = x;
}
OP("borrow.tovec", F_BORROW, 0, 2) {
  VW &x = w.w(a[0]);
  x = vals(a[1], (int)x.size());
  o.num(x.im());
}
// within the borrowed memory a view may become longer again, never beyond it
OP("borrow.regrow", F_BORROW, X_NOSWEEP, 5) {
  VW &x = w.w(a[0]);
  unsigned q = (unsigned)a[0] % NW;
  int cap = w.extn[w.wext[q]] - w.woff[q];
  if (cap < 3)
    return;
  int n = 1 + (int)((unsigned)a[1] % (unsigned)cap);
  x = gval(a[2], 0); // one element
  o.num((double)x.size());
  x = vals(a[3], n);
  outv(o, x);
  x = vals(a[4], cap);
  outv(o, x);
}
OP("borrow.toolong", F_BORROW | F_REJ, 0, 4) {
  unsigned q = (unsigned)a[0] % NW;
  int cap = w.extn[w.wext[q]] - w.woff[q];
  w.w(a[0]) = vals(a[1], cap + 1 + (int)((unsigned)a[2] % 3));
}
OP("borrow.toolongx", F_BORROW | F_REJ, 0, 2) {
  unsigned q = (unsigned)a[0] % NW;
  int cap = w.extn[w.wext[q]] - w.woff[q];
  VD y = vals(a[1], cap + 1 + (int)((unsigned)a[2] % 3));
  w.w(a[0]) = y + 1.0;
}
OP("borrow.toolongsub", F_BORROW | F_REJ, 0, 2) {
  VW &x = w.w(a[0]);
  unsigned q = (unsigned)a[0] % NW;
  int cap = w.extn[w.wext[q]] - w.woff[q];
  VI i = idx_i(a[1], (long)x.size(), cap + 1);
  x = subset(x, i);
}
OP("borrow.toolongi", F_BORROW | F_REJ | F_CONV, 0, 1) {
  unsigned q = (unsigned)a[0] % NW;
  int cap = w.extn[w.wext[q]] - w.woff[q];
  w.w(a[0]) = colon(1, cap + 1);
}
OP("borrow.tooshort", F_BORROW | F_REJ, 0, 2) {
  VW &x = w.w(a[0]);
  int n = (int)x.size() - 1 - (int)((unsigned)a[2] % 2);
  x = vals(a[1], n < 1 ? 1 : n);
}
OP("borrow.tooshortx", F_BORROW | F_REJ, 0, 1) {
  VW &x = w.w(a[0]);
  VD y = vals(a[1], cnt(a[2]));
  x = y - 1.0;
}
// ---- elements ----------------------------------------------------------------------
OP("borrow.elem", F_BORROW, 0, 5) {
  VW &x = w.w(a[0]);
  x[(std::size_t)(gidx(a[1], 0, (long)x.size()) - 1)] = gval(a[2], 0);
}
OP("borrow.elemout", F_BORROW | F_REJ, 0, 2) {
  VW &x = w.w(a[0]);
  x[x.size() + (unsigned)a[1] % 3] = 4711;
}
OP("borrow.at", F_BORROW, 0, 2) {
  VW &x = w.w(a[0]);
  at(x, gidx(a[1], 0, (long)x.size())) = gval(a[2], 0);
}
OP("borrow.fill", F_BORROW, 0, 2) { w.w(a[0]).fill(gval(a[1], 0)); }
OP("borrow.back", F_BORROW | F_OBS, 0, 2) {
  VW &x = w.w(a[0]);
  o.num((double)x.back());
  x.back() = gval(a[1], 0);
}
OP("borrow.loop", F_BORROW | F_OBS, 0, 2) {
  VW &x = w.w(a[0]);
  double s = gval(a[1], 0);
  for (auto &v : x)
    o.num(v);
  for (auto &v : x)
    v = s;
}
OP("borrow.subw", F_BORROW | F_SUBW, 0, 3) {
  VW &x = w.w(a[0]);
  VI i = idx_i(a[1], (long)x.size(), cnt(a[2]));
  subset(x, i) = vals(a[3], (int)i.size());
}
OP("borrow.subws", F_BORROW | F_SUBW, 0, 2) {
  VW &x = w.w(a[0]);
  subset(x, colon(1, gidx(a[1], 0, (long)x.size()))) = gval(a[2], 0);
}
OP("borrow.mask", F_BORROW | F_SUBW | F_CMP, 0, 2) {
  VW &x = w.w(a[0]);
  double v = (double)x[(std::size_t)(gidx(a[1], 0, (long)x.size()) - 1)];
  subset(x, x == v) = gval(a[2], 0);
}
OP("borrow.matelem", F_BORROW | F_SUBM, 0, 2) {
  VW &x = w.w(a[0]);
  if (x.im())
    at(x, gidx(a[1], 0, (long)x.nr()), gidx(a[2], 0, (long)x.nc())) = gval(a[3], 0);
}
// ---- views of each other and of vectors ------------------------------------------------
OP("borrow.ww", F_BORROW, 0, 3) {
  VW &x = w.w(a[0]), &y = w.w(a[1]);
  x = y;
}
OP("borrow.wwexpr", F_BORROW | F_CALC, 0, 3) {
  VW &x = w.w(a[0]), &y = w.w(a[1]);
  if (fits(x, y))
    x = x + y;
}
OP("borrow.copied", F_BORROW | F_OWN, 0, 3) { // a vector made of a view is a copy
  VW &x = w.w(a[0]);
  VD y;
  y = x;
  y[0] = 4711;
  outv(o, x);
  w.wd(a[1]) = y;
}
OP("borrow.obs", F_BORROW | F_OBS, 0, 3) {
  VW &x = w.w(a[0]);
  o.num(length(x));
  o.num((double)x.size());
  outv(o, x);
}
OP("borrow.local", F_BORROW, 0, 3) { // a short lived view
  int e = (unsigned)a[0] % NE;
  int off = (int)((unsigned)a[1] % (unsigned)w.extn[e]);
  int n = 1 + (int)((unsigned)a[2] % (unsigned)(w.extn[e] - off));
  VW v(w.ext[e] + off, (std::size_t)n);
  o.num((double)v.size());
  VD y = v * 2.0;
  outv(o, y);
  v = vals(a[3], n);
}
OP("borrow.owner", F_BORROW | F_EXT, X_NOSWEEP, 2) { // view of a vector's values
  int n = 2 + (int)((unsigned)a[0] % 9);
  double m[16];
  for (int k = 0; k < 16; k++)
    m[k] = -1;
  {
    VW v(m, (std::size_t)n);
    v = colon(1, n);
    v = v * 2.0;
    subset(v, 1) = gval(a[1], 0);
  }
  for (int k = 0; k < 16; k++)
    o.num(m[k]);
}
#ifdef SIDE_SUT
typedef Borrow<double> BR;
#else
struct BR { // the storage class behind a view
  double *p;
  std::size_t sz, cap;
  BR(double *p_, std::size_t n) : p(p_), sz(n), cap(n) {}
  std::size_t size() const { return sz; }
  void resize(std::size_t n) {
    if (n < 1 || n > cap)
      throw Err{};
    sz = n;
  }
  void fill(double x) { std::fill(p, p + sz, x); }
  template <class A>
    requires(IsM<A>)
  void fill(const A &a) {
    const auto &e = ev(a);
    if (e.v.size() != sz)
      throw Err{};
    std::copy(e.v.begin(), e.v.end(), p);
  }
  void set(std::size_t i, double x) { (*this)[i] = x; }
  double &operator[](std::size_t i) {
    if (i >= sz)
      throw Err{};
    return p[i];
  }
  double operator[](std::size_t i) const {
    if (i >= sz)
      throw Err{};
    return p[i];
  }
  double &back() { return p[sz - 1]; }
  double *begin() { return p; }
  double *end() { return p + sz; }
};
#endif
OP("borrowraw.set", F_BORROW, 0, 2) {
  int e = (unsigned)a[0] % NE;
  BR b(w.ext[e], (std::size_t)w.extn[e]);
  b.set((unsigned)a[1] % (unsigned)w.extn[e], gval(a[2], 0));
}
OP("borrowraw.setout", F_BORROW | F_REJ, 0, 1) {
  int e = (unsigned)a[0] % NE;
  std::size_t n = 1 + (unsigned)a[3] % (unsigned)w.extn[e];
  BR b(w.ext[e], n);
  b.set(n + (unsigned)a[1] % 2, gval(a[2], 0));
}
OP("borrowraw.fill", F_BORROW, 0, 2) {
  int e = (unsigned)a[0] % NE;
  int n = 1 + (int)((unsigned)a[1] % (unsigned)w.extn[e]);
  BR b(w.ext[e], (std::size_t)w.extn[e]);
  b.resize((std::size_t)n);
  o.num((double)b.size());
  b.fill(gval(a[2], 0));
}
OP("borrowraw.fillv", F_BORROW, 0, 2) {
  int e = (unsigned)a[0] % NE;
  int n = 1 + (int)((unsigned)a[1] % (unsigned)w.extn[e]);
  BR b(w.ext[e], (std::size_t)w.extn[e]);
  b.resize((std::size_t)n);
  VD v = vals(a[2], n);
  b.fill(v);
}
OP("borrowraw.fillwrong", F_BORROW | F_REJ, 0, 1) {
  int e = (unsigned)a[0] % NE;
  BR b(w.ext[e], (std::size_t)w.extn[e]);
  VD v = vals(a[2], cnt(a[1]));
  b.fill(v);
}
OP("borrowraw.grow", F_BORROW | F_REJ, 0, 2) {
  int e = (unsigned)a[0] % NE;
  int n = 1 + (int)((unsigned)a[1] % (unsigned)w.extn[e]);
  BR b(w.ext[e], (std::size_t)n);
  b.resize((std::size_t)n + (unsigned)a[2] % 2);
  o.num((double)b.size());
}
OP("borrowraw.zero", F_BORROW | F_REJ, 0, 1) {
  BR b(w.ext[0], (std::size_t)w.extn[0]);
  b.resize(0);
}
OP("borrowraw.read", F_BORROW | F_OBS, 0, 2) {
  int e = (unsigned)a[0] % NE;
  BR b(w.ext[e], (std::size_t)w.extn[e]);
  o.num(b.back());
  int n = 0;
  for (auto &x : b) {
    o.num(x);
    n++;
  }
  o.num(n);
  o.num(b[(unsigned)a[1] % (unsigned)w.extn[e]]);
}
// a view of a part of the memory: shrunk, read, written, grown again
OP("borrowraw.part", F_BORROW | F_REJ, X_NOSWEEP, 4) {
  int e = (unsigned)a[0] % NE;
  int all = w.extn[e], n = 1 + (int)((unsigned)a[1] % (unsigned)all);
  BR b(w.ext[e], (std::size_t)all);
  b.resize((std::size_t)n);
  o.num((double)b.size());
  o.num(b.back());
  int c = 0;
  for (auto &x : b) {
    o.num(x);
    c++;
  }
  o.num(c);
  b.back() = gval(a[2], 0);
  const BR &k = b;
  std::size_t q = (std::size_t)n - 1 + ((unsigned)a[3] % 4 == 0);
  switch ((unsigned)a[4] % 6) {
  case 0:
    o.num(k[q]);
    break;
  case 1:
    b[q] = gval(a[2], 1);
    break;
  case 2:
    b.set(q, gval(a[2], 2));
    break;
  case 3: {
    VI v(sz((int)q + 1));
    for (std::size_t j = 0; j <= q; j++)
      v[j] = gint(a[5], (int)j);
    b.fill(std::move(v));
    break;
  }
  case 4: {
    VD v(sz((int)q + 1));
    for (std::size_t j = 0; j <= q; j++)
      v[j] = gval(a[5], (int)j);
    b.fill(std::move(v));
    break;
  }
  default:
    b.resize((std::size_t)all);
    o.num(b.back());
    o.num((double)b.size());
  }
}
OP("borrowraw.none", F_BORROW | F_REJ, 0, 1) { // without any memory
#ifdef SIDE_SUT
  BR b;
#else
  BR b(nullptr, 0);
#endif
  const BR &c = b;
  switch ((unsigned)a[0] % 4) {
  case 0:
    o.num(c[(unsigned)a[1] % 2]);
    break;
  case 1:
    b[(unsigned)a[1] % 2] = 1.0;
    break;
  case 2:
    b.set(0, 1.0);
    break;
  default:
    b.resize(1);
  }
}
// copies of a view name the same memory and may use all of it again
static VW mkw(World &w, const int *a, int &e) {
  e = (int)((unsigned)a[0] % NE);
  return VW(w.ext[e], (std::size_t)w.extn[e]);
}
OP("borrow.copyshrunk", F_BORROW, X_NOSWEEP, 3) {
  int e, n;
  VW v = mkw(w, a, e);
  n = w.extn[e];
  v = gval(a[1], 0); // one element now
  VW u = v;
  o.num((double)u.size());
  int k = 1 + (int)((unsigned)a[2] % (unsigned)n);
  u = vals(a[3], k);
  o.num((double)u.size());
  o.num((double)v.size());
  outv(o, v);
  v = vals(a[4], n); // the whole memory again
  outv(o, v);
  u = vals(a[5], n);
  outv(o, v);
}
OP("borrow.copytoolong", F_BORROW | F_REJ, X_NOSWEEP, 2) {
  int e;
  VW v = mkw(w, a, e);
  v = gval(a[1], 0);
  VW u = v;
  u = vals(a[3], w.extn[e] + 1 + (int)((unsigned)a[2] % 3));
}
OP("borrow.copyview", F_BORROW, 0, 2) { // a copy of a view of the pool
  VW u = w.w(a[0]);
  outv(o, u);
  VD y = u * 2.0;
  outv(o, y);
  u = vals(a[1], (int)u.size());
}
OP("borrow.copymatrix", F_BORROW, X_NOSWEEP, 2) {
  int e;
  VW v = mkw(w, a, e);
  v = gval(a[1], 0);
  int r = 1 + (int)((unsigned)a[2] % 2), c = 1 + (int)((unsigned)a[3] % 2);
  VD m((std::size_t)r, (std::size_t)c);
  for (std::size_t k = 0; k < m.size(); k++)
    m[k] = gval(a[4], (int)k);
  v = m;
  VW u = v;
  outv(o, u);
  u = gval(a[5], 0);
  outv(o, u);
  VW t = u;
  t = m;
  outv(o, t);
}
OP("borrow.shrinkread", F_BORROW | F_REJ, X_NOSWEEP, 2) { // hidden elements
  VW &x = w.w(a[0]);
  int n = (int)x.size();
  x = gval(a[1], 0);
  o.num((double)x.size());
  o.num(x.size() > 1 ? 1 : 0);
  int k = 1 + (int)((unsigned)a[2] % (unsigned)(n + 1));
  if (k == 1)
    o.num(x[0]);
  else if (a[3] & 1)
    o.num(x[(std::size_t)(k - 1)]);
  else if (a[3] & 2)
    o.num(at(x, k));
  else
    subset(x, k) = 3.0;
}
OP("borrowraw.copy", F_BORROW, 0, 3) {
  int e = (unsigned)a[0] % NE;
  std::size_t n = (std::size_t)w.extn[e];
  BR b(w.ext[e], n);
  b.resize(1 + (std::size_t)((unsigned)a[1] % (unsigned)n));
  BR c(b);
  o.num((double)c.size());
  c.resize(n);
  o.num((double)c.size());
  o.num((double)b.size());
  BR d(w.ext[e], 1);
  d = b;
  o.num((double)d.size());
  d.resize(n);
  o.num(d.back());
  BR f(std::move(d));
  f.resize(1);
  f.resize(n);
  o.num((double)f.size());
  o.num(f[n - 1]);
  for (auto &x : f)
    o.num(x);
}
OP("borrowraw.copygrow", F_BORROW | F_REJ, 0, 2) {
  int e = (unsigned)a[0] % NE;
  std::size_t n = 1 + (std::size_t)((unsigned)a[1] % (unsigned)w.extn[e]);
  BR b(w.ext[e], n);
  b.resize(1 + (std::size_t)((unsigned)a[2] % (unsigned)n));
  BR c(b);
  if (a[3] & 1)
    c.resize(n + 1);
  BR d(w.ext[e], (std::size_t)w.extn[e]);
  d = c;
  d.resize(n + ((a[3] & 2) ? 1 : 0));
  o.num((double)d.size());
}
#ifdef SIDE_SUT
#define VOFBR(b) VW(b)
#else
static VW vofbr(BR &b) {
  VW v(b.p, b.sz);
  v.cap = b.cap;
  return v;
}
#define VOFBR(b) vofbr(b)
#endif
OP("borrowraw.vec", F_BORROW, 0, 3) {
  int e = (unsigned)a[0] % NE;
  std::size_t n = (std::size_t)w.extn[e];
  BR b(w.ext[e], n);
  std::size_t k = 1 + (std::size_t)((unsigned)a[1] % (unsigned)n);
  b.resize(k);
  VW v = VOFBR(b);
  outv(o, v);
  v = vals(a[2], (int)(k + (std::size_t)((unsigned)a[3] % (unsigned)(n - k + 1))));
  o.num((double)v.size());
}
} // namespace NS
