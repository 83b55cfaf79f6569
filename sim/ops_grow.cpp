// raw storage
#include "help.h"
namespace NS {
static void outr(Out &o, const RS &r) {
  o.num((double)r.size());
  for (std::size_t k = 0; k < r.size(); k++)
    o.num(r[k]);
}
// swaps the content of storage k by a complete value
static void put(World &w, int k, RS *n) {
  unsigned q = (unsigned)k % NR;
  delete w.R[q];
  w.R[q] = n;
}
static RS *small(World &w, int k, int a) { // long storage is replaced
  RS &r = w.r(k);
  if (r.size() > 300) {
    RS *n = new RS((std::size_t)(1 + (unsigned)a % 5));
    put(w, k, n);
    return n;
  }
  return &r;
}
OP("grow.push", F_GROW, 0, 6) {
  RS *r = small(w, a[0], a[1]);
  r->push_back(gval(a[2], 0));
}
OP("grow.pushn", F_GROW, X_NOSWEEP, 6) {
  RS *r = small(w, a[0], a[1]);
  int n = (int)((unsigned)a[2] % 40);
  for (int k = 0; k < n; k++)
    r->push_back(gval(a[3], k));
  outr(o, *r);
}
OP("grow.fresh", F_GROW, 0, 3) { // from nothing, element by element
  RS *r = new RS();
  o.num((double)r->size());
  struct G {
    RS *&r;
    ~G() { delete r; }
  } g{r};
  int n = (int)((unsigned)a[1] % 30);
  for (int k = 0; k < n; k++) {
    r->push_back(gval(a[2], k));
    o.num((double)r->size());
  }
  outr(o, *r);
  RS *t = r;
  r = nullptr;
  put(w, a[0], t);
}
OP("grow.ctor", F_GROW, 0, 2) { put(w, a[0], new RS((std::size_t)(1 + (unsigned)a[1] % 30))); }
OP("grow.ctor0", F_GROW | F_REJ, 0, 1) {
  RS r((std::size_t)((unsigned)a[1] % 2));
  outr(o, r);
}
OP("grow.realloc", F_GROW, 0, 4) { // grows: elements are kept, new ones are zero
  RS *r = small(w, a[0], a[1]);
  r->realloc(r->size() + 1 + (unsigned)a[2] % 20);
}
OP("grow.reallocsame", F_GROW, 0, 1) {
  RS &r = w.r(a[0]);
  if (r.size())
    r.realloc(r.size());
}
OP("grow.reallocshrink", F_GROW, 0, 2) {
  RS &r = w.r(a[0]);
  if (r.size())
    r.realloc(1 + (unsigned)a[2] % r.size());
}
OP("grow.shrink", F_GROW, 0, 3) { // elements are kept
  RS &r = w.r(a[0]);
  if (r.size())
    r.resize(1 + (unsigned)a[2] % r.size());
}
OP("grow.resize", F_GROW, 0, 5) { // new elements are zero; all are written again
  RS *r = small(w, a[0], a[1]);
  std::size_t m = r->size(), n = m + (unsigned)a[2] % 12;
  if (n == 0)
    n = 1;
  r->resize(n);
  o.num((double)r->size());
  for (std::size_t k = m; k < n; k++)
    o.num((*r)[k]);
  if (n > m)
    for (std::size_t k = 0; k < n; k++)
      (*r)[k] = gval(a[3], (int)k);
}
OP("grow.shrinkgrow", F_GROW, X_NOSWEEP, 4) { // stale elements do not come back
  RS &r = w.r(a[0]);
  std::size_t n = r.size();
  if (n) {
    std::size_t m = 1 + (unsigned)a[1] % n;
    r.resize(m);
    r.resize(n);
    outr(o, r);
  }
}
OP("grow.resize0", F_GROW | F_REJ, 0, 1) {
  w.r(a[0]).resize(0);
}
OP("grow.fills", F_GROW, 0, 2) { w.r(a[0]).fill(gval(a[1], 0)); }
OP("grow.fillv", F_GROW, 0, 3) {
  RS &r = w.r(a[0]);
  if (r.size()) {
    VD x(sz((int)r.size()));
    for (std::size_t k = 0; k < x.size(); k++)
      x[k] = gval(a[1], (int)k);
    r.fill(x);
  }
}
OP("grow.fillx", F_GROW, 0, 2) {
  RS &r = w.r(a[0]);
  if (r.size()) {
    VI x(sz((int)r.size()));
    for (std::size_t k = 0; k < x.size(); k++)
      x[k] = gint(a[1], (int)k);
    r.fill(x);
  }
}
OP("grow.filln", F_GROW | F_REJ, 0, 2) { // other length
  RS &r = w.r(a[0]);
  VD &x = w.d(a[1]);
  r.fill(x);
}
OP("grow.copy", F_GROW, 0, 3) {
  RS *r = new RS(w.r(a[1]));
  struct G {
    RS *&r;
    ~G() { delete r; }
  } g{r};
  if (r->size())
    (*r)[0] = gval(a[2], 0);
  outr(o, *r);
  outr(o, w.r(a[1]));
  RS *t = r;
  r = nullptr;
  put(w, a[0], t);
}
OP("grow.copypush", F_GROW, 0, 3) { // a copy grows on its own
  RS r(w.r(a[1]));
  int n = 1 + (int)((unsigned)a[2] % 9);
  if (r.size() < 300)
    for (int k = 0; k < n; k++)
      r.push_back(gval(a[3], k));
  outr(o, r);
  outr(o, w.r(a[1]));
}
OP("grow.assign", F_GROW, 0, 5) {
  RS &x = w.r(a[0]), &y = w.r(a[1]);
  if (x.size() && y.size())
    x = y;
}
OP("grow.assignlocal", F_GROW, 0, 3) {
  RS r((std::size_t)(1 + (unsigned)a[1] % 20));
  for (std::size_t k = 0; k < r.size(); k++)
    r[k] = gval(a[2], (int)k);
  RS e;
  e = r;
  e[0] = 17;
  outr(o, e);
  outr(o, r);
  w.r(a[0]) = r;
}
OP("grow.self", F_GROW, 0, 1) {
  RS &x = w.r(a[0]);
  RS &y = x;
  x = y;
}
OP("grow.move", F_GROW, 0, 3) {
  RS x(w.r(a[1]));
  RS y(std::move(x));
  outr(o, y);
  o.num((double)y.size());
}
OP("grow.set", F_GROW, 0, 3) {
  RS &r = w.r(a[0]);
  if (r.size())
    r[(std::size_t)(gidx(a[1], 0, (long)r.size()) - 1)] = gval(a[2], 0);
}
OP("grow.outside", F_GROW | F_REJ, 0, 1) {
  RS &r = w.r(a[0]);
  r[r.size() + (unsigned)a[1] % 3] = 4711;
}
OP("grow.back", F_GROW | F_OBS, 0, 2) {
  RS &r = w.r(a[0]);
  if (r.size()) {
    o.num(r.back());
    r.back() = gval(a[1], 0);
  }
}
OP("grow.iter", F_GROW | F_OBS, 0, 2) {
  RS &r = w.r(a[0]);
  int n = 0;
  for (auto &x : r) {
    o.num(x);
    n++;
  }
  o.num(n);
}
// vectors
OP("grow.vec", F_GROW, 0, 4) {
  VD x(sz(glen(a[1])));
  x.fill(gval(a[2], 0));
  std::size_t m = x.size(), n = 1 + (unsigned)a[3] % (2 * m);
  x.resize(n);
  o.num((double)x.size());
  for (std::size_t k = 0; k < n; k++)
    if (k >= m || n <= m)
      o.num((double)x[k]);
}
OP("grow.vecshrinkgrow", F_GROW, 0, 3) {
  VI x(sz(glen(a[1])));
  x.fill(gint(a[2], 0));
  std::size_t n = x.size();
  std::size_t m = 1 + (unsigned)a[3] % n;
  x.resize(m);
  x.resize(n);
  for (std::size_t k = 0; k < n; k++)
    o.num((double)x[k]);
}
OP("grow.veclgl", F_GROW, 0, 2) {
  VB x(sz(glen(a[1])));
  x.fill(true);
  std::size_t n = x.size();
  std::size_t m = 1 + (unsigned)a[3] % n;
  x.resize(m);
  x.resize(n);
  for (std::size_t k = 0; k < n; k++)
    o.num((double)x[k]);
}
OP("grow.vec0", F_GROW | F_REJ, 0, 1) { w.wd(a[0]).resize(0); }
OP("grow.ctorsi0", F_GROW | F_REJ, 0, 1) {
  VD x(sz((int)((unsigned)a[1] % 2)));
  outv(o, x);
}
} // namespace NS
