// derivatives with respect to one variable
#include "help.h"
namespace NS {
template <class X> static void oute(Out &o, const X &x) { // elements
  o.num((double)x.size());
  for (std::size_t i = 0; i < x.size(); i++)
    o.num((double)x[i]);
}
#ifdef SIDE_SUT
#define VARS                                                                       \
  AV &av = *w.av;                                                                  \
  V0 a_(av);                                                                       \
  V1 b_(av);                                                                       \
  V2 c_(av);                                                                       \
  V3 e_(av);                                                                       \
  V4 f_(av);                                                                       \
  [[maybe_unused]] V0 &x0 = a_;                                                    \
  [[maybe_unused]] V1 &x1 = b_;                                                    \
  [[maybe_unused]] V2 &x2 = c_;                                                    \
  [[maybe_unused]] V3 &x3 = e_;                                                    \
  [[maybe_unused]] V4 &x4 = f_
#define outd(o, a)                                                                 \
  {                                                                                \
    auto v_ = (a).d.get();                                                         \
    auto d_ = get_derivs(a);                                                       \
    outv(o, v_);                                                                   \
    oute(o, d_);                                                                   \
    (o).num((double)(a).size());                                                   \
  }
#else
// dual numbers, element by element. Each number has a bound of its rounding
// error: results which are dominated by it (cancellation) are not specified
struct N {
  double v, e = 0.0;
  N(double v_) : v(v_) {}
  N(double v_, double e_) : v(v_), e(e_ + 1e-15 * std::fabs(v_)) {}
};
static N operator+(N x, N y) { return N(x.v + y.v, x.e + y.e); }
static N operator-(N x, N y) { return N(x.v - y.v, x.e + y.e); }
static N operator*(N x, N y) {
  return N(x.v * y.v, x.e * std::fabs(y.v) + y.e * std::fabs(x.v) + x.e * y.e);
}
static N operator/(N x, N y) {
  double q = x.v / y.v;
  return N(q, (x.e + std::fabs(q) * y.e) / std::max(std::fabs(y.v) - y.e, 1e-30));
}
static N nsin(N x) { return N(std::sin(x.v), x.e + 1e-15); }
static N ncos(N x) { return N(std::cos(x.v), x.e + 1e-15); }
static bool ncmp(N x, N y) { // comparable
  if (x.e + y.e > 0 && std::fabs(x.v - y.v) <= x.e + y.e)
    throw Skip{};
  return true;
}
typedef std::vector<N> NVec;
struct Dual {
  NVec v, d;
  bool constant = false;
  bool m = false;
  std::size_t r = 0, c = 0;
  std::size_t size() const { return v.size(); }
};
static void fine(const N &x, double lim) {
  if (!(std::fabs(x.v) < lim) || x.e > 1e-11 * std::fabs(x.v) + 1e-13)
    throw Skip{};
}
struct MV {
  AV *av;
  int k;
  int cap = 0; // of the borrowed memory
  Dual get() const {
    Dual x;
    const DV &q = av->x[k];
    for (std::size_t i = 0; i < q.v.size(); i++)
      x.v.push_back(N(q.v[i], q.ve.empty() ? 0.0 : q.ve[i]));
    for (std::size_t i = 0; i < q.d.size(); i++)
      x.d.push_back(N(q.d[i], q.de.empty() ? 0.0 : q.de[i]));
    x.m = q.m;
    x.r = q.r;
    x.c = q.c;
    return x;
  }
  std::size_t size() const { return av->x[k].v.size(); }
  void set(const Dual &e) {
    if (e.v.empty())
      throw Err{};
    if (k >= NVB && (int)e.v.size() > (cap ? cap : vcap(k)))
      throw Err{};
    DV n;
    for (std::size_t i = 0; i < e.v.size(); i++) {
      N d = e.constant ? N(k == av->indep ? 1.0 : 0.0) : e.d[i];
      fine(e.v[i], 1e4);
      fine(d, 1e5);
      n.v.push_back(e.v[i].v);
      n.ve.push_back(e.v[i].e);
      n.d.push_back(d.v);
      n.de.push_back(d.e);
    }
    n.m = e.m;
    n.r = e.r;
    n.c = e.c;
    av->x[k] = n;
    if (k >= NVB)
      for (std::size_t i = 0; i < n.v.size(); i++)
        if (i < (std::size_t)NVM)
          av->mem[k - NVB][i] = n.v[i];
  }
  MV &operator=(const Dual &e) {
    set(e);
    return *this;
  }
  MV &operator=(const MV &e) {
    set(e.get());
    return *this;
  }
};
static Dual dl(const Dual &x) { return x; }
static Dual dl(const MV &x) { return x.get(); }
template <class A>
concept IsDual = std::is_same_v<A, Dual> || std::is_same_v<A, MV>;
template <class F, class G> static Dual bin(const Dual &x, const Dual &y, F f, G g) {
  if (x.size() != y.size() && x.size() != 1 && y.size() != 1)
    throw Skip{};
  Dual r;
  std::size_t n = std::max(x.size(), y.size());
  for (std::size_t i = 0; i < n; i++) {
    std::size_t p = i % x.size(), q = i % y.size();
    r.v.push_back(f(x.v[p], y.v[q]));
    r.d.push_back(g(x.v[p], y.v[q], x.d[p], y.d[q]));
    if (!(std::fabs(r.v[i].v) < 1e5) || !(std::fabs(r.d[i].v) < 1e6))
      throw Skip{};
  }
  if (x.m && y.m && (x.r != y.r || x.c != y.c))
    throw Skip{};
  r.m = x.m || y.m;
  r.r = x.m ? x.r : y.r;
  r.c = x.m ? x.c : y.c;
  if (r.m && r.r * r.c != n)
    throw Skip{};
  return r;
}
#define DBIN(OPS, F, G)                                                            \
  template <class A, class B>                                                      \
    requires(IsDual<A> && IsDual<B>)                                               \
  static Dual operator OPS(const A &l, const B &r) {                               \
    return bin(                                                                    \
        dl(l), dl(r), [](N x, N y) -> N { (void)x, (void)y; return F; },           \
        []([[maybe_unused]] N x, [[maybe_unused]] N y, [[maybe_unused]] N dx,      \
           [[maybe_unused]] N dy) -> N { return G; });                             \
  }
DBIN(+, x + y, dx + dy)
DBIN(-, x - y, dx - dy)
DBIN(*, x *y, dx *y + x * dy)
DBIN(/, x / y, (dx * y - x * dy) / (y * y))
DBIN(==, eqtol(x.v, y.v) ? 1.0 : 0.0, 0.0)
DBIN(!=, netol(x.v, y.v) ? 1.0 : 0.0, 0.0)
DBIN(<, ncmp(x, y) && x.v < y.v ? 1.0 : 0.0, 0.0)
DBIN(<=, ncmp(x, y) && x.v <= y.v ? 1.0 : 0.0, 0.0)
DBIN(>, ncmp(x, y) && x.v > y.v ? 1.0 : 0.0, 0.0)
DBIN(>=, ncmp(x, y) && x.v >= y.v ? 1.0 : 0.0, 0.0)
template <class A>
  requires(IsDual<A>)
static Dual sinus(const A &a) {
  Dual x = dl(a), r;
  for (std::size_t i = 0; i < x.size(); i++) {
    r.v.push_back(nsin(x.v[i]));
    r.d.push_back(ncos(x.v[i]) * x.d[i]);
  }
  r.m = x.m;
  r.r = x.r;
  r.c = x.c;
  return r;
}
template <int I, class... A> static Dual coca(AV &, A... a) {
  Dual r;
  (r.v.push_back((double)a), ...);
  r.d.assign(r.v.size(), 0.0);
  r.constant = true;
  return r;
}
template <int I> static Dual scalarDeriv(AV &, double x) {
  Dual r;
  r.v.push_back(x);
  r.d.push_back(0.0);
  r.constant = true;
  return r;
}
template <int I> static Dual colon(AV &, int x, int y) {
  Dual r;
  if (std::labs((long)y - x) > 3000)
    throw Skip{}; // too long
  for (int k = x; x < y ? k <= y : k >= y; k += x < y ? 1 : -1)
    r.v.push_back((double)k);
  r.d.assign(r.v.size(), 0.0);
  r.constant = true;
  return r;
}
#define VARS                                                                       \
  AV &av = *w.av;                                                                  \
  [[maybe_unused]] MV x0{&av, 0}, x1{&av, 1}, x2{&av, 2}, x3{&av, 3},     \
      x4{&av, 4}
static void outd_(Out &o, const MV &m) {
  EV<double> e;
  const DV &x = m.av->x[m.k];
  e.v = x.v;
  e.m = x.m;
  e.r = x.r;
  e.c = x.c;
  outv(o, e);
  e.v = x.d;
  oute(o, e);
  o.num((double)m.size());
}
#define outd(o, a) outd_(o, a)
#endif
#define K2 coca<0>(av, gval(a[1], 0), gval(a[1], 1))
#define K3 coca<0>(av, gval(a[1], 0), gval(a[1], 1), gval(a[1], 2))
#define K4 coca<0>(av, gval(a[1], 0), gval(a[1], 1), gval(a[1], 2), gval(a[1], 3))
#define L3 coca<1>(av, gpos(a[2], 0), gpos(a[2], 1), gpos(a[2], 2))
#define S1 scalarDeriv<2>(av, gval(a[3], 0))
#define S2 scalarDeriv<3>(av, gpos(a[4], 0))

#define DOP1(n, id, wt, EXPR, T, P, Q)                                             \
  OP("deriv." n "." id, F_DERIV, 0, wt) {                                          \
    VARS;                                                                          \
    auto &p = P;                                                                   \
    auto &q = Q;                                                                   \
    auto &t = T;                                                                   \
    (void)p, (void)q;                                                              \
    t = EXPR;                                                                      \
  }
#define DOP(id, wt, EXPR)                                                          \
  DOP1("0", id, wt, EXPR, x0, x1, x2)                                              \
  DOP1("1", id, wt, EXPR, x1, x2, x0)                                              \
  DOP1("2", id, wt, EXPR, x2, x0, x1)                                              \
  DOP1("3", id, wt, EXPR, x3, x0, x4)                                              \
  DOP1("4", id, wt, EXPR, x4, x3, x1)                                              \
  DOP1("5", id, wt, EXPR, x0, x3, x4)
#ifndef PART
#define PART -1
#endif
#if PART == 0
DOP("const", 4, K3)
DOP("const2", 1, K2)
DOP("const4", 2, K4)
DOP("scalar", 1, S1)
DOP("colon", 1, (colon<0>(av, gint(a[1], 0), gint(a[1], 1))))
DOP("var", 2, p)
DOP("add", 2, p + q)
DOP("sub", 2, p - q)
DOP("mul", 3, p *q)
DOP("div", 3, p / q)
DOP("sin", 3, sinus(p))
DOP("self.add", 2, t + p)
DOP("self.mul", 2, t *p)
DOP("self.sq", 2, t *t)
DOP("self.sin", 2, sinus(t))
DOP("self.div", 2, t / p)
DOP("self.divr", 2, p / t)
DOP("self.sub", 1, p - t)
#elif PART == 1
DOP("kadd", 2, K3 + p)
DOP("kmul", 2, K3 *p)
DOP("kmulr", 2, p *K3)
DOP("ksub", 1, K3 - p)
DOP("kdiv", 2, K3 / p)
DOP("kdivr", 2, p / L3)
DOP("sadd", 2, p + S1)
DOP("smul", 2, p *S1)
DOP("smull", 2, S1 *p)
DOP("sdiv", 2, p / S2)
DOP("sdivl", 2, S2 / p)
DOP("kk", 1, K3 *L3 + p)
DOP("eq", 1, p == q)
DOP("ne", 1, p != q)
DOP("lt", 1, p < q)
DOP("le", 1, p <= q)
DOP("gt", 1, p > q)
DOP("ge", 1, p >= q)
#elif PART == 2
DOP("poly", 3, p *p *p - p * q + q)
DOP("nest", 3, p *(q + p) * q)
DOP("chain", 3, sinus(p *q))
DOP("chain2", 3, sinus(sinus(p) * q))
DOP("chain3", 2, sinus(p) * sinus(q) + sinus(p / S2))
DOP("quot", 3, (p + q) / (p * p + L3))
DOP("quot2", 2, (p / q) / p)
DOP("quot3", 2, p / (q / S2))
DOP("mix", 3, (p / S2) + p * q * q)
DOP("mix2", 2, S1 *p + K3 * q - L3)
DOP("mix3", 2, sinus(p + S1) * q / S2)
DOP("selfmix", 3, t *p - t * q)
DOP("selfmix2", 3, sinus(t) * t + p)
DOP("selfquot", 2, (t + p) / (t * t + L3))
DOP("deep", 1, ((((p + q) * p) - q) * S1 + p) * S2)
#elif PART == 3
OP("deriv.read.0", F_DERIV | F_OBS, 0, 2) {
  VARS;
  outd(o, x0);
}
OP("deriv.read.1", F_DERIV | F_OBS, 0, 2) {
  VARS;
  outd(o, x1);
}
OP("deriv.read.2", F_DERIV | F_OBS, 0, 2) {
  VARS;
  outd(o, x2);
}
OP("deriv.read.3", F_DERIV | F_OBS, 0, 2) {
  VARS;
  outd(o, x3);
}
OP("deriv.read.4", F_DERIV | F_OBS, 0, 2) {
  VARS;
  outd(o, x4);
}
// a new set of variables; the other set is not changed
OP("deriv.local", F_DERIV, 0, 3) {
  int indep = (int)((unsigned)a[0] % 3);
#ifdef SIDE_SUT
  AV av(indep, 0);
  V0 x0(av);
  V1 x1(av);
  V2 x2(av);
#else
  AV av;
  av.indep = indep;
  MV x0{&av, 0}, x1{&av, 1}, x2{&av, 2};
#endif
  x0 = K3;
  x1 = L3;
  x2 = x0 * x1 + sinus(x1);
  x0 = x2 / x1;
  outd(o, x0);
  outd(o, x1);
  outd(o, x2);
}
// a new set of variables whose values are given before (nothing is assigned);
// the statements are chosen by the arguments
OP("deriv.given", F_DERIV, 0, 12) {
  int indep = (int)((unsigned)a[0] % NV);
  int n = 1 + (int)((unsigned)a[6] % 3);
#ifdef SIDE_SUT
  double m[2][4];
  for (int k = 0; k < 2; k++)
    for (int q = 0; q < 4; q++)
      m[k][q] = gval(a[1], 3 * (NVB + k) + q);
  AV av(indep < NVB ? indep : indep - NVB, indep < NVB ? 0 : 1);
  VD g[NVB];
  for (int k = 0; k < NVB; k++) {
    g[k].resize((std::size_t)n);
    for (int q = 0; q < n; q++)
      g[k][(std::size_t)q] = gval(a[1], 3 * k + q);
  }
  av.initBuffer(g[0], g[1], g[2]);
  VW u0(m[0], (std::size_t)n), u1(m[1], (std::size_t)n);
  u0.d.capacity = (std::size_t)vcap(3); // values of one may become longer
  u1.d.capacity = (std::size_t)vcap(4);
  av.initBorrow(u0, u1);
  V0 x0(av);
  V1 x1(av);
  V2 x2(av);
  V3 x3(av);
  V4 x4(av);
#else
  AV av;
  av.indep = indep;
  for (int k = 0; k < NV; k++)
    for (int q = 0; q < n; q++) {
      av.x[k].v.push_back(gval(a[1], 3 * k + q));
      av.x[k].d.push_back(k == indep ? 1.0 : 0.0);
    }
  MV x0{&av, 0}, x1{&av, 1}, x2{&av, 2}, x3{&av, 3}, x4{&av, 4};
#endif
  for (int k = 0; k < 4; k++)
    switch (ah(a[2], k) % 12) {
    case 0:
      x0 = x0 * x1;
      break;
    case 1:
      x1 = x1 * x2 + x0;
      break;
    case 2:
      x2 = x3 / scalarDeriv<0>(av, gpos(a[3], k));
      break;
    case 3:
      x3 = x3 * x4 - x0;
      break;
    case 4:
      x4 = sinus(x4) + x1;
      break;
    case 5:
      x0 = x3;
      break;
    case 6:
      x4 = x2;
      break;
    case 7:
      x1 = coca<1>(av, gval(a[4], k), gval(a[4], 4 + k));
      break;
    case 8:
      x3 = scalarDeriv<0>(av, gval(a[4], k));
      break;
    case 9:
      x0 = scalarDeriv<0>(av, gval(a[4], k)) * x0;
      break;
    case 10:
      x2 = x2 - x4;
      break;
    case 11:
      outd(o, x0);
      break;
    }
  outd(o, x0);
  outd(o, x1);
  outd(o, x2);
  outd(o, x3);
  outd(o, x4);
}
// the given values are matrices
OP("deriv.givenm", F_DERIV, 0, 12) {
  int indep = (int)((unsigned)a[0] % NV);
  int nr = 1 + (int)((unsigned)a[6] % 3), nc = 1 + (int)((unsigned)a[7] % 3), n = nr * nc;
  auto val = [&](int k, int q) { return gval(a[1], 9 * k + q); };
#ifdef SIDE_SUT
  double mem[2][9];
  AV av(indep < NVB ? indep : indep - NVB, indep < NVB ? 0 : 1);
  VD g[NV];
  for (int k = 0; k < NV; k++) {
    g[k] = matrix(0.0, 0 + nr, 0 + nc);
    for (int q = 0; q < n; q++)
      g[k][(std::size_t)q] = val(k, q);
  }
  av.initBuffer(g[0], g[1], g[2]);
  VW u0(mem[0], (std::size_t)n), u1(mem[1], (std::size_t)n);
  u0 = g[3];
  u1 = g[4];
  av.initBorrow(u0, u1);
  V0 x0(av);
  V1 x1(av);
  V2 x2(av);
  V3 x3(av);
  V4 x4(av);
#else
  AV av;
  av.indep = indep;
  for (int k = 0; k < NV; k++) {
    av.x[k].m = true;
    av.x[k].r = (std::size_t)nr;
    av.x[k].c = (std::size_t)nc;
    for (int q = 0; q < n; q++) {
      av.x[k].v.push_back(val(k, q));
      av.x[k].d.push_back(k == indep ? 1.0 : 0.0);
    }
  }
  MV x0{&av, 0, n}, x1{&av, 1, n}, x2{&av, 2, n}, x3{&av, 3, n}, x4{&av, 4, n};
#endif
  for (int k = 0; k < 4; k++)
    switch (ah(a[2], k) % 15) {
    case 0:
      x0 = x0 * x1;
      break;
    case 1:
      x1 = x1 * x2 + x0;
      break;
    case 2:
      x2 = x3 / scalarDeriv<0>(av, gpos(a[3], k));
      break;
    case 3:
      x3 = x3 * x4 - x0;
      break;
    case 4:
      x4 = sinus(x4) + x1;
      break;
    case 5:
      x0 = x3;
      break;
    case 6:
      x4 = x2;
      break;
    case 7:
      x1 = coca<1>(av, gval(a[4], k), gval(a[4], 4 + k), gval(a[4], 1), gval(a[4], 2));
      break;
    case 8:
      x3 = scalarDeriv<0>(av, gval(a[4], k));
      break;
    case 9:
      x0 = scalarDeriv<0>(av, gval(a[4], k)) * x0;
      break;
    case 10:
      x2 = x2 - x4;
      break;
    case 11:
      outd(o, x0);
      break;
    case 12:
      x0 = sinus(x3);
      break;
    case 13:
      x1 = coca<1>(av, gval(a[4], k), gval(a[4], 4 + k), gval(a[4], 1), gval(a[4], 2)) * x2;
      break;
    case 14:
      x2 = x0 > x1;
      break;
    }
  outd(o, x0);
  outd(o, x1);
  outd(o, x2);
  outd(o, x3);
  outd(o, x4);
}
// constants made of vectors; other kinds of constants
OP("deriv.constvec", F_DERIV | F_SEQ, X_NOSWEEP, 4) {
  VARS;
  VD v(sz(2));
  v[0] = gval(a[1], 0);
  v[1] = gval(a[1], 1);
#ifdef SIDE_SUT
  x1 = coca<0>(av, v, gval(a[1], 2));
  x2 = x1 * coca<1>(av, gval(a[2], 0), v) + x0;
#else
  x1 = coca<0>(av, v[0], v[1], gval(a[1], 2));
  x2 = x1 * coca<1>(av, gval(a[2], 0), v[0], v[1]) + x0;
#endif
  outd(o, x1);
  outd(o, x2);
}
// accumulation in a loop
OP("deriv.loop", F_DERIV, X_NOSWEEP, 3) {
  VARS;
  int n = 1 + (int)((unsigned)a[5] % 4);
  x1 = L3;
  for (int k = 0; k < n; k++)
    x1 = x1 * scalarDeriv<2>(av, 0.5 + k) + x0;
  outd(o, x1);
}
OP("deriv.fact", F_DERIV, X_NOSWEEP, 2) { // branches and reassignment
  VARS;
  x2 = scalarDeriv<2>(av, 1.5);
  for (int k = 0; k < 3; k++)
    x2 = x2 * x0;
  x0 = x2 + x0;
  outd(o, x0);
  outd(o, x2);
}
// values of variables used by ordinary vectors
OP("deriv.values", F_DERIV | F_OWN, 0, 2) {
#ifdef SIDE_SUT
  VARS;
  VD y;
  VD v = x0.d.get();
  y = v;
  outv(o, y);
  w.wd(a[0]) = y + 1.0;
#else
  VARS;
  EV<double> e;
  e.v = av.x[0].v;
  e.m = av.x[0].m;
  e.r = av.x[0].r;
  e.c = av.x[0].c;
  outv(o, e);
  w.wd(a[0]) = e + 1.0;
#endif
}
OP("deriv.derivs", F_DERIV | F_OWN, 0, 2) {
#ifdef SIDE_SUT
  VARS;
  VD y = get_derivs(x1);
  outv(o, y);
  w.wd(a[0]) = y;
#else
  VARS;
  EV<double> e;
  e.v = av.x[1].d;
  outv(o, e);
  w.wd(a[0]) = e;
#endif
}
#endif
} // namespace NS
