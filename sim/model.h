// Small executable reference model: eager values with the same names as the
// library. It contains no laziness, no sharing and no memory management.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace mdl {
typedef double BaseType;
struct Err {}; // the request is invalid
struct Skip {}; // the behaviour is not specified for these values
const double NA = std::numeric_limits<double>::quiet_NaN();
const double Inf = std::numeric_limits<double>::infinity();
struct SI {
  std::size_t sz;
  SI(std::size_t s) : sz(s) {}
  SI(int s) : sz((std::size_t)s) {}
};
struct RVecTrait {};
struct VariableTypeTrait {};
template <class T> struct Buffer {};
template <class T> struct Borrow {};

extern int warn_count; // warnings of the current op
extern std::string out_text;

template <class T> inline double conv(double x) {
  if constexpr (std::is_same_v<T, int>) {
    if (std::isnan(x) || std::fabs(x) > 2.0e9)
      throw Skip{};
    return std::trunc(x) + 0.0; // no negative zero
  } else if constexpr (std::is_same_v<T, bool>) {
    return x != 0.0 ? 1.0 : 0.0;
  } else
    return x;
}

template <class T> struct EV { // eager value
  using E = T;
  std::vector<double> v;
  bool m = false, scalar = false;
  std::size_t r = 0, c = 0;
  std::size_t size() const { return v.size(); }
  bool im() const { return m; }
  std::size_t nr() const { return m ? r : 0; }
  std::size_t nc() const { return m ? c : 0; }
  double operator[](std::size_t i) const {
    if (i >= v.size())
      throw Err{};
    return v[i];
  }
  auto begin() { return v.begin(); }
  auto end() { return v.end(); }
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
  operator T() const {
    if (v.empty())
      throw Err{};
    if (std::is_same_v<T, bool> && v.size() != 1)
      warn_count++;
    return (T)conv<T>(v[0]);
  }
};

template <class T, class R = Buffer<T>, class Tr = void> struct Vec;

template <class T> struct SubRef;
template <class T> struct Vec<T, Buffer<T>, void> : EV<T> {
  using EV<T>::v;
  using EV<T>::m;
  using EV<T>::r;
  using EV<T>::c;
  Vec() {}
  explicit Vec(SI s) {
    if (s.sz < 1)
      throw Err{};
    v.assign(s.sz, 0.0);
  }
  Vec(double x) { v.assign(1, conv<T>(x)); }
  explicit Vec(int x) { v.assign(1, conv<T>(x)); }
  Vec(bool x) { v.assign(1, x ? 1.0 : 0.0); }
  explicit Vec(std::size_t a, std::size_t b) {
    if (a * b < 1)
      throw Err{};
    v.assign(a * b, 0.0);
    m = true;
    r = a;
    c = b;
  }
  explicit Vec(std::size_t a, std::size_t b, double x) : Vec(a, b) {
    std::fill(v.begin(), v.end(), conv<T>(x));
  }
  Vec(double *p, std::size_t n) : Vec(SI(n)) {
    for (std::size_t i = 0; i < n; i++)
      v[i] = conv<T>(p[i]);
  }
  Vec(double *p, std::size_t a, std::size_t b) : Vec(a, b) {
    for (std::size_t i = 0; i < a * b; i++)
      v[i] = conv<T>(p[i]);
  }
  Vec(const Vec &) = default;
  Vec(Vec &&o) : EV<T>(o) {} // the library copies
  template <class T2> Vec(const EV<T2> &o) { set(o); }
  template <class T2> Vec(const SubRef<T2> &o);
  template <class T2> Vec(const Vec<T2, Borrow<T2>, void> &o);
  template <class T2> void set(const EV<T2> &o) {
    if (o.v.empty())
      throw Err{};
    std::vector<double> t(o.v.size());
    for (std::size_t i = 0; i < t.size(); i++)
      t[i] = conv<T>(o.v[i]);
    v = t;
    m = o.m;
    r = o.m ? o.r : 0;
    c = o.m ? o.c : 0;
  }
  Vec &operator=(const Vec &o) {
    set(o);
    return *this;
  }
  template <class T2> Vec &operator=(const EV<T2> &o) {
    EV<T2> cp = o;
    set(cp);
    return *this;
  }
  template <class T2> Vec &operator=(const SubRef<T2> &o);
  template <class T2> Vec &operator=(const Vec<T2, Borrow<T2>, void> &o);
  template <class S>
    requires std::is_arithmetic_v<S>
  Vec &operator=(S x) {
    v.assign(1, conv<T>((double)x));
    m = false;
    r = c = 0;
    return *this;
  }
  double &operator[](std::size_t i) {
    if (i >= v.size())
      throw Err{};
    return v[i];
  }
  double operator[](std::size_t i) const { return EV<T>::operator[](i); }
  double &back() { return v.back(); }
  double back() const { return v.back(); }
  void fill(T x) { std::fill(v.begin(), v.end(), (double)x); }
  void resize(std::size_t n) {
    if (n < 1)
      throw Err{};
    v.resize(n, 0.0);
  }
  using EV<T>::begin;
  using EV<T>::end;
  template <class I> auto operator()(const I &i) { return subset(*this, i); }
  template <class I, class J> auto operator()(const I &i, const J &j) {
    return subset(*this, i, j);
  }
};

// ---- memory which somebody else owns ----------------------------------------
template <class T> struct Vec<T, Borrow<T>, void> {
  using E = T;
  double *p;
  std::size_t sz, cap;
  bool m = false;
  std::size_t r = 0, c = 0;
  explicit Vec() : p(nullptr), sz(0), cap(0) {} // without memory
  explicit Vec(double *p_, std::size_t n) : p(p_), sz(n), cap(n) {}
  Vec(double *p_, std::size_t a, std::size_t b)
      : p(p_), sz(a * b), cap(a * b), m(true), r(a), c(b) {}
  EV<T> ev() const {
    EV<T> e;
    e.v.assign(p, p + sz);
    e.m = m;
    e.r = r;
    e.c = c;
    return e;
  }
  std::size_t size() const { return sz; }
  bool im() const { return m; }
  std::size_t nr() const { return m ? r : 0; }
  std::size_t nc() const { return m ? c : 0; }
  double &operator[](std::size_t i) {
    if (i >= sz)
      throw Err{};
    return p[i];
  }
  double operator[](std::size_t i) const {
    if (i >= sz)
      throw Err{};
    return p[i];
  }
  template <class T2> void set(const EV<T2> &o) {
    if (o.v.empty() || o.v.size() > cap || o.v.size() < sz)
      throw Err{};
    for (std::size_t i = 0; i < o.v.size(); i++)
      p[i] = conv<T>(o.v[i]);
    sz = o.v.size();
    m = o.m;
    r = o.m ? o.r : 0;
    c = o.m ? o.c : 0;
  }
  Vec(const Vec &) = default;
  Vec &operator=(const Vec &o) {
    EV<T> e = o.ev();
    set(e);
    return *this;
  }
  template <class A>
    requires(!std::is_arithmetic_v<A>)
  Vec &operator=(const A &o);
  template <class S>
    requires std::is_arithmetic_v<S>
  Vec &operator=(S x) {
    double y = conv<T>((double)x);
    if (cap < 1)
      throw Err{};
    p[0] = y;
    sz = 1;
    m = false;
    r = c = 0;
    return *this;
  }
  void resize(std::size_t n) {
    if (n < 1 || n > cap)
      throw Err{};
    sz = n;
  }
  void fill(T x) {
    for (std::size_t i = 0; i < sz; i++)
      p[i] = (double)x;
  }
  operator T() const { return (T)ev(); }
  template <class I> auto operator()(const I &i) { return subset(*this, i); }
  template <class I, class J> auto operator()(const I &i, const J &j) {
    return subset(*this, i, j);
  }
  double &back() { return p[sz - 1]; }
  double back() const { return p[sz - 1]; }
  const double *begin() const { return p; }
  const double *end() const { return p + sz; }
  double *begin() { return p; }
  double *end() { return p + sz; }
};

// ---- subset: positions within a base ----------------------------------------
template <class T> struct SubRef {
  using E = T;
  double *(*at_)(void *, std::size_t);
  std::size_t (*sz_)(void *);
  void *base;
  std::vector<std::size_t> ind;
  bool m = false;
  std::size_t r = 0, c = 0;
  std::size_t size() const { return ind.size(); }
  bool im() const { return m; }
  std::size_t nr() const { return m ? r : 0; }
  std::size_t nc() const { return m ? c : 0; }
  EV<T> ev() const {
    EV<T> e;
    for (std::size_t i : ind) {
      if (i >= sz_(base))
        throw Err{};
      e.v.push_back(*at_(base, i));
    }
    e.m = m;
    e.r = r;
    e.c = c;
    return e;
  }
  double operator[](std::size_t i) const { return ev()[i]; }
  operator T() const { return (T)ev(); }
  template <class T2> void set(const EV<T2> &o) {
    if (o.v.size() != ind.size())
      throw Err{};
    std::vector<double> t;
    for (double x : o.v)
      t.push_back(conv<T>(x));
    for (std::size_t i : ind)
      if (i >= sz_(base))
        throw Err{};
    for (std::size_t i = 0; i < ind.size(); i++)
      *at_(base, ind[i]) = t[i];
  }
  SubRef &operator=(const SubRef &o) {
    EV<T> e = o.ev();
    set(e);
    return *this;
  }
  SubRef() {}
  SubRef(const SubRef &) = default;
  template <class A>
    requires(!std::is_arithmetic_v<A>)
  SubRef &operator=(const A &o);
  template <class S>
    requires std::is_arithmetic_v<S>
  SubRef &operator=(S x) {
    double y = conv<T>((double)x);
    for (std::size_t i : ind)
      if (i >= sz_(base))
        throw Err{};
    for (std::size_t i : ind)
      *at_(base, i) = y;
    return *this;
  }
  double &operator[](std::size_t i) {
    if (i >= ind.size() || ind[i] >= sz_(base))
      throw Err{};
    return *at_(base, ind[i]);
  }
  struct It { // the elements of the base
    SubRef *s;
    std::size_t i;
    double &operator*() { return (*s)[i]; }
    bool operator!=(const It &o) { return i != o.i; }
    void operator++() { i++; }
  };
  It begin() { return It{this, 0}; }
  It end() { return It{this, ind.size()}; }
};

// ---- normalisation -----------------------------------------------------------
template <class T> inline const EV<T> &ev(const EV<T> &x) { return x; }
template <class T> inline EV<T> ev(const SubRef<T> &x) { return x.ev(); }
template <class T> inline EV<T> ev(const Vec<T, Borrow<T>, void> &x) { return x.ev(); }
template <class S>
  requires std::is_arithmetic_v<S>
inline EV<S> ev(S x) {
  EV<S> e;
  e.v.assign(1, (double)x);
  e.scalar = true;
  return e;
}
template <class A>
using ET = typename std::remove_cvref_t<decltype(ev(std::declval<const A &>()))>::E;
template <class A>
concept IsM = (!std::is_arithmetic_v<A>) && requires(const A &a) { ev(a); };

template <class T> template <class T2>
Vec<T, Buffer<T>, void>::Vec(const SubRef<T2> &o) { set(o.ev()); }
template <class T> template <class T2>
Vec<T, Buffer<T>, void>::Vec(const Vec<T2, Borrow<T2>, void> &o) { set(o.ev()); }
template <class T> template <class T2>
Vec<T, Buffer<T>, void> &Vec<T, Buffer<T>, void>::operator=(const SubRef<T2> &o) {
  set(o.ev());
  return *this;
}
template <class T> template <class T2>
Vec<T, Buffer<T>, void> &
Vec<T, Buffer<T>, void>::operator=(const Vec<T2, Borrow<T2>, void> &o) {
  set(o.ev());
  return *this;
}
template <class T> template <class A>
  requires(!std::is_arithmetic_v<A>)
Vec<T, Borrow<T>, void> &Vec<T, Borrow<T>, void>::operator=(const A &o) {
  auto e = mdl::ev(o);
  set(e);
  return *this;
}
template <class T> template <class A>
  requires(!std::is_arithmetic_v<A>)
SubRef<T> &SubRef<T>::operator=(const A &o) {
  auto e = mdl::ev(o);
  set(e);
  return *this;
}

// ---- elementwise -------------------------------------------------------------
template <class L, class R, class RT, class F>
inline EV<RT> elementwise(const L &l_, const R &r_, F f) {
  const auto &l = ev(l_);
  const auto &r = ev(r_);
  EV<RT> o;
  if (l.v.empty() || r.v.empty())
    return o;
  std::size_t n = std::max(l.v.size(), r.v.size());
  for (std::size_t i = 0; i < n; i++)
    o.v.push_back(f(l.v[i % l.v.size()], r.v[i % r.v.size()]));
  if (l.m && r.m) {
    if (l.r != r.r || l.c != r.c)
      throw Err{};
    o.m = true;
    o.r = l.r;
    o.c = l.c;
  } else if (l.m || r.m) {
    o.m = true;
    o.r = l.m ? l.r : r.r;
    o.c = l.m ? l.c : r.c;
    if (o.r * o.c != n)
      throw Err{};
  }
  return o;
}
template <class T> inline double chk(double x) {
  if constexpr (!std::is_same_v<T, double>)
    if (!(std::fabs(x) < 2.0e9))
      throw Skip{};
  return std::is_same_v<T, double> ? x : x + 0.0;
}
template <class L, class R>
concept Bin = IsM<L> || IsM<R>;
#define MDL_ARITH(OPS, EXPR)                                                       \
  template <class L, class R>                                                      \
    requires(Bin<L, R>)                                                            \
  inline auto operator OPS(const L &l, const R &r) {                               \
    using CT = std::common_type_t<ET<L>, ET<R>>;                                   \
    return elementwise<L, R, CT>(                                                  \
        l, r, [](double a, double b) { return chk<CT>(EXPR); });                   \
  }
MDL_ARITH(+, a + b)
MDL_ARITH(-, a - b)
MDL_ARITH(*, a * b)
template <class L, class R>
  requires(Bin<L, R>)
inline auto operator/(const L &l, const R &r) {
  return elementwise<L, R, double>(l, r, [](double a, double b) { return a / b; });
}
template <class L, class R>
  requires(Bin<L, R>)
inline auto operator^(const L &l, const R &r) {
  return elementwise<L, R, double>(l, r,
                                   [](double a, double b) { return std::pow(a, b); });
}
#define MDL_CMP(OPS, EXPR)                                                         \
  template <class L, class R>                                                      \
    requires(Bin<L, R>)                                                            \
  inline EV<bool> operator OPS(const L &l, const R &r) {                           \
    return elementwise<L, R, bool>(                                                \
        l, r, [](double a, double b) { return (EXPR) ? 1.0 : 0.0; });              \
  }
inline bool eqtol(double a, double b) {
  double d = std::fabs(a - b);
  if (d > 0.9e-3 && d < 1.1e-3)
    throw Skip{};
  return d < 1E-3;
}
inline bool netol(double a, double b) {
  double d = std::fabs(a - b);
  if (d > 0.9e-3 && d < 1.1e-3)
    throw Skip{};
  return d > 1E-3;
}
MDL_CMP(==, eqtol(a, b))
MDL_CMP(!=, netol(a, b))
MDL_CMP(<, a < b)
MDL_CMP(<=, a <= b)
MDL_CMP(>, a > b)
MDL_CMP(>=, a >= b)

#define MDL_UNARY(NAME, EXPR)                                                      \
  template <class A>                                                               \
    requires(IsM<A>)                                                               \
  inline EV<double> NAME(const A &x_) {                                            \
    const auto &x = ev(x_);                                                        \
    EV<double> o;                                                                  \
    o.m = x.m;                                                                     \
    o.r = x.r;                                                                     \
    o.c = x.c;                                                                     \
    for (double a : x.v)                                                           \
      o.v.push_back(EXPR);                                                         \
    return o;                                                                      \
  }
MDL_UNARY(operator-, -a)
MDL_UNARY(sinus, std::sin(a))
MDL_UNARY(asinus, std::asin(a))
MDL_UNARY(sinush, std::sinh(a))
MDL_UNARY(cosinus, std::cos(a))
MDL_UNARY(acosinus, std::acos(a))
MDL_UNARY(cosinush, std::cosh(a))
MDL_UNARY(tangens, std::tan(a))
MDL_UNARY(atangens, std::atan(a))
MDL_UNARY(tangensh, std::tanh(a))
MDL_UNARY(ln, std::log(a))
MDL_UNARY(sqroot, std::sqrt(a))
MDL_UNARY(exp, std::exp(a))

// ---- positions ---------------------------------------------------------------
static const std::size_t BAD = (std::size_t)-1;
template <class I> inline std::size_t pos1(double x) { // one based -> zero based
  if constexpr (std::is_same_v<I, double>) {
    if (!(std::fabs(x) <= 1e9))
      return BAD;
    x = std::trunc(x);
  }
  return x < 1 ? BAD : (std::size_t)(x - 1);
}
template <class I>
inline std::vector<std::size_t> vpos(std::size_t n, const I &idx) {
  std::vector<std::size_t> o;
  if constexpr (std::is_same_v<I, bool>) {
    if (!idx)
      throw Err{};
    if (n == 0)
      throw Err{};
    for (std::size_t i = 0; i < n; i++)
      o.push_back(i);
  } else if constexpr (std::is_same_v<I, int>) {
    o.push_back(pos1<int>(idx));
  } else if constexpr (std::is_same_v<I, double>) {
    if (!(idx >= 1.0))
      throw Err{};
    o.push_back(pos1<double>(idx));
  } else {
    const auto &e = ev(idx);
    using T = ET<I>;
    if constexpr (std::is_same_v<T, bool>) {
      if (e.v.empty())
        throw Err{};
      if (e.v.size() > n)
        throw Skip{};
      for (std::size_t i = 0; i < n; i++)
        if (e.v[i % e.v.size()] != 0)
          o.push_back(i);
    } else
      for (double x : e.v)
        o.push_back(pos1<T>(x));
    if (o.empty())
      throw Err{};
  }
  return o;
}
// one dimension of a matrix; scalar is set if the dimension is dropped
template <class Other, class I>
inline std::vector<std::size_t> mpos(std::size_t n, const I &idx, bool &drop) {
  drop = false;
  if constexpr (std::is_same_v<I, bool>) {
    return vpos(n, idx);
  } else if constexpr (std::is_same_v<I, int>) {
    drop = true;
    return vpos(n, idx);
  } else if constexpr (std::is_same_v<I, double>) {
    drop = true;
    return vpos(n, idx);
  } else {
    const auto &e = ev(idx);
    using T = ET<I>;
    if constexpr (std::is_same_v<T, bool>) {
      // recycled only beside one number
      if constexpr (std::is_same_v<Other, int> || std::is_same_v<Other, double>) {
        if (e.v.empty() || e.v.size() > n)
          throw Err{};
      } else if (e.v.size() != n)
        throw Skip{};
    }
    return vpos(n, idx);
  }
}
template <class T> inline double *at_vec(void *b, std::size_t i) {
  return &(*(Vec<T, Buffer<T>, void> *)b).v[i];
}
template <class T> inline std::size_t sz_vec(void *b) {
  return ((Vec<T, Buffer<T>, void> *)b)->v.size();
}
template <class T> inline double *at_bor(void *b, std::size_t i) {
  return ((Vec<T, Borrow<T>, void> *)b)->p + i;
}
template <class T> inline std::size_t sz_bor(void *b) {
  return ((Vec<T, Borrow<T>, void> *)b)->sz;
}
template <class T> inline SubRef<T> mkref(Vec<T, Buffer<T>, void> &b) {
  SubRef<T> s;
  s.at_ = at_vec<T>;
  s.sz_ = sz_vec<T>;
  s.base = &b;
  return s;
}
template <class T> inline SubRef<T> mkref(Vec<T, Borrow<T>, void> &b) {
  SubRef<T> s;
  s.at_ = at_bor<T>;
  s.sz_ = sz_bor<T>;
  s.base = &b;
  return s;
}
template <class V>
concept LV = requires(V &v) { mkref(v); };
template <class V, class I>
  requires(LV<V>)
inline auto subset(V &b, I &&idx) {
  auto s = mkref(b);
  s.ind = vpos(b.size(), std::as_const(idx));
  return s;
}
template <class V>
inline auto gather(const V &b, const std::vector<std::size_t> &ind) {
  EV<ET<V>> o;
  const auto &e = ev(b);
  for (std::size_t i : ind) {
    if (i >= e.v.size())
      throw Err{};
    o.v.push_back(e.v[i]);
  }
  return o;
}
template <class V, class I>
  requires(!LV<std::remove_reference_t<V>> || !std::is_lvalue_reference_v<V>)
inline auto subset(V &&b, I &&idx) {
  return gather(b, vpos(ev(b).v.size(), std::as_const(idx)));
}
struct MShape {
  std::vector<std::size_t> ind;
  bool m;
  std::size_t r, c;
};
template <class R, class C>
inline MShape mindex(bool im, std::size_t nr, std::size_t nc, const R &ri, const C &ci) {
  if (!im)
    throw Err{};
  bool dr, dc;
  auto rr = mpos<C>(nr, ri, dr);
  auto cc = mpos<R>(nc, ci, dc);
  MShape o;
  for (std::size_t j : cc)
    for (std::size_t i : rr)
      o.ind.push_back((i >= nr || j >= nc) ? BAD : j * nr + i);
  o.m = !dr && !dc;
  o.r = o.m ? rr.size() : 0;
  o.c = o.m ? cc.size() : 0;
  return o;
}
template <class V, class R, class C>
  requires(LV<V>)
inline auto subset(V &b, R &&r, C &&c) {
  auto s = mkref(b);
  MShape o = mindex(b.im(), b.nr(), b.nc(), std::as_const(r), std::as_const(c));
  s.ind = o.ind;
  s.m = o.m;
  s.r = o.r;
  s.c = o.c;
  return s;
}
template <class V, class R, class C>
  requires(!LV<std::remove_reference_t<V>> || !std::is_lvalue_reference_v<V>)
inline auto subset(V &&b, R &&r, C &&c) {
  const auto &e = ev(b);
  MShape o = mindex(e.im(), e.nr(), e.nc(), std::as_const(r), std::as_const(c));
  auto g = gather(b, o.ind);
  g.m = o.m;
  g.r = o.r;
  g.c = o.c;
  return g;
}
template <class V, class I>
  requires(LV<V> && std::is_arithmetic_v<I>)
inline double &at(V &b, I i) {
  double x = (double)i;
  if (!(std::fabs(x) <= 1e9))
    throw Err{};
  std::size_t p = x < 1 ? BAD : (std::size_t)(std::trunc(x) - 1);
  if (p >= b.size())
    throw Err{};
  return b[p];
}
template <class V, class R, class C>
inline std::size_t matpos(const V &b, R r, C c) {
  if (!b.im())
    throw Err{};
  double x = std::trunc((double)r), y = std::trunc((double)c);
  if (!(x >= 1 && y >= 1 && x <= (double)b.nr() && y <= (double)b.nc()))
    throw Err{};
  return (std::size_t)(y - 1) * b.nr() + (std::size_t)(x - 1);
}
template <class V, class R, class C>
  requires(LV<V>)
inline double &at(V &b, R r, C c) {
  return b[matpos(b, r, c)];
}
template <class V, class R, class C>
  requires(!LV<std::remove_reference_t<V>> || !std::is_lvalue_reference_v<V>)
inline double at(V &&b, R r, C c) {
  const auto &e = ev(b);
  return e.v[matpos(e, r, c)];
}

// ---- constructors --------------------------------------------------------------
template <class... A> inline auto coca(const A &...a) {
  using CT = std::common_type_t<ET<A>...>;
  EV<CT> o;
  auto add = [&](const auto &x) {
    const auto &e = ev(x);
    for (double d : e.v)
      o.v.push_back(conv<CT>(d));
  };
  (add(a), ...);
  if (o.v.empty())
    throw Err{};
  return o;
}
template <class A> inline double first1(const A &a) {
  const auto &e = ev(a);
  if (!e.scalar && e.v.size() != 1)
    warn_count++;
  if (e.v.empty())
    throw Err{};
  return e.v[0];
}
inline thread_local double big = 1; // scale of the size limits (operations on long objects)
struct Big {
  Big() { big = 25; }
  ~Big() { big = 1; }
};
template <class A, class B> inline auto colon(const A &a, const B &b) {
  using CT = std::common_type_t<ET<A>, ET<B>>;
  double y = first1(b), x = first1(a);
  if (!(std::fabs(x - y) <= 4000 * big))
    throw Skip{};
  x = conv<CT>(x);
  y = conv<CT>(y);
  double n = std::floor(std::fabs(y - x) + 1);
  if (std::fabs(y - x) != std::floor(std::fabs(y - x))) {
    double fr = std::fabs(y - x) - std::floor(std::fabs(y - x));
    if (fr < 1e-6 || fr > 1 - 1e-6)
      throw Skip{};
    warn_count++;
  }
  EV<CT> o;
  for (int i = 0; i < (int)n; i++)
    o.v.push_back(x < y ? x + i : x - i);
  return o;
}
inline double times_arg(double x) {
  if (std::isnan(x)) // no size
    throw Err{};
  if (x > 3000 * big)
    throw Skip{};
  if (x != std::floor(x))
    warn_count++;
  if (!(x >= 1))
    throw Err{};
  return std::floor(x);
}
template <class A, class B> inline auto rep(const A &a, const B &b) {
  const auto &e = ev(a);
  const auto &t = ev(b);
  if (t.v.empty())
    throw Err{};
  if (!t.scalar && t.v.size() > 1)
    warn_count++;
  double n = times_arg(t.v[0]);
  EV<ET<A>> o;
  if (e.v.size() * n > 20000 * big)
    throw Skip{};
  for (int k = 0; k < (int)n; k++)
    for (double d : e.v)
      o.v.push_back(d);
  if (o.v.empty())
    throw Err{};
  return o;
}
template <class V, class R, class C>
inline auto matrix(const V &val, const R &rows, const C &cols) {
  double r = times_arg(first1(rows)), c = times_arg(first1(cols));
  if (r * c > 20000 * big)
    throw Skip{};
  const auto &e = ev(val);
  EV<ET<V>> o;
  if (e.scalar)
    o.v.assign((std::size_t)(r * c), e.v[0]);
  else {
    if (e.v.size() != (std::size_t)(r * c))
      throw Err{};
    o.v = e.v;
  }
  o.m = true;
  o.r = (std::size_t)r;
  o.c = (std::size_t)c;
  return o;
}
template <class T, class A> inline EV<T> mkzero(const A &n) {
  const auto &e = ev(n);
  if (e.v.size() != 1)
    throw Err{};
  double x = e.v[0];
  if constexpr (!std::is_same_v<T, double>)
    x = conv<int>(x); // decimal places are dropped without a warning
  double k = times_arg(x);
  EV<T> o;
  o.v.assign((std::size_t)k, 0.0);
  return o;
}
template <class A> inline EV<int> vector_integer(const A &n) { return mkzero<int>(n); }
template <class A> inline EV<bool> vector_logical(const A &n) { return mkzero<bool>(n); }
template <class A> inline EV<double> vector_numeric(const A &n) {
  return mkzero<double>(n);
}
// ---- helpers ---------------------------------------------------------------------
template <class A> inline EV<bool> isNA(const A &x) {
  EV<bool> o;
  for (double d : ev(x).v)
    o.v.push_back(std::isnan(d) ? 1 : 0);
  if (o.v.empty())
    throw Err{};
  return o;
}
template <class A> inline EV<bool> isInf(const A &x) {
  EV<bool> o;
  for (double d : ev(x).v)
    o.v.push_back(std::isinf(d) ? 1 : 0);
  if (o.v.empty())
    throw Err{};
  return o;
}
template <class A> inline int length(const A &x) { return (int)ev(x).v.size(); }
template <class A> inline EV<int> dim(const A &x) {
  const auto &e = ev(x);
  if (!e.im())
    throw Err{};
  EV<int> o;
  o.v = {(double)e.r, (double)e.c};
  return o;
}
// ---- printing ----------------------------------------------------------------------
template <class T> inline void pnum(std::ostream &os, double d) {
  if constexpr (std::is_same_v<T, bool>)
    os << (d != 0 ? "true" : "false");
  else if constexpr (std::is_same_v<T, int>)
    os << (int)d;
  else
    os << d;
}
template <class A> inline void print(const A &a) {
  const auto &e = ev(a);
  using T = ET<A>;
  // left open: integer calculations are evaluated and written as numbers
  if constexpr (std::is_same_v<A, EV<int>>)
    for (double d : e.v)
      if (std::fabs(d) >= 1e6)
        throw Skip{};
  std::ostringstream os;
  if (e.scalar) {
    pnum<T>(os, e.v[0]);
    if (std::is_same_v<T, bool>)
      os << " \n";
    else
      os << "\n\n";
  } else if (!e.m) {
    for (double d : e.v) {
      pnum<T>(os, d);
      os << " ";
    }
    os << "\n";
  } else {
    for (std::size_t i = 0; i < e.r; i++) {
      for (std::size_t j = 0; j < e.c; j++) {
        pnum<T>(os, e.v[j * e.r + i]);
        os << "\t";
      }
      os << "\n";
    }
  }
  out_text += os.str();
}
inline void print(const char *s) { out_text += std::string(s) + "\n\n"; }
inline void print() { out_text += "\n"; }
// ---- linear interpolation -----------------------------------------------------------
template <class A, class B, class C>
inline double li(const A &t_, const B &x_, const C &y_) {
  const auto &te = ev(t_);
  const auto &x = ev(x_);
  const auto &y = ev(y_);
  if (te.v.size() != 1 || x.v.size() != y.v.size() || x.v.empty())
    throw Err{};
  for (std::size_t i = 0; i + 1 < x.v.size(); i++)
    if (!(x.v[i] < x.v[i + 1]))
      throw Skip{};
  double t = te.v[0];
  if (std::isnan(t))
    return t; // a missing time lies in no interval
  std::size_t n = x.v.size();
  if (t >= x.v[n - 1])
    return y.v[n - 1];
  if (t <= x.v[0])
    return y.v[0];
  for (std::size_t i = 0; i + 1 < n; i++)
    if (t >= x.v[i] && t < x.v[i + 1]) {
      double r = y.v[i] + (y.v[i + 1] - y.v[i]) * (t - x.v[i]) / (x.v[i + 1] - x.v[i]);
      double big = std::max(std::fabs(y.v[i]), std::fabs(y.v[i + 1]));
      if (t > x.v[i] && std::fabs(r) < 1e-5 * big)
        throw Skip{}; // the terms cancel
      return r;
    }
  throw Skip{};
}
// ---- cubic interpolation (Catmull-Rom) ----------------------------------------------
template <class A, class B, class C>
inline double cmr(const A &t_, const B &x_, const C &y_) {
  const auto &te = ev(t_);
  const auto &x = ev(x_);
  const auto &y = ev(y_);
  if (x.v.size() != y.v.size() || x.v.size() < 4)
    throw Err{};
  if (te.v.empty())
    throw Err{};
  if (!te.scalar && te.v.size() != 1)
    warn_count++;
  for (std::size_t i = 0; i + 1 < x.v.size(); i++)
    if (!(x.v[i] < x.v[i + 1]))
      throw Skip{};
  double t = te.v[0];
  if (std::isnan(t))
    throw Skip{};
  const std::size_t n = x.v.size(), l = n - 1;
  if (t < x.v[0])
    return y.v[0];
  if (t > x.v[l])
    return y.v[l];
  for (double q : y.v)
    if (!std::isfinite(q))
      throw Skip{};
  if (t == x.v[0])
    return y.v[0];
  if (t == x.v[l])
    return y.v[l];
  std::size_t i = 0;
  while (!(t < x.v[i + 1]))
    i++;
  double h = x.v[i + 1] - x.v[i], s = (t - x.v[i]) / h;
  // the node before the first is the last; behind the last, the table begins again
  double xp = i ? x.v[i - 1] : x.v[l], yp = i ? y.v[i - 1] : y.v[l];
  double xn = i + 2 < n ? x.v[i + 2] : x.v[0] + x.v[l], yn = i + 2 < n ? y.v[i + 2] : y.v[0];
  double a = y.v[i + 1] - yp, b = x.v[i + 1] - xp, c = yn - y.v[i], d = xn - x.v[i];
  if (b == 0.0 || d == 0.0)
    throw Skip{};
  double s2 = s * s, s3 = s2 * s;
  double p[4] = {(1 + 2 * s) * (1 - s) * (1 - s) * y.v[i], s * (1 - s) * (1 - s) * h * a / b,
                 (3 * s2 - 2 * s3) * y.v[i + 1], (s3 - s2) * h * c / d};
  double r = p[0] + p[1] + p[2] + p[3], m = 0;
  for (double q : p)
    m = std::max(m, std::fabs(q));
  // the terms of the expanded polynomials are this large before they cancel
  double big = std::max({std::fabs(y.v[i]), std::fabs(y.v[i + 1]), std::fabs(h * a / b),
                         std::fabs(h * c / d), std::fabs(x.v[i]) / h * m * 1e-3});
  if (std::isfinite(big) && s > 0 && std::fabs(r) < 1e-4 * big)
    throw Skip{};
  return r;
}
} // namespace mdl
