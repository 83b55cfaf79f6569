// histories of local raw storage of all element types
#include "help.h"
namespace NS {
#ifdef SIDE_SUT
template <class T> using ST = BaseStore<T>;
#else
template <class T> struct ST {
  typedef std::conditional_t<std::is_same_v<T, bool>, unsigned char, T> E;
  std::vector<E> v;
  ST() {}
  ST(std::size_t n) : v(n, E()) {
    if (n < 1)
      throw Err{};
  }
  ST(int n) {
    if (n < 1)
      throw Err{};
    v.resize((std::size_t)n);
  }
  void resize(std::size_t n) {
    if (n < 1)
      throw Err{};
    v.resize(n);
  }
  void push_back(T x) { v.push_back((E)x); }
  void realloc(std::size_t n) { v.resize(n); }
  template <class X>
    requires std::is_arithmetic_v<X>
  void fill(X x) {
    std::fill(v.begin(), v.end(), (E)conv<T>((double)x));
  }
  template <class A>
    requires(IsM<std::remove_cvref_t<A>>)
  void fill(A &&a) {
    const auto &e = ev(a);
    if (e.v.size() != v.size())
      throw Err{};
    for (std::size_t k = 0; k < v.size(); k++)
      v[k] = (E)conv<T>(e.v[k]);
  }
  void moveit(ST &o) { v.swap(o.v); }
  std::size_t size() const { return v.size(); }
  E &operator[](std::size_t i) {
    if (i >= v.size())
      throw Err{};
    return v[i];
  }
  E operator[](std::size_t i) const {
    if (i >= v.size())
      throw Err{};
    return v[i];
  }
  E &back() { return v.back(); }
  auto begin() { return v.begin(); }
  auto end() { return v.end(); }
};
#endif
template <class T> static T val(int a, int k) {
  if constexpr (std::is_same_v<T, bool>)
    return gbool(a, k);
  else if constexpr (std::is_same_v<T, int>)
    return gint(a, k);
  else
    return gval(a, k);
}
template <class S> static void outs(Out &o, const S &r) {
  o.num((double)r.size());
  for (std::size_t k = 0; k < r.size(); k++)
    o.num((double)r[k]);
}
template <class S> static S mks(int a) {
  switch ((unsigned)a % 5) {
  case 0:
    return S();
  case 1:
  case 2:
    return S((int)(1 + (unsigned)(a >> 3) % 30));
  default:
    return S((std::size_t)(1 + (unsigned)(a >> 3) % 30));
  }
}
template <class V, class S> static V same(const S &r, int a, int k) { // of the same length
  V x(sz((int)r.size()));
  for (std::size_t j = 0; j < x.size(); j++) {
    if constexpr (std::is_same_v<V, VD>)
      x[j] = gval(a, k + (int)j);
    else if constexpr (std::is_same_v<V, VI>)
      x[j] = gint(a, k + (int)j);
    else
      x[j] = gbool(a, k + (int)j);
  }
  return x;
}
template <class T> static void hist(Out &o, const int *a) {
  ST<T> x = mks<ST<T>>(a[0]), y = mks<ST<T>>(a[1]);
  outs(o, x);
  outs(o, y);
  int n = 1 + (int)((unsigned)a[2] % 14);
  for (int k = 0; k < n; k++) {
    unsigned h = ah(a[3], k), q = h >> 8;
    ST<T> &z = (h >> 6) & 1 ? y : x, &u = (h >> 6) & 1 ? x : y;
    std::size_t m = z.size();
    switch (h % 17) {
    case 0:
    case 1:
    case 2:
      z.push_back(val<T>(a[4], k));
      break;
    case 3: {
      int r = (int)(q % 20);
      for (int j = 0; j < r; j++)
        z.push_back(val<T>(a[4], k + j));
      break;
    }
    case 4:
      z.realloc(m + 1 + q % 12);
      break;
    case 5:
      if (m)
        z.resize(1 + q % m);
      break;
    case 6: { // the new elements are zero, all are written
      std::size_t t = m + q % 9;
      if (t == 0)
        t = 1;
      z.resize(t);
      for (std::size_t j = m; j < t; j++)
        o.num((double)z[j]);
      for (std::size_t j = 0; j < t; j++)
        z[j] = val<T>(a[4], (int)j);
      break;
    }
    case 7:
      z.fill(val<T>(a[4], k));
      break;
    case 8:
      if (m)
        z.fill(same<VD>(z, a[4], k));
      break;
    case 9:
      if (m)
        z.fill(same<VI>(z, a[4], k));
      break;
    case 10:
      if (m) {
        VB t = same<VB>(z, a[4], k);
        z.fill(t);
      }
      break;
    case 11:
      if (m) {
        VI p = same<VI>(z, a[4], k);
        VD r = same<VD>(z, a[4], k + 1);
        const auto e = p + r;
        z.fill(e);
      }
      break;
    case 12:
      z = u;
      break;
    case 13: {
      ST<T> t(u);
      z.moveit(t);
      outs(o, t);
      break;
    }
    case 14: {
      ST<T> t(z);
      ST<T> r(std::move(t));
      r.push_back(val<T>(a[4], k));
      outs(o, r);
      t = r; // the one which was moved away is used again
      outs(o, t);
      break;
    }
    case 15:
      if (m) {
        z[q % m] = val<T>(a[4], k);
        z.back() = val<T>(a[4], k + 1);
      }
      break;
    case 16: {
      double s = 0;
      int c = 0;
      for (auto &e : z) {
        s += (double)(e == T());
        c++;
      }
      o.num(s);
      o.num(c);
      break;
    }
    }
    o.num((double)z.size());
    o.num((double)u.size());
  }
  outs(o, x);
  outs(o, y);
}
OP("raw.d", F_GROW, 0, 5) { hist<double>(o, a); }
OP("raw.i", F_GROW | F_CONV, 0, 4) { hist<int>(o, a); }
OP("raw.b", F_GROW | F_CONV, 0, 4) { hist<bool>(o, a); }
OP("raw.ctor", F_GROW | F_REJ, 0, 1) {
  ST<int> x((int)((unsigned)a[0] % 5) - 2);
  outs(o, x);
}
OP("raw.filln", F_GROW | F_REJ, 0, 2) { // other length
  ST<double> x((std::size_t)(1 + (unsigned)a[0] % 5));
  VD y(sz(1 + (int)((unsigned)a[1] % 5)));
  y.fill(gval(a[2], 0));
  if (a[3] & 1)
    x.fill(y);
  else
    x.fill(std::move(y));
  outs(o, x);
}
OP("raw.out", F_GROW | F_REJ, 0, 1) {
  ST<int> x((std::size_t)(1 + (unsigned)a[0] % 30));
  if (a[1] & 1)
    x.resize(1 + (unsigned)a[2] % x.size());
  std::size_t k = x.size() - 1 + (unsigned)a[3] % 3;
  if (a[1] & 2)
    x[k] = 1;
  else {
    const ST<int> &c = x;
    o.num(c[k]);
  }
}
OP("raw.none", F_GROW | F_REJ, 0, 1) { // without any elements
  ST<int> x;
  if (a[1] & 1)
    x[0] = 1;
  else {
    const ST<int> &c = x;
    o.num(c[0]);
  }
}
} // namespace NS
