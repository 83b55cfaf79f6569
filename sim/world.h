// The objects of one caller. Compiled once per side.
#pragma once
#include "core.h"
#ifdef SIDE_SUT
#define STANDALONE_ETR
#include "etr.hpp"
#define SIDE 0
#define NS sutops
namespace lib = etr;
#else
#include "model.h"
#define SIDE 1
#define NS mdlops
namespace lib = mdl;
#endif

namespace NS {
using namespace lib;
typedef Vec<double> VD;
typedef Vec<int> VI;
typedef Vec<bool> VB;
typedef Vec<double, Borrow<double>> VW;
#ifdef SIDE_SUT
typedef BaseStore<double> RS;
typedef AllVars<NVB, NV - NVB, 0, 4> AV;
typedef Vec<double, VarPointer<AV, 0, 0>, VariableTypeTrait> V0;
typedef Vec<double, VarPointer<AV, 1, 0>, VariableTypeTrait> V1;
typedef Vec<double, VarPointer<AV, 2, 0>, VariableTypeTrait> V2;
typedef Vec<double, VarPointer<AV, 0, 1>, VariableTypeTrait> V3;
typedef Vec<double, VarPointer<AV, 1, 1>, VariableTypeTrait> V4;
#else
struct RS { // raw storage
  std::vector<double> v;
  RS() {}
  RS(std::size_t n) : v(n, 0.0) {
    if (n < 1)
      throw Err{};
  }
  void resize(std::size_t n) {
    if (n < 1)
      throw Err{};
    v.resize(n, 0.0);
  }
  void push_back(double x) { v.push_back(x); }
  void realloc(std::size_t n) { v.resize(n, 0.0); }
  void fill(double x) { std::fill(v.begin(), v.end(), x); }
  template <class A>
    requires(IsM<A>)
  void fill(const A &a) {
    const auto &e = ev(a);
    if (e.v.size() != v.size())
      throw Err{};
    v = e.v;
  }
  std::size_t size() const { return v.size(); }
  double &operator[](std::size_t i) {
    if (i >= v.size())
      throw Err{};
    return v[i];
  }
  double operator[](std::size_t i) const {
    if (i >= v.size())
      throw Err{};
    return v[i];
  }
  double &back() { return v.back(); }
  auto begin() { return v.begin(); }
  auto end() { return v.end(); }
};
struct DV { // value and derivative
  std::vector<double> v, d, ve, de; // and bounds of the rounding errors
  bool m = false;
  std::size_t r = 0, c = 0;
};
struct AV {
  int indep;
  DV x[NV];
  double mem[NV - NVB][NVM]; // behind the borrowed variables
};
#endif

// objects which no operation changes; in runs with shared objects all callers
// read the same ones
struct Tab {
  VD *t, *y; // increasing times and values
  VD *m;     // a matrix
  VI *k;     // valid indices of y
  VB *q;     // as long as y
  VD *wb;    // memory of w
  VW *w;     // a view
  int *users;
};
struct World {
  Tab T;
  VD *D[ND];
  VI *I[NI];
  VB *B[NB];
  VW *W[NW];
  RS *R[NR];
  AV *av;
  int sd, si, sb; // the first slots are shared and read only
  double *ext[NE];
  int extn[NE];
  int woff[NW], wext[NW];
#ifdef SIDE_SUT
  double vmem[NV - NVB][NVM];
#endif
  // reading
  VD &d(int k) { return *D[(unsigned)k % ND]; }
  VI &i(int k) { return *I[(unsigned)k % NI]; }
  VB &b(int k) { return *B[(unsigned)k % NB]; }
  VW &w(int k) { return *W[(unsigned)k % NW]; }
  RS &r(int k) { return *R[(unsigned)k % NR]; }
  // writing
  int kd(int k) const { return sd + (int)((unsigned)k % (unsigned)(ND - sd)); }
  int ki(int k) const { return si + (int)((unsigned)k % (unsigned)(NI - si)); }
  int kb(int k) const { return sb + (int)((unsigned)k % (unsigned)(NB - sb)); }
  VD &wd(int k) { return *D[kd(k)]; }
  VI &wi(int k) { return *I[ki(k)]; }
  VB &wb(int k) { return *B[kb(k)]; }
};

// ---- output of operations -----------------------------------------------------
template <class X> inline void outv(Out &o, const X &x) { // elements and shape
  std::size_t n = x.size();
  o.num((double)n);
  o.num(x.im() ? 1 : 0);
  if (x.im()) {
    o.num((double)x.nr());
    o.num((double)x.nc());
  }
  for (std::size_t i = 0; i < n; i++)
    o.num((double)x[i]);
}
inline SI sz(int n) { return SI{(std::size_t)n}; }

struct Reg {
  Reg(const char *n, uint32_t fam, uint32_t fl, int wt, OpFn f) {
    reg_op(SIDE, n, fam, fl, wt, f);
  }
};
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define OPX(name, fam, fl, wt, id)                                                 \
  static void CAT(op_, id)(World & w, const int *a, Out &o);                       \
  static Reg CAT(reg_, id)(name, fam, fl, wt, [](void *w_, const int *a, Out &o) { \
    CAT(op_, id)(*(World *)w_, a, o);                                              \
  });                                                                              \
  static void CAT(op_, id)([[maybe_unused]] World & w, [[maybe_unused]] const int *a, \
                           [[maybe_unused]] Out &o)
#define OP(name, fam, fl, wt) OPX(name, fam, fl, wt, __COUNTER__)
} // namespace NS
