#include "world.h"

namespace NS {
template <class V> static V *mkvec(uint64_t s, int kind) {
  // kind: 0 vector, 1 matrix
  if (kind == 1) {
    static const int dims[6][2] = {{2, 3}, {3, 2}, {3, 3}, {4, 2}, {1, 4}, {2, 2}};
    static const int large[6][2] = {{17, 3}, {3, 18}, {12, 11}, {1, 33}, {40, 1}, {7, 9}};
    const int *dm = dims[rt::mix2(s, 1) % 6];
    if (rt::mix2(s, 2) % 8 == 0)
      dm = large[rt::mix2(s, 1) % 6];
    V *v = new V((std::size_t)dm[0], (std::size_t)dm[1]);
    for (int k = 0; k < dm[0] * dm[1]; k++) {
      if constexpr (std::is_same_v<V, VB>)
        (*v)[k] = gbool((int)s, k);
      else if constexpr (std::is_same_v<V, VI>)
        (*v)[k] = gint((int)s, k);
      else
        (*v)[k] = gval((int)s, k);
    }
    return v;
  }
  int n = glen((int)(s >> 3));
  V *v = new V(sz(n));
  for (int k = 0; k < n; k++) {
    if constexpr (std::is_same_v<V, VB>)
      (*v)[k] = gbool((int)s, k);
    else if constexpr (std::is_same_v<V, VI>)
      (*v)[k] = gint((int)s, k);
    else
      (*v)[k] = gval((int)s, k);
  }
  return v;
}

static void views(World *w, uint64_t seed) {
  // view 0 on buffer 0, view 1 on buffer 1, view 2 on a part of buffer 0
  for (int k = 0; k < NW; k++) {
    int e = k == 1 ? 1 : 0;
    int n = w->extn[e];
    int off = k == 2 ? (int)(rt::mix2(seed, 90) % (uint64_t)(n - 1)) : 0;
    w->wext[k] = e;
    w->woff[k] = off;
    w->W[k] = new VW(w->ext[e] + off, (std::size_t)(n - off));
  }
}

static void tables(Tab &T, uint64_t s) {
  int n = 4 + (int)(s % 9);
  T.users = new int(0);
  T.t = new VD(sz(n));
  T.y = new VD(sz(n));
  T.k = new VI(sz(n));
  T.q = new VB(sz(n));
  T.wb = new VD(sz(n));
  double x = 0.25 * (double)(s % 33) - 4.0;
  for (int k = 0; k < n; k++) {
    (*T.t)[(std::size_t)k] = x;
    x += gpos((int)s, k);
    (*T.y)[(std::size_t)k] = gval((int)s + 1, k);
    (*T.k)[(std::size_t)k] = gidx((int)s + 2, k, n);
    (*T.q)[(std::size_t)k] = k == 1 || gbool((int)s + 3, k);
    (*T.wb)[(std::size_t)k] = gval((int)s + 4, k);
  }
  int nr = 2 + (int)((s >> 8) % 3), nc = 2 + (int)((s >> 12) % 3);
  T.m = new VD((std::size_t)nr, (std::size_t)nc);
  for (int k = 0; k < nr * nc; k++)
    (*T.m)[(std::size_t)k] = gval((int)s + 5, k);
  T.w = new VW(&(*T.wb)[(std::size_t)0], (std::size_t)n);
}

static void *create(const InitSpec &sp) {
  World *w;
  {
    rt::Outside out;
    w = (World *)malloc(sizeof(World));
  }
  uint64_t s = sp.seed;
  World *sh = (World *)sp.shared;
  w->sd = sp.sd;
  w->si = sp.si;
  w->sb = sp.sb;
  if (sh)
    w->T = sh->T;
  else
    tables(w->T, rt::mix2(s, 600));
  ++*w->T.users; // the callers are created and deleted one after another
  for (int k = 0; k < ND; k++)
    w->D[k] = k < sp.sd ? sh->D[k] : mkvec<VD>(rt::mix2(s, 100 + k), rt::mix2(s, k) % 3 == 0);
  for (int k = 0; k < NI; k++)
    w->I[k] = k < sp.si ? sh->I[k] : mkvec<VI>(rt::mix2(s, 200 + k), rt::mix2(s, k) % 4 == 0);
  for (int k = 0; k < NB; k++)
    w->B[k] = k < sp.sb ? sh->B[k] : mkvec<VB>(rt::mix2(s, 300 + k), rt::mix2(s, k) % 4 == 0);
  for (int e = 0; e < NE; e++) {
    w->extn[e] = sp.extn[e];
#ifdef SIDE_SUT
    w->ext[e] = sp.ext[e];
#else
    w->ext[e] = (double *)malloc(sizeof(double) * (std::size_t)sp.extn[e]);
#endif
    for (int k = 0; k < sp.extn[e]; k++)
      w->ext[e][k] = gval((int)rt::mix2(s, 400 + e), k);
  }
  views(w, s);
  for (int k = 0; k < NR; k++)
    w->R[k] = k ? new RS((std::size_t)3) : new RS();
  int indep = (int)(rt::mix2(s, 500) % NV);
#ifdef SIDE_SUT
  for (int k = 0; k < NV - NVB; k++)
    for (int q = 0; q < NVM; q++)
      w->vmem[k][q] = gval((int)s, 3 * (k + NVB) + 1 + q);
  w->av = new AV(indep < NVB ? indep : indep - NVB, indep < NVB ? 0 : 1);
  bool mats = rt::mix2(s, 501) % 4 == 0; // matrices, given before
  VW m3(w->vmem[0], (std::size_t)(mats ? 4 : 3)), m4(w->vmem[1], (std::size_t)(mats ? 1 : 3));
  m3.d.capacity = (std::size_t)vcap(3);
  m4.d.capacity = (std::size_t)vcap(4);
  if (mats) {
    VD g[NVB];
    for (int k = 0; k < NVB; k++) {
      g[k] = matrix(0.0, 2, 2);
      for (int q = 0; q < 4; q++)
        g[k][(std::size_t)q] = gval((int)s, 3 * k + 1 + q);
    }
    VD x3 = g[0];
    for (int q = 0; q < 4; q++)
      x3[(std::size_t)q] = gval((int)s, 3 * NVB + 1 + q);
    m3 = x3; // with the shape
    w->av->initBuffer(g[0], g[1], g[2]);
  }
  w->av->initBorrow(m3, m4);
  V0 v0(*w->av);
  V1 v1(*w->av);
  V2 v2(*w->av);
  V3 v3(*w->av);
  V4 v4(*w->av);
  if (mats) {
    get_derivs(v0);
    get_derivs(v1);
    get_derivs(v2);
    get_derivs(v3);
    get_derivs(v4);
  } else {
    v0 = coca<0>(*w->av, gval((int)s, 1), gval((int)s, 2), gval((int)s, 3));
    v1 = coca<1>(*w->av, gval((int)s, 4), gval((int)s, 5), gval((int)s, 6));
    v2 = coca<2>(*w->av, gval((int)s, 7), gval((int)s, 8), gval((int)s, 9));
    v3 = coca<0>(*w->av, gval((int)s, 10), gval((int)s, 11), gval((int)s, 12));
    v4 = coca<1>(*w->av, gval((int)s, 13), gval((int)s, 14), gval((int)s, 15));
  }
#else
  w->av = new AV;
  w->av->indep = indep;
  for (int k = 0; k < NV; k++) {
    DV &x = w->av->x[k];
    bool mats = rt::mix2(s, 501) % 4 == 0;
    int n = !mats ? 3 : k == NV - 1 ? 1 : 4;
    for (int q = 0; q < n; q++)
      x.v.push_back(gval((int)s, 3 * k + 1 + q));
    x.d.assign((std::size_t)n, k == w->av->indep ? 1.0 : 0.0);
    x.m = n == 4;
    x.r = x.c = x.m ? 2 : 0;
  }
  for (int k = 0; k < NV - NVB; k++)
    for (int q = 0; q < NVM; q++)
      w->av->mem[k][q] = gval((int)s, 3 * (k + NVB) + 1 + q);
#endif
  return w;
}

static void destroy(void *v) {
  World *w = (World *)v;
  for (int k = w->sd; k < ND; k++)
    delete w->D[k];
  for (int k = w->si; k < NI; k++)
    delete w->I[k];
  for (int k = w->sb; k < NB; k++)
    delete w->B[k];
  for (int k = 0; k < NW; k++)
    delete w->W[k];
  for (int k = 0; k < NR; k++)
    delete w->R[k];
  delete w->av;
  if (--*w->T.users == 0) {
    delete w->T.users;
    delete w->T.w;
    delete w->T.wb;
    delete w->T.q;
    delete w->T.k;
    delete w->T.m;
    delete w->T.y;
    delete w->T.t;
  }
#ifdef SIDE_MDL
  for (int e = 0; e < NE; e++)
    free(w->ext[e]);
#endif
  rt::Outside out;
  free(w);
}

template <class V> static void snapv(Snap &s, char pool, int k, const V &v) {
  s.slot(pool, k, (long)v.size(), v.im(), (long)v.nr(), (long)v.nc());
  for (std::size_t i = 0; i < v.size(); i++)
    s.put((double)v[i]);
}
static void snap(void *vw, Snap &s) {
  World *w = (World *)vw;
  s.clear();
  for (int k = 0; k < ND; k++)
    snapv(s, 'D', k, *w->D[k]);
  for (int k = 0; k < NI; k++)
    snapv(s, 'I', k, *w->I[k]);
  for (int k = 0; k < NB; k++)
    snapv(s, 'B', k, *w->B[k]);
  for (int k = 0; k < NW; k++)
    snapv(s, 'W', k, *w->W[k]);
  for (int e = 0; e < NE; e++) {
    s.slot('E', e, w->extn[e], false, 0, 0);
    for (int k = 0; k < w->extn[e]; k++)
      s.put(w->ext[e][k]);
  }
  for (int k = 0; k < NR; k++) {
    const RS &r = *w->R[k];
    s.slot('R', k, (long)r.size(), false, 0, 0);
    for (std::size_t i = 0; i < r.size(); i++)
      s.put(r[i]);
  }
  snapv(s, 'T', 0, *w->T.t);
  snapv(s, 'T', 1, *w->T.y);
  snapv(s, 'T', 2, *w->T.m);
  snapv(s, 'T', 3, *w->T.k);
  snapv(s, 'T', 4, *w->T.q);
  snapv(s, 'T', 5, *w->T.w);
#ifdef SIDE_SUT
  auto put = [&](int k, const auto &x, const auto &y) {
    s.slot('a', k, (long)x.size(), x.im(), (long)x.nr(), (long)x.nc());
    for (std::size_t i = 0; i < x.size(); i++)
      s.put(x[i]);
    s.slot('d', k, (long)y.size(), false, 0, 0);
    for (std::size_t i = 0; i < y.size(); i++)
      s.put(y[i]);
  };
  for (int k = 0; k < NVB; k++)
    put(k, w->av->varBuffer[k], w->av->varBufferDerivs[k]);
  for (int k = 0; k < NV - NVB; k++) {
    put(NVB + k, w->av->varBorrow[k], w->av->varBorrowDerivs[k]);
    s.slot('m', k, NVM, false, 0, 0);
    for (int q = 0; q < NVM; q++)
      s.put(w->vmem[k][q]);
  }
#else
  for (int k = 0; k < NV; k++) {
    const DV &x = w->av->x[k];
    s.slot('a', k, (long)x.v.size(), x.m, (long)x.r, (long)x.c);
    for (double y : x.v)
      s.put(y);
    s.slot('d', k, (long)x.d.size(), false, 0, 0);
    for (double y : x.d)
      s.put(y);
    if (k >= NVB) {
      s.slot('m', k - NVB, NVM, false, 0, 0);
      for (int q = 0; q < NVM; q++)
        s.put(w->av->mem[k - NVB][q]);
    }
  }
#endif
}

#ifdef SIDE_MDL
static void *clone(void *v) {
  World *w = (World *)v;
  World *c = (World *)malloc(sizeof(World));
  *c = *w;
  ++*c->T.users;
  for (int k = w->sd; k < ND; k++)
    c->D[k] = new VD(*w->D[k]);
  for (int k = w->si; k < NI; k++)
    c->I[k] = new VI(*w->I[k]);
  for (int k = w->sb; k < NB; k++)
    c->B[k] = new VB(*w->B[k]);
  for (int e = 0; e < NE; e++) {
    c->ext[e] = (double *)malloc(sizeof(double) * (std::size_t)w->extn[e]);
    memcpy(c->ext[e], w->ext[e], sizeof(double) * (std::size_t)w->extn[e]);
  }
  for (int k = 0; k < NW; k++) {
    c->W[k] = new VW(*w->W[k]);
    c->W[k]->p = c->ext[c->wext[k]] + c->woff[k];
  }
  for (int k = 0; k < NR; k++)
    c->R[k] = new RS(*w->R[k]);
  c->av = new AV(*w->av);
  return c;
}
static void resync(void *v, const Snap &s) { // adopt the (equal up to rounding) values
  World *w = (World *)v;
  for (int q = 0; q < s.ns; q++) {
    const Slot &t = s.s[q];
    for (long i = 0; i < t.size; i++) {
      double x = s.v[t.off + i];
      switch (t.pool) {
      case 'D':
        if (t.idx >= w->sd)
          w->D[t.idx]->v[(std::size_t)i] = x;
        break;
      case 'E':
        w->ext[t.idx][i] = x;
        break;
      case 'R':
        w->R[t.idx]->v[(std::size_t)i] = x;
        break;
      case 'a':
        w->av->x[t.idx].v[(std::size_t)i] = x;
        break;
      case 'm':
        w->av->mem[t.idx][i] = x;
        break;
      case 'd':
        w->av->x[t.idx].d[(std::size_t)i] = x;
        break;
      }
    }
  }
}
#endif

static int init_ = [] {
  SideApi &s = side_api(SIDE);
  s.create = create;
  s.destroy = destroy;
  s.snap = snap;
#ifdef SIDE_MDL
  s.clone = clone;
  s.resync = resync;
#endif
  return 0;
}();
} // namespace NS
#ifdef SIDE_MDL
namespace mdl {
int warn_count = 0;
std::string out_text;
} // namespace mdl
#endif
