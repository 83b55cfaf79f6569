// Shared between the real side (namespace etr) and the reference model
// (namespace mdl). Each ops_*.cpp is compiled twice: -DSIDE_SUT and -DSIDE_MDL.
#pragma once
#include "rt.h"
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <limits>

enum Family : uint32_t {
  F_OWN = 1u << 0,     // construction, copy, assignment
  F_CALC = 1u << 1,    // elementwise calculations
  F_CMP = 1u << 2,     // comparisons
  F_UNARY = 1u << 3,   // unary functions
  F_SUBR = 1u << 4,    // reading vector subsets
  F_SUBM = 1u << 5,    // reading matrix subsets
  F_SUBW = 1u << 6,    // writing subsets
  F_ALIAS = 1u << 7,   // target occurs on the right-hand side
  F_BORROW = 1u << 8,  // borrowed buffers
  F_SEQ = 1u << 9,     // colon, rep, coca, matrix, vector
  F_GROW = 1u << 10,   // raw storage
  F_DERIV = 1u << 11,  // derivatives
  F_PRINT = 1u << 12,  // printing and diagnostics
  F_OBS = 1u << 13,    // observers
  F_REJ = 1u << 14,    // invalid requests
  F_INTERP = 1u << 15, // interpolation
  F_EXT = 1u << 16,    // the owner of a borrowed buffer writes
  F_CONV = 1u << 17,   // element types
  F_VIEW = 1u << 18,   // subsets which outlive a change of their base
  F_CUBIC = 1u << 19,  // cubic interpolation
};
enum OpFlags : uint32_t {
  X_NOSWEEP = 1,  // several visible changes: not atomic under a fault
  X_NOMODEL = 2,  // output is only compared between runs
  X_WARN = 4,     // the number of warnings (0 or more) is compared
  X_TEXT = 8,     // the printed text is compared
  X_NOTHREAD = 16 // uses the streams of the process
};

struct Out { // results of an op, no allocation
  int n = 0;
  double v[40000];
  bool overflow = false;
  int ntext = 0;
  char text[120000];
  int warns = 0;
  void num(double x) {
    if (n < 40000)
      v[n++] = x;
    else
      overflow = true;
  }
  void str(const char *s, std::size_t k) {
    if (ntext + (int)k < (int)sizeof text) {
      for (std::size_t i = 0; i < k; i++)
        text[ntext + i] = s[i];
      ntext += (int)k;
    } else
      overflow = true;
  }
};

struct Slot {
  char pool; // D I B W E(xternal) R(aw) a(deriv value) d(deriv)
  int idx;
  long size;
  bool im;
  long nr, nc;
  int off;
};
struct Snap { // malloc memory, harness only
  Slot s[96];
  int ns = 0;
  double *v = nullptr;
  int nv = 0, cap = 0;
  Snap() {}
  Snap(const Snap &) = delete;
  Snap &operator=(const Snap &) = delete;
  ~Snap() { free(v); }
  void clear() { ns = nv = 0; }
  void slot(char pool, int idx, long size, bool im, long nr, long nc) {
    s[ns++] = Slot{pool, idx, size, im, im ? nr : 0, im ? nc : 0, nv};
  }
  void put(double x) {
    if (nv == cap) {
      cap = cap ? cap * 2 : 1024;
      v = (double *)realloc(v, sizeof(double) * (std::size_t)cap);
    }
    v[nv++] = x;
  }
};

static const int ND = 6, NI = 4, NB = 3, NW = 3, NR = 2, NV = 5, NE = 2;
static const int NVB = 3; // the first variables own their values, the others borrow
static const int NVM = 8; // memory behind a borrowed variable
inline int vcap(int k) { return k == NVB ? 4 : 3; } // of which it may use a part
static const int NARG = 8;

struct InitSpec {
  uint64_t seed;
  double *ext[NE]; // external buffers of the real side (model: own memory)
  int extn[NE];
  void *shared; // world of which the first slots of D, I and B are shared
  int sd, si, sb; // number of shared slots
};

typedef void (*OpFn)(void *world, const int *a, Out &o);
typedef void *(*WorldNew)(const InitSpec &);
typedef void (*WorldDel)(void *);
typedef void (*WorldSnap)(void *, Snap &);
struct SideApi {
  WorldNew create = nullptr;
  WorldDel destroy = nullptr;
  WorldSnap snap = nullptr;
  void *(*clone)(void *) = nullptr;              // model only
  void (*resync)(void *, const Snap &) = nullptr; // model only: adopt values
};
SideApi &side_api(int side);
void reg_op(int side, const char *name, uint32_t fam, uint32_t flags, int wt, OpFn f);

// ---- value generators, identical on both sides ------------------------------
inline uint64_t ah(int a, int i) { return rt::mix2((uint64_t)(uint32_t)a, (uint64_t)i + 77); }
inline double gval(int a, int i) { // mostly multiples of 0.25 in [-8, 8]
  uint64_t h = ah(a, i);
  double x = (double)((int)(h % 65) - 32) * 0.25;
  unsigned r = (unsigned)((h >> 20) % 100);
  if (r < 90)
    return x;
  if (r < 96)
    return x / 7.0 + 1.0 / 3.0; // all digits of the mantissa
  if (r < 98)
    return x * 1234567.0 + 1.0 / 3.0;
  if (r < 99)
    return x * 1e-4;
  switch ((h >> 40) % 4) {
  case 0:
    return std::numeric_limits<double>::quiet_NaN();
  case 1:
    return std::numeric_limits<double>::infinity();
  case 2:
    return -std::numeric_limits<double>::infinity();
  }
  return x * 1e15;
}
inline double gpos(int a, int i) { return 0.25 + (double)(ah(a, i) % 40) * 0.25; }
inline int gint(int a, int i) { // mostly in [-9, 9]
  uint64_t h = ah(a, i);
  int x = (int)(h % 19) - 9;
  unsigned r = (unsigned)((h >> 20) % 100);
  return r < 95 ? x : r < 98 ? x * 257 : x * 20000001;
}
inline bool gbool(int a, int i) { return ah(a, i) % 5 < 3; }
inline int glen(int a) { // lengths: mostly small
  uint64_t h = rt::mix((uint64_t)(uint32_t)a);
  unsigned r = (unsigned)(h % 100);
  if (r < 70)
    return 1 + (int)((h >> 8) % 7);
  if (r < 92)
    return 1 + (int)((h >> 8) % 25);
  if (r < 98)
    return 1 + (int)((h >> 8) % 130);
  if (r < 99)
    return 1 + (int)((h >> 8) % 400);
  unsigned q = (unsigned)((h >> 40) % 8);
  return 1 + (int)((h >> 8) % (q < 4 ? 1100u : q < 7 ? 2200u : 4500u));
}
inline int gidx(int a, int i, long n) { // valid one based index
  return n <= 0 ? 1 : 1 + (int)(ah(a, i) % (uint64_t)n);
}
