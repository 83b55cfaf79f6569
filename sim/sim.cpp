// Driver: seeded search over programs, fault sequences and schedules.
#include "core.h"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <ctime>
#include <exception>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

// ===========================================================================
// operations
// ===========================================================================
struct OpDef {
  std::string name;
  uint32_t fam = 0, fl = 0;
  int wt = 0;
  OpFn f[2] = {nullptr, nullptr};
};
static std::vector<OpDef> &ops() {
  static std::vector<OpDef> v;
  return v;
}
SideApi &side_api(int side) {
  static SideApi a[2];
  return a[side];
}
void reg_op(int side, const char *name, uint32_t fam, uint32_t flags, int wt, OpFn f) {
  for (auto &d : ops())
    if (d.name == name) {
      if (d.f[side]) {
        fprintf(stderr, "op %s is defined twice\n", name);
        _exit(3);
      }
      d.f[side] = f;
      return;
    }
  OpDef d;
  d.name = name;
  d.fam = fam;
  d.fl = flags;
  d.wt = wt;
  d.f[side] = f;
  ops().push_back(d);
}
static int find_op(const std::string &n) {
  for (size_t i = 0; i < ops().size(); i++)
    if (ops()[i].name == n)
      return (int)i;
  return -1;
}

// ===========================================================================
// programs
// ===========================================================================
enum FaultKind { FK_NONE = 0, FK_SWEEP, FK_BURST, FK_LAST, FK_STREAM, FK_NK };
static const char *fk_name[FK_NK] = {"none", "sweep", "burst", "fail-and-stop",
                                     "stream"};
struct OpI {
  int op;
  int a[NARG];
  int fk = 0, fa = 0, fb = 0;
};
enum Mode { M_SEQ = 0, M_HIST = 1, M_THREADS = 2 };
struct Prog {
  int mode = M_SEQ;
  bool model = true; // compare with the reference model
  bool shared = false;
  uint64_t wseed = 1;
  int arena = 0;
  uint64_t aseed = 1;
  int arena2 = 0; // second execution
  uint64_t aseed2 = 1, hseed = 0;
  int nth = 1; // threads
  std::vector<OpI> t[4]; // M_HIST: t[1] is executed before the second execution
  int tracks() const { return mode == M_HIST ? 2 : nth; }
  std::vector<rt::Switch> plan;
  uint64_t plan_seed = 0; // 0: the plan is explicit
};

struct Config {
  const char *id;
  uint32_t prim, aux;
  int mode;
  bool model;
  bool shared;
  int p_sweep, p_burst, p_last, p_stream; // percent
  int wprim, waux;
};
#define ALLF 0xffffffffu
static const Config configs[] = {
    // containers are independent values over any history
    {"P01", F_OWN | F_CONV, F_CALC | F_SEQ | F_SUBW | F_SUBR | F_GROW | F_ALIAS, M_SEQ, true, false, 12, 4, 10, 0, 6, 1},
    // failing allocations
    {"P02", ALLF, 0, M_SEQ, true, false, 75, 10, 15, 0, 1, 1},
    // memory safety
    {"P03", ALLF, 0, M_SEQ, false, false, 20, 6, 25, 4, 1, 1},
    // independence of placement, memory contents and history
    {"P04", ALLF, 0, M_HIST, false, false, 0, 0, 0, 0, 1, 1},
    {"P05", F_BORROW | F_EXT, F_OWN | F_CALC | F_SEQ | F_SUBW | F_ALIAS, M_SEQ, true, false, 12, 4, 8, 0, 6, 1},
    {"P06", F_SUBR | F_SUBM | F_VIEW, F_OWN | F_SEQ | F_SUBW | F_EXT, M_SEQ, true, false, 8, 3, 5, 0, 6, 1},
    {"P07", F_SUBW, F_OWN | F_SEQ | F_SUBR | F_EXT, M_SEQ, true, false, 20, 6, 5, 0, 6, 1},
    {"P08", F_ALIAS, F_OWN | F_SEQ | F_BORROW, M_SEQ, true, false, 15, 5, 5, 0, 6, 1},
    {"P09", F_CALC | F_CMP | F_UNARY, F_OWN | F_SEQ | F_CONV, M_SEQ, true, false, 8, 3, 5, 0, 6, 1},
    {"P10", ALLF, 0, M_THREADS, false, false, 8, 0, 0, 0, 1, 1},
    {"P11", ALLF, 0, M_THREADS, false, true, 8, 0, 0, 0, 1, 1},
    {"P12", F_REJ, F_OWN | F_SEQ | F_SUBW | F_SUBR | F_BORROW | F_EXT, M_SEQ, true, false, 15, 5, 5, 0, 6, 1},
    {"P13", F_DERIV, F_OWN, M_SEQ, true, false, 20, 6, 5, 0, 8, 1},
    {"P14", F_PRINT, F_OWN | F_SEQ | F_SUBW | F_CMP, M_SEQ, true, false, 10, 3, 5, 30, 6, 1},
    {"P15", F_SEQ, F_OWN | F_CALC | F_ALIAS, M_SEQ, true, false, 15, 5, 5, 0, 6, 1},
    {"P16", F_GROW, F_OWN, M_SEQ, true, false, 25, 6, 8, 0, 6, 1},
    {"P17", F_OBS, F_OWN | F_SEQ | F_SUBW | F_CALC | F_CMP, M_SEQ, true, false, 8, 3, 5, 0, 6, 1},
    {"P18", F_INTERP, F_OWN | F_SEQ | F_SUBW, M_SEQ, true, false, 10, 3, 5, 0, 8, 1},
    {"P19", F_CUBIC, F_OWN | F_SEQ | F_SUBW, M_SEQ, true, false, 10, 3, 5, 0, 8, 1},
};
static const Config *cfg = nullptr;

struct Rng {
  uint64_t s;
  uint64_t next() { return s = rt::mix(s + 0x1234567); }
  uint64_t below(uint64_t n) { return next() % n; }
  bool pct(int p) { return (int)below(100) < p; }
};

static std::vector<int> pick_table; // op indices, repeated by weight
static void build_table() {
  pick_table.clear();
  for (size_t i = 0; i < ops().size(); i++) {
    OpDef &d = ops()[i];
    if (!d.f[0] || !d.f[1])
      continue;
    if (cfg->mode == M_THREADS && (d.fl & X_NOTHREAD))
      continue;
    if (cfg->model && (d.fl & X_NOMODEL))
      continue;
    int w = (d.fam & cfg->prim) ? cfg->wprim : (d.fam & cfg->aux) ? cfg->waux : 0;
    // families of similar total weight
    for (int k = 0; k < w * d.wt; k++)
      pick_table.push_back((int)i);
  }
}
struct Focus { // a few ops are used more often than the others
  std::vector<int> ops;
  int pct;
};
static Focus gen_focus(Rng &r) {
  Focus f;
  int n = 1 + (int)r.below(5);
  f.pct = r.pct(50) ? 30 : 75;
  for (int k = 0; k < n; k++)
    f.ops.push_back(pick_table[r.below(pick_table.size())]);
  return f;
}
static void gen_ops(Rng &r, const Focus &fo, std::vector<OpI> &v, int n, bool faults) {
  for (int k = 0; k < n; k++) {
    OpI o;
    o.op = r.pct(fo.pct) ? fo.ops[r.below(fo.ops.size())]
                         : pick_table[r.below(pick_table.size())];
    for (int &x : o.a)
      x = (int)r.below(1 << 20);
    OpDef &d = ops()[o.op];
    if (faults) {
      if (!(d.fl & X_NOSWEEP)) {
        if (r.pct(cfg->p_sweep))
          o.fk = FK_SWEEP;
        else if (r.pct(cfg->p_burst)) {
          o.fk = FK_BURST;
          o.fa = 1 + (int)r.below(4);
        }
      }
      if (r.pct(cfg->p_stream) && (d.fl & X_NOTHREAD)) {
        o.fk = FK_STREAM;
        o.fa = (int)r.below(3);
        o.fb = (int)r.below(12);
      }
    }
    v.push_back(o);
  }
}
static Prog gen(uint64_t seed) {
  Rng r{seed};
  Prog p;
  p.mode = cfg->mode;
  p.model = cfg->model;
  p.shared = cfg->shared;
  p.wseed = r.next();
  p.arena = (int)r.below(rt::A_NMODES);
  p.aseed = r.next();
  p.arena2 = (int)r.below(rt::A_NMODES);
  p.aseed2 = r.next();
  if (p.mode == M_THREADS) {
    p.nth = 2 + (int)r.below(2);
    Focus f = gen_focus(r); // the same for all threads
    for (int i = 0; i < p.nth; i++)
      gen_ops(r, f, p.t[i], 2 + (int)r.below(8), true);
    p.plan_seed = r.next() | 1;
    return p;
  }
  int n = 4 + (int)r.below(21);
  Focus f = gen_focus(r);
  gen_ops(r, f, p.t[0], n, true);
  if (p.mode == M_HIST) {
    p.hseed = r.next();
    if (r.pct(60)) { // the history uses the ops of the program
      f.pct = 80;
      f.ops.clear();
      for (const OpI &o : p.t[0])
        f.ops.push_back(o.op);
    }
    gen_ops(r, f, p.t[1], (int)r.below(15), false);
    for (OpI &o : p.t[1]) {
      if (r.pct(30) && !(ops()[o.op].fl & X_NOSWEEP)) {
        o.fk = FK_BURST;
        o.fa = 1 + (int)r.below(5);
      }
      if (r.pct(20)) // the same request
        for (const OpI &q : p.t[0])
          if (q.op == o.op)
            memcpy(o.a, q.a, sizeof o.a);
    }
  } else if (r.pct(cfg->p_last)) { // the program ends in the middle of an op
    OpI &o = p.t[0].back();
    o.fk = FK_LAST;
    o.fa = 1 + (int)r.below(6);
  }
  return p;
}

static void write_prog(FILE *f, const Prog &p) {
  fprintf(f, "mode %d model %d shared %d\n", p.mode, (int)p.model, (int)p.shared);
  fprintf(f, "world %llu\n", (unsigned long long)p.wseed);
  fprintf(f, "arena %d %llu second %d %llu history %llu\n", p.arena,
          (unsigned long long)p.aseed, p.arena2, (unsigned long long)p.aseed2,
          (unsigned long long)p.hseed);
  fprintf(f, "threads %d\n", p.nth);
  for (int t = 0; t < p.tracks(); t++)
    for (const OpI &o : p.t[t]) {
      fprintf(f, "op %d %s", t, ops()[o.op].name.c_str());
      for (int k = 0; k < NARG; k++)
        fprintf(f, " %d", o.a[k]);
      fprintf(f, " fault %s %d %d\n", fk_name[o.fk], o.fa, o.fb);
    }
  for (const rt::Switch &s : p.plan)
    fprintf(f, "switch from %d at %llu to %d\n", s.from, (unsigned long long)s.step, s.to);
  fprintf(f, "end\n");
}
static bool read_prog(FILE *f, Prog &p, std::string &prop, std::string &kind) {
  char line[1024];
  bool ended = false;
  while (fgets(line, sizeof line, f)) {
    char w[64], n[64], fkn[64];
    int m, mo, sh, t;
    unsigned long long x, y, z;
    int b;
    if (sscanf(line, "property %63s", w) == 1)
      prop = w;
    else if (sscanf(line, "kind %63s", w) == 1)
      kind = w;
    else if (sscanf(line, "mode %d model %d shared %d", &m, &mo, &sh) == 3) {
      p.mode = m;
      p.model = mo;
      p.shared = sh;
    } else if (sscanf(line, "world %llu", &x) == 1)
      p.wseed = x;
    else if (sscanf(line, "arena %d %llu second %d %llu history %llu", &m, &x, &b, &y,
                    &z) == 5) {
      p.arena = m;
      p.aseed = x;
      p.arena2 = b;
      p.aseed2 = y;
      p.hseed = z;
    } else if (sscanf(line, "threads %d", &m) == 1)
      p.nth = m;
    else if (sscanf(line, "switch from %d at %llu to %d", &m, &x, &b) == 3)
      p.plan.push_back({m, b, x});
    else if (strncmp(line, "op ", 3) == 0) {
      OpI o;
      if (sscanf(line, "op %d %63s %d %d %d %d %d %d %d %d fault %63s %d %d", &t, n,
                 &o.a[0], &o.a[1], &o.a[2], &o.a[3], &o.a[4], &o.a[5], &o.a[6], &o.a[7],
                 fkn, &o.fa, &o.fb) != 13)
        return false;
      o.op = find_op(n);
      if (o.op < 0 || t < 0 || t > 3)
        return false;
      for (int k = 0; k < FK_NK; k++)
        if (!strcmp(fkn, fk_name[k]))
          o.fk = k;
      p.t[t].push_back(o);
    } else if (strncmp(line, "end", 3) == 0)
      ended = true;
  }
  return ended;
}

// ===========================================================================
// shared memory
// ===========================================================================
struct RefOp {
  uint64_t h;
  int status; // 1 ok 2 error
  int n;
  double v[12];
};
struct RefLog { // log of the reference execution
  int n[4];
  RefOp op[4][64];
  uint64_t fin[4];
  uint64_t lsteps[4];
  int nconf;
  rt::Conflict conf[4096];
};
struct Chan { // one per worker
  rt::Result r;
  RefLog ref;
  int nplan;
  rt::Switch plan[256];
};
static const size_t MAXOPS = 8192;
static const size_t NBITS = 1u << 23;
struct Global {
  unsigned char states[NBITS / 8];
  unsigned char inter[NBITS / 8];
  uint64_t op_ok[MAXOPS], op_err[MAXOPS], op_skip[MAXOPS], op_swept[MAXOPS];
};
static Global *glob = nullptr;
static Chan *chan = nullptr;
template <class T> static T *shmem(size_t n) {
  return (T *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static void setbit(unsigned char *m, uint64_t h) {
  size_t b = h % NBITS;
  __atomic_fetch_or(&m[b / 8], (unsigned char)(1u << (b % 8)), __ATOMIC_RELAXED);
}
static double countbits(const unsigned char *m) { // linear counting
  size_t z = 0;
  for (size_t i = 0; i < NBITS / 8; i++)
    z += 8 - (size_t)__builtin_popcount(m[i]);
  if (z == 0)
    z = 1;
  return -(double)NBITS * std::log((double)z / (double)NBITS);
}

// ===========================================================================
// execution of one op
// ===========================================================================
static inline uint64_t dbits(double d) {
  if (d != d)
    return 0x7ff8ull << 48;
  if (d == 0)
    d = 0;
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
static bool same(double a, double b) { return dbits(a) == dbits(b); }
static bool near_(double a, double b) {
  if (same(a, b))
    return true;
  if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b))
    return false;
  double m = std::max(std::fabs(a), std::fabs(b));
  return std::fabs(a - b) <= 1e-9 * m + 1e-11;
}
static const char *pool_name(char p) {
  switch (p) {
  case 'D':
    return "numeric vector";
  case 'I':
    return "integer vector";
  case 'B':
    return "logical vector";
  case 'W':
    return "borrowed view";
  case 'E':
    return "memory of the caller";
  case 'R':
    return "raw storage";
  case 'a':
    return "variable";
  case 'd':
    return "derivative of variable";
  case 'm':
    return "memory behind borrowed variable";
  case 'T':
    return "constant object";
  }
  return "?";
}
// returns false and a description if the states differ
static bool cmp_snap(const Snap &x, const Snap &y, bool exact, char *b, size_t n) {
  for (int q = 0; q < x.ns; q++) {
    const Slot &s = x.s[q], &t = y.s[q];
    if (s.size != t.size) {
      snprintf(b, n, "%s %d has %ld elements instead of %ld", pool_name(s.pool), s.idx,
               s.size, t.size);
      return false;
    }
    if (s.im != t.im || s.nr != t.nr || s.nc != t.nc) {
      snprintf(b, n, "%s %d is %s %ldx%ld instead of %s %ldx%ld", pool_name(s.pool), s.idx,
               s.im ? "a matrix" : "a vector", s.nr, s.nc, t.im ? "a matrix" : "a vector",
               t.nr, t.nc);
      return false;
    }
    for (long i = 0; i < s.size; i++) {
      double u = x.v[s.off + i], v = y.v[t.off + i];
      if (!(exact ? same(u, v) : near_(u, v))) {
        snprintf(b, n, "element %ld of %s %d is %.17g instead of %.17g", i + 1,
                 pool_name(s.pool), s.idx, u, v);
        return false;
      }
    }
  }
  return true;
}
static uint64_t hash_snap(const Snap &s) {
  uint64_t h = 1;
  for (int q = 0; q < s.ns; q++) {
    const Slot &t = s.s[q];
    h = rt::mix2(h, (uint64_t)t.size * 4 + (t.im ? 1 : 0));
    h = rt::mix2(h, (uint64_t)t.nr * 1000 + (uint64_t)t.nc);
    for (long i = 0; i < t.size; i++)
      h = rt::mix2(h, dbits(s.v[t.off + i]));
  }
  return h;
}
static uint64_t hash_out(const Out &o) {
  uint64_t h = rt::mix2((uint64_t)o.n, (uint64_t)o.ntext);
  for (int i = 0; i < o.n; i++)
    h = rt::mix2(h, dbits(o.v[i]));
  for (int i = 0; i < o.ntext; i++)
    h = rt::mix2(h, (uint64_t)(unsigned char)o.text[i]);
  return h;
}

namespace mdl {
struct Err;
struct Skip;
extern int warn_count;
extern std::string out_text;
} // namespace mdl
int model_call(OpFn f, void *w, const int *a, Out &o); // 1 ok 2 err 3 skip

enum { C_OK = 1, C_ERR = 2, C_SKIP = 3 };

struct Caller { // one caller with its objects
  void *sut = nullptr;
  void *mdl = nullptr;
  Snap pre, post, ms;
  Out *os = nullptr, *om = nullptr, *of = nullptr;
  InitSpec spec;
  double *ext[NE] = {nullptr, nullptr};
  uint64_t h = 0;
};

static char what_buf[4][200];
static int call_sut(Caller &c, const OpI &o, Out &out) {
  out.n = out.ntext = out.warns = 0;
  out.overflow = false;
  rt::scribble_stack(rt::mix2(rt::res->ops + 3, (uint64_t)o.a[0]));
  int r;
  {
    try {
      rt::Scope s;
      ops()[o.op].f[0](c.sut, o.a, out);
      r = C_OK;
    } catch (const std::exception &e) {
      snprintf(what_buf[rt::tid], 200, "%s", e.what());
      r = C_ERR;
    } catch (...) {
      rt::in_sut = 0;
      rt::violation("bad-exception", "something which is no std::exception was thrown");
    }
  }
  return r;
}
static void snap_sut(Caller &c, Snap &s) {
  try {
    rt::Quiet q;
    side_api(0).snap(c.sut, s);
  } catch (...) {
    rt::violation("unreadable", "an object cannot be read any more");
  }
}

// returns false if the program ends after this op
static bool run_op(Caller &c, const Prog &p, int t, int k, bool threads) {
  const OpI &o = p.t[t][k];
  OpDef &d = ops()[o.op];
  rt::pos = {k, d.name.c_str(), 0};
  rt::res->curop = k;
  snprintf(rt::res->curname, sizeof rt::res->curname, "%s", d.name.c_str());
  rt::res->ops++;
  // 1. model
  void *backup = side_api(1).clone(c.mdl);
  mdl::warn_count = 0;
  mdl::out_text.clear();
  c.om->n = c.om->ntext = 0;
  c.om->overflow = false;
  int mr = model_call(d.f[1], c.mdl, o.a, *c.om);
  if (mr != C_OK) {
    side_api(1).destroy(c.mdl);
    c.mdl = side_api(1).clone(backup);
  }
  if (c.om->overflow)
    mr = C_SKIP;
  struct Free {
    void *&b;
    ~Free() { side_api(1).destroy(b); }
  } fr{backup};
  if (mr == C_SKIP) {
    if (c.om->overflow) {
      side_api(1).destroy(c.mdl);
      c.mdl = side_api(1).clone(backup);
    }
    rt::res->op_skip++;
    glob->op_skip[o.op]++;
    return true;
  }
  int mwarn = mdl::warn_count;
  // 2. faults
  snap_sut(c, c.pre);
  char msg[300];
  bool done = false;
  int sr = 0;
  Out *so = c.os;
  rt::captured_clear();
  bool outp = d.fl & X_NOTHREAD;
  bool io_fault = false;
  if (o.fk == FK_LAST && !threads) {
    rt::set_fail(o.fa, (o.a[7] & 1) != 0);
    rt::pos.fail = o.fa;
    call_sut(c, o, *so);
    if (rt::fail_fired())
      rt::res->f_alloc++;
    rt::set_fail(0, false);
    rt::pos.fail = 0;
    rt::res->f_abandon++;
    return false;
  }
  if (o.fk == FK_SWEEP || o.fk == FK_BURST) {
    bool burst = o.fk == FK_BURST;
    int maxk = threads ? 3 : 48;
    for (int q = burst ? o.fa : 1; q <= maxk; q++) {
      rt::captured_clear();
      rt::set_fail(q, burst);
      rt::pos.fail = q;
      sr = call_sut(c, o, *so);
      bool fired = rt::fail_fired();
      rt::set_fail(0, false);
      if (!fired) {
        done = true;
        break;
      }
      if (burst)
        rt::res->f_burst++;
      else
        rt::res->f_alloc++;
      if (sr == C_OK) { // coped with the failure: the result has to be complete
        done = true;
        break;
      }
      snap_sut(c, c.post);
      if (!cmp_snap(c.post, c.pre, true, msg, sizeof msg))
        rt::violation("fault-changed-state",
                      "the operation failed, but %s", msg);
      if (burst)
        break;
    }
    rt::pos.fail = 0;
    if (o.fk == FK_SWEEP) {
      rt::res->sweeps++;
      glob->op_swept[o.op]++;
    }
  }
  if (o.fk == FK_STREAM && outp) {
    rt::streams_mode(1 + o.fa % 3, o.fb);
    rt::captured_clear();
    sr = call_sut(c, o, *so);
    io_fault = rt::stream_fault_fired();
    rt::streams_mode(rt::S_OK, 0);
    if (io_fault)
      rt::res->f_stream++;
    if (sr == C_ERR && io_fault && (d.fl & X_TEXT)) {
      snap_sut(c, c.post);
      if (!cmp_snap(c.post, c.pre, true, msg, sizeof msg))
        rt::violation("fault-changed-state", "output failed and %s", msg);
    } else if (sr == C_ERR && io_fault && o.fa % 3 == 2) {
      // a warning could not be written: exceptions of the stream are allowed
      snap_sut(c, c.post);
      if (!cmp_snap(c.post, c.pre, true, msg, sizeof msg))
        rt::violation("fault-changed-state", "output failed and %s", msg);
    } else if (io_fault) {
      if (sr == C_OK && mr == C_OK && (d.fl & X_TEXT) && p.model) { // a prefix
        size_t n;
        const char *s = rt::captured_out(&n);
        if (n > mdl::out_text.size() || mdl::out_text.compare(0, n, s, n) != 0)
          rt::violation("text", "output to a failing stream is no prefix of the text");
      }
      done = true;
    } else
      done = true;
    if (!done) { // the fault is over: the same request has to succeed now
      rt::captured_clear();
      io_fault = false;
    }
  }
  // 3. without fault
  if (!done) {
    rt::captured_clear();
    sr = call_sut(c, o, *so);
  }
  snap_sut(c, c.post);
  if (so->overflow && !c.om->overflow && p.model)
    rt::violation("result", "more output than expected");
  // 4. comparison
  if (p.model && !(d.fl & X_NOMODEL)) {
    if (sr != mr) {
      if (sr == C_ERR)
        rt::violation("unexpected-error", "a valid request failed: %s", what_buf[rt::tid]);
      rt::violation("invalid-accepted", "an invalid request was accepted");
    }
    if (sr == C_ERR) {
      if (!(d.fl & X_NOSWEEP) && !cmp_snap(c.post, c.pre, true, msg, sizeof msg))
        rt::violation("error-changed-state", "the request was rejected, but %s", msg);
      if (d.fl & X_NOSWEEP) { // several changes: continue with the state reached
        return false;
      }
    } else {
      if (so->n != c.om->n)
        rt::violation("result", "%d results instead of %d", so->n, c.om->n);
      for (int i = 0; i < so->n; i++)
        if (!near_(so->v[i], c.om->v[i]))
          rt::violation("result", "result %d is %.17g instead of %.17g", i, so->v[i],
                        c.om->v[i]);
      side_api(1).snap(c.mdl, c.ms);
      if (!cmp_snap(c.post, c.ms, false, msg, sizeof msg))
        rt::violation("state", "%s", msg);
      if ((d.fl & X_TEXT) && !io_fault) {
        size_t n;
        const char *s = rt::captured_out(&n);
        if (mdl::out_text.size() != n || mdl::out_text.compare(0, n, s, n) != 0)
          rt::violation("text", "printed \"%.120s\" instead of \"%.120s\"", s,
                        mdl::out_text.c_str());
      }
      if ((d.fl & X_WARN) && !io_fault) {
        size_t n;
        const char *s = rt::captured_err(&n);
        bool w = strstr(s, "Warning") != nullptr;
        if (w != (mwarn > 0))
          rt::violation("warning", w ? "unexpected warning \"%.100s\"%s"
                                     : "a warning is missing%s%s",
                        w ? s : "", "");
      }
    }
    side_api(1).resync(c.mdl, c.post);
  } else if (!p.model) {
    // the model only decides whether a request is specified
    if (sr == C_ERR && mr == C_OK) { // keep the model in step
      side_api(1).destroy(c.mdl);
      c.mdl = side_api(1).clone(backup);
    }
    side_api(1).snap(c.mdl, c.ms);
    bool shape = true;
    for (int q = 0; q < c.ms.ns; q++)
      shape = shape && c.ms.s[q].size == c.post.s[q].size &&
              c.ms.s[q].im == c.post.s[q].im && c.ms.s[q].nr == c.post.s[q].nr &&
              c.ms.s[q].nc == c.post.s[q].nc;
    if (shape)
      side_api(1).resync(c.mdl, c.post);
    else
      return false; // not decided here
  }
  (sr == C_OK ? rt::res->op_ok : rt::res->op_err)++;
  (sr == C_OK ? glob->op_ok : glob->op_err)[o.op]++;
  uint64_t sh = hash_snap(c.post);
  setbit(glob->states, sh);
  uint64_t oh = rt::mix2(sr == C_OK ? hash_out(*so) : 7, rt::mix2(sh, (uint64_t)sr));
  if (p.mode == M_HIST) { // text and diagnostics
    size_t n;
    const char *s = rt::captured_out(&n);
    for (size_t i = 0; i < n; i++)
      oh = rt::mix2(oh, (uint64_t)(unsigned char)s[i]);
    s = rt::captured_err(&n);
    for (size_t i = 0; i < n; i++)
      oh = rt::mix2(oh, 256 + (uint64_t)(unsigned char)s[i]);
  }
  c.h = rt::mix2(c.h, oh);
  return true;
}

// ---- logs of a reference execution --------------------------------------------
static bool g_record = false; // write the log (otherwise compare with it)
static bool g_diff = false;
static void log_op(Caller &c, int t, int k, bool cont) {
  if (!g_diff || k >= 64)
    return;
  RefOp &r = chan->ref.op[t][k];
  uint64_t h = rt::mix2(c.h, cont ? 1 : 0);
  int n = std::min(c.os->n, 12);
  if (g_record) {
    r.h = h;
    r.n = n;
    memcpy(r.v, c.os->v, sizeof(double) * (size_t)n);
    chan->ref.n[t] = k + 1;
  } else if (r.h != h || k >= chan->ref.n[t]) {
    char b[400] = "";
    int m = 0;
    for (int i = 0; i < n && i < r.n; i++)
      if (!same(r.v[i], c.os->v[i])) {
        m = snprintf(b, sizeof b, ": result %d is %.17g instead of %.17g", i, c.os->v[i],
                     r.v[i]);
        break;
      }
    (void)m;
    rt::violation("differs",
                  "the results or objects differ from those of the reference execution%s",
                  b);
  }
}

// ===========================================================================
// execution of one program
// ===========================================================================
static void caller_new(Caller &c, const Prog &p, int t, double **common, void *shared) {
  c.os = (Out *)calloc(1, sizeof(Out));
  c.om = (Out *)calloc(1, sizeof(Out));
  c.h = 0;
  rt::pos = {-1, "begin", 0};
  InitSpec s{};
  s.seed = rt::mix2(p.wseed, (uint64_t)t);
  for (int e = 0; e < NE; e++) {
    s.extn[e] = common ? 12 : 4 + (int)(rt::mix2(s.seed, 70 + (uint64_t)e) % 9);
    if (common) // without a gap to the memory of the next caller
      s.ext[e] = common[e] + t * 12;
    else
      c.ext[e] = s.ext[e] = (double *)rt::ext_alloc(sizeof(double) * (size_t)s.extn[e]);
  }
  if (shared) {
    s.sd = 3;
    s.si = 2;
    s.sb = 1;
    s.shared = ((void **)shared)[0];
  }
  c.spec = s;
  try {
    rt::Scope sc;
    c.sut = side_api(0).create(s);
  } catch (...) {
    rt::in_sut = 0;
    rt::violation("begin", "the initial objects cannot be created");
  }
  if (shared)
    s.shared = ((void **)shared)[1];
  c.mdl = side_api(1).create(s);
  if (p.model) {
    char msg[300];
    snap_sut(c, c.post);
    side_api(1).snap(c.mdl, c.ms);
    if (!cmp_snap(c.post, c.ms, false, msg, sizeof msg))
      rt::violation("state", "initial objects: %s", msg);
  }
}
static void caller_del(Caller &c) {
  rt::pos = {999, "end", 0};
  {
    rt::Scope sc;
    side_api(0).destroy(c.sut);
  }
  side_api(1).destroy(c.mdl);
  for (int e = 0; e < NE; e++)
    if (c.ext[e])
      rt::ext_free(c.ext[e]);
  free(c.os);
  free(c.om);
}

static uint64_t exec_seq(const Prog &p) {
  Caller c;
  caller_new(c, p, 0, nullptr, nullptr);
  for (size_t k = 0; k < p.t[0].size(); k++) {
    bool cont = run_op(c, p, 0, (int)k, false);
    log_op(c, 0, (int)k, cont);
    if (!cont)
      break;
  }
  uint64_t h = c.h;
  caller_del(c);
  return h;
}
struct ThArg {
  const Prog *p;
  Caller *c;
  int t;
};
static void *th_main(void *v) {
  ThArg &a = *(ThArg *)v;
  for (size_t k = 0; k < a.p->t[a.t].size(); k++) {
    bool cont = run_op(*a.c, *a.p, a.t, (int)k, true);
    log_op(*a.c, a.t, (int)k, cont);
    if (!cont)
      break;
  }
  return nullptr;
}
static uint64_t exec_threads(const Prog &p, bool reference) {
  double *common[NE];
  rt::pos = {-1, "begin", 0};
  for (int e = 0; e < NE; e++) // neighbouring parts of one block
    common[e] = (double *)rt::ext_alloc(sizeof(double) * 48);
  for (int e = 0; e < NE; e++)
    memset(common[e], 0, sizeof(double) * 48);
  Caller shared;
  void *sh[2];
  Prog q = p;
  q.wseed = rt::mix(p.wseed);
  if (p.shared) {
    caller_new(shared, q, 3, common, nullptr);
    sh[0] = shared.sut;
    sh[1] = shared.mdl;
  }
  Caller c[4];
  ThArg ta[4];
  void *args[4];
  for (int t = 0; t < p.nth; t++) {
    caller_new(c[t], p, t, common, p.shared ? sh : nullptr);
    ta[t] = {&p, &c[t], t};
    args[t] = &ta[t];
  }
  if (reference)
    rt::conflicts_record(true);
  rt::sched_run(p.nth, th_main, args, p.plan.data(), (int)p.plan.size());
  uint64_t h = 3;
  for (int t = 0; t < p.nth; t++) {
    rt::tid = t;
    rt::pos = {998, "final state", 0};
    snap_sut(c[t], c[t].post);
    uint64_t f = hash_snap(c[t].post);
    h = rt::mix2(h, rt::mix2(c[t].h, f));
    if (g_record) {
      chan->ref.fin[t] = f;
      chan->ref.lsteps[t] = rt::local_steps(t);
    } else if (chan->ref.fin[t] != f)
      rt::violation("differs", "the objects of a caller differ from those of the "
                               "execution without other callers");
  }
  rt::tid = 0;
  if (reference) {
    rt::conflicts_record(false);
    chan->ref.nconf = rt::conflicts_get(chan->ref.conf, 4096);
  }
  setbit(glob->inter, rt::res->ilhash);
  for (int t = 0; t < p.nth; t++)
    caller_del(c[t]);
  if (p.shared)
    caller_del(shared);
  for (int e = 0; e < NE; e++)
    rt::ext_free(common[e]);
  return h;
}

// body of the child process; part 0: reference execution, part 1: the execution
// which is compared
static void child(const Prog &p, int part) {
  rt::arena_map();
  rt::streams_install();
  rt::streams_mode(rt::S_OK, 0);
  g_diff = p.mode != M_SEQ;
  g_record = part == 0;
  rt::arena_config(p.arena, p.aseed);
  uint64_t h = 0;
  if (p.mode == M_THREADS) {
    if (part == 0) {
      Prog q = p;
      q.plan.clear();
      h = exec_threads(q, true);
    } else
      h = exec_threads(p, false);
  } else if (p.mode == M_HIST) {
    if (part == 1) {
      rt::arena_config(p.arena2, p.aseed2);
      if (!p.t[1].empty()) {
        Prog q;
        q.mode = M_SEQ;
        q.model = false;
        q.wseed = rt::mix(p.hseed);
        q.t[0] = p.t[1];
        g_diff = false;
        exec_seq(q);
        g_diff = true;
      }
    }
    h = exec_seq(p);
  } else {
    h = exec_seq(p);
  }
  size_t l1 = rt::live_blocks();
  if (l1 && p.mode != M_HIST) { // a second execution may not need more
    size_t b1 = rt::live_bytes();
    g_diff = false;
    if (p.mode == M_THREADS) {
      Prog q = p;
      exec_threads(q, false);
    } else
      exec_seq(p);
    if (rt::live_blocks() > l1 || rt::live_bytes() > b1) {
      char b[200];
      rt::live_report(b, sizeof b);
      rt::violation("leak", "%zu blocks are never released, %s",
                    rt::live_blocks() - l1, b);
    }
  }
  rt::res->hash = rt::mix2(h, rt::mix2(rt::steps_total, rt::res->allocs));
  rt::res->steps = rt::steps_total;
  rt::res->status = 1;
  _exit(0);
}

struct Outcome {
  int status; // 1 ok 2 violation 3 harness error
  std::string kind, text, opname;
  uint64_t hash;
};
static rt::Result acc; // accumulated statistics of this worker
static uint64_t n_children = 0;
static void accumulate(const rt::Result &r) {
  acc.steps += r.steps;
  acc.allocs += r.allocs;
  acc.ops += r.ops;
  acc.op_ok += r.op_ok;
  acc.op_err += r.op_err;
  acc.op_skip += r.op_skip;
  acc.f_alloc += r.f_alloc;
  acc.f_burst += r.f_burst;
  acc.f_stream += r.f_stream;
  acc.f_switch += r.f_switch;
  acc.f_abandon += r.f_abandon;
  acc.sweeps += r.sweeps;
}
static Outcome run_part(const Prog &p, int part, bool count) {
  memset(&chan->r, 0, sizeof(rt::Result));
  rt::res = &chan->r;
  fflush(nullptr);
  n_children++;
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(3);
  }
  if (pid == 0) {
    struct itimerval it = {{0, 0}, {20, 0}};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    if (!getenv("SIM_DEBUG")) {
      if (!freopen("/dev/null", "w", stderr))
        _exit(3);
    }
    child(p, part);
    _exit(3);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {
  }
  Outcome o;
  rt::Result &r = chan->r;
  o.hash = r.hash;
  o.opname = r.curname;
  o.status = r.status;
  o.kind = r.kind;
  o.text = r.text;
  if (WIFSIGNALED(st) || r.status == 0) {
    int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    if (sig == SIGKILL || sig == SIGTERM || sig == SIGINT) {
      o.status = 3;
      o.kind = "killed";
    } else {
      o.status = 2;
      o.kind = sig == SIGVTALRM ? "no-progress" : "crash";
      char b[200];
      snprintf(b, sizeof b, "%s in op %d %s",
               sig == SIGVTALRM ? "no progress" : sig ? strsignal(sig) : "exit", r.curop,
               r.curname);
      o.text = b;
    }
  }
  if (count)
    accumulate(r);
  return o;
}
static void make_plan(Prog &p) {
  Rng r{p.plan_seed};
  RefLog &f = chan->ref;
  p.plan.clear();
  int n = 1 + (int)r.below(12);
  if (r.pct(15))
    n += 40;
  for (int k = 0; k < n; k++) {
    rt::Switch s;
    if (f.nconf > 0 && r.pct(60)) {
      const rt::Conflict &c = f.conf[r.below((uint64_t)f.nconf)];
      s.from = c.tid;
      s.step = c.step + r.below(3);
    } else {
      s.from = (int)r.below((uint64_t)p.nth);
      uint64_t m = f.lsteps[s.from] + 1;
      s.step = 1 + (r.pct(30) ? r.below(std::min<uint64_t>(m, 300)) : r.below(m));
    }
    s.to = (int)r.below((uint64_t)p.nth);
    if (s.to == s.from)
      s.to = (s.to + 1) % p.nth;
    p.plan.push_back(s);
  }
}
// executes a program completely
static Outcome run_prog(Prog &p, bool count) {
  if (p.mode == M_SEQ)
    return run_part(p, 1, count);
  memset(&chan->ref, 0, sizeof(RefLog));
  Outcome a = run_part(p, 0, count);
  if (a.status != 1)
    return a;
  uint64_t h = a.hash;
  if (p.mode == M_THREADS && p.plan_seed) {
    make_plan(p);
    p.plan_seed = 0;
  }
  Outcome b = run_part(p, 1, count);
  b.hash = rt::mix2(b.hash, h);
  return b;
}

// ===========================================================================
// minimisation
// ===========================================================================
static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static bool still(Prog p, const std::string &kind) {
  Outcome o = run_prog(p, false);
  return o.status == 2 && o.kind == kind;
}
static Prog minimise(Prog p, const std::string &kind, double limit) {
  double end = now() + limit;
  bool changed = true;
  while (changed && now() < end) {
    changed = false;
    // ops
    for (int t = 0; t < p.tracks(); t++)
      for (size_t chunk = std::max<size_t>(p.t[t].size() / 2, 1); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i + chunk <= p.t[t].size() && now() < end;) {
          Prog q = p;
          q.t[t].erase(q.t[t].begin() + (long)i, q.t[t].begin() + (long)(i + chunk));
          if (still(q, kind)) {
            p = q;
            changed = true;
          } else
            i += chunk;
        }
        if (chunk == 1)
          break;
      }
    // switches
    for (size_t i = 0; i < p.plan.size() && now() < end;) {
      Prog q = p;
      q.plan.erase(q.plan.begin() + (long)i);
      if (still(q, kind)) {
        p = q;
        changed = true;
      } else
        i++;
    }
    // faults
    for (int t = 0; t < p.tracks(); t++)
      for (size_t i = 0; i < p.t[t].size() && now() < end; i++)
        if (p.t[t][i].fk) {
          Prog q = p;
          q.t[t][i].fk = 0;
          if (still(q, kind)) {
            p = q;
            changed = true;
          }
        }
    // arguments
    for (int t = 0; t < p.tracks(); t++)
      for (size_t i = 0; i < p.t[t].size() && now() < end; i++)
        for (int k = 0; k < NARG && now() < end; k++)
          for (int v : {0, p.t[t][i].a[k] % 64, p.t[t][i].a[k] % 1024}) {
            if (p.t[t][i].a[k] <= v)
              continue;
            Prog q = p;
            q.t[t][i].a[k] = v;
            if (still(q, kind)) {
              p = q;
              changed = true;
              break;
            }
          }
  }
  return p;
}

// ===========================================================================
// main
// ===========================================================================
struct Found {
  volatile int have;
  uint64_t run, seed;
};
struct Shared {
  Found f[16];
  rt::Result acc[16];
  uint64_t children[16], runs[16];
  int harness[16];
  char harness_text[16][400];
};

static int replay(const char *path) {
  FILE *f = fopen(path, "r");
  if (!f)
    return 3;
  Prog p;
  std::string prop, kind;
  if (!read_prog(f, p, prop, kind)) {
    fprintf(stderr, "cannot read %s\n", path);
    return 3;
  }
  fclose(f);
  for (const Config &c : configs)
    if (prop == c.id)
      cfg = &c;
  if (!cfg)
    return 3;
  build_table();
  Prog p2 = p;
  Outcome o = run_prog(p, false);
  Outcome o2 = run_prog(p2, false);
  bool det = o.status == o2.status && o.kind == o2.kind && o.text == o2.text &&
             o.hash == o2.hash;
  printf("status %d\nkind %s\ntext %s\ndeterministic %d\n", o.status, o.kind.c_str(),
         o.text.c_str(), (int)det);
  if (!det)
    return 3;
  if (o.status == 2)
    return o.kind == kind ? 1 : 4;
  return o.status == 1 ? 0 : 3;
}

static std::string json(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if ((unsigned char)c < 32) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o;
}

int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int pe = personality(0xffffffff);
    if (pe != -1 && personality((unsigned long)pe | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  std::string prop, file, outdir = ".", stats;
  uint64_t seed = 1, runs = 1000, from = 0;
  double limit = 100;
  int workers = 8;
  bool list = false, verbose = false, one = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property")
      prop = val();
    else if (a == "--seed")
      seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--runs")
      runs = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--from")
      from = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--limit")
      limit = atof(val().c_str());
    else if (a == "--workers")
      workers = atoi(val().c_str());
    else if (a == "--replay")
      file = val();
    else if (a == "--outdir")
      outdir = val();
    else if (a == "--stats")
      stats = val();
    else if (a == "--list")
      list = true;
    else if (a == "--verbose")
      verbose = true;
    else if (a == "--one")
      one = true;
  }
  if (workers > 16)
    workers = 16;
  std::sort(ops().begin(), ops().end(),
            [](const OpDef &a, const OpDef &b) { return a.name < b.name; });
  if (list) {
    for (auto &d : ops())
      printf("%s %x %x %d%s\n", d.name.c_str(), d.fam, d.fl, d.wt,
             d.f[0] && d.f[1] ? "" : " INCOMPLETE");
    return 0;
  }
  if (ops().size() > MAXOPS)
    return 3;
  glob = shmem<Global>(sizeof(Global));
  chan = shmem<Chan>(sizeof(Chan));
  if (!file.empty())
    return replay(file.c_str());
  for (const Config &c : configs)
    if (prop == c.id)
      cfg = &c;
  if (!cfg) {
    fprintf(stderr, "unknown property\n");
    return 3;
  }
  build_table();
  if (pick_table.empty())
    return 3;
  auto run_seed = [&](uint64_t r) { return rt::mix2(rt::mix2(seed, r), 0xE7); };
  if (one) {
    Prog p = gen(run_seed(from));
    Outcome o = run_prog(p, false);
    write_prog(stdout, p);
    printf("status %d kind %s text %s\n", o.status, o.kind.c_str(), o.text.c_str());
    return 0;
  }
  double t0 = now();
  Shared *sh = shmem<Shared>(sizeof(Shared));
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      chan = shmem<Chan>(sizeof(Chan));
      for (uint64_t r = from + (uint64_t)w; r < from + runs; r += (uint64_t)workers) {
        if (now() - t0 > limit)
          break;
        bool stop = false; // somebody found a violation in an earlier run
        for (int x = 0; x < workers; x++)
          stop = stop || (sh->f[x].have && sh->f[x].run < r);
        if (stop)
          break;
        Prog p = gen(run_seed(r));
        Outcome o = run_prog(p, true);
        sh->runs[w]++;
        // the same seed has to give the same execution
        if (o.status == 1 && r % 50 == 0) {
          Prog q = gen(run_seed(r));
          Outcome o2 = run_prog(q, false);
          if (o2.status != o.status || o2.hash != o.hash) {
            sh->harness[w] = 1;
            snprintf(sh->harness_text[w], 400, "run %llu is not deterministic (%s)",
                     (unsigned long long)r, o2.text.c_str());
            break;
          }
        }
        if (o.status == 3) {
          sh->harness[w] = 1;
          snprintf(sh->harness_text[w], 400, "run %llu: %s %s", (unsigned long long)r,
                   o.kind.c_str(), o.text.c_str());
          break;
        }
        if (o.status == 2) {
          if (verbose)
            printf("run %llu: %s: %s\n", (unsigned long long)r, o.kind.c_str(),
                   o.text.c_str());
          sh->f[w].run = r;
          sh->f[w].seed = run_seed(r);
          sh->f[w].have = 1;
          break;
        }
      }
      sh->acc[w] = acc;
      sh->children[w] = n_children;
      _exit(0);
    }
    pids.push_back(pid);
  }
  for (pid_t p : pids)
    waitpid(p, nullptr, 0);
  double wall = now() - t0;
  uint64_t nruns = 0, nchild = 0;
  for (int w = 0; w < workers; w++) {
    accumulate(sh->acc[w]);
    nruns += sh->runs[w];
    nchild += sh->children[w];
  }
  int best = -1;
  for (int w = 0; w < workers; w++)
    if (sh->f[w].have && (best < 0 || sh->f[w].run < sh->f[best].run))
      best = w;
  int rc = 0;
  std::string vkind, vtext, vpath;
  uint64_t vseed = 0, vrun = 0;
  if (best >= 0) {
    vrun = sh->f[best].run;
    vseed = sh->f[best].seed;
    Prog p = gen(vseed);
    Outcome o = run_prog(p, false);
    Prog p2 = gen(vseed);
    Outcome o2 = run_prog(p2, false);
    if (o.status != 2 || o2.status != 2 || o.kind != o2.kind || o.text != o2.text) {
      printf("ERROR run %llu does not reproduce: %d %s / %d %s\n",
             (unsigned long long)vrun, o.status, o.text.c_str(), o2.status,
             o2.text.c_str());
      rc = 3;
    } else {
      Prog m = minimise(p, o.kind, 40);
      Outcome om = run_prog(m, false);
      vkind = om.kind;
      vtext = om.text;
      char b[600];
      snprintf(b, sizeof b, "%s/%s-%llu.replay", outdir.c_str(), cfg->id,
               (unsigned long long)vrun);
      vpath = b;
      FILE *f = fopen(b, "w");
      if (!f) {
        perror(b);
        return 3;
      }
      fprintf(f, "property %s\nkind %s\n# seed %llu run %llu generated from %llu\n# %s\n",
              cfg->id, om.kind.c_str(), (unsigned long long)seed,
              (unsigned long long)vrun, (unsigned long long)vseed, om.text.c_str());
      write_prog(f, m);
      fclose(f);
      rc = 1;
    }
  }
  std::string herr;
  for (int w = 0; w < workers; w++)
    if (sh->harness[w] && best < 0) {
      printf("ERROR %s\n", sh->harness_text[w]);
      herr = sh->harness_text[w];
      rc = 3;
    }
  if (!stats.empty()) {
    FILE *f = fopen(stats.c_str(), "w");
    fprintf(f, "{\"runs\": %llu, \"children\": %llu, \"wall\": %.3f,\n",
            (unsigned long long)nruns, (unsigned long long)nchild, wall);
    fprintf(f,
            "\"steps\": %llu, \"allocs\": %llu, \"ops\": %llu, \"op_ok\": %llu, "
            "\"op_err\": %llu, \"op_skip\": %llu,\n",
            (unsigned long long)acc.steps, (unsigned long long)acc.allocs,
            (unsigned long long)acc.ops, (unsigned long long)acc.op_ok,
            (unsigned long long)acc.op_err, (unsigned long long)acc.op_skip);
    fprintf(f,
            "\"f_alloc\": %llu, \"f_burst\": %llu, \"f_stream\": %llu, \"f_switch\": "
            "%llu, \"f_abandon\": %llu, \"sweeps\": %llu,\n",
            (unsigned long long)acc.f_alloc, (unsigned long long)acc.f_burst,
            (unsigned long long)acc.f_stream, (unsigned long long)acc.f_switch,
            (unsigned long long)acc.f_abandon, (unsigned long long)acc.sweeps);
    fprintf(f, "\"states\": %.0f, \"interleavings\": %.0f,\n", countbits(glob->states),
            countbits(glob->inter));
    fprintf(f, "\"opstats\": {");
    bool first = true;
    for (size_t i = 0; i < ops().size(); i++)
      if (glob->op_ok[i] + glob->op_err[i] + glob->op_skip[i]) {
        fprintf(f, "%s\"%s\": [%llu, %llu, %llu, %llu]", first ? "" : ", ",
                ops()[i].name.c_str(), (unsigned long long)glob->op_ok[i],
                (unsigned long long)glob->op_err[i], (unsigned long long)glob->op_skip[i],
                (unsigned long long)glob->op_swept[i]);
        first = false;
      }
    fprintf(f, "},\n\"rc\": %d, \"kind\": \"%s\", \"text\": \"%s\", \"replay\": \"%s\", "
               "\"vrun\": %llu, \"error\": \"%s\"}\n",
            rc, json(vkind).c_str(), json(vtext).c_str(), json(vpath).c_str(),
            (unsigned long long)vrun, json(herr).c_str());
    fclose(f);
  }
  if (rc == 1)
    printf("FOUND %s: %s\nreplay %s\n", vkind.c_str(), vtext.c_str(), vpath.c_str());
  printf("runs %llu wall %.1f rc %d\n", (unsigned long long)nruns, wall, rc);
  return rc;
}
