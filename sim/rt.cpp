#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <iostream>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <streambuf>
#include <sys/mman.h>
#include <unistd.h>

namespace rt {

Result *res = nullptr;
__thread int in_sut = 0;
__thread Pos pos = {-1, "", 0};
__thread int tid = 0;
__thread int quiet = 0;
uint64_t steps_total = 0;
uint64_t step_limit = 100000000;

void violation(const char *kind, const char *fmt, ...) {
  in_sut = 0;
  va_list ap;
  va_start(ap, fmt);
  char b[1200];
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (res) {
    snprintf(res->kind, sizeof res->kind, "%s", kind);
    char f[64] = "";
    if (pos.fail)
      snprintf(f, sizeof f, " with allocation %d failing", pos.fail);
    snprintf(res->text, sizeof res->text, "%s (thread %d, op %d %s%s)", b, tid,
             pos.op, pos.name, f);
    res->op = pos.op;
    res->thread = tid;
    res->steps = steps_total;
    res->status = 2;
  }
  _exit(2);
}
void harness_error(const char *fmt, ...) {
  in_sut = 0;
  va_list ap;
  va_start(ap, fmt);
  if (res) {
    vsnprintf(res->text, sizeof res->text, fmt, ap);
    snprintf(res->kind, sizeof res->kind, "harness");
    res->status = 3;
  } else {
    vfprintf(stderr, fmt, ap);
  }
  va_end(ap);
  _exit(3);
}

// ===========================================================================
// arena
// ===========================================================================
static char *const BASE = (char *)0x200000000000ull;
static const std::size_t ASIZE = 64u << 20;
static unsigned char *shadow = nullptr; // one byte per byte: 0 not accessible
static int *owner = nullptr;            // block id per 16 bytes (start only)
enum BK { K_SCALAR = 1, K_ARRAY = 2, K_EXT = 3 };
struct Block {
  char *p;
  std::size_t n;
  std::size_t slot; // bytes of the slot including redzones
  char *slotp;
  int kind;
  int live;
  int op;
  const char *opname;
};
static Block *blocks = nullptr;
static int nblocks = 0;
static const int MAXB = 1 << 20;
static std::size_t top = 0;
static int amode = 0;
static uint64_t aseed = 0, acount = 0;
static std::size_t nlive = 0, blive = 0;
// freed slots per size class (for reuse)
static const int NCLS = 64;
static int *freelist[NCLS];
static int nfree[NCLS], cfree[NCLS];

static int cls(std::size_t slot) {
  int c = 0;
  while (((std::size_t)64 << (c / 2)) + ((c & 1) ? ((std::size_t)32 << (c / 2)) : 0) <
         slot)
    c++;
  return c < NCLS ? c : NCLS - 1;
}
static std::size_t clssize(int c) {
  return ((std::size_t)64 << (c / 2)) + ((c & 1) ? ((std::size_t)32 << (c / 2)) : 0);
}

void arena_map() {
  void *m = mmap(BASE, ASIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (m != BASE) {
    fprintf(stderr, "arena: cannot map\n");
    _exit(3);
  }
  shadow = (unsigned char *)mmap(nullptr, ASIZE, PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  owner = (int *)mmap(nullptr, ASIZE / 16 * sizeof(int), PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  blocks = (Block *)mmap(nullptr, sizeof(Block) * MAXB, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void arena_config(int mode, uint64_t seed) {
  amode = mode;
  aseed = seed;
}
static void garbage(char *p, std::size_t n, uint64_t s) {
  if (aseed % 5 == 0) { // all bytes zero is also a possible heap content
    memset(p, 0, n);
    return;
  }
  std::size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    // plausible numbers, so that garbage is not recognised as NaN
    double d = (double)(int64_t)(mix2(s, i) % 4096) * 0.25 - 300.0;
    uint64_t u = mix2(s + 7, i);
    if (u % 3 == 0)
      memcpy(p + i, &u, 8);
    else
      memcpy(p + i, &d, 8);
  }
  for (; i < n; i++)
    p[i] = (char)mix2(s, i);
}

static int pick_free(int c) {
  if (!nfree[c] || amode == A_BUMP)
    return -1;
  int i = -1;
  if (amode == A_LIFO)
    i = nfree[c] - 1;
  else if (amode == A_FIFO) {
    if (nfree[c] < 6)
      return -1;
    i = 0;
  } else {
    uint64_t r = mix2(aseed ^ 0x55, acount);
    if (r % 3 == 0)
      return -1;
    i = (int)((r >> 8) % (uint64_t)nfree[c]);
  }
  int id = freelist[c][i];
  for (int j = i; j + 1 < nfree[c]; j++)
    freelist[c][j] = freelist[c][j + 1];
  nfree[c]--;
  return id;
}

static void *arena_new(std::size_t n, int kind) {
  acount++;
  if (n > (8u << 20))
    return nullptr;
  std::size_t need = n + 64 + ((aseed >> 9) % 3) * 16;
  int c = cls(need);
  std::size_t slot = clssize(c);
  if (slot < need)
    return nullptr;
  char *sp;
  int fid = pick_free(c);
  if (fid >= 0) {
    sp = blocks[fid].slotp;
  } else {
    std::size_t gap = amode == A_MIX ? (mix2(aseed, acount) % 4) * 64 : 0;
    if (top + gap + slot > ASIZE)
      return nullptr;
    top += gap;
    sp = BASE + top;
    top += slot;
  }
  if (nblocks + 1 >= MAXB)
    return nullptr;
  char *p = sp + 32;
  int id = ++nblocks;
  Block &b = blocks[id];
  b.p = p;
  b.n = n;
  b.slot = slot;
  b.slotp = sp;
  b.kind = kind;
  b.live = 1;
  b.op = pos.op;
  b.opname = pos.name;
  owner[(p - BASE) / 16] = id;
  garbage(p, n, mix2(aseed, acount));
  memset(shadow + (p - BASE), 1, n);
  if (kind != K_EXT) {
    nlive++;
    blive += n;
  }
  return p;
}
static bool in_arena(const void *p) {
  return (const char *)p >= BASE && (const char *)p < BASE + ASIZE;
}
static const char *kname(int k) {
  return k == K_SCALAR ? "new" : k == K_ARRAY ? "new[]" : "memory owned by the caller";
}
static void arena_delete(void *vp, int kind) {
  char *p = (char *)vp;
  int id = ((p - BASE) % 16 == 0) ? owner[(p - BASE) / 16] : 0;
  if (id == 0 || blocks[id].p != p)
    violation("bad-free", "release of a pointer which was never allocated");
  Block &b = blocks[id];
  if (!b.live)
    violation("double-free", "memory of %zu bytes (allocated by op %d %s) is released twice",
              b.n, b.op, b.opname);
  if (b.kind != kind)
    violation(b.kind == K_EXT ? "foreign-free" : "mismatched-free",
              "memory allocated with %s is released with %s", kname(b.kind),
              kind == K_SCALAR ? "delete" : "delete[]");
  b.live = 0;
  memset(shadow + (p - BASE), 0, b.n);
  garbage(p, b.n, mix2(aseed ^ 0xf4ee, acount));
  if (kind != K_EXT) {
    nlive--;
    blive -= b.n;
  }
  int c = cls(b.slot);
  if (nfree[c] == cfree[c]) {
    cfree[c] = cfree[c] ? cfree[c] * 2 : 64;
    freelist[c] = (int *)realloc(freelist[c], sizeof(int) * cfree[c]);
  }
  freelist[c][nfree[c]++] = id;
}

void *ext_alloc(std::size_t n) {
  Outside o;
  void *p = arena_new(n, K_EXT);
  if (!p)
    harness_error("external memory exhausted");
  return p;
}
void ext_free(void *p) {
  Outside o;
  arena_delete(p, K_EXT);
}
std::size_t live_blocks() { return nlive; }
std::size_t live_bytes() { return blive; }
void live_report(char *buf, std::size_t n) {
  buf[0] = 0;
  for (int i = 1; i <= nblocks; i++)
    if (blocks[i].live && blocks[i].kind != K_EXT) {
      snprintf(buf, n, "first one: %zu bytes allocated by op %d %s", blocks[i].n,
               blocks[i].op, blocks[i].opname);
      return;
    }
}

static __thread int fail_at = 0;
static __thread bool fail_burst = false, fail_done = false;
static __thread int op_allocs = 0;
void set_fail(int k, bool burst) {
  fail_at = k;
  fail_burst = burst;
  fail_done = false;
  op_allocs = 0;
}
bool fail_fired() { return fail_done; }
int allocs_in_op() { return op_allocs; }

void scribble_stack(uint64_t seed) {
  char b[6000];
  garbage(b, sizeof b, seed);
  asm volatile("" : : "r"(b) : "memory");
}

// ===========================================================================
// scheduler: one thread runs at a time, the plan decides who
// ===========================================================================
struct Th {
  sem_t sem;
  bool started, done, blocked;
  char *lo, *hi;
};
static Th th[8];
static int nth = 0;
static volatile int cur = 0;
static bool active = false;
struct Plan {
  Switch s[256];
  int n, i;
};
static Plan plans[8];
static uint64_t lsteps[8];
static sem_t main_sem;
static int blocked_spins = 0;
static uint64_t last_switch_step = 0;

bool sched_active() { return active; }
uint64_t local_steps(int t) { return lsteps[t]; }
static void switch_to(int t) {
  int me = tid;
  if (t == me)
    return;
  res->ilhash = mix2(res->ilhash, mix2((uint64_t)t, mix2((uint64_t)pos.op + 1, lsteps[me])));
  last_switch_step = steps_total;
  cur = t;
  sem_post(&th[t].sem);
  while (sem_wait(&th[me].sem) != 0) {
  }
}
static int next_runnable(int from) {
  for (int k = 1; k <= nth; k++) {
    int t = (from + k) % nth;
    if (!th[t].done && t != from)
      return t;
  }
  return -1;
}
static void limit() {
  violation("no-progress", "no progress within %llu steps",
            (unsigned long long)step_limit);
}
static inline void step() {
  if (++steps_total > step_limit)
    limit();
  if (!active)
    return;
  uint64_t l = ++lsteps[tid];
  Plan &p = plans[tid];
  if (p.i < p.n && l >= p.s[p.i].step) {
    int to = p.s[p.i].to % nth;
    p.i++;
    if (th[to].done || to == tid)
      to = next_runnable(tid);
    if (to >= 0 && to != tid) {
      res->f_switch++;
      switch_to(to);
    }
  } else if (steps_total - last_switch_step > 2000000) {
    int to = next_runnable(tid);
    last_switch_step = steps_total;
    if (to >= 0)
      switch_to(to);
  }
}
void yield_blocked() {
  steps_total++;
  if (steps_total > step_limit)
    violation("no-progress", "no progress within %llu steps",
              (unsigned long long)step_limit);
  if (!active)
    violation("deadlock", "a lock which is never released is waited for");
  if (++blocked_spins > 10000)
    violation("deadlock", "all threads wait for each other");
  int to = next_runnable(tid);
  if (to < 0)
    violation("deadlock", "a lock which is never released is waited for");
  switch_to(to);
}
struct Start {
  void *(*fn)(void *);
  void *arg;
  int id;
};
static void *tramp(void *v) {
  Start *s = (Start *)v;
  tid = s->id;
  while (sem_wait(&th[s->id].sem) != 0) {
  }
  s->fn(s->arg);
  in_sut = 0;
  th[s->id].done = true;
  blocked_spins = 0;
  int to = next_runnable(s->id);
  if (to >= 0) {
    last_switch_step = steps_total;
    cur = to;
    sem_post(&th[to].sem);
  } else {
    sem_post(&main_sem);
  }
  return nullptr;
}
void sched_run(int n, void *(*fn)(void *), void **args, const Switch *plan, int nplan) {
  pthread_t t[8];
  nth = n;
  for (int i = 0; i < 8; i++) {
    plans[i].n = plans[i].i = 0;
    lsteps[i] = 0;
  }
  for (int i = 0; i < nplan; i++) {
    Plan &p = plans[plan[i].from % n];
    if (p.n < 256)
      p.s[p.n++] = plan[i];
  }
  for (int i = 0; i < n; i++)
    for (int a = 1; a < plans[i].n; a++)
      for (int b = a; b > 0 && plans[i].s[b].step < plans[i].s[b - 1].step; b--) {
        Switch x = plans[i].s[b];
        plans[i].s[b] = plans[i].s[b - 1];
        plans[i].s[b - 1] = x;
      }
  static Start st[8];
  sem_init(&main_sem, 0, 0);
  for (int i = 0; i < n; i++) {
    sem_init(&th[i].sem, 0, 0);
    th[i].done = false;
    st[i] = {fn, args[i], i};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    if (pthread_create(&t[i], &at, tramp, &st[i]) != 0)
      harness_error("cannot create a thread");
  }
  active = true;
  cur = 0;
  last_switch_step = steps_total;
  sem_post(&th[0].sem);
  while (sem_wait(&main_sem) != 0) {
  }
  for (int i = 0; i < n; i++)
    pthread_join(t[i], nullptr);
  active = false;
  tid = 0;
}

// ===========================================================================
// memory accesses of the code under test
// ===========================================================================
static inline void check(const void *a, std::size_t n, bool write) {
  if (__builtin_expect(in_arena(a), 0)) {
    std::size_t off = (const char *)a - BASE;
    for (std::size_t i = 0; i < n; i++)
      if (!shadow[off + i]) {
        // find a block close to the address
        char near_[160] = "";
        for (std::size_t k = 0; k < 4096; k += 16) {
          if (off < k)
            break;
          int id = owner[(off - k) / 16];
          if (id) {
            snprintf(near_, sizeof near_, ", %s block of %zu bytes at offset %zu",
                     blocks[id].live ? (blocks[id].kind == K_EXT ? "borrowed" : "live")
                                     : "released",
                     blocks[id].n, (std::size_t)(BASE + off - blocks[id].p));
            break;
          }
        }
        violation(write ? "bad-write" : "bad-read", "invalid %s of %zu bytes%s",
                  write ? "write" : "read", n, near_);
      }
  }
}
// ---- addresses used by several threads -------------------------------------
extern "C" char __data_start, _end;
struct Gran {
  uint64_t key;
  unsigned readers, writers;
  int nst;
  struct {
    int tid;
    uint64_t step;
  } st[6];
};
static const int NG = 1 << 15;
static Gran *gran = nullptr;
static bool recording = false;
void conflicts_record(bool on) {
  if (on && !gran)
    gran = (Gran *)mmap(nullptr, sizeof(Gran) * NG, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  recording = on;
}
static void record(const void *a, bool write) {
  bool g = (const char *)a >= &__data_start && (const char *)a < &_end;
  if (!g && in_arena(a)) { // objects which exist before the threads start
    std::size_t off = (const char *)a - BASE;
    for (std::size_t k = 0; k <= 4096 && k <= off; k += 16) {
      int id = owner[(off - k) / 16];
      if (id) {
        g = blocks[id].live && blocks[id].op < 0;
        break;
      }
    }
  }
  if (!g)
    return;
  uint64_t key = (uint64_t)(uintptr_t)a >> 3;
  unsigned h = (unsigned)(mix(key) % NG);
  for (int n = 0; n < 64; n++, h = (h + 1) % NG) {
    Gran &x = gran[h];
    if (x.key == 0)
      x.key = key;
    if (x.key != key)
      continue;
    (write ? x.writers : x.readers) |= 1u << tid;
    bool have = false;
    int mine = 0;
    for (int i = 0; i < x.nst; i++) {
      if (x.st[i].tid == tid)
        mine++;
      have = have || (x.st[i].tid == tid && x.st[i].step == lsteps[tid]);
    }
    if (!have && mine < 3 && x.nst < 6)
      x.st[x.nst++] = {tid, lsteps[tid]};
    return;
  }
}
int conflicts_get(Conflict *c, int max) {
  int n = 0;
  if (!gran)
    return 0;
  for (int i = 0; i < NG; i++) {
    Gran &x = gran[i];
    unsigned all = x.readers | x.writers;
    if (x.key && x.writers && (all & (all - 1)))
      for (int k = 0; k < x.nst && n < max; k++)
        c[n++] = {x.st[k].tid, x.st[k].step};
  }
  return n;
}

static inline void access(const void *a, std::size_t n, bool write) {
  if (!in_sut)
    return;
  check(a, n, write);
  if (quiet)
    return;
  if (recording && active)
    record(a, write);
  step();
}

// ===========================================================================
// streams
// ===========================================================================
struct CapBuf : std::streambuf {
  char *buf = nullptr;
  std::size_t n = 0, cap = 0;
  int mode = 0;
  int budget = 0;
  bool fired = false;
  void add(const char *s, std::size_t k) {
    if (n + k + 1 > cap) {
      cap = (n + k + 1) * 2 + 256;
      buf = (char *)realloc(buf, cap);
    }
    memcpy(buf + n, s, k);
    n += k;
    buf[n] = 0;
  }
  int overflow(int c) override {
    if (c == traits_type::eof())
      return 0;
    if (mode == S_FAIL || (mode == S_SHORT && budget <= 0)) {
      fired = true;
      return traits_type::eof();
    }
    if (mode == S_SHORT)
      budget--;
    char ch = (char)c;
    add(&ch, 1);
    return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize k) override {
    if (mode == S_FAIL) {
      fired = true;
      return 0;
    }
    if (mode == S_SHORT && k > budget) {
      std::streamsize w = budget > 0 ? budget : 0;
      budget = 0;
      add(s, (std::size_t)w);
      fired = true;
      return w;
    }
    if (mode == S_SHORT)
      budget -= (int)k;
    add(s, (std::size_t)k);
    return k;
  }
  int sync() override {
    if (mode == S_FAIL) {
      fired = true;
      return -1;
    }
    return 0;
  }
};
static CapBuf *cbo = nullptr, *cbe = nullptr;
void streams_install() {
  cbo = new CapBuf;
  cbe = new CapBuf;
  std::cout.rdbuf(cbo);
  std::cerr.rdbuf(cbe);
}
void streams_mode(int mode, int budget) {
  std::cout.exceptions(std::ios::goodbit);
  std::cerr.exceptions(std::ios::goodbit);
  std::cout.clear();
  std::cerr.clear();
  cbo->mode = cbe->mode = mode == S_THROW ? S_FAIL : mode;
  cbo->budget = cbe->budget = budget;
  cbo->fired = cbe->fired = false;
  if (mode == S_THROW) {
    std::cout.exceptions(std::ios::badbit);
    std::cerr.exceptions(std::ios::badbit);
  }
}
bool stream_fault_fired() { return cbo->fired || cbe->fired; }
const char *captured_out(std::size_t *n) {
  if (n)
    *n = cbo->n;
  return cbo->buf ? cbo->buf : "";
}
const char *captured_err(std::size_t *n) {
  if (n)
    *n = cbe->n;
  return cbe->buf ? cbe->buf : "";
}
void captured_clear() {
  cbo->n = cbe->n = 0;
  if (cbo->buf)
    cbo->buf[0] = 0;
  if (cbe->buf)
    cbe->buf[0] = 0;
}

static void *sut_alloc(std::size_t n, int kind, bool nothrow) {
  if (!in_sut) {
    void *p = malloc(n ? n : 1);
    if (!p)
      _exit(3);
    return p;
  }
  if (!quiet)
    step();
  int old = in_sut;
  in_sut = 0;
  op_allocs++;
  if (res)
    res->allocs++;
  if (fail_at > 0 && (op_allocs == fail_at || (fail_burst && op_allocs > fail_at))) {
    fail_done = true;
    in_sut = old;
    if (nothrow)
      return nullptr;
    throw std::bad_alloc();
  }
  void *p = arena_new(n, kind);
  in_sut = old;
  if (!p) {
    if (nothrow)
      return nullptr;
    throw std::bad_alloc();
  }
  return p;
}
static void sut_free(void *p, int kind) {
  if (!p)
    return;
  if (!in_arena(p)) {
    free(p);
    return;
  }
  if (in_sut && !quiet)
    step();
  int old = in_sut;
  in_sut = 0;
  arena_delete(p, kind);
  in_sut = old;
}
} // namespace rt

using namespace rt;
void *operator new(std::size_t n) { return sut_alloc(n, K_SCALAR, false); }
void *operator new[](std::size_t n) { return sut_alloc(n, K_ARRAY, false); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept {
  return sut_alloc(n, K_SCALAR, true);
}
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept {
  return sut_alloc(n, K_ARRAY, true);
}
void operator delete(void *p) noexcept { sut_free(p, K_SCALAR); }
void operator delete[](void *p) noexcept { sut_free(p, K_ARRAY); }
void operator delete(void *p, std::size_t) noexcept { sut_free(p, K_SCALAR); }
void operator delete[](void *p, std::size_t) noexcept { sut_free(p, K_ARRAY); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sut_free(p, K_SCALAR); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sut_free(p, K_ARRAY); }

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read1(void *a) { access(a, 1, false); }
void __tsan_read2(void *a) { access(a, 2, false); }
void __tsan_read4(void *a) { access(a, 4, false); }
void __tsan_read8(void *a) { access(a, 8, false); }
void __tsan_read16(void *a) { access(a, 16, false); }
void __tsan_write1(void *a) { access(a, 1, true); }
void __tsan_write2(void *a) { access(a, 2, true); }
void __tsan_write4(void *a) { access(a, 4, true); }
void __tsan_write8(void *a) { access(a, 8, true); }
void __tsan_write16(void *a) { access(a, 16, true); }
void __tsan_unaligned_read2(void *a) { access(a, 2, false); }
void __tsan_unaligned_read4(void *a) { access(a, 4, false); }
void __tsan_unaligned_read8(void *a) { access(a, 8, false); }
void __tsan_unaligned_read16(void *a) { access(a, 16, false); }
void __tsan_unaligned_write2(void *a) { access(a, 2, true); }
void __tsan_unaligned_write4(void *a) { access(a, 4, true); }
void __tsan_unaligned_write8(void *a) { access(a, 8, true); }
void __tsan_unaligned_write16(void *a) { access(a, 16, true); }
void __tsan_volatile_read1(void *a) { access(a, 1, false); }
void __tsan_volatile_read2(void *a) { access(a, 2, false); }
void __tsan_volatile_read4(void *a) { access(a, 4, false); }
void __tsan_volatile_read8(void *a) { access(a, 8, false); }
void __tsan_volatile_write1(void *a) { access(a, 1, true); }
void __tsan_volatile_write2(void *a) { access(a, 2, true); }
void __tsan_volatile_write4(void *a) { access(a, 4, true); }
void __tsan_volatile_write8(void *a) { access(a, 8, true); }
void __tsan_vptr_update(void **a, void *) { access(a, 8, true); }
void __tsan_vptr_read(void **a) { access(a, 8, false); }
void __tsan_read_range(void *a, unsigned long n) { access(a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n, true); }
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
#define ATOMICS(B, T)                                                              \
  T __tsan_atomic##B##_load(const volatile T *a, int) {                            \
    access((const void *)a, sizeof(T), false);                                     \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                   \
  }                                                                                \
  void __tsan_atomic##B##_store(volatile T *a, T v, int) {                         \
    access((const void *)a, sizeof(T), true);                                      \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                      \
  }                                                                                \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int) {                         \
    access((const void *)a, sizeof(T), true);                                      \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                            \
  }                                                                                \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) {                        \
    access((const void *)a, sizeof(T), true);                                      \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                             \
  }                                                                                \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) {                        \
    access((const void *)a, sizeof(T), true);                                      \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                             \
  }                                                                                \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) {                        \
    access((const void *)a, sizeof(T), true);                                      \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                             \
  }                                                                                \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) {                         \
    access((const void *)a, sizeof(T), true);                                      \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                              \
  }                                                                                \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) {                        \
    access((const void *)a, sizeof(T), true);                                      \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                             \
  }                                                                                \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int,    \
                                                 int) {                            \
    access((const void *)a, sizeof(T), true);                                      \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,           \
                                       __ATOMIC_SEQ_CST);                          \
  }                                                                                \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int,      \
                                               int) {                              \
    access((const void *)a, sizeof(T), true);                                      \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,           \
                                       __ATOMIC_SEQ_CST);                          \
  }                                                                                \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) {   \
    access((const void *)a, sizeof(T), true);                                      \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST,                 \
                                __ATOMIC_SEQ_CST);                                 \
    return c;                                                                      \
  }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (in_sut && n) {
    access(s, n, false);
    access(d, n, true);
  }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (in_sut && n) {
    access(s, n, false);
    access(d, n, true);
  }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (in_sut && n)
    access(d, n, true);
  return __real_memset(d, c, n);
}

int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!in_sut)
    return __real_pthread_mutex_lock(m);
  step();
  for (;;) {
    int r = pthread_mutex_trylock(m);
    if (r == 0) {
      blocked_spins = 0;
      return 0;
    }
    if (r != EBUSY)
      return r;
    yield_blocked();
  }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  int r = __real_pthread_mutex_unlock(m);
  if (in_sut)
    step();
  return r;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  // 0 not started, 1 in progress, 2 done
  volatile int *s = (volatile int *)o;
  for (;;) {
    if (*s == 2)
      return 0;
    if (*s == 0) {
      *s = 1;
      f();
      *s = 2;
      return 0;
    }
    yield_blocked();
  }
}
int __wrap___cxa_guard_acquire(uint64_t *g) {
  volatile unsigned char *b = (volatile unsigned char *)g;
  for (;;) {
    if (b[0])
      return 0;
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (!in_sut)
      _exit(3);
    yield_blocked();
  }
}
void __wrap___cxa_guard_release(uint64_t *g) {
  volatile unsigned char *b = (volatile unsigned char *)g;
  b[0] = 1;
  b[1] = 0;
  if (in_sut)
    step();
}
void __wrap___cxa_guard_abort(uint64_t *g) {
  volatile unsigned char *b = (volatile unsigned char *)g;
  b[1] = 0;
}
} // extern "C"
