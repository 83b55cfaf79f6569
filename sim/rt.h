// Runtime of the simulator: the only source of memory, thread switches, stream
// behaviour and faults which the code under test sees.
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {

// ---- shared result of one run (lives in a shared mapping) -----------------
struct Result {
  volatile int status; // 0 not finished, 1 ok, 2 violation, 3 harness error
  int op;              // index of the op which was executed
  int thread;
  char kind[48];
  char text[1600];
  uint64_t hash; // hash of the complete log of the run
  uint64_t steps;
  uint64_t allocs;
  uint64_t ops, op_ok, op_err, op_skip;
  uint64_t f_alloc, f_burst, f_stream, f_switch, f_extwrite, f_abandon, f_stall;
  uint64_t sweeps;      // ops for which each allocation was failed once
  uint64_t ilhash;      // hash of the thread switches and their positions
  uint64_t nalloc_points;
  int curop;
  char curname[40];
};
extern Result *res;

[[noreturn]] void violation(const char *kind, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...)
    __attribute__((format(printf, 1, 2)));

// ---- code under test is only instrumented/faulted inside a Scope ----------
extern __thread int in_sut;
struct Scope {
  Scope() { in_sut++; }
  ~Scope() { in_sut--; }
};
// accesses are checked, but no thread switch and no fault happens
extern __thread int quiet;
struct Quiet {
  Quiet() {
    quiet++;
    in_sut++;
  }
  ~Quiet() {
    quiet--;
    in_sut--;
  }
};
struct Outside { // harness code called from the code under test
  int old;
  Outside() : old(in_sut) { in_sut = 0; }
  ~Outside() { in_sut = old; }
};

// ---- memory ---------------------------------------------------------------
enum ArenaMode { A_BUMP = 0, A_LIFO = 1, A_FIFO = 2, A_MIX = 3, A_NMODES = 4 };
void arena_map();                           // once per process
void arena_config(int mode, uint64_t seed); // placement and garbage
void *ext_alloc(std::size_t n);             // memory which the caller owns
void ext_free(void *p);
// k > 0: fail the k-th allocation; burst: also all which follow
void set_fail(int k, bool burst);
bool fail_fired();
int allocs_in_op(); // number of allocations since set_fail
std::size_t live_blocks();
std::size_t live_bytes();
void live_report(char *buf, std::size_t n); // describes the first live block
void scribble_stack(uint64_t seed);

// ---- current position for reports -----------------------------------------
struct Pos {
  int op;
  const char *name;
  int fail;
};
extern __thread Pos pos;
extern __thread int tid;

// ---- threads --------------------------------------------------------------
struct Switch { // thread `from` stops at its own step and `to` continues
  int from;
  int to;
  uint64_t step;
};
void sched_run(int nthreads, void *(*fn)(void *), void **args, const Switch *plan,
               int nplan);
bool sched_active();
uint64_t local_steps(int t);
// addresses which several threads use and at least one of them writes
struct Conflict {
  int tid;
  uint64_t step;
};
void conflicts_record(bool on);
int conflicts_get(Conflict *c, int max);
void yield_blocked();
extern uint64_t steps_total;
extern uint64_t step_limit;

// ---- streams --------------------------------------------------------------
enum StreamMode { S_OK = 0, S_FAIL = 1, S_SHORT = 2, S_THROW = 3 };
void streams_install();
void streams_mode(int mode, int budget); // both streams
const char *captured_out(std::size_t *n);
const char *captured_err(std::size_t *n);
void captured_clear();
bool stream_fault_fired();

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t mix2(uint64_t a, uint64_t b) { return mix(a ^ mix(b)); }

} // namespace rt
