// Deterministic simulator: interface used by the harnesses.
// The harness and the bss-util code it pulls in are compiled with every memory access routed to
// the simulator (see rt.cpp); everything declared here runs un-instrumented inside rt.cpp.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <stddef.h>
#include <stdint.h>
#include <vector>

namespace sim {
  enum FaultKind : int {
    F_ALLOC_FAIL = 0,   // malloc family returns 0
    F_EINTR,            // blocking call interrupted
    F_SPURIOUS_CAS,     // weak compare-exchange fails spuriously
    F_SPURIOUS_WAKE,    // condition variable wakes without a signal
    F_CLOCK_FWD,        // clock jumps forward
    F_CLOCK_BACK,       // clock jumps backward
    F_OPEN_ERR,         // fopen/open fails
    F_READ_ERR,         // read fails (EIO / badbit / exception)
    F_SHORT_READ,       // read returns fewer bytes than asked for
    F_TRUNC,            // stored bytes cut off: premature EOF
    F_WRITE_ERR,        // write fails (EIO/ENOSPC)
    F_SHORT_WRITE,      // write stores only a prefix
    F_CLOSE_ERR,        // close/flush reports an error
    F_FLIP,             // a stored bit is flipped
    F_STALL,            // a thread is frozen for a long time (scheduler)
    F_PREEMPT,          // a thread is preempted between two memory accesses (scheduler)
    F_THREAD_FAIL,      // pthread_create fails
    F_EXCEPTION,        // callback throws
    F_CANCEL,           // operation cancelled/removed while pending
    F_CRASH,            // process crash: only durable state survives
    F_RNG,              // the random source gives an extreme value or is stuck
    F_SEM_FULL,         // a semaphore refuses a post (EOVERFLOW)
    F_N
  };

  struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next();
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
  };

  struct Op { int32_t actor, kind; int64_t a, b, c, d; };

  struct Plan {
    int64_t p[32];
    std::vector<Op> ops;
    Op& add(int actor, int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0)
    { ops.push_back(Op{ actor, kind, a, b, c, d }); return ops.back(); }
  };

  // --- recorded decisions -----------------------------------------------------------------
  // Does a fault of this kind fire now? Search: coin num/den when the kind is enabled for the run.
  // Replay: exactly where it was recorded. Never fires once the run is in its fair (fault-free) phase.
  bool fault(FaultKind k, unsigned num, unsigned den);
  // Value chosen with the fault (recorded too).
  int64_t faultval(FaultKind k, int64_t lo, int64_t hi);
  void note_fault(FaultKind k);                    // count a fault the plan itself carries
  void enable(FaultKind k, bool on = true);        // harness: allow this kind in this run (off by default)

  // --- violations, history, reach ---------------------------------------------------------
  [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
  uint64_t seq();                                   // next global event number
  void mix(uint64_t v);                             // fold a value into the run's event hash
  void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // trace (replay only)
  void probe(int i, uint64_t n = 1);                // "rare condition was hit"

  // --- scheduling -------------------------------------------------------------------------
  struct NoPreempt { NoPreempt(); ~NoPreempt(); };  // oracle sections
  void yield();                                     // plain preemption point
  int self();
  int spawn(void(*fn)(void*), void* arg);           // new simulated thread
  void join(int id);
  bool finished(int id);
  void set_daemon(int id);                          // may still be alive when the run ends
  int alive();                                      // unfinished threads other than the caller
  uint64_t points();                                // memory-access points so far
  uint64_t local_points(int id);
  void set_limits(uint64_t soft, uint64_t hard);    // points before the fair phase / before a hang is declared
  void stack_points(bool on);                       // also preempt at accesses to own stack
  bool fair_phase();

  // --- simulated clock --------------------------------------------------------------------
  uint64_t now();                                   // monotonic ns
  int64_t wall_offset();                            // wall clock - monotonic
  void advance(uint64_t ns);
  void jump_wall(int64_t ns);
  void set_tick(uint64_t ns_per_point);
  void sleep(uint64_t ns);

  // --- memory -----------------------------------------------------------------------------
  bool valid(const void* p, size_t n);              // all bytes inside live allocations (arena only)
  uint64_t live_bytes();
  uint64_t live_blocks();
  const void* block_base(const void* p);            // start of the live heap block containing p, 0 if none
  uint64_t alloc_calls();
  uint64_t code_allocs();                           // allocations made outside NoPreempt sections
  void watch_allocs(void (*f)(size_t));             // called with the size of each of these, before it is made (0 = nobody)
  uint64_t code_live();                             // live blocks allocated outside NoPreempt sections
  void alloc_faults(bool on);                       // scope in which F_ALLOC_FAIL may fire
  void alloc_fail_rate(unsigned num, unsigned den);
  size_t block_size(const void* p);

  // --- simulated disk (FILE* through fopen in instrumented code) ---------------------------
  struct Disk;
  void disk_put(const char* path, const void* data, size_t n);
  bool disk_get(const char* path, std::vector<char>& out);  // durable content as stored
  bool disk_exists(const char* path);
  void disk_faults(bool on);
  void disk_rates(unsigned den);                    // 1/den per operation
  int disk_open_files();
  struct IoStats { uint64_t opens, reads, writes, closes, read_errs, write_errs, short_reads, open_errs, close_errs, bytes_read, bytes_written; };
  const IoStats& iostats();
}

// Supplied by each harness.
extern "C" {
  extern const char* const harness_probes[];        // null terminated names
  extern const char* const harness_real;            // components that ran real code
  extern const char* const harness_stub;            // components that ran a stub
  void harness_generate(sim::Rng& rng, sim::Plan& plan);
  void harness_execute(const sim::Plan& plan);
}

#define SIM_CHECK(cond, cls, ...) do { sim::NoPreempt _np_; if(!(cond)) sim::fail(cls, __VA_ARGS__); } while(0)
#endif
