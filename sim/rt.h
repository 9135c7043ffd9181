// Internal interface between the runtime's translation units (never instrumented).
#ifndef VERIF_RT_H
#define VERIF_RT_H
#include "sim.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <errno.h>
#include <pthread.h>

namespace rt {
  using sim::F_N;
  enum { MAXF = 64, STACK = 256 * 1024, MAXSW = 300000, MAXFAULT = 20000, MAXOPS = 4096, NPROBE = 32 };
  enum PtKind { K_READ = 0, K_WRITE = 1, K_ATOMIC = 2, K_YIELD = 3, K_BLOCK = 4 };

  struct SwRec { int32_t fiber, target; uint64_t cnt; };
  struct FaultRec { int32_t kind; uint32_t nth; int64_t val; };
  enum { KN_REUSE, KN_FILL, KN_SPIN, KN_TICK, KN_N };

  // The result of one run, in memory shared between the run (child) and the driver (parent).
  struct Result {
    int status;              // 0 ok, 1 violation, 2 harness error
    char cls[64];
    char msg[4096];
    uint64_t hash, points, atomics, switches, forced, simtime, events, allocs;
    uint32_t faults[F_N];
    uint64_t probes[NPROBE];
    int strategy;
    int64_t knobs[KN_N];
    int64_t p[32];
    int nops; sim::Op ops[MAXOPS];
    int nsw; SwRec sw[MAXSW];
    int nfault; FaultRec frec[MAXFAULT];
    int loglen; char log[1 << 20];
  };
  struct Input {             // what a replay is a function of
    int64_t knobs[KN_N];
    int64_t p[32];
    std::vector<sim::Op> ops;
    std::vector<SwRec> sw;
    std::vector<FaultRec> frec;
  };

  enum FState { FS_FREE, FS_RUN, FS_BLOCK, FS_DONE };
  struct Fiber {
    int id; FState st; void* sp; char* stk; char* stkend;
    void* (*fn)(void*); void* arg; void* ret;
    uint64_t cnt; const void* waiton; const char* why; uint64_t deadline; bool timedout;
    bool detached, daemon; int err; uint64_t cxa[2]; char* tls;
    uint64_t stalled; int prio;
    std::vector<SwRec>* rep; size_t repcur;
  };
  extern Fiber fib[MAXF];
  extern Fiber* cur;          // null outside the simulation
  extern int nfib, np;
  extern Result* R;
  extern bool replaying, fairphase, logging;
  extern uint64_t gpoints, now_ns; extern int64_t wall_off;
  extern uint64_t idle_ns;

  void point(const void* a, unsigned sz, PtKind k);
  void block(const void* on, const char* why, uint64_t deadline); // returns when woken/timed out
  void wake(const void* on);
  void wake_fiber(Fiber* f);
  int new_fiber(void* (*fn)(void*), void* arg);
  void shadow_check(const void* a, size_t n, bool write, const char* what);
  bool in_arena(const void* p);
  void mem_init();
  void mem_start(int64_t reuse, int64_t fill);
  void trap_handlers();
  void mixh(uint64_t v);
  void vfail(int status, const char* cls, const char* fmt, va_list ap) __attribute__((noreturn));
  void disk_reset();
}
#endif
