// Fibers, seeded scheduler, simulated clock, decisions, recording.
#include "rt.h"
#include <link.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <unistd.h>
#include <sys/syscall.h>
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

using namespace rt;
namespace rt {
  Fiber fib[MAXF]; Fiber* cur; int nfib, np; Result* R; bool replaying, fairphase, logging;
  uint64_t gpoints, now_ns, idle_ns; int64_t wall_off;
  static sim::Rng* rng;                 // decision stream (search only)
  static sim::Rng rngstore;
  static uint64_t soft_limit, hard_limit, tick, evseq, fairq, fairn, runlen, atomics;
  static uint32_t nth[F_N];             // fault decision counters
  static bool fenabled[F_N];
  static std::vector<FaultRec>* frep; static size_t frepcur[F_N];
  static std::vector<FaultRec>* frepk;  // per kind
  static int64_t spin_guard; static bool stackpts; static uint64_t mindeadline;
  static char *tlsbase, *tlsinit; static size_t tlssize;
  static void* mainsp; static void (*entry)(const sim::Plan&); static const sim::Plan* theplan;
  // strategy
  enum { S_RANDOM, S_PCT, S_STALL, S_ATOMIC, S_COARSE, S_N };
  static int strat; static unsigned den, aden; static std::vector<uint64_t>* chg; static size_t chgcur; static int lowprio;
  extern "C" char __data_start; extern "C" char _end;

  void mixh(uint64_t v) { uint64_t h = R->hash; h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; R->hash = h; }

  static void finish() {
    R->points = gpoints; R->atomics = atomics; R->simtime = now_ns; R->events = evseq; R->allocs = sim::alloc_calls();
  }
  void vfail(int status, const char* cls, const char* fmt, va_list ap) {
    cur = 0;
    if(R->status == 0) {
      R->status = status;
      snprintf(R->cls, sizeof R->cls, "%s", cls);
      vsnprintf(R->msg, sizeof R->msg, fmt, ap);
      finish();
    }
    syscall(SYS_exit_group, 0);
    __builtin_trap();
  }
}
extern "C" void sim_swap(void** save, void* load);
asm(".text\n.globl sim_swap\nsim_swap:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
    " mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");

namespace sim {
  uint64_t Rng::next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  void fail(const char* cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(1, cls, fmt, ap); }
  void harness_error(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(2, "harness", fmt, ap); }
  uint64_t seq() { mixh(0x5e0 + (cur ? cur->id : 99)); return ++evseq; }
  void mix(uint64_t v) { mixh(v); }
  void probe(int i, uint64_t n) { if(i >= 0 && i < NPROBE) R->probes[i] += n; }
  void logf(const char* fmt, ...) {
    if(!logging) return;
    char* b = R->log + R->loglen; size_t left = sizeof(R->log) - R->loglen;
    if(left < 300) return;
    int n = snprintf(b, left, "[%llu t%d @%llu] ", (unsigned long long)evseq, cur ? cur->id : -1, (unsigned long long)(cur ? cur->cnt : 0));
    va_list ap; va_start(ap, fmt); n += vsnprintf(b + n, left - n - 2, fmt, ap); va_end(ap);
    if((size_t)n > left - 2) n = left - 2;
    b[n++] = '\n'; R->loglen += n;
  }
  NoPreempt::NoPreempt() { ++np; }
  NoPreempt::~NoPreempt() { --np; }
  int self() { return cur ? cur->id : -1; }
  bool finished(int id) { return fib[id].st == FS_DONE; }
  void set_daemon(int id) { fib[id].daemon = true; }
  int alive() { int n = 0; for(int i = 0; i < nfib; ++i) if(&fib[i] != cur && (fib[i].st == FS_RUN || fib[i].st == FS_BLOCK)) ++n; return n; }
  uint64_t points() { return gpoints; }
  uint64_t local_points(int id) { return fib[id].cnt; }
  void set_limits(uint64_t a, uint64_t b) { soft_limit = a; hard_limit = b; }
  void stack_points(bool on) { stackpts = on; }
  bool fair_phase() { return fairphase; }
  uint64_t now() { return now_ns; }
  int64_t wall_offset() { return wall_off; }
  void jump_wall(int64_t ns) { wall_off += ns; }
  void set_tick(uint64_t t) { tick = t; }
  void enable(FaultKind k, bool on) { fenabled[k] = on; }
  void note_fault(FaultKind k) { ++R->faults[k]; mixh(0xfa0 + k); }

  bool fault(FaultKind k, unsigned num, unsigned d) {
    if(!cur || !fenabled[k]) return false;
    uint32_t n = nth[k]++;
    bool hit = false;
    if(replaying) {
      size_t& c = frepcur[k]; auto& v = frepk[k];
      while(c < v.size() && v[c].nth < n) ++c;
      hit = c < v.size() && v[c].nth == n;
      if(hit && R->nfault < MAXFAULT) R->frec[R->nfault++] = v[c];
    } else {
      if(fairphase) return false;
      hit = rng->chance(num, d);
      if(hit) { if(R->nfault >= MAXFAULT) return false; R->frec[R->nfault++] = FaultRec{ k, n, 0 }; }
    }
    if(hit) { ++R->faults[k]; mixh(0xfa0 + k); logf("fault kind=%d nth=%u", (int)k, n); }
    return hit;
  }
  int64_t faultval(FaultKind k, int64_t lo, int64_t hi) {
    int64_t v = lo;
    if(replaying) {
      size_t c = frepcur[k]; auto& w = frepk[k];
      if(c < w.size()) v = w[c].val;
      if(v < lo) v = lo; if(v > hi) v = hi;
    } else {
      v = rng->range(lo, hi);
      for(int i = R->nfault - 1; i >= 0; --i) if(R->frec[i].kind == k) { R->frec[i].val = v; break; }
    }
    return v;
  }
}

namespace rt {
  static inline bool runnable(Fiber& f) { return f.st == FS_RUN; }
  static int rr_next(int from, bool includestalled) {
    for(int k = 1; k <= nfib; ++k) { int i = (from + k) % nfib; if(runnable(fib[i]) && (includestalled || fib[i].stalled <= gpoints)) return i; }
    return -1;
  }
  static void expire() {
    uint64_t m = ~0ull;
    for(int i = 0; i < nfib; ++i) if(fib[i].st == FS_BLOCK && fib[i].deadline != ~0ull) {
      if(fib[i].deadline <= now_ns) { fib[i].timedout = true; fib[i].st = FS_RUN; fib[i].waiton = 0; fib[i].deadline = ~0ull; }
      else if(fib[i].deadline < m) m = fib[i].deadline;
    }
    mindeadline = m;
  }
  static void do_switch(int target) {
    Fiber* f = cur; Fiber* t = &fib[target];
    if(f == t) return;
    f->err = errno;
    uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals();
    f->cxa[0] = g[0]; f->cxa[1] = g[1] & 0xffffffffull; g[0] = t->cxa[0]; *(uint32_t*)&g[1] = (uint32_t)t->cxa[1];
    if(tlssize) { memcpy(f->tls, tlsbase, tlssize); memcpy(tlsbase, t->tls, tlssize); }
    cur = t; errno = t->err; runlen = 0; ++R->switches;
    mixh(((uint64_t)f->id << 48) ^ (f->cnt << 8) ^ t->id);
    sim_swap(&f->sp, t->sp);
  }
  static void record(int target) {
    if(fairphase) return;
    if(R->nsw >= MAXSW) { fairphase = true; return; }
    R->sw[R->nsw++] = SwRec{ cur->id, target, cur->cnt };
  }
  static bool used_rep;
  static int replay_target() {
    used_rep = false;
    if(!cur->rep) return -1;
    auto& v = *cur->rep;
    while(cur->repcur < v.size() && v[cur->repcur].cnt < cur->cnt) ++cur->repcur;
    if(cur->repcur < v.size() && v[cur->repcur].cnt == cur->cnt) { int t = v[cur->repcur].target; if(t >= 0 && t < nfib && runnable(fib[t])) { used_rep = true; return t; } }
    return -1;
  }
  static int pick_random(bool exclude_cur) {
    int c[MAXF], n = 0;
    for(int i = 0; i < nfib; ++i) if(runnable(fib[i]) && fib[i].stalled <= gpoints && !(exclude_cur && &fib[i] == cur)) c[n++] = i;
    if(!n) for(int i = 0; i < nfib; ++i) if(runnable(fib[i]) && !(exclude_cur && &fib[i] == cur)) c[n++] = i;
    return n ? c[rng->below(n)] : -1;
  }
  static int pick_prio(bool exclude_cur) {
    int b = -1;
    for(int i = 0; i < nfib; ++i) if(runnable(fib[i]) && !(exclude_cur && &fib[i] == cur) && (b < 0 || fib[i].prio > fib[b].prio)) b = i;
    return b;
  }
  static int others_runnable() { for(int i = 0; i < nfib; ++i) if(&fib[i] != cur && runnable(fib[i])) return 1; return 0; }
  static void describe(char* b, size_t n) {
    size_t o = 0; b[0] = 0;
    for(int i = 0; i < nfib && o < n; ++i) o += snprintf(b + o, n - o, " t%d:%s%s%s", i, fib[i].st == FS_RUN ? "running" : fib[i].st == FS_BLOCK ? "blocked in " : "done", fib[i].st == FS_BLOCK ? fib[i].why : "", "");
  }

  static void overlimit() {
    if(!fairphase && gpoints > soft_limit) { fairphase = true; fairq = 0; }
    if(gpoints > hard_limit) { char b[1500]; describe(b, sizeof b); sim::fail("no-progress", "the workload did not finish within %llu steps although every thread was scheduled fairly and no faults were injected in the second half:%s", (unsigned long long)hard_limit, b); }
  }

  // A point at which the scheduler may preempt the current thread.
  void sched_point(PtKind k) {
    ++gpoints; ++cur->cnt; ++runlen; now_ns += tick;
    if(k == K_ATOMIC) ++atomics;
    if(now_ns >= mindeadline) expire();
    if(gpoints > soft_limit) overlimit();
    if(nfib == 1) return;
    int t = -1;
    if(fairphase) {
      if(fairq) { --fairq; return; }
      sim::Rng r(++fairn * 7919); fairq = 30 + r.below(300);
      t = rr_next(cur->id, true);
    } else if(replaying) {
      t = replay_target();
      if(t < 0 && runlen > (uint64_t)spin_guard) { t = rr_next(cur->id, true); if(t >= 0 && t != cur->id) ++R->forced; }
    } else {
      bool forced = runlen > (uint64_t)spin_guard;
      switch(strat) {
      case S_RANDOM: if(rng->below(den) == 0 || forced) t = pick_random(true); break;
      case S_ATOMIC: if(forced || rng->below(k == K_ATOMIC || k == K_YIELD ? aden : den) == 0) t = pick_random(true); break;
      case S_COARSE: if(forced || rng->below(k == K_YIELD ? 2 : den) == 0) t = pick_random(true); break;
      case S_STALL:
        if(others_runnable()) {
          if(rng->below(aden) == 0) { cur->stalled = gpoints + (50u << rng->below(8)); ++R->faults[sim::F_STALL]; t = pick_random(true); }
          else if(forced || rng->below(den) == 0) t = pick_random(true);
        }
        break;
      case S_PCT:
        if(forced) { cur->prio = --lowprio; }
        while(chgcur < chg->size() && (*chg)[chgcur] <= gpoints) { cur->prio = --lowprio; ++chgcur; }
        t = pick_prio(false);
        break;
      }
      if(forced && t >= 0) ++R->forced;
    }
    if(t >= 0 && t != cur->id) { if(!replaying || used_rep) record(t); if(!fairphase) ++R->faults[sim::F_PREEMPT]; do_switch(t); }
  }

  static void block_switch(bool done) {
    for(;;) {
      int t = -1;
      if(replaying) t = replay_target();
      else if(!fairphase) t = strat == S_PCT ? pick_prio(false) : pick_random(false);
      if(t < 0) { t = rr_next(cur->id, false); if(t < 0) t = rr_next(cur->id, true); }
      if(t >= 0) {
        if(!done && t == cur->id) return;
        if(!replaying || used_rep) record(t); fairq = 0; do_switch(t); return;
      }
      // nothing runnable: discrete-event time jumps to the next deadline
      uint64_t m = ~0ull;
      for(int i = 0; i < nfib; ++i) if(fib[i].st == FS_BLOCK && fib[i].deadline < m) m = fib[i].deadline;
      if(m == ~0ull) { char b[1500]; describe(b, sizeof b); sim::fail("deadlock", "every simulated thread is blocked and no timer is pending:%s", b); }
      if(m > now_ns) { idle_ns += m - now_ns; now_ns = m; }
      expire();
    }
  }
  void block(const void* on, const char* why, uint64_t deadline) {
    if(!cur) { sim::harness_error("blocking call %s outside the simulation", why); }
    if(np) sim::harness_error("blocking call %s inside a NoPreempt section", why);
    ++gpoints; ++cur->cnt; now_ns += tick; runlen = 0;
    if(gpoints > soft_limit) overlimit();
    cur->st = FS_BLOCK; cur->waiton = on; cur->why = why; cur->deadline = deadline; cur->timedout = false;
    if(deadline < mindeadline) mindeadline = deadline;
    if(deadline <= now_ns) expire();
    block_switch(false);
  }
  void wake_fiber(Fiber* f) { if(f->st == FS_BLOCK) { f->st = FS_RUN; f->waiton = 0; f->deadline = ~0ull; } }
  void wake(const void* on) { for(int i = 0; i < nfib; ++i) if(fib[i].st == FS_BLOCK && fib[i].waiton == on) wake_fiber(&fib[i]); }

  void point(const void* a, unsigned sz, PtKind k) {
    uint64_t x = (uint64_t)a;
    if(x - (uint64_t)cur->stk < STACK) { if(!stackpts) return; }
    else if(in_arena(a)) shadow_check(a, sz, k != K_READ, "access");
    else if(x >= (uint64_t)&__data_start && x < (uint64_t)&_end) {}
    else if(x < 4096) sim::fail("memory", "null-pointer access at address %p (%u bytes)", a, sz);
    else if(x < (uint64_t)fib[0].stk || x >= (uint64_t)fib[0].stk + (uint64_t)MAXF * (STACK + 8192)) return;
    if(!np) sched_point(k);
  }

  static void fiber_main() {
    Fiber* f = cur;
    f->ret = f->fn(f->arg);
    f->st = FS_DONE; ++f->cnt; ++gpoints;
    wake(f);
    block_switch(true);
    __builtin_trap();
  }
  static void* main_fn(void*) {
    entry(*theplan);
    ++np;
    finish();
    cur = 0;
    syscall(SYS_exit_group, 0);
    return 0;
  }
  static void setup_stack(Fiber* f) {
    uint64_t* s = (uint64_t*)(f->stkend - 64);
    *--s = 0; *--s = (uint64_t)&fiber_main;
    for(int i = 0; i < 6; ++i) *--s = 0;
    f->sp = s;
  }
  int new_fiber(void* (*fn)(void*), void* arg) {
    if(nfib >= MAXF) sim::harness_error("too many simulated threads");
    Fiber* f = &fib[nfib]; f->id = nfib; f->st = FS_RUN; f->fn = fn; f->arg = arg; f->deadline = ~0ull; f->waiton = 0; f->why = "";
    setup_stack(f);
    if(tlssize) memcpy(f->tls, tlsinit, tlssize);
    f->prio = rng ? (int)rng->below(1 << 20) : 0;
    ++nfib;
    mixh(0xf1be0 + f->id);
    return f->id;
  }
  static int phdr(dl_phdr_info* i, size_t, void*) {
    for(int k = 0; k < i->dlpi_phnum; ++k) if(i->dlpi_phdr[k].p_type == PT_TLS) {
      size_t al = i->dlpi_phdr[k].p_align, sz = (i->dlpi_phdr[k].p_memsz + al - 1) & ~(al - 1);
      uint64_t fs; asm("mov %%fs:0,%0" : "=r"(fs));
      tlssize = sz; tlsbase = (char*)fs - sz;
    }
    return 1; // main program only
  }

  // Called once in the parent: reserve stacks at a fixed address.
  void sched_init() {
    char* base = (char*)0x510000000000ull; size_t per = STACK + 8192;
    void* m = mmap(base, per * MAXF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if(m != base) { fprintf(stderr, "cannot map stacks\n"); _exit(2); }
    dl_iterate_phdr(phdr, 0);
    if(tlssize) { tlsinit = (char*)malloc(tlssize); memcpy(tlsinit, tlsbase, tlssize); }
    for(int i = 0; i < MAXF; ++i) {
      fib[i].stk = base + i * per + 4096; fib[i].stkend = fib[i].stk + STACK;
      mprotect(base + i * per, 4096, PROT_NONE);
      fib[i].tls = tlssize ? (char*)malloc(tlssize) : 0;
    }
  }

  // Runs one execution in this (child) process; does not return.
  void run(const sim::Plan& plan, uint64_t decision_seed, const Input* in) {
    entry = harness_execute; theplan = &plan;
    rngstore.s = decision_seed; replaying = in != 0; rng = replaying ? 0 : &rngstore;
    soft_limit = 150000; hard_limit = 2000000; tick = 1; now_ns = 1000ull * 1000000000ull; wall_off = 1500000000ll * 1000000000ll; mindeadline = ~0ull;
    frepk = new std::vector<FaultRec>[F_N];
    if(in) {
      for(auto& f : in->frec) if(f.kind >= 0 && f.kind < F_N) frepk[f.kind].push_back(f);
      for(auto& s : in->sw) if(s.fiber >= 0 && s.fiber < MAXF) { if(!fib[s.fiber].rep) fib[s.fiber].rep = new std::vector<SwRec>; fib[s.fiber].rep->push_back(s); }
      for(int i = 0; i < KN_N; ++i) R->knobs[i] = in->knobs[i];
    } else {
      static const int dens[] = { 2, 3, 5, 8, 15, 30, 60, 150, 400, 1500 };
      static const int guards[] = { 300, 1500, 6000, 20000 };
      uint64_t w = rng->below(10);
      strat = w < 4 ? S_RANDOM : w < 6 ? S_PCT : w < 8 ? S_STALL : w < 9 ? S_ATOMIC : S_COARSE;
      den = dens[rng->below(10)]; aden = strat == S_STALL ? 20u << rng->below(6) : 2 + rng->below(5);
      if(strat == S_ATOMIC || strat == S_COARSE) den = dens[5 + rng->below(5)];
      chg = new std::vector<uint64_t>;
      uint64_t K = 1ull << rng->range(5, 15); int d = (int)rng->range(1, 8);
      for(int i = 0; i < d; ++i) chg->push_back(rng->below(K));
      for(size_t i = 1; i < chg->size(); ++i) for(size_t j = i; j && (*chg)[j] < (*chg)[j - 1]; --j) { uint64_t x = (*chg)[j]; (*chg)[j] = (*chg)[j - 1]; (*chg)[j - 1] = x; }
      R->knobs[KN_REUSE] = rng->chance(2, 3); R->knobs[KN_FILL] = rng->chance(1, 2) ? 0xCD : rng->below(256);
      R->knobs[KN_SPIN] = guards[rng->below(4)]; R->knobs[KN_TICK] = 1ll << rng->below(8);
      R->strategy = strat;
    }
    spin_guard = R->knobs[KN_SPIN]; tick = R->knobs[KN_TICK];
    nfib = 0; np = 0;
    mem_start(R->knobs[KN_REUSE], R->knobs[KN_FILL]);
    disk_reset();
    new_fiber(main_fn, 0);
    uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals(); g[0] = 0;
    cur = &fib[0];
    sim_swap(&mainsp, fib[0].sp);
  }
}

namespace sim {
  struct SpawnArg { void(*fn)(void*); void* arg; };
  static void* tramp(void* p) { SpawnArg* a = (SpawnArg*)p; a->fn(a->arg); return 0; }
  static SpawnArg sargs[MAXF];
  int spawn(void(*fn)(void*), void* arg) { SpawnArg* a = &sargs[nfib]; a->fn = fn; a->arg = arg; return new_fiber(tramp, a); }
  void join(int id) { while(fib[id].st != FS_DONE) block(&fib[id], "join", ~0ull); }
  void yield() { if(cur && !np) sched_point(K_YIELD); }
  void advance(uint64_t ns) { now_ns += ns; expire(); }
  void sleep(uint64_t ns) { block(0, "sleep", now_ns + ns); }
}
