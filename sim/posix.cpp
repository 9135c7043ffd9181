// Threads, semaphores, mutexes, clocks: the system calls the code under test makes, modelled on the simulator.
#include "rt.h"
#include <semaphore.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sched.h>
#include <sys/resource.h>
using namespace rt;
namespace rt { void sched_point(PtKind k); }
#define YP() do { if(cur && !np) sched_point(K_ATOMIC); } while(0)
static void chk(const void* p, size_t n, const char* w) { if(!cur) return; if((uint64_t)p < 4096) sim::fail("memory", "%s on a null object", w); if(in_arena(p)) shadow_check(p, n, true, w); }
static uint64_t deadline(const timespec* t) { // absolute realtime -> simulated monotonic
  __int128 d = (__int128)t->tv_sec * 1000000000 + t->tv_nsec - wall_off;
  if(d < 0) return 0; if(d > (__int128)(1ull << 62)) return 1ull << 62; return (uint64_t)d;
}
extern "C" {
  int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    if(!cur) { fprintf(stderr, "pthread_create outside simulation\n"); _exit(3); }
    if(sim::fault(sim::F_THREAD_FAIL, 1, 6)) return EAGAIN;
    int id = new_fiber(fn, arg); *t = (pthread_t)(0x1000 + id); YP(); return 0;
  }
  static Fiber* fof(pthread_t t) { int id = (int)t - 0x1000; if(id < 0 || id >= nfib) sim::fail("thread", "use of an invalid thread handle %lx", (long)t); return &fib[id]; }
  static int dojoin(pthread_t t, void** r, uint64_t dl) {
    Fiber* f = fof(t);
    if(f == cur) return EDEADLK;
    if(f->detached) return EINVAL;
    YP();
    while(f->st != FS_DONE) { if(now_ns >= dl) return ETIMEDOUT; block(f, "pthread_join", dl); }
    f->detached = true; if(r) *r = f->ret; return 0;
  }
  int pthread_join(pthread_t t, void** r) { return dojoin(t, r, ~0ull); }
  int pthread_tryjoin_np(pthread_t t, void** r) { Fiber* f = fof(t); YP(); if(f->st != FS_DONE) return EBUSY; f->detached = true; if(r) *r = f->ret; return 0; }
  int pthread_timedjoin_np(pthread_t t, void** r, const timespec* ts) {
    // glibc 2.39 (checked against the real library): an out-of-range tv_nsec makes the futex call fail
    // with EINVAL, which the join loop ignores, so the call only returns once the thread has ended.
    if(ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) return dojoin(t, r, ~0ull);
    return dojoin(t, r, ts ? deadline(ts) : ~0ull);
  }
  int pthread_detach(pthread_t t) { fof(t)->detached = true; return 0; }
  pthread_t pthread_self() { return cur ? (pthread_t)(0x1000 + cur->id) : (pthread_t)1; }
  int sim_ncpu = 4;
  int get_nprocs() { return sim_ncpu; }
  int sched_yield() { YP(); return 0; }

  struct Sem { uint32_t magic; int32_t value; };
  int sem_init(sem_t* s, int, unsigned v) { chk(s, sizeof(Sem), "sem_init"); Sem* m = (Sem*)s; m->magic = 0x5e3a; m->value = (int)v; return 0; }
  int sem_destroy(sem_t* s) {
    chk(s, sizeof(Sem), "sem_destroy"); Sem* m = (Sem*)s;
    if(m->magic != 0x5e3a) sim::fail("semaphore", "sem_destroy on something that is not a live semaphore");
    for(int i = 0; i < nfib; ++i) if(fib[i].st == FS_BLOCK && fib[i].waiton == s) sim::fail("semaphore", "semaphore destroyed while thread t%d is blocked on it", i);
    m->magic = 0xdead; return 0;
  }
  static Sem* semof(sem_t* s, const char* w) { chk(s, sizeof(Sem), w); Sem* m = (Sem*)s; if(m->magic != 0x5e3a) sim::fail("semaphore", "%s on a semaphore that is not initialised or already destroyed", w); return m; }
  int64_t sem_posts, sem_refused[64]; // for harnesses: accepted posts, and refused ones by thread
  static int semwait(sem_t* s, uint64_t dl) {
    semof(s, "sem_wait"); YP();
    for(;;) {
      Sem* m = semof(s, "sem_wait");
      if(m->value > 0) { --m->value; return 0; }
      if(now_ns >= dl) { errno = ETIMEDOUT; return -1; }
      if(sim::fault(sim::F_EINTR, 1, 4)) { errno = EINTR; return -1; }
      block(s, "sem_wait", dl);
    }
  }
  int sem_wait(sem_t* s) { return semwait(s, ~0ull); }
  int sem_timedwait(sem_t* s, const timespec* ts) { if(ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { Sem* m = semof(s, "sem_timedwait"); if(m->value > 0) { --m->value; return 0; } errno = EINVAL; return -1; } return semwait(s, deadline(ts)); }
  int sem_trywait(sem_t* s) { YP(); Sem* m = semof(s, "sem_trywait"); if(m->value > 0) { --m->value; return 0; } errno = EAGAIN; return -1; }
  int sem_post(sem_t* s) { YP(); Sem* m = semof(s, "sem_post"); if(m->value == 0x7fffffff || sim::fault(sim::F_SEM_FULL, 1, 8)) { ++sem_refused[sim::self() & 63]; errno = EOVERFLOW; return -1; } ++m->value; ++sem_posts; wake(s); return 0; }
  int sem_getvalue(sem_t* s, int* v) { *v = semof(s, "sem_getvalue")->value; return 0; }

  struct Mtx { int owner; unsigned count; int a, b; int kind; };
  int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); if(a) { int k = 0; pthread_mutexattr_gettype(a, &k); ((Mtx*)m)->kind = k; } return 0; }
  int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
  static int mlock(pthread_mutex_t* mm, uint64_t dl, bool tr) {
    if(!cur) return 0;
    chk(mm, sizeof(Mtx), "mutex"); Mtx* m = (Mtx*)mm; YP();
    if(m->owner == cur->id + 1 && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++m->count; return 0; }
    while(m->owner) { if(tr) return EBUSY; if(now_ns >= dl) return ETIMEDOUT; block(m, "mutex lock", dl); }
    m->owner = cur->id + 1; m->count = 1; return 0;
  }
  int pthread_mutex_lock(pthread_mutex_t* m) { return mlock(m, ~0ull, false); }
  int pthread_mutex_trylock(pthread_mutex_t* m) { return mlock(m, ~0ull, true); }
  int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return mlock(m, deadline(t), false); }
  int pthread_mutex_unlock(pthread_mutex_t* mm) { if(!cur) return 0; Mtx* m = (Mtx*)mm; YP(); if(m->owner != cur->id + 1) return EPERM; if(--m->count == 0) { m->owner = 0; wake(m); } return 0; }

  int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
  int pthread_cond_destroy(pthread_cond_t*) { return 0; }
  static int cwait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl) {
    Mtx* x = (Mtx*)m; unsigned n = x->count; int r = 0;
    x->owner = 0; x->count = 0; wake(x);
    if(!sim::fault(sim::F_SPURIOUS_WAKE, 1, 8)) { if(now_ns >= dl) r = ETIMEDOUT; else { block(c, "condition wait", dl); if(cur->timedout) r = ETIMEDOUT; } }
    mlock(m, ~0ull, false); x->count = n; return r;
  }
  int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, ~0ull); }
  int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return cwait(c, m, deadline(t)); }
  int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* t) { return cwait(c, m, id == CLOCK_REALTIME ? deadline(t) : (uint64_t)t->tv_sec * 1000000000 + t->tv_nsec); }
  int pthread_cond_signal(pthread_cond_t* c) { if(!cur) return 0; YP(); for(int i = 0; i < nfib; ++i) if(fib[i].st == FS_BLOCK && fib[i].waiton == c) { wake_fiber(&fib[i]); break; } return 0; }
  int pthread_cond_broadcast(pthread_cond_t* c) { if(!cur) return 0; YP(); wake(c); return 0; }

  struct Rw { int writer; int readers; };
  int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t*) { memset(r, 0, sizeof *r); return 0; }
  int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
  int pthread_rwlock_rdlock(pthread_rwlock_t* q) { if(!cur) return 0; Rw* r = (Rw*)q; YP(); while(r->writer) block(r, "rwlock", ~0ull); ++r->readers; return 0; }
  int pthread_rwlock_wrlock(pthread_rwlock_t* q) { if(!cur) return 0; Rw* r = (Rw*)q; YP(); while(r->writer || r->readers) block(r, "rwlock", ~0ull); r->writer = 1; return 0; }
  int pthread_rwlock_tryrdlock(pthread_rwlock_t* q) { if(!cur) return 0; Rw* r = (Rw*)q; YP(); if(r->writer) return EBUSY; ++r->readers; return 0; }
  int pthread_rwlock_trywrlock(pthread_rwlock_t* q) { if(!cur) return 0; Rw* r = (Rw*)q; YP(); if(r->writer || r->readers) return EBUSY; r->writer = 1; return 0; }
  int pthread_rwlock_unlock(pthread_rwlock_t* q) { if(!cur) return 0; Rw* r = (Rw*)q; YP(); if(r->writer) r->writer = 0; else --r->readers; wake(r); return 0; }

  uint64_t (*sim_clock_hook)(int clk); // harness may script the clock readings
  int clock_gettime(clockid_t id, timespec* t) {
    if(!cur) return (int)syscall(SYS_clock_gettime, id, t);
    YP();
    uint64_t v;
    if(sim_clock_hook) v = sim_clock_hook(id);
    else if(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) v = now_ns + wall_off;
    else if(id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) v = now_ns - idle_ns;
    else v = now_ns;
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
  }
  int clock_getres(clockid_t, timespec* t) { if(t) { t->tv_sec = 0; t->tv_nsec = 1; } return 0; }
  time_t time(time_t* t) { timespec s; clock_gettime(CLOCK_REALTIME, &s); if(t) *t = s.tv_sec; return s.tv_sec; }
  int gettimeofday(timeval* t, void*) { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
  clock_t clock() { return (clock_t)((now_ns - idle_ns) / 1000); }
  int nanosleep(const timespec* q, timespec* rem) {
    if(!cur) return (int)syscall(SYS_nanosleep, q, rem);
    if(q->tv_nsec < 0 || q->tv_nsec >= 1000000000 || q->tv_sec < 0) { errno = EINVAL; return -1; }
    uint64_t d = (uint64_t)q->tv_sec * 1000000000 + q->tv_nsec;
    if(d && sim::fault(sim::F_EINTR, 1, 4)) { uint64_t part = d / 2; block(0, "sleep", now_ns + part); if(rem) { rem->tv_sec = (d - part) / 1000000000; rem->tv_nsec = (d - part) % 1000000000; } errno = EINTR; return -1; }
    block(0, "sleep", now_ns + d); return 0;
  }
  int clock_nanosleep(clockid_t id, int flags, const timespec* q, timespec* rem) {
    if(flags & TIMER_ABSTIME) { block(0, "sleep", id == CLOCK_REALTIME ? deadline(q) : (uint64_t)q->tv_sec * 1000000000 + q->tv_nsec); return 0; }
    return nanosleep(q, rem) ? errno : 0;
  }
  int usleep(useconds_t u) { timespec t = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return nanosleep(&t, 0); }
}
