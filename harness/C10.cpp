// C10: ThreadPool::Wait and the destructor always come to an end and leave no thread behind.
#include "pool_common.h"
extern "C" {
  const char* const harness_probes[] = { "destroyed_with_queued_tasks", "destroyed_idle", "destroyed_empty", "several_pools", "waits", 0 };
  const char* const harness_real = "ThreadPool, MicroLockQueue, RingAlloc, LocklessBlockPolicy, RWLock, Semaphore wrapper, Thread, DynArray";
  const char* const harness_stub = "thread scheduler, pthread_create/join, sem_wait/sem_post, malloc/free, CPU count";
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = r.range(1, 3); p.p[1] = r.range(1, 4); p.p[2] = r.chance(2, 3); // rounds (pools), threads, EINTR
  for(int t = 0; t < p.p[0]; ++t) {
    int per = (int)r.below(r.chance(1, 4) ? 12 : 5);
    for(int i = 0; i < per; ++i) p.add(t, (int)pickw(r, { 4, 2, 1, 2, 2, 2, 4, 1, 0, 1 }), r.below(3), r.below(r.chance(1, 5) ? 40 : 4));
  }
}
void harness_execute(const sim::Plan& p) {
  if(p.p[2]) sim::enable(sim::F_EINTR); sim::enable(sim::F_SPURIOUS_CAS);
  sim::set_limits(150000, 1200000); sim_ncpu = 3; if(p.p[0] > 1) sim::probe(3);
  jobs = new std::vector<Job*>; jobs->reserve(256);
  for(int round = 0; round < p.p[0]; ++round) {
    running = peakrun = 0; destroyed = false; nthreads = (size_t)p.p[1];
    pool = new bss::ThreadPool(nthreads); size_t n0 = jobs->size();
    for(auto& o : p.ops) if(o.actor == round) { if(o.kind == WAIT) sim::probe(4); sim::yield(); step(0, o); }
    { sim::NoPreempt np; bool queued = false; for(auto j : *jobs) queued |= j->done != j->expect; sim::probe(jobs->size() == n0 ? 2 : queued ? 0 : 1); }
    delete pool; destroyed = true;
    final_check();
    SIM_CHECK(sim::alive() == 0, "thread-left", "%d worker threads are still alive after the pool was destroyed", sim::alive());
  }
}
