// C09: ThreadPool runs each submitted task exactly as often as requested, with its arguments; Wait() returns only afterwards.
#include "pool_common.h"
extern "C" {
  const char* const harness_probes[] = { "tasks", "parallel_tasks", "nested", "multi_submitters", "threads_added", "rounds", 0 };
  const char* const harness_real = "ThreadPool, MicroLockQueue, RingAlloc, LocklessBlockPolicy, RWLock, Semaphore wrapper, Thread, Delegate/StoreFunction, DynArray";
  const char* const harness_stub = "thread scheduler, pthread_create/join, sem_wait/sem_post, malloc/free, CPU count";
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  int subs = (int)r.range(1, 3); p.p[0] = subs; p.p[1] = r.range(1, 4); p.p[2] = r.chance(1, 2); p.p[3] = r.chance(1, 8); p.p[4] = r.chance(1, 2); p.p[5] = r.chance(1, 40) ? r.range(120, 200) : 0;
  int per = (int)r.range(1, r.chance(1, 4) ? 14 : 5);
  for(int t = 0; t < subs; ++t) for(int i = 0; i < per; ++i) {
    int k = (int)pickw(r, { 4, 2, 1, 3, 3, 2, 3, 1, 1, 1, 3 }); p.add(t, k, k == TASK_MULTI && r.chance(1, 12) ? r.range(10, 80) : r.below(3), r.below(4));
  }
}
void harness_execute(const sim::Plan& p) {
  if(p.p[2]) sim::enable(sim::F_EINTR); sim::enable(sim::F_SPURIOUS_CAS);
  sim::set_limits(p.p[5] ? 900000 : 150000, p.p[5] ? 6000000 : 1500000); sim_ncpu = (int)p.p[1] + 1;
  jobs = new std::vector<Job*>; jobs->reserve(256); running = peakrun = 0; destroyed = false; toks = 0; nthreads = (size_t)p.p[1];
  pool = p.p[3] ? new bss::ThreadPool() : new bss::ThreadPool(nthreads);
  if(p.p[0] > 1) sim::probe(3);
  // actor 0 is this thread; the others submit concurrently
  Actor others[3]; for(int i = 1; i < p.p[0]; ++i) { others[i].plan = &p; others[i].id = i; others[i].fn = step; others[i].fiber = sim::spawn(actor_main, &others[i]); }
  Actor me; me.plan = &p; me.id = 0; me.fn = step; actor_main(&me);
  for(int i = 1; i < p.p[0]; ++i) sim::join(others[i].fiber);
  if(p.p[4]) { dowait(); SIM_CHECK(pool->Busy() == 0, "busy", "Busy() is %zu after Wait() with no submitter left", pool->Busy()); final_check(); SIM_CHECK(!toks, "parameter-kept", "%lld bound parameters are still alive after Wait() with no submitter left", (long long)toks); if(p.p[5]) { rounds((int)p.p[5], nthreads); sim::probe(5); } }
  delete pool; destroyed = true;
  final_check(); SIM_CHECK(!toks, "parameter-kept", "%lld bound parameters are still alive after the pool is gone", (long long)toks);
  sim::NoPreempt np;
  sim::probe(0, jobs->size()); if(peakrun > 1) sim::probe(1); for(auto& o : p.ops) { if(o.kind == NESTED) sim::probe(2); if(o.kind == ADDTHREAD) sim::probe(4); }
}
