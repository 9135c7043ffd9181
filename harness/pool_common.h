// Workload and oracle for the thread pool (C09 exactly-once and Wait, C10 termination).
#include "common.h"
#include "bss-util/ThreadPool.h"
using namespace hx;
extern "C" int sim_ncpu; 
enum { TASK, TASK_MULTI, TASK_ALL, FUNC1, FUNC3, NESTED, WAIT, ADDTHREAD, BUSY, POLL, FUNCOBJ, NPK };
struct Job { int64_t id; int expect; int begun, done; bool submitted; int depth; int work; int child; };
static std::vector<Job*>* jobs; static bss::ThreadPool* pool; static size_t nthreads; static int64_t running, peakrun, waiter_ran; static bool destroyed;
static Job* newjob(int expect, int work, int child) { sim::NoPreempt np; Job* j = (Job*)malloc(sizeof(Job)); *j = Job{ (int64_t)jobs->size(), expect, 0, 0, false, 0, work, child }; jobs->push_back(j); return j; }
static void exec(Job* j);
static void run_raw(void* p) { exec((Job*)p); }
static int run_f1(Job* j) { exec(j); return 7; }
static void run_f3(int64_t tag, Job* j, double d) {
  { sim::NoPreempt np; if(tag != j->id * 3 + 1 || d != j->id * 0.5) sim::fail("arguments", "function task #%lld was called with (%lld, .., %g) instead of (%lld, .., %g)", (long long)j->id, (long long)tag, d, (long long)(j->id * 3 + 1), j->id * 0.5); }
  exec(j);
}
// A bound parameter that owns memory: must be alive in the call, and every copy of it must go exactly once
static int64_t toks; static int64_t tokmagic = 0x70cbeef;
struct Tok { Job* j; int64_t* v; Tok(Job* k) : j(k), v(mk(k->id)) {} Tok(const Tok& t) : j(t.j), v(mk(t.get())) {} Tok(Tok&& t) : j(t.j), v(t.v) { t.v = 0; } Tok& operator=(const Tok&) = delete;
  ~Tok() { if(v) { get(); sim::NoPreempt np; v[0] = v[1] = -1; free(v); --toks; } }
  static int64_t* mk(int64_t id) { sim::NoPreempt np; ++toks; int64_t* v = (int64_t*)malloc(16); v[0] = tokmagic; v[1] = id; return v; }
  int64_t get() const { sim::NoPreempt np; if(!v || (uintptr_t)v < 4096 || !sim::valid(v, 16) || v[0] != tokmagic) sim::fail("parameter-dead", "a bound parameter is used or destroyed that is not alive"); return v[1]; } };
static void run_obj(Tok t, int64_t id) { { int64_t v = t.get(); if(v != id || t.j->id != id) sim::fail("arguments", "function task #%lld was called with the object of task #%lld", (long long)id, (long long)v); } exec(t.j); }
static void submit(int kind, int n, int work, int child) {
  Job* j;
  switch(kind) {
  case TASK: j = newjob(1, work, child); pool->AddTask(run_raw, j); break;
  case TASK_MULTI: j = newjob(n, work, 0); pool->AddTask(run_raw, j, (size_t)n); break;
  case TASK_ALL: { size_t t; { sim::NoPreempt np; t = nthreads; } j = newjob((int)t, work, 0); pool->AddTask(run_raw, j, 0); break; }
  case FUNC1: j = newjob(1, work, child); pool->AddFunc<int, Job*>(run_f1, j); break;
  case FUNCOBJ: j = newjob(1, work, child); pool->AddFunc<void, Tok, int64_t>(run_obj, Tok(j), j->id); break;
  default: j = newjob(1, work, child); pool->AddFunc<void, int64_t, Job*, double>(run_f3, j->id * 3 + 1, j, j->id * 0.5); break;
  }
  sim::NoPreempt np; j->submitted = true; sim::seq(); sim::logf("submitted #%lld x%d", (long long)j->id, j->expect);
}
static void exec(Job* j) {
  { sim::NoPreempt np; sim::seq(); sim::logf("begin #%lld", (long long)j->id); if(destroyed) sim::fail("after-destruction", "task #%lld runs after the pool was destroyed", (long long)j->id); if((uintptr_t)j < 4096 || !sim::valid(j, sizeof(Job))) sim::fail("arguments", "a task ran with a corrupted argument"); if(++j->begun > j->expect) sim::fail("executed-twice", "task #%lld was submitted for %d executions but started %d times", (long long)j->id, j->expect, j->begun); ++running; if(running > peakrun) peakrun = running; }
  for(int i = 0; i < j->work; ++i) sim::yield();
  if(j->child > 0) submit(j->child & 1 ? TASK : j->id & 1 ? FUNC3 : FUNCOBJ, 1, j->work / 2, j->child - 1);
  sim::NoPreempt np; ++j->done; --running; sim::seq(); sim::logf("end #%lld", (long long)j->id);
}
static void dowait() {
  size_t n; std::vector<char>* sub; { sim::NoPreempt np; n = jobs->size(); sub = new std::vector<char>(n); for(size_t i = 0; i < n; ++i) (*sub)[i] = (*jobs)[i]->submitted; sim::seq(); }
  pool->Wait();
  sim::NoPreempt np; sim::seq(); sim::logf("Wait returned");
  for(size_t i = 0; i < n; ++i) if((*sub)[i] && (*jobs)[i]->done != (*jobs)[i]->expect) sim::fail("wait-early", "Wait() returned although task #%zu, submitted before, completed %d of %d executions", i, (*jobs)[i]->done, (*jobs)[i]->expect);
  delete sub;
}
// Nobody waits: the workers alone must get everything done (Busy() comes down to zero).
static void dopoll() {
  size_t n; std::vector<char>* sub; { sim::NoPreempt np; n = jobs->size(); sub = new std::vector<char>(n); for(size_t i = 0; i < n; ++i) (*sub)[i] = (*jobs)[i]->submitted; sim::seq(); }
  for(;;) { bool all = true; { sim::NoPreempt np; for(size_t i = 0; i < n; ++i) if((*sub)[i] && (*jobs)[i]->done != (*jobs)[i]->expect) all = false; } if(all) break; size_t b = pool->Busy(); sim::mix(b); if(!b) { sim::NoPreempt np; for(size_t i = 0; i < n; ++i) if((*sub)[i] && (*jobs)[i]->done != (*jobs)[i]->expect) sim::fail("busy", "Busy() is 0 although task #%zu completed %d of %d executions", i, (*jobs)[i]->done, (*jobs)[i]->expect); } sim::yield(); }
  sim::NoPreempt np; delete sub;
}
static void step(int actor, const sim::Op& op) {
  switch(op.kind) {
  case WAIT: dowait(); break;
  case ADDTHREAD: if(actor != 0) return; pool->AddThreads(1); { sim::NoPreempt np; ++nthreads; } break;
  case BUSY: { size_t b = pool->Busy(); sim::mix(b); sim::NoPreempt np; size_t tot = 0; for(auto j : *jobs) tot += j->expect; if(b > tot) sim::fail("busy", "Busy() reports %zu with only %zu task executions ever requested", b, tot); break; }
  case POLL: dopoll(); break;
  case NESTED: submit(TASK, 1, (int)op.b, (int)op.a + 1); break;
  case TASK_ALL: if(actor != 0) return; submit(TASK_ALL, 0, (int)op.b, 0); break;
  default: submit(op.kind, (int)op.a + 1, (int)op.b, 0);
  }
}
static int64_t roundsum; static void run_round(int64_t k, Tok* t) { roundsum += k; sim::mix((uint64_t)k); (void)t; }
// One function at a time for many rounds: the pool gets by with the memory of the first rounds
static void rounds(int n, size_t th) { uint64_t half = 0; roundsum = 0; for(int i = 0; i < n; ++i) { if(i == n / 2) half = sim::live_bytes(); pool->AddFunc<void, int64_t, Tok*>(run_round, i, 0); pool->Wait(); }
  uint64_t b = sim::live_bytes(); SIM_CHECK(roundsum == (int64_t)n * (n - 1) / 2, "lost-task", "%d rounds of one function each added up to %lld", n, (long long)roundsum); SIM_CHECK(b <= half + (uint64_t)n / 2 * 8 + 1024 + 64 * th, "memory-grows", "%d rounds of one function each took another %llu bytes that never come back", n / 2, (unsigned long long)(b - half)); }
static void final_check() {
  sim::NoPreempt np;
  for(auto j : *jobs) if(j->begun != j->expect || j->done != j->expect) sim::fail("lost-task", "task #%lld was submitted for %d executions; %d started and %d completed by the time the pool was destroyed", (long long)j->id, j->expect, j->begun, j->done);
}
