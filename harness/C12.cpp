// C12: Thread::join(timeout): waits at most the timeout, at least until thread end or timeout, tells which, and leaves the right state.
#include "common.h"
#include "bss-util/Thread.h"
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "timed_out", "joined", "try_join_busy", "try_join_done", "nanosecond_carry", "destructor_joined", "joined_after_timeout", "moved", 0 };
  const char* const harness_real = "Thread (Thread.h), std::thread";
  const char* const harness_stub = "thread scheduler, pthread_create/join/timedjoin_np/tryjoin_np (glibc 2.39 behaviour), real-time clock";
}
enum { JOIN, JOINFULL, MOVE, SLEEP, YIELD, TRYJOIN };
struct W { uint64_t sleepns; int work; bool done; uint64_t done_at; int fiber; int cookie; };
static void worker(W* w, int cookie) {
  w->fiber = sim::self();
  for(int i = 0; i < w->work; ++i) sim::yield();
  if(w->sleepns) sim::sleep(w->sleepns);
  sim::NoPreempt np; if(cookie != w->cookie) sim::fail("arguments", "thread body received %d instead of %d", cookie, w->cookie);
  w->done = true; w->done_at = sim::now(); sim::seq(); sim::logf("worker done");
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.range(0, 3000000000ll) : r.range(0, 20000000);  // worker sleep ns
  p.p[1] = r.below(6); p.p[2] = r.chance(1, 2) ? r.range(0, 999999999) : 999999999 - r.range(0, 5000000); p.p[3] = r.chance(1, 2); // wall-clock phase
  p.p[4] = r.chance(1, 3); // a coarse clock: it stands still while code runs, so deadlines can fall on whole seconds exactly
  int n = (int)r.range(1, 5);
  for(int i = 0; i < n; ++i) {
    int k = (int)pickw(r, { 6, 1, 1, 2, 1, 3 });
    int64_t ms = r.chance(1, 3) ? r.range(1, 20) : r.chance(1, 2) ? r.range(1, 999) : r.chance(1, 2) ? r.range(900, 5000) : 1000 * r.range(1, 3);
    p.add(0, k, k == SLEEP ? r.range(0, 2000000000ll) : ms, r.chance(1, 2), r.range(-1, 1));
  }
}
void harness_execute(const sim::Plan& p) {
  sim::jump_wall(p.p[2] - (int64_t)((sim::now() + (uint64_t)sim::wall_offset()) % 1000000000ull));
  if(p.p[4]) sim::set_tick(0);
  W* w = (W*)malloc(sizeof(W)); *w = W{ (uint64_t)p.p[0], (int)p.p[1], false, 0, -1, 4711 };
  {
    bss::Thread th(worker, w, 4711); bool joined = false, everto = false;
    for(auto& o : p.ops) {
      if(joined) break;
      switch(o.kind) {
      case JOIN: case TRYJOIN: {
        size_t ms = o.kind == TRYJOIN ? 0 : (size_t)o.a; uint64_t t0 = sim::now(), pt0 = sim::points(); bool fin = w->fiber >= 0 && sim::finished(w->fiber);
        if(p.p[4] && o.b && ms % 1000) sim::jump_wall(1000000000ll - (int64_t)(ms % 1000) * 1000000 + o.c - (int64_t)((sim::now() + (uint64_t)sim::wall_offset()) % 1000000000ull));
        if(((sim::now() + sim::wall_offset()) % 1000000000ull) + (ms % 1000) * 1000000 >= 1000000000ull) sim::probe(4);
        size_t rv = th.join(ms);
        sim::NoPreempt np; uint64_t t1 = sim::now(), slack = (sim::points() - pt0 + 20) * 128 + 1000; sim::seq(); sim::mix(rv); sim::logf("join(%zu) = %zd after %llu ns", ms, (ssize_t)rv, (unsigned long long)(t1 - t0));
        if(t1 - t0 > ms * 1000000ull + slack && !(ms == 0 && false)) sim::fail("late", "join(%zu ms) returned only after %.3f ms%s", ms, (t1 - t0) / 1e6, rv == (size_t)~0 ? " with a timeout" : "");
        if(rv == (size_t)~0) {
          everto = true; sim::probe(ms ? 0 : 2);
          if(ms && t1 - t0 < ms * 1000000ull) sim::fail("early", "join(%zu ms) reported a timeout after only %.6f ms", ms, (t1 - t0) / 1e6);
          if(fin) sim::fail("false-timeout", "join(%zu ms) reported failure although the thread had already ended before the call", ms);
          if(ms && w->done && w->done_at + slack < t0 + ms * 1000000ull) sim::fail("false-timeout", "join(%zu ms) reported a timeout although the thread ended %.3f ms into it", ms, ((double)w->done_at - (double)t0) / 1e6);
          if(!th.joinable()) sim::fail("state", "a timed-out join left the thread not joinable");
        } else {
          if(!w->done) sim::fail("false-join", "join(%zu ms) reported success (%zu) while the thread is still running", ms, rv);
          if(th.joinable()) sim::fail("state", "a successful join left the thread joinable");
          joined = true; sim::probe(ms ? 1 : 3); if(everto) sim::probe(6);
        }
        break; }
      case JOINFULL: th.join(); { sim::NoPreempt np; sim::seq(); if(!w->done) sim::fail("false-join", "join() returned while the thread is still running"); if(th.joinable()) sim::fail("state", "join() left the thread joinable"); joined = true; if(everto) sim::probe(6); } break;
      case MOVE: { bss::Thread t2(std::move(th)); SIM_CHECK(!th.joinable() && t2.joinable(), "state", "moving a running thread did not transfer it"); th = std::move(t2); SIM_CHECK(th.joinable() && !t2.joinable(), "state", "move-assigning a running thread did not transfer it"); sim::probe(7); break; }
      case SLEEP: sim::sleep((uint64_t)o.a); break;
      default: sim::yield();
      }
    }
    if(joined) { size_t rv = th.join(5); SIM_CHECK(rv == (size_t)~0, "state", "joining an already joined thread returned %zu", rv); }
    else sim::probe(5);
  } // the destructor joins
  SIM_CHECK(w->done, "destructor", "the Thread object was destroyed while its thread is still running");
  SIM_CHECK(sim::alive() == 0, "destructor", "a thread outlives its Thread object");
}
