// C13: Semaphore: a Wait that succeeds consumes exactly one Notify; no notification is lost or invented, even under EINTR.
#include "common.h"
#include "bss-util/Thread.h"
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "interrupted_wait", "wait_before_notify", "wait_after_notify", "batch_notify", "refused_notify", 0 };
  const char* const harness_real = "Semaphore (Thread.h)";
  const char* const harness_stub = "thread scheduler, sem_wait/sem_post (EINTR and EOVERFLOW injected)";
}
enum { WAIT, NOTIFY }; extern "C" int64_t sem_posts, sem_refused[64];
static bss::Semaphore* s; static int64_t posted_begun, posted_done, taken, trying;
static void step(int, const sim::Op& op) {
  if(op.kind == NOTIFY) for(int64_t n = op.a;;) { // a refused batch may be delivered in part; it is sent again as a whole
    int64_t &ref = sem_refused[sim::self() & 63], before; { sim::NoPreempt np; posted_begun += n; before = ref; sim::seq(); } bool ok = n == 1 && op.b ? s->Notify() : s->Notify((size_t)n); if(n > 1) sim::probe(3); sim::NoPreempt np; sim::seq();
    if(ok != (ref == before)) sim::fail("notify-failed", "Notify(%lld) reported %s although the system %s a post", (long long)n, ok ? "success" : "failure", ref == before ? "refused no" : "refused");
    if(ok) { posted_done += n; return; } sim::probe(4);
  }
  for(int tries = 0;; ++tries) { // as every caller must: an interrupted wait took nothing and is repeated
    bool pending; { sim::NoPreempt np; pending = posted_done > taken; ++trying; }
    bool ok = s->Wait();
    sim::NoPreempt np; --trying; sim::seq(); sim::logf("wait -> %d", (int)ok);
    if(ok) { sim::probe(pending ? 2 : 1); if(++taken > posted_begun) sim::fail("invented", "%lld waits succeeded with only %lld notifications ever issued", (long long)taken, (long long)posted_begun); return; }
    sim::probe(0);
  }
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  int threads = (int)r.range(2, 5); p.p[0] = threads; int64_t tokens = 0, waits = 0;
  for(int t = 0; t < threads; ++t) { int n = (int)r.range(1, 6); for(int i = 0; i < n; ++i) { if(t && r.chance(1, 2)) { p.add(t, WAIT); ++waits; } else { int64_t k = r.chance(1, 2) ? 1 : r.chance(1, 40) ? r.range(50, 400) : r.range(0, 4); p.add(t, NOTIFY, k, r.below(2)); tokens += k; } } }
  p.p[1] = r.chance(2, 3); p.p[2] = r.chance(1, 3);
}
static int64_t left, drained;
static void drain(void*) { for(;;) if(s->Wait()) { sim::NoPreempt np; if(++drained > left) sim::fail("invented", "more waits succeed than notifications were issued"); } }
void harness_execute(const sim::Plan& p) {
  if(p.p[1]) sim::enable(sim::F_EINTR); if(p.p[2]) sim::enable(sim::F_SEM_FULL); sem_posts = 0;
  s = new bss::Semaphore; posted_begun = posted_done = taken = trying = 0;
  int64_t tokens = 0, waits = 0; for(auto& o : p.ops) { if(o.kind == WAIT) ++waits; else tokens += o.a; }
  // a last thread supplies what is missing, so that every wait must eventually succeed
  sim::Plan* q = new sim::Plan(p); int64_t extra = waits; q->add((int)p.p[0], NOTIFY, extra);
  run_actors(*q, (int)p.p[0] + 1, step);
  SIM_CHECK(taken == waits, "lost", "%lld of %lld waits succeeded", (long long)taken, (long long)waits);
  // what is left can be taken, and no more: a further thread drains it and then stays blocked
  left = (p.p[2] && sem_posts ? sem_posts : tokens + extra) - waits; drained = 0;
  int d = sim::spawn(drain, 0); sim::set_daemon(d);
  for(int i = 0; i < 60 && drained < left; ++i) sim::sleep(1000000); // it runs while this thread sleeps
  sim::sleep(1000000);
  SIM_CHECK(drained == left, "lost", "%lld notifications are unconsumed but only %lld further waits succeed", (long long)left, (long long)drained);
}
