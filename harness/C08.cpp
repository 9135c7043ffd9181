// C08: RWLock progress: every request is granted once the others let go; Attempts tell the truth; the lock ends free.
#include "rwlock_common.h"
extern "C" {
  const char* const harness_probes[] = { "uncontended_attempt_granted", "attempt_refused_with_contender", "upgrade", "free_at_end", 0 };
  const char* const harness_real = "RWLock (RWLock.h), asmbts (lockless.h)";
  const char* const harness_stub = "thread scheduler";
}
static int excl;   // threads inside any call or section that may hold or request exclusive access
static int any;    // threads inside any call or section
static uint64_t excl_seen, any_seen; // bumped whenever such a thread begins: detects overlap with an attempt
struct In { bool x; In(bool exclusive) : x(exclusive) { sim::NoPreempt np; ++any; ++any_seen; if(x) { ++excl; ++excl_seen; } sim::seq(); } ~In() { sim::NoPreempt np; --any; if(x) --excl; sim::seq(); } };
static void step(int, const sim::Op& op) {
  int n = (int)op.a;
  switch(op.kind) {
  case WRITE: { In in(true); lk->Lock(); wbody(n); lk->Unlock(); break; }
  case READ: { In in(false); lk->RLock(); rbody(n); lk->RUnlock(); break; }
  case UPGRADE: { In in(true); lk->RLock(); rbody(n); lk->Upgrade(); wbody(n); lk->Downgrade(); rbody(n); lk->RUnlock(); sim::probe(2); break; }
  case TRYWRITE: { // may only be refused because of another writer
    bool clean; uint64_t s; { sim::NoPreempt np; clean = excl == 0; s = excl_seen; } In in(true); { sim::NoPreempt np; ++s; }
    bool ok = lk->AttemptLock(); { sim::NoPreempt np; clean = clean && s == excl_seen; }
    if(!ok && clean) sim::fail("attempt-refused", "AttemptLock failed although no other thread held or requested exclusive access at any time during the call");
    sim::probe(ok ? 0 : 1); if(ok) { wbody(n); lk->Unlock(); } break; }
  case TRYSTRICT: {
    bool clean; uint64_t s; { sim::NoPreempt np; clean = any == 0; s = any_seen; } In in(true); { sim::NoPreempt np; ++s; }
    bool ok = lk->AttemptStrictLock(); { sim::NoPreempt np; clean = clean && s == any_seen; }
    if(!ok && clean) sim::fail("attempt-refused", "AttemptStrictLock failed although no other thread used the lock during the call");
    sim::probe(ok ? 0 : 1); if(ok) { wbody(n); lk->Unlock(); } break; }
  case TRYREAD: {
    bool clean; uint64_t s; { sim::NoPreempt np; clean = excl == 0; s = excl_seen; } In in(false);
    bool ok = lk->AttemptRLock(); { sim::NoPreempt np; clean = clean && s == excl_seen; }
    if(!ok && clean) sim::fail("attempt-refused", "AttemptRLock failed although no other thread held or requested exclusive access at any time during the call");
    sim::probe(ok ? 0 : 1); if(ok) { rbody(n); lk->RUnlock(); } break; }
  case TRYUPGRADE: {
    bool clean; uint64_t s; { sim::NoPreempt np; clean = excl == 0; s = excl_seen; } In in(true); { sim::NoPreempt np; ++s; }
    lk->RLock(); rbody(n); bool ok = lk->AttemptUpgrade(); { sim::NoPreempt np; clean = clean && s == excl_seen; }
    if(!ok && clean) sim::fail("attempt-refused", "AttemptUpgrade failed although no other thread held or requested exclusive access at any time since before the read lock was taken");
    sim::probe(ok ? 0 : 1); if(ok) { wbody(n); lk->Downgrade(); } lk->RUnlock(); break; }
  }
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  int threads = (int)r.range(1, 5), per = (int)r.range(1, r.chance(1, 4) ? 20 : 6); p.p[0] = threads;
  int w[NOPS]; for(auto& x : w) x = (int)r.below(4); w[r.below(NOPS)] += 3; w[r.below(NOPS)] += 2;
  for(int t = 0; t < threads; ++t) for(int i = 0; i < per; ++i) p.add(t, (int)pickw(r, { w[0], w[1], w[2], w[3], w[4], w[5], w[6] }), r.below(5));
}
void harness_execute(const sim::Plan& p) {
  lk = new bss::RWLock; sim::set_limits(100000, 1000000);
  { sim::NoPreempt np; if(!lk->IsFree()) sim::fail("not-free", "a new lock is not free"); }
  run_actors(p, (int)p.p[0], step);
  sim::NoPreempt np;
  if(!lk->IsFree()) sim::fail("not-free", "every section was left but the lock does not report free");
  if(lk->ReaderCount() != 0) sim::fail("not-free", "every section was left but ReaderCount() is %zu", lk->ReaderCount());
  // and it still works, in every way
  lk->RLock(); lk->RLock(); if(lk->ReaderCount() != 2 || lk->IsFree()) sim::fail("readercount", "two readers inside, ReaderCount() %zu, IsFree() %d", lk->ReaderCount(), (int)lk->IsFree());
  if(lk->AttemptStrictLock()) sim::fail("exclusion", "AttemptStrictLock succeeded with two readers inside");
  lk->RUnlock(); if(!lk->AttemptUpgrade()) sim::fail("attempt-refused", "AttemptUpgrade by the only reader of an idle lock failed");
  if(lk->AttemptRLock() || lk->AttemptLock() || lk->AttemptStrictLock()) sim::fail("exclusion", "an Attempt succeeded against an upgraded lock");
  lk->Downgrade(); lk->RUnlock(); if(!lk->AttemptLock()) sim::fail("attempt-refused", "AttemptLock on an idle lock failed");
  if(lk->AttemptRLock() || lk->AttemptLock() || lk->AttemptStrictLock()) sim::fail("exclusion", "an Attempt succeeded against a write-locked lock");
  lk->Unlock(); if(!lk->AttemptStrictLock()) sim::fail("attempt-refused", "AttemptStrictLock on an idle lock failed"); lk->Unlock();
  if(!lk->AttemptRLock()) sim::fail("attempt-refused", "AttemptRLock on an idle lock failed"); lk->RUnlock();
  if(!lk->IsFree()) sim::fail("not-free", "lock not free after the final round");
  sim::probe(3); delete lk;
}
