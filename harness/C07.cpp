// C07: RWLock mutual exclusion for every mix of Lock/RLock/Attempt*/Upgrade/Downgrade.
#include "rwlock_common.h"
extern "C" {
  const char* const harness_probes[] = { "concurrent_readers", "upgrade_contended", "attempt_write_refused", "attempt_strict_refused", "attempt_read_refused", "attempt_upgrade_refused", "upgrade_done", "attempt_upgrade_done", "crowd", 0 };
  const char* const harness_real = "RWLock (RWLock.h), asmbts (lockless.h)";
  const char* const harness_stub = "thread scheduler";
}
static int upgrading;
static void step(int, const sim::Op& op) {
  int n = (int)op.a;
  switch(op.kind) {
  case WRITE: lk->Lock(); enter_w("Lock"); wbody(n); leave_w(); lk->Unlock(); break;
  case READ: lk->RLock(); enter_r("RLock"); { sim::NoPreempt np; if(readers > 1) sim::probe(0); } rbody(n); leave_r(); lk->RUnlock(); break;
  case TRYWRITE: if(lk->AttemptLock()) { enter_w("AttemptLock"); wbody(n); leave_w(); lk->Unlock(); } else sim::probe(2); break;
  case TRYSTRICT: if(lk->AttemptStrictLock()) { enter_w("AttemptStrictLock"); wbody(n); leave_w(); lk->Unlock(); } else sim::probe(3); break;
  case TRYREAD: if(lk->AttemptRLock()) { enter_r("AttemptRLock"); rbody(n); leave_r(); lk->RUnlock(); } else sim::probe(4); break;
  case NOPS: { int k = 0; lk->RLock(); enter_r("RLock"); while(k < (int)op.b && lk->AttemptRLock()) { enter_r("AttemptRLock"); ++k; } if(k > 8) sim::probe(8); // many read locks at once
    rbody(n); { size_t c = lk->ReaderCount(); if(c < (size_t)k + 1) sim::fail("reader-count", "ReaderCount() is %zu while one thread alone holds %d read locks", c, k + 1); } for(; k >= 0; --k) { leave_r(); lk->RUnlock(); } break; }
  case UPGRADE:
    lk->RLock(); enter_r("RLock before Upgrade"); rbody(n); { sim::NoPreempt np; if(upgrading) sim::probe(1); ++upgrading; } leave_r();
    lk->Upgrade(); enter_w("Upgrade"); wbody(n); { sim::NoPreempt np; --upgrading; } { sim::NoPreempt np; leave_w(); enter_r("Downgrade"); }
    lk->Downgrade(); sim::probe(6); rbody(n); leave_r(); lk->RUnlock(); break;
  case TRYUPGRADE: {
    lk->RLock(); enter_r("RLock before AttemptUpgrade"); rbody(n); uint64_t before = cells[0]; leave_r();
    if(lk->AttemptUpgrade()) {
      enter_w("AttemptUpgrade");
      // the read lock was never released: nobody can have written since we read
      if(cells[0] != before) sim::fail("upgrade-gap", "the protected value changed from %llu to %llu between a read and its successful AttemptUpgrade", (unsigned long long)before, (unsigned long long)cells[0]);
      wbody(n); { sim::NoPreempt np; leave_w(); enter_r("Downgrade"); } lk->Downgrade(); sim::probe(7); rbody(n); leave_r(); lk->RUnlock();
    } else { sim::probe(5); lk->RUnlock(); }
    break; }
  }
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  int threads = (int)r.range(2, 5), per = (int)r.range(1, r.chance(1, 4) ? 20 : 6); p.p[0] = threads; bool crowd = r.chance(1, 10);
  int w[NOPS]; for(auto& x : w) x = (int)r.below(4); w[r.below(NOPS)] += 3; w[r.below(NOPS)] += 2;
  for(int t = 0; t < threads; ++t) for(int i = 0; i < per; ++i) p.add(t, (int)pickw(r, { w[0], w[1], w[2], w[3], w[4], w[5], w[6] }), r.below(5)); if(crowd) for(int i = 0; i < 3; ++i) { auto& o = p.ops[r.below(p.ops.size())]; o.kind = NOPS; o.b = r.chance(1, 3) ? r.range(100, 600) : r.range(5, 40); }
}
void harness_execute(const sim::Plan& p) {
  lk = new bss::RWLock; sim::set_limits(120000, 1200000);
  run_actors(p, (int)p.p[0], step);
  sim::NoPreempt np;
  for(auto c : cells) if(c != writes_done) sim::fail("lost-write", "%llu write sections ran but the protected counter is %llu", (unsigned long long)writes_done, (unsigned long long)c);
  delete lk;
}
