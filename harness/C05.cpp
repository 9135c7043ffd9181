// C05: GreedyAlloc hands out disjoint, aligned, intact regions to concurrent callers until Clear().
#include "alloc_oracle.h"
#include "bss-util/GreedyAlloc.h"
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "chunk_growth", "clear_between_phases", "dealloc_noop", "aligned_config", "reused_after_clear", 0 };
  const char* const harness_real = "GreedyAlloc, RWLock (GreedyAlloc.h, RWLock.h)";
  const char* const harness_stub = "thread scheduler, aligned_alloc/free";
}
enum { ALLOC, DEALLOC, VERIFY };
static AllocOracle* o; static Holder hold[16]; static int64_t nid; static bss::GreedyAlloc* ga; static size_t al;
static void step(int a, const sim::Op& op) {
  a &= 15;
  switch(op.kind) {
  case ALLOC: { int64_t id; { sim::NoPreempt np; id = ++nid; } size_t n = (size_t)op.b; void* p = ga->Alloc(n); o->got(p, n, id, al); sim::NoPreempt np; Block b = { (unsigned char*)p, n, id, a }; hold[a].mine.push_back(b); break; }
  case DEALLOC: { Block b; { sim::NoPreempt np; if(hold[a].mine.empty()) return; b = hold[a].mine[op.a % hold[a].mine.size()]; } ga->Dealloc(b.p); sim::probe(2); o->verify(b, "after Dealloc, which keeps the memory until Clear"); break; }
  case VERIFY: o->verify_all("during the run"); break;
  }
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  int threads = (int)r.range(2, 5), per = (int)r.range(2, r.chance(1, 3) ? 30 : 12), phases = (int)r.range(1, 3);
  p.p[0] = threads; p.p[1] = r.range(0, 160); p.p[2] = 1ll << r.below(6); p.p[3] = phases;
  if(p.p[2] > 1 && p.p[2] < 8) p.p[2] = 8; // aligned_alloc needs a multiple of the pointer size
  int szmode = (int)r.below(3);
  for(int ph = 0; ph < phases; ++ph) for(int t = 0; t < threads; ++t) for(int i = 0; i < per; ++i) p.add(ph * 16 + t, (int)pickw(r, { 12, 1, 1 }), r.below(8), szmode == 0 ? r.range(1, 40) : szmode == 1 ? (r.chance(1, 6) ? r.range(100, 900) : r.range(1, 16)) : 32);
}
void harness_execute(const sim::Plan& p) {
  o = new AllocOracle; for(auto& h : hold) h.mine.reserve(64); nid = 0; al = (size_t)p.p[2];
  LeakCheck lk; ga = new bss::GreedyAlloc((size_t)p.p[1], al); if(al > 1) sim::probe(3);
  for(int ph = 0; ph < p.p[3]; ++ph) {
    uint64_t c0 = sim::code_allocs();
    run_actors(p, (int)p.p[0], step, ph * 16);
    if(sim::code_allocs() > c0) sim::probe(0);
    o->verify_all("at quiescence");
    if(ph + 1 < p.p[3]) { { sim::NoPreempt np; for(auto& k : o->live) o->everfreed.insert(k.first); o->live.clear(); for(auto& h : hold) h.mine.clear(); } ga->Clear(); sim::probe(1); }
  }
  sim::probe(4, o->reused);
  { sim::NoPreempt np; o->live.clear(); for(auto& h : hold) h.mine.clear(); }
  // Clear keeps (at least) the memory: refilling what was in use before needs no more than it, one chunk at a time
  delete ga; lk.check("the allocator");
}
