// C04: RingAlloc (the thread pool's lockless ring allocator): exclusive, intact blocks; every call completes; buckets recycled.
#include "alloc_oracle.h"
#include "bss-util/RingAlloc.h"
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "reused_memory", "bucket_growth", "freed_by_other_thread", "clear_and_reuse", "all_free_instant", "fill_check", 0 };
  const char* const harness_real = "RingAllocVoid, its bucket recycling, RWLock, 16-byte CAS list (RingAlloc.h, RWLock.h, lockless.h, LLBase.h)";
  const char* const harness_stub = "thread scheduler, malloc/calloc/free";
}
enum { ALLOC, FREE, GIVE, TAKEFREE, VERIFY };
static AllocOracle* o; static Holder hold[16]; static std::vector<Block>* exch; static int64_t nid; static bss::RingAllocVoid* ra;
static void dofree(Block b) { o->release(b); ra->Dealloc(b.p); }
static void step(int a, const sim::Op& op) {
  Holder& h = hold[a];
  switch(op.kind) {
  case ALLOC: { int64_t id; { sim::NoPreempt np; id = ++nid; } size_t n = (size_t)op.b; void* p = ra->Alloc(n); o->got(p, n, id, 1); sim::NoPreempt np; Block b = { (unsigned char*)p, n, id, a }; h.mine.push_back(b); break; }
  case FREE: { Block b; { sim::NoPreempt np; if(h.mine.empty()) return; size_t i = op.a % h.mine.size(); b = h.mine[i]; h.mine.erase(h.mine.begin() + i); if(o->live.size() == 1) sim::probe(4); } dofree(b); break; }
  case GIVE: { sim::NoPreempt np; if(h.mine.empty()) return; exch->push_back(h.mine.back()); h.mine.pop_back(); break; }
  case TAKEFREE: { Block b; { sim::NoPreempt np; if(exch->empty()) return; size_t i = op.a % exch->size(); b = (*exch)[i]; exch->erase(exch->begin() + i); sim::probe(2); } dofree(b); break; }
  case VERIFY: o->verify_all("during the run"); break;
  }
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  int threads = (int)r.range(2, 4), per = (int)r.range(2, r.chance(1, 3) ? 30 : 10);
  p.p[0] = threads; p.p[1] = r.range(0, 200); // initial bucket size
  p.p[2] = r.chance(1, 3);                    // Clear() and a second phase
  p.p[3] = r.chance(1, 2) ? 0 : r.range(1, 300); // block size of the final fill
  int bias = (int)r.below(4), szmode = r.chance(1, 25) ? 4 : (int)r.below(4); int64_t fixed = r.range(1, 64);
  for(int ph = 0; ph < (p.p[2] ? 2 : 1); ++ph) for(int t = 0; t < threads; ++t) for(int i = 0; i < per; ++i) {
    int k = (int)(bias == 0 ? pickw(r, { 5, 5, 0, 0, 1 }) : bias == 1 ? pickw(r, { 5, 2, 2, 2, 0 }) : bias == 2 ? pickw(r, { 6, 3, 1, 1, 1 }) : (i % 2 ? FREE : ALLOC));
    int64_t n = szmode == 0 ? fixed : szmode == 1 ? r.range(0, 40) : szmode == 2 ? (r.chance(1, 6) ? r.range(200, 1200) : r.range(1, 32)) : szmode == 4 ? r.range(500, r.chance(1, 5) ? 40000 : 6000) : r.range(1, 300);
    p.add(ph * 16 + t, k, r.below(8), n);
  }
}
void harness_execute(const sim::Plan& p) {
  sim::set_limits(150000, 1500000);
  o = new AllocOracle; exch = new std::vector<Block>; exch->reserve(256); for(auto& h : hold) h.mine.reserve(64);
  nid = 0; uint64_t lb = 0; { sim::NoPreempt np; lb = sim::live_blocks(); }
  LeakCheck lk; ra = new bss::RingAllocVoid((size_t)p.p[1]);
  for(int ph = 0; ph < (p.p[2] ? 2 : 1); ++ph) {
    uint64_t c0 = sim::code_allocs();
    run_actors(p, (int)p.p[0], [](int a, const sim::Op& op) { step(a & 15, op); }, ph * 16);
    if(sim::code_allocs() > c0) sim::probe(1);
    o->verify_all("at quiescence");
    for(auto& h : hold) for(;;) { Block b; { sim::NoPreempt np; if(h.mine.empty()) break; b = h.mine.back(); h.mine.pop_back(); } dofree(b); }
    for(;;) { Block b; { sim::NoPreempt np; if(exch->empty()) break; b = exch->back(); exch->pop_back(); } dofree(b); }
    // still usable, at rest: alternating allocations and frees must not consume new memory for ever
    uint64_t allocs[3];
    for(int round = 0; round < 3; ++round) {
      uint64_t c = sim::code_allocs();
      for(int i = 0; i < 12; ++i) { sim::NoPreempt np; int64_t id = ++nid; void* x = ra->Alloc(24); o->got(x, 24, id, 1); Block b = { (unsigned char*)x, 24, id, 0 }; o->release(b); ra->Dealloc(x); }
      allocs[round] = sim::code_allocs() - c;
    }
    if(ph == 0 && p.p[2]) { ra->Clear(); sim::probe(3); sim::NoPreempt np; o->everfreed.clear(); }
  }
  sim::NoPreempt np;
  sim::probe(0, o->reused);
  // steady state: the same size over and over is served from recycled memory
  uint64_t c1 = sim::alloc_calls(); uint64_t growth = 0;
  for(int i = 0; i < 40; ++i) { uint64_t c = sim::alloc_calls(); void* x = ra->Alloc(24); growth += sim::alloc_calls() - c; ra->Dealloc(x); }
  (void)c1;
  // nothing lost: with every block returned, each bucket the allocator still holds must be handed out again before it asks the system for another
  std::vector<void*> got; std::set<const void*> used; bool grew = false; got.reserve(6000);
  size_t fill = 1 + (size_t)p.p[3]; if(fill < sim::live_bytes() / 2000) fill = sim::live_bytes() / 2000;
  for(int i = 0; i < 6000 && !grew; ++i) { uint64_t c = sim::alloc_calls(); got.push_back(ra->Alloc(fill)); grew = sim::alloc_calls() != c; } // the only allocations here are the allocator's own
  for(void* x : got) used.insert(sim::block_base(x));
  for(void* x : got) ra->Dealloc(x);
  uint64_t l0 = sim::live_blocks(), one;
  { ra->~RingAllocVoid(); one = l0 - sim::live_blocks(); operator delete(ra); ra = 0; lk.check("the allocator"); }
  if(grew && one != used.size()) sim::fail("bucket-lost", "every block was returned and yet %lld of the %lld buckets the allocator holds are never handed out again: they are lost until Clear()", (long long)(one - used.size()), (long long)one);
  if(grew) sim::probe(5);
}
