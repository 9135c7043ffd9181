// C06: CacheAlloc serves concurrent callers disjoint blocks of the requested size, intact until freed, and reuses freed ones.
#include "alloc_oracle.h"
#include "bss-util/CacheAlloc.h"
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "reused_block", "large_allocation", "freed_by_other_thread", "concurrent_first_use_of_a_size", "hash_growth", 0 };
  const char* const harness_real = "CacheAlloc, GreedyAlloc, Hash, RWLock (CacheAlloc.h, GreedyAlloc.h, Hash.h, RWLock.h)";
  const char* const harness_stub = "thread scheduler, malloc/aligned_alloc/free";
}
enum { ALLOC, FREE, GIVE, TAKEFREE, VERIFY };
static AllocOracle* o; static Holder hold[16]; static std::vector<Block>* exch; static int64_t nid; static bss::CacheAlloc* ca; static size_t maxsz, al;
static std::set<size_t>* seen; static std::map<size_t, std::set<void*>>* handed; static int inflight;
static void dofree(Block b) { o->release(b); { sim::NoPreempt np; ++inflight; } ca->Dealloc(b.p, b.n); sim::NoPreempt np; --inflight; }
static void step(int a, const sim::Op& op) {
  Holder& h = hold[a];
  switch(op.kind) {
  case ALLOC: { int64_t id; size_t n = (size_t)op.b; { sim::NoPreempt np; id = ++nid; if(n > maxsz) sim::probe(1); else if(seen->insert(n).second && inflight) sim::probe(3); ++inflight; } void* p = ca->Alloc(n); o->got(p, n, id, 1); sim::NoPreempt np; --inflight; if(n <= maxsz) (*handed)[n].insert(p); Block b = { (unsigned char*)p, n, id, a }; h.mine.push_back(b); break; }
  case FREE: { Block b; { sim::NoPreempt np; if(h.mine.empty()) return; size_t i = op.a % h.mine.size(); b = h.mine[i]; h.mine.erase(h.mine.begin() + i); } dofree(b); break; }
  case GIVE: { sim::NoPreempt np; if(h.mine.empty()) return; exch->push_back(h.mine.back()); h.mine.pop_back(); break; }
  case TAKEFREE: { Block b; { sim::NoPreempt np; if(exch->empty()) return; size_t i = op.a % exch->size(); b = (*exch)[i]; exch->erase(exch->begin() + i); sim::probe(2); } dofree(b); break; }
  case VERIFY: o->verify_all("during the run"); break;
  }
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  int threads = (int)r.range(2, 4), per = (int)r.range(2, r.chance(1, 3) ? 30 : 10);
  p.p[0] = threads; p.p[1] = r.chance(1, 2) ? 8192 : r.range(16, 128); p.p[2] = r.range(16, 200); p.p[3] = r.chance(1, 2) ? 16 : 8;
  int bias = (int)r.below(3), szmode = (int)r.below(3);
  for(int t = 0; t < threads; ++t) for(int i = 0; i < per; ++i) {
    int k = (int)(bias == 0 ? pickw(r, { 5, 5, 0, 0, 1 }) : bias == 1 ? pickw(r, { 5, 2, 2, 2, 0 }) : (i % 2 ? FREE : ALLOC));
    int64_t n = szmode == 0 ? 8 * r.range(1, 3) : szmode == 1 ? r.range(1, 40) : 8 * r.range(1, 20);
    p.add(t, k, r.below(8), n);
  }
}
void harness_execute(const sim::Plan& p) {
  o = new AllocOracle; exch = new std::vector<Block>; exch->reserve(256); seen = new std::set<size_t>; handed = new std::map<size_t, std::set<void*>>; for(auto& h : hold) h.mine.reserve(64);
  nid = 0; maxsz = (size_t)p.p[1]; al = (size_t)p.p[3]; inflight = 0;
  LeakCheck lk; ca = new bss::CacheAlloc(maxsz, (size_t)p.p[2], al);
  run_actors(p, (int)p.p[0], step);
  sim::NoPreempt np;
  o->verify_all("at quiescence");
  sim::probe(0, o->reused); if(seen->size() > 4) sim::probe(4);
  for(auto& h : hold) while(!h.mine.empty()) { Block b = h.mine.back(); h.mine.pop_back(); o->release(b); ca->Dealloc(b.p, b.n); }
  while(!exch->empty()) { Block b = exch->back(); exch->pop_back(); o->release(b); ca->Dealloc(b.p, b.n); }
  // every block ever handed out for a size is free now, so that many allocations of the size need no new block
  for(auto& f : *handed) {
    size_t want = f.second.size();
    for(size_t i = 0; i < want; ++i) {
      void* x = ca->Alloc(f.first); o->got(x, f.first, ++nid, 1);
      if(!f.second.count(x)) sim::fail("block-lost", "%zu blocks of %zu bytes have been handed out and all were freed, but allocation %zu of that size got a new block: a freed block was lost", want, f.first, i + 1);
    }
  }
  o->verify_all("after refill");
  for(auto& k : o->live) if(k.second.n > maxsz) ca->Dealloc(k.second.p, k.second.n);
  delete ca; lk.check("the allocator");
}
