// C03: LocklessBlockPolicy hands every block to one owner at a time and never loses one.
#include "alloc_oracle.h"
#include "bss-util/BlockAllocMT.h"
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "reused_block", "chunk_growth", "no_growth_runs", "freed_by_other_thread", "drained_to_capacity", "growth_watched", 0 };
  const char* const harness_real = "LocklessBlockPolicy (BlockAllocMT.h), asmcasr 16-byte compare-exchange (lockless.h)";
  const char* const harness_stub = "thread scheduler, malloc/free";
}
enum { ALLOC, FREE, GIVE, TAKEFREE, VERIFY };
struct El { uint64_t w[3]; };
struct El8 { uint64_t w; };
struct El40 { uint64_t w[5]; };
static AllocOracle* o; static Holder hold[16]; static std::vector<Block>* exch; static int64_t nid; static size_t claimed, maxclaim; static bool nogrow; static size_t elsz, elal;
static void* palloc; static void* (*al)(void*); static void (*de)(void*, void*);
template<class T> static void* t_al(void* p) { return ((bss::LocklessBlockPolicy<T>*)p)->allocate(1); }
template<class T> static void t_de(void* p, void* x) { ((bss::LocklessBlockPolicy<T>*)p)->deallocate((T*)x, 1); }

static size_t cap0; static bool just[16]; static int who[64]; // just: since this thread's request began there was a moment at which no block was free
static void dofree(Block b) {
  o->release(b);
  de(palloc, b.p);
  sim::NoPreempt np; --claimed;
}
static void step(int a, const sim::Op& op) {
  Holder& h = hold[a];
  switch(op.kind) {
  case ALLOC: {
    int64_t id; { sim::NoPreempt np; if(nogrow && claimed >= maxclaim) return; ++claimed; id = ++nid; who[sim::self() % 64] = a; just[a] = false; if(claimed > cap0) for(auto& j : just) j = true; }
    void* p = al(palloc);
    o->got(p, elsz, id, 1);
    { sim::NoPreempt np; Block b = { (unsigned char*)p, elsz, id, a }; h.mine.push_back(b); }
    break; }
  case FREE: { Block b; { sim::NoPreempt np; if(h.mine.empty()) return; size_t i = op.a % h.mine.size(); b = h.mine[i]; h.mine.erase(h.mine.begin() + i); } dofree(b); break; }
  case GIVE: { sim::NoPreempt np; if(h.mine.empty()) return; exch->push_back(h.mine.back()); h.mine.pop_back(); break; }
  case TAKEFREE: { Block b; { sim::NoPreempt np; if(exch->empty()) return; size_t i = op.a % exch->size(); b = (*exch)[i]; exch->erase(exch->begin() + i); sim::probe(3); } dofree(b); break; }
  case VERIFY: o->verify_all("during the run"); break;
  }
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  int threads = (int)r.range(2, 5), per = (int)r.range(3, r.chance(1, 4) ? 40 : 14);
  p.p[0] = threads; p.p[1] = r.chance(1, 2);             // no-growth mode
  p.p[2] = p.p[1] ? threads + r.range(0, 4) : r.range(1, 6); // initial blocks
  p.p[3] = r.below(3);                                    // element size
  int bias = (int)r.below(3); if(r.chance(1, 30)) { bias = 3; per = (int)r.range(60, 110); if(p.p[1]) p.p[2] = r.range(threads, 250); else p.p[2] = r.range(1, 130); }
  for(int t = 0; t < threads; ++t) for(int i = 0; i < per; ++i) {
    int k = (int)(bias == 0 ? pickw(r, { 5, 5, 0, 0, 1 }) : bias == 3 ? pickw(r, { 30, 3, 1, 1, 0 }) : bias == 1 ? pickw(r, { 5, 2, 2, 2, 0 }) : pickw(r, { 6, 3, 1, 1, 1 }));
    p.add(t, k, r.below(8));
  }
}
// A pool may only ask for memory when every block it has is in use or on its way to or from a user. The blocks in a new chunk are counted low.
static void grows(size_t n) { sim::NoPreempt np; if(!just[who[sim::self() % 64]]) sim::fail("block-lost", "the pool asked for another %zu bytes although never since its last growth and since this request began were all of its %zu blocks in use or in transit", n, cap0); size_t h = elsz < 16 ? 64 : 16; if(n > h) cap0 += (n - h) / elsz; for(auto& j : just) j = claimed > cap0; sim::probe(5); }
template<class T> static void body(const sim::Plan& p) {
  size_t init = (size_t)p.p[2];
  LeakCheck lk; auto* pol = new bss::LocklessBlockPolicy<T>(init);
  palloc = pol; al = t_al<T>; de = t_de<T>; elsz = sizeof(T);
  uint64_t c0 = sim::code_allocs();
  cap0 = init; if(!nogrow) sim::watch_allocs(grows);
  run_actors(p, (int)p.p[0], step);
  sim::watch_allocs(0); sim::NoPreempt np;
  if(nogrow && sim::code_allocs() != c0) sim::fail("block-lost", "the pool of %zu blocks asked the system for more memory although at most %zu blocks were ever in use or in transit", init, maxclaim);
  o->verify_all("at quiescence");
  sim::probe(0, o->reused);
  size_t cap = o->peak > init ? o->peak : init;
  for(auto& h : hold) while(!h.mine.empty()) { Block b = h.mine.back(); h.mine.pop_back(); o->release(b); pol->deallocate((T*)b.p, 1); }
  while(!exch->empty()) { Block b = exch->back(); exch->pop_back(); o->release(b); pol->deallocate((T*)b.p, 1); }
  // conservation: everything that ever was available at the same time is still available, without new memory
  std::vector<void*> got; got.reserve(cap + 8); 
  std::set<void*> uniq;
  for(size_t i = 0; i < cap; ++i) {
    uint64_t c = sim::alloc_calls();
    T* x = pol->allocate(1);
    if(sim::alloc_calls() != c) sim::fail("block-lost", "%zu blocks were available before, all are free again, but after handing out %zu the allocator asks the system for more memory", cap, i);
    got.push_back(x); o->got(x, sizeof(T), 100000 + (int64_t)i, 1);
  }
  sim::probe(4);
  if(p.p[1]) sim::probe(2); else if(o->peak > init) sim::probe(1);
  o->verify_all("after refill");
  delete pol; lk.check("the pool");
}
void harness_execute(const sim::Plan& p) {
  sim::watch_allocs(0); o = new AllocOracle; exch = new std::vector<Block>; exch->reserve(256); for(auto& h : hold) h.mine.reserve(64);
  nid = 0; claimed = 0; nogrow = p.p[1] != 0; maxclaim = (size_t)p.p[2];
  if(p.p[3] == 0) body<El8>(p); else if(p.p[3] == 1) body<El>(p); else body<El40>(p);
}
