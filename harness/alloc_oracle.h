// Oracle for allocators: live blocks are disjoint, lie in live heap memory and keep what their owner wrote.
#ifndef ALLOC_ORACLE_H
#define ALLOC_ORACLE_H
#include "common.h"
namespace hx {
  struct Block { unsigned char* p; size_t n; int64_t id; int owner; };
  struct AllocOracle {
    std::map<uintptr_t, Block> live; size_t peak; uint64_t total, reused; std::set<uintptr_t> everfreed;
    AllocOracle() : peak(0), total(0), reused(0) {}
    static unsigned char pat(int64_t id, size_t i) { return (unsigned char)(id * 131 + i * 29 + (i >> 8) * 7 + 17); }
    void got(void* v, size_t n, int64_t id, size_t align) {
      sim::NoPreempt np; unsigned char* p = (unsigned char*)v;
      sim::seq(); sim::mix((uintptr_t)v); sim::logf("alloc #%lld %zu bytes -> %p", (long long)id, n, v);
      if(!p) sim::fail("null", "allocation #%lld of %zu bytes returned null", (long long)id, n);
      if((uintptr_t)p % align) sim::fail("misaligned", "allocation #%lld at %p is not aligned to %zu", (long long)id, v, align);
      if(n && !sim::valid(p, n)) sim::fail("outside", "allocation #%lld (%zu bytes at %p) is not contained in memory the allocator owns", (long long)id, n, v);
      uintptr_t a = (uintptr_t)p, e = a + (n ? n : 1);
      auto it = live.lower_bound(a);
      const Block* clash = 0;
      if(it != live.end() && it->first < e) clash = &it->second;
      if(!clash && it != live.begin()) { --it; if(it->first + (it->second.n ? it->second.n : 1) > a) clash = &it->second; }
      if(clash) sim::fail("overlap", "allocation #%lld [%p,+%zu) handed to t%d overlaps live block #%lld [%p,+%zu) owned by t%d", (long long)id, v, n, sim::self(), (long long)clash->id, clash->p, clash->n, clash->owner);
      Block b = { p, n, id, sim::self() }; live[a] = b; ++total; if(live.size() > peak) peak = live.size(); if(everfreed.count(a)) ++reused;
      for(size_t i = 0; i < n; ++i) p[i] = pat(id, i);
    }
    void verify(const Block& b, const char* when) {
      sim::NoPreempt np;
      if(b.n && !sim::valid(b.p, b.n)) sim::fail("freed-under-owner", "block #%lld [%p,+%zu) is live but its memory was released to the system (%s)", (long long)b.id, b.p, b.n, when);
      for(size_t i = 0; i < b.n; ++i) if(b.p[i] != pat(b.id, i)) sim::fail("corrupt", "block #%lld [%p,+%zu) owned by t%d changed at byte %zu while live: %02x instead of %02x (%s)", (long long)b.id, b.p, b.n, b.owner, i, b.p[i], pat(b.id, i), when);
    }
    void release(const Block& b) { sim::NoPreempt np; verify(b, "at free"); live.erase((uintptr_t)b.p); everfreed.insert((uintptr_t)b.p); sim::seq(); sim::logf("free #%lld", (long long)b.id); }
    void verify_all(const char* when) { sim::NoPreempt np; for(auto& k : live) verify(k.second, when); }
  };
  // Blocks a thread holds, plus a shared exchange through which blocks change hands (freed by another thread).
  struct Holder { std::vector<Block> mine; };
}
#endif
