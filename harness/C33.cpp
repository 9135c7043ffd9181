// C33: pools that one thread uses at a time give out exclusive, aligned, intact blocks through moves, clears, hand-overs and failing system memory.
#include "alloc_oracle.h"
#include "bss-util/bss_util.h"
#include "bss-util/Alloc.h"
#include "bss-util/BlockAlloc.h"
#include "bss-util/BlockAllocMT.h"
#include "bss-util/GreedyAlloc.h"
#include "bss-util/GreedyBlockAlloc.h"
#include "bss-util/CacheAlloc.h"
#include "bss-util/RingAlloc.h"
using namespace hx; using namespace bss;
extern "C" {
  const char* const harness_probes[] = { "block_pool", "block_policy", "block_policy_size", "greedy_block", "standard_allocator", "aligned_allocator", "lockless_block", "cache", "greedy", "ring", "handed_to_another_thread", "moved", "move_assigned", "move_assigned_over_live_blocks", "cleared", "freed_after_move", "null_under_fault", "recovered_after_fault", "reallocated", "reallocation_failed", "chunk_added", "reused", "first_chunk_failed", "used_after_move", "reused_after_clear", 0 };
  const char* const harness_real = "BlockAlloc, BlockPolicy, BlockPolicySize, GreedyBlockPolicy, StandardAllocator, aligned_realloc, LocklessBlockPolicy, CachePolicy, GreedyPolicy, RingAlloc";
  const char* const harness_stub = "thread scheduler, malloc/realloc/aligned_alloc/free (may fail)";
}
static AllocOracle* o; static int64_t nid; static bool faults; static int nthreads;
struct alignas(32) Wide { char c[32]; }; struct Odd { char c[24]; };
// What each pool offers: kind, biggest request, alignment, whether single blocks are reused at once
struct ABlock { static constexpr int K = 0; static constexpr bool CLR = true, ASG = true, RE = false, EX = true, USE = true; BlockAlloc a; size_t sz, al; ABlock(uint64_t s) : a(8 + s % 57, s / 64 % 5, s / 512 % 4 ? (size_t)8 << (s / 512 % 4) : 1), sz(8 + s % 57), al(s / 512 % 4 ? (size_t)8 << (s / 512 % 4) : 1) {}
  ABlock(ABlock&& m) : a(std::move(m.a)), sz(m.sz), al(m.al) {} void assign(ABlock& m) { a = std::move(m.a); }
  size_t size(uint64_t r) { return r % 3 ? sz : 1 + r / 3 % sz; } size_t align() { return al; } void* get(size_t n) { return n == sz ? a.Alloc() : a.Alloc(n, 1); } void put(void* p, size_t) { a.Dealloc(p); } void clear() { a.Clear(); } };
template<class T, int k> struct APol { static constexpr int K = k; static constexpr bool CLR = true, ASG = true, RE = false, EX = true, USE = true; BlockPolicy<T> a; APol(uint64_t s) : a(s % 12) {} APol(APol&& m) : a(std::move(m.a)) {} void assign(APol& m) { a = std::move(m.a); }
  size_t size(uint64_t) { return sizeof(T); } size_t align() { return alignof(T); } void* get(size_t) { return a.allocate(1); } void put(void* p, size_t) { a.deallocate((T*)p, 1); } void clear() { a.Clear(); } };
struct ASize { static constexpr int K = 2; static constexpr bool CLR = true, ASG = true, RE = false, EX = true, USE = true; BlockPolicySize<64, 32> a; ASize(uint64_t s) : a(s % 12) {} ASize(ASize&& m) : a(std::move(m.a)) {} void assign(ASize& m) { a = std::move(m.a); }
  size_t size(uint64_t r) { static const size_t n[] = { 32, 64, 24, 48, 1 }; return n[r % 5]; } size_t align() { return 32; }
  void* get(size_t n) { switch(n) { case 32: return a.allocate<Wide>(1); case 64: return a.allocate<Wide>(2); case 24: return a.allocate<Odd>(1); case 48: return a.allocate<Odd>(2); default: return a.allocate<char>(1); } } void put(void* p, size_t n) { if(n == 32) a.deallocate((Wide*)p); else a.deallocate((Odd*)p); } void clear() { a.Clear(); } };
template<class T> struct AGB { static constexpr int K = 3; static constexpr bool CLR = true, ASG = false, RE = false, EX = false, USE = false; GreedyBlockPolicy<T> a; AGB(uint64_t s) : a(s % 40) {} AGB(AGB&& m) : a(std::move(m.a)) {} void assign(AGB&) {}
  size_t size(uint64_t r) { return (1 + r % 9) * sizeof(T); } size_t align() { return alignof(T); } void* get(size_t n) { return a.allocate(n / sizeof(T)); } void put(void* p, size_t n) { a.deallocate(p, n / sizeof(T)); } void clear() { a.Clear(); } };
template<class T, int A, int k> struct AStd { static constexpr int K = k; static constexpr bool CLR = false, ASG = true, RE = true, EX = false, USE = true; StandardAllocator<T, A> a; AStd(uint64_t) {} AStd(AStd&& m) : a(m.a) {} void assign(AStd& m) { a = m.a; }
  size_t size(uint64_t r) { return (1 + r % 40) * sizeof(T); } size_t align() { return A ? A : 8; } void* get(size_t n) { return a.allocate(n / sizeof(T)); } void put(void* p, size_t n) { a.deallocate((T*)p, n / sizeof(T)); } void* re(void* p, size_t old, size_t n) { return a.allocate(n / sizeof(T), (T*)p, old / sizeof(T)); } void clear() {} };
template<class T> struct ALock { static constexpr int K = 6; static constexpr bool CLR = false, ASG = true, RE = false, EX = true, USE = false; LocklessBlockPolicy<T> a; ALock(uint64_t s) : a(1 + s % 12) {} ALock(ALock&& m) : a(std::move(m.a)) {} void assign(ALock& m) { a = std::move(m.a); }
  size_t size(uint64_t) { return sizeof(T); } size_t align() { return 8; } void* get(size_t) { return a.allocate(1); } void put(void* p, size_t) { a.deallocate((T*)p, 1); } void clear() {} };
struct ACache { static constexpr int K = 7; static constexpr bool CLR = false, ASG = true, RE = true, EX = false, USE = false; CachePolicy<Odd> a; ACache(uint64_t s) : a(200, s % 300, 8) {} ACache(ACache&& m) : a(std::move(m.a)) {} void assign(ACache& m) { a = std::move(m.a); }
  size_t size(uint64_t r) { return (1 + r % 12) * 24; } size_t align() { return 8; } void* get(size_t n) { return a.allocate(n / 24); } void put(void* p, size_t n) { a.deallocate((Odd*)p, n / 24); } void* re(void* p, size_t old, size_t n) { return a.allocate(n / 24, (Odd*)p, old / 24); } void clear() {} };
struct AGreedy { static constexpr int K = 8; static constexpr bool CLR = true, ASG = true, RE = true, EX = false, USE = false; GreedyPolicy<Odd> a; AGreedy(uint64_t s) : a(s % 300, 8) {} AGreedy(AGreedy&& m) : a(std::move(m.a)) {} void assign(AGreedy& m) { a = std::move(m.a); }
  size_t size(uint64_t r) { return (1 + r % 12) * 24; } size_t align() { return 8; } void* get(size_t n) { return a.allocate(n / 24); } void put(void* p, size_t n) { a.deallocate((Odd*)p, n / 24); } void* re(void* p, size_t old, size_t n) { return a.allocate(n / 24, (Odd*)p, old / 24); } void clear() { a.Clear(); } };
struct ARing { static constexpr int K = 9; static constexpr bool CLR = true, ASG = true, RE = false, EX = false, USE = false; RingAlloc<Odd> a; ARing(uint64_t s) : a(s % 300) {} ARing(ARing&& m) : a(std::move(m.a)) {} void assign(ARing& m) { a = std::move(m.a); }
  size_t size(uint64_t r) { return (1 + r % 12) * 24; } size_t align() { return 8; } void* get(size_t n) { return a.allocate(n / 24); } void put(void* p, size_t n) { a.deallocate((Odd*)p, n / 24); } void clear() { a.Clear(); } };
struct Box { virtual ~Box() {} virtual void step(const sim::Op& o) = 0; virtual void all() = 0; virtual void calm() = 0; };
static void* raw(size_t n, size_t al) { sim::NoPreempt np; return ::operator new(n, std::align_val_t(al)); } static void unraw(void* p, size_t al) { sim::NoPreempt np; ::operator delete(p, std::align_val_t(al)); }
template<class A> struct PBox : Box { A* a; uint64_t arg; std::vector<Block> b; size_t avail = 0; bool moved = false, nulled = false, usedup = false;
  static constexpr size_t AL = alignof(A) < 16 ? 16 : alignof(A);
  template<class X> static A* mk(X&& x) { void* p = raw(sizeof(A), AL); return new(p) A(std::forward<X>(x)); } static void rm(A* p) { p->~A(); unraw(p, AL); }
  PBox(uint64_t s) : arg(s) { a = mk(s); if constexpr(A::K == 0) if(!a->a.GetRoot()) sim::probe(22); }
  ~PBox() { { sim::NoPreempt np; o->verify_all("before a pool goes"); } if(!A::CLR) while(b.size()) drop(b.size() - 1); else forget(b); rm(a); }
  static void forget(std::vector<Block>& v) { sim::NoPreempt np; for(auto& x : v) { o->live.erase((uintptr_t)x.p); o->everfreed.insert((uintptr_t)x.p); } v.clear(); }
  bool keeps() { return A::K == 3 || A::K == 8; } // blocks stay as they are after they are returned
  void take(uint64_t r) { if(b.size() > 60) return; size_t n = a->size(r); uint64_t c = sim::code_allocs(); void* p = a->get(n); sim::NoPreempt np;
    if(!p) { SIM_CHECK(faults, "null", "a pool gave nothing although no allocation failed"); sim::probe(16); nulled = true; if(A::EX) SIM_CHECK(!avail, "null", "a pool with %zu free blocks gave nothing", avail); return; }
    if(nulled) { sim::probe(17); nulled = false; } if(nthreads == 1 && sim::code_allocs() != c) { sim::probe(20); if(A::EX) SIM_CHECK(!avail, "grows", "a pool with %zu free blocks took more memory", avail); }
    if(A::EX && avail) { --avail; sim::probe(21); } int64_t id = ++nid; o->got(p, n, id, a->align()); b.push_back(Block{ (unsigned char*)p, n, id, 0 }); }
  void drop(size_t k) { Block x = b[k]; if(moved) sim::probe(15); { sim::NoPreempt np; if(keeps()) o->verify(x, "at free"); else o->release(x); b.erase(b.begin() + k); ++avail; }  a->put(x.p, x.n); if(keeps()) { sim::NoPreempt np; o->verify(x, "after being returned to a pool that keeps it"); b.push_back(x); } }
  void all() { sim::NoPreempt np; for(auto& x : b) { SIM_CHECK(o->live.count((uintptr_t)x.p), "overlap", "a block is not live"); o->verify(x, "while held"); } }
  void calm() { size_t k = b.size(); take(arg); SIM_CHECK(b.size() == k + 1 || k > 60, "null", "a pool does not recover although memory is available again"); }
  // The same few blocks taken and cleared again and again end up in memory the pool already has
  void cycles(uint64_t r) { uint64_t grew = 0; for(int i = 0; i < 12; ++i) { uint64_t c = sim::code_allocs(); for(uint64_t k = 0; k < 1 + r / 3 % 6; ++k) { size_t n = a->size(r >> k); void* p = a->get(n); sim::NoPreempt np; SIM_CHECK(p, "null", "a pool gave nothing although no allocation failed"); int64_t id = ++nid; o->got(p, n, id, a->align()); b.push_back(Block{ (unsigned char*)p, n, id, 0 }); } if(i >= 8) grew += sim::code_allocs() - c; all(); forget(b); a->clear(); }
    SIM_CHECK(!grew, "reuse", "a pool that is cleared after every round still took new memory %d times in its last four rounds", (int)grew); sim::probe(24); }
  void step(const sim::Op& op) { sim::probe(A::K); uint64_t r = (uint64_t)op.a;
    switch(op.d % 16) { default: take(r); break; case 6: case 7: case 8: case 9: case 10: if(b.size()) drop(r % b.size()); break;
    case 11: if constexpr(A::CLR) { if(r % 3) break; forget(b); a->clear(); sim::probe(14); avail = 0; if(!faults && nthreads == 1) cycles(r); } break;
    case 12: { A* n = mk(std::move(*a)); sim::probe(11); if(A::USE && op.b % 4 == 0) { void* p = a->get(a->size(r)); if(p) { sim::NoPreempt np; Block x{ (unsigned char*)p, 1, ++nid, 0 }; o->got(p, 1, x.id, 1); o->release(x); } if(p) a->put(p, a->size(r)); sim::probe(23); } rm(a); a = n; moved = true; break; }
    case 13: case 14: if constexpr(A::ASG) { A* n = mk(arg); std::vector<Block> other; for(uint64_t k = r % 5; k--;) { size_t s = n->size(r); void* p = n->get(s); if(!p) break; sim::NoPreempt np; int64_t id = ++nid; o->got(p, s, id, n->align()); other.push_back(Block{ (unsigned char*)p, s, id, 0 }); } { sim::NoPreempt np; if(other.size()) sim::probe(13); }
        if(A::K == 4 || A::K == 5 || A::K == 7 || op.b % 2) { while(other.size()) { Block x; { sim::NoPreempt np; x = other.back(); other.pop_back(); o->release(x); } n->put(x.p, x.n); } } forget(other);
        n->assign(*a); sim::probe(12); if(op.b / 2 % 3 == 0) n->assign(*n); rm(a); a = n; moved = true; } break;
    case 15: if constexpr(A::RE) { if(b.empty()) break; size_t k = r % b.size(); Block x = b[k]; size_t n = a->size(r / 64); { sim::NoPreempt np; o->verify(x, "before it is reallocated"); o->live.erase((uintptr_t)x.p); } void* p = a->re(x.p, x.n, n); sim::NoPreempt np; sim::probe(18); if(!p) { SIM_CHECK(faults, "null", "a reallocation gave nothing although no allocation failed"); sim::probe(19); o->live[(uintptr_t)x.p] = x; o->verify(x, "after a reallocation that failed"); break; }
        for(size_t i = 0; i < std::min(n, x.n); ++i) SIM_CHECK(((unsigned char*)p)[i] == AllocOracle::pat(x.id, i), "corrupt", "byte %zu of a block of %zu bytes changed when it was made %zu", i, x.n, n); int64_t id = ++nid; o->got(p, n, id, a->align()); b[k] = Block{ (unsigned char*)p, n, id, 0 }; } break; } all(); } };
enum { STEP, SWAP };
static Box* own[8]; static Box* shelf;
template<class A> static Box* box(uint64_t s) { void* p = raw(sizeof(PBox<A>), 16); return new(p) PBox<A>(s); }
static Box* make(int k, uint64_t s) { switch(k) { case 0: case 1: return box<ABlock>(s); case 2: return box<APol<Odd, 1>>(s); case 3: return box<APol<Wide, 1>>(s); case 4: return box<ASize>(s); case 5: return box<AStd<Odd, 0, 4>>(s); case 6: return box<AStd<Wide, 32, 5>>(s); case 7: return box<AStd<int64_t, 64, 5>>(s);
  case 8: return box<AGB<Wide>>(s); case 9: return box<AGB<Odd>>(s); case 10: case 11: return box<ALock<Odd>>(s); case 12: case 13: return box<ACache>(s); case 14: return box<AGreedy>(s); default: return box<ARing>(s); } }
static void act(int a, const sim::Op& op) { { sim::NoPreempt np; sim::mix(sim::seq() * 31 + (uint64_t)a); } if(op.kind == SWAP) { Box* b; { sim::NoPreempt np; b = shelf; shelf = own[a]; own[a] = b; } sim::probe(10); own[a]->all(); return; } own[a]->step(op); }
void harness_generate(sim::Rng& r, sim::Plan& p) { int th = (int)r.range(1, 3), per = (int)r.range(4, r.chance(1, 3) ? 70 : 25); p.p[0] = th; p.p[1] = (int64_t)(r.next() >> 2);
#ifdef NDEBUG
  p.p[2] = r.chance(1, 2); // with assertions on, memory that runs out is an assertion
#endif
  p.p[3] = r.range(2, 12);
  for(int t = 0; t < th; ++t) for(int i = 0; i < per; ++i) { p.add(t, th > 1 && r.chance(1, 12) ? SWAP : STEP, (int64_t)(r.next() >> 8), (int64_t)(r.next() >> 8)); p.ops.back().d = (int64_t)r.below(16); } }
void harness_execute(const sim::Plan& p) { int th = nthreads = (int)p.p[0]; { sim::NoPreempt np; o = new AllocOracle; } nid = 0; faults = p.p[2] != 0; uint64_t k = (uint64_t)p.p[1]; LeakCheck lk;
  if(faults) { sim::enable(sim::F_ALLOC_FAIL); sim::alloc_fail_rate(1, (unsigned)p.p[3]); sim::alloc_faults(true); }
  for(int i = 0; i <= th; ++i) { Box* b = make((int)(k % (faults ? 8 : 16)), k / 16); if(i < th) own[i] = b; else shelf = b; k = k / 16 * 0x9e3779b97f4a7c15ull >> 3; }
  run_actors(p, th, act); if(faults) sim::alloc_faults(false); own[th] = shelf;
  for(int i = 0; i <= th; ++i) { own[i]->all(); own[i]->calm(); } for(int i = 0; i <= th; ++i) { own[i]->~Box(); unraw(own[i], 16); }
  lk.check("the pools"); }
