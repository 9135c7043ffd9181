// Helpers shared by the harnesses: actors, operation histories, linearizability check, tracked values.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <stdlib.h>
#include <string.h>
#include <memory>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include "sim.h"

namespace hx {
  typedef void (*ActorFn)(int actor, const sim::Op& op);
  struct Actor { const sim::Plan* plan; int id; ActorFn fn; int fiber; };
  // Leaves junk where the next call's locals will be, so that reading an uninitialised one shows
  __attribute__((noinline)) inline void litter(unsigned char v) { sim::NoPreempt np; char b[6000]; memset(b, v, sizeof b); __asm__ volatile("" ::"r"(b) : "memory"); }
  inline void actor_main(void* p) {
    Actor* a = (Actor*)p;
    for(size_t i = 0;; ++i) {
      const sim::Op* o = 0;
      { sim::NoPreempt np; while(i < a->plan->ops.size() && a->plan->ops[i].actor != a->id) ++i; if(i < a->plan->ops.size()) o = &a->plan->ops[i]; }
      if(!o) break;
      sim::yield();
      litter((unsigned char)(i & 1 ? 0xa5 : 0xff));
      a->fn(a->id, *o);
    }
  }
  // Runs actors first..first+n-1 of the plan as simulated threads and joins them all.
  inline void run_actors(const sim::Plan& plan, int n, ActorFn fn, int first = 0) {
    static Actor acts[64];
    for(int i = 0; i < n; ++i) { acts[i].plan = &plan; acts[i].id = first + i; acts[i].fn = fn; acts[i].fiber = sim::spawn(actor_main, &acts[i]); }
    for(int i = 0; i < n; ++i) sim::join(acts[i].fiber);
  }

  struct Ev { int actor, kind; int64_t arg, res; uint64_t inv, ret; };
  struct History {
    std::vector<Ev> ev;
    int begin(int actor, int kind, int64_t arg) { sim::NoPreempt np; Ev e = { actor, kind, arg, 0, 0, ~0ull }; e.inv = sim::seq(); ev.push_back(e); return (int)ev.size() - 1; }
    void end(int i, int64_t res) { sim::NoPreempt np; ev[i].res = res; ev[i].ret = sim::seq(); sim::mix((uint64_t)res); }
  };
  inline std::string show(const std::vector<Ev>& ev, const char* const* names) {
    std::string s; char b[128];
    for(auto& e : ev) { snprintf(b, sizeof b, " [t%d %s(%lld)=%lld @%llu-%lld]", e.actor, names[e.kind], (long long)e.arg, (long long)e.res, (unsigned long long)e.inv, e.ret == ~0ull ? -1ll : (long long)e.ret); s += b; }
    return s;
  }

  // Wing & Gong search with memoisation. Model: State must be copyable and hashable through key();
  // bool apply(State&, const Ev&) performs the operation and says whether the recorded result fits.
  // Operations that never returned (ret == ~0) may take effect or not.
  template<class State, class Apply>
  bool linearizable(const std::vector<Ev>& ev, State init, Apply apply, uint64_t budget = 150000) {
    sim::NoPreempt np;
    size_t n = ev.size(); if(n > 62) sim::harness_error("history too long for the linearizability check");
    struct Frame { uint64_t done; State st; size_t next; };
    std::set<std::pair<uint64_t, std::string>> seen;
    std::vector<Frame> stack; stack.push_back(Frame{ 0, init, 0 });
    uint64_t must = 0; for(size_t i = 0; i < n; ++i) if(ev[i].ret != ~0ull) must |= 1ull << i;
    uint64_t steps = 0;
    while(!stack.empty()) {
      Frame& f = stack.back();
      if((f.done & must) == must) return true;
      if(++steps > budget) return true; // give up: not a violation
      uint64_t minret = ~0ull;
      for(size_t i = 0; i < n; ++i) if(!(f.done >> i & 1) && ev[i].ret < minret) minret = ev[i].ret;
      bool pushed = false;
      for(size_t i = f.next; i < n; ++i) {
        if((f.done >> i & 1) || ev[i].inv > minret) continue;
        State s = f.st;
        if(!apply(s, ev[i])) continue;
        uint64_t d = f.done | 1ull << i;
        if(!seen.insert(std::make_pair(d, s.key())).second) continue;
        f.next = i + 1; stack.push_back(Frame{ d, s, 0 }); pushed = true; break;
      }
      if(!pushed) stack.pop_back();
    }
    return false;
  }

  // A value that knows whether it is alive; catches reads of destroyed or never-constructed elements and leaks.
  struct Val {
    static int& live() { static int n = 0; return n; }
    enum { ALIVE = 0x600D600D, MOVED = 0x60D60D60, DEAD = 0x0DEAD0DE };
    int64_t id; unsigned tag; int* heap;
    Val() : id(-1), tag(ALIVE), heap(0) { sim::NoPreempt np; ++live(); }
    explicit Val(int64_t i) : id(i), tag(ALIVE), heap(0) { sim::NoPreempt np; heap = (int*)malloc(sizeof(int)); *heap = (int)i; ++live(); }
    Val(const Val& o) : id(-1), tag(ALIVE), heap(0) { sim::yield(); sim::NoPreempt np; o.check("copied"); id = o.id; if(o.heap) { heap = (int*)malloc(sizeof(int)); *heap = *o.heap; } ++live(); }
    Val(Val&& o) : id(-1), tag(ALIVE), heap(0) { sim::yield(); sim::NoPreempt np; o.check("moved"); id = o.id; heap = o.heap; o.heap = 0; o.id = -2; ++live(); }
    ~Val() { sim::yield(); sim::NoPreempt np; check("destroyed"); if(heap) { if(*heap != (int)id) sim::fail("corrupt-value", "element %lld carries payload %d", (long long)id, *heap); free(heap); } tag = DEAD; heap = 0; --live(); }
    Val& operator=(const Val& o) { sim::yield(); sim::NoPreempt np; check("assigned to"); o.check("copied"); if(heap) free(heap); heap = 0; id = o.id; if(o.heap) { heap = (int*)malloc(sizeof(int)); *heap = *o.heap; } return *this; }
    Val& operator=(Val&& o) { sim::yield(); sim::NoPreempt np; check("assigned to"); o.check("moved"); if(&o == this) return *this; if(heap) free(heap); heap = o.heap; id = o.id; o.heap = 0; o.id = -2; return *this; }
    void check(const char* w) const { if(tag != ALIVE) sim::fail("dead-element", "an element that is not alive is %s (tag %x)", w, tag); }
  };

  // Everything the code under test allocated between construction of this and check() is released again.
  // Orders no FIFO queue of distinct values allows, decided exactly and in polynomial time: of two values pushed one after the other the second one comes out first (or alone), or a pop finds nothing although a value was inside all the time.
  inline void fifo_order(const std::vector<Ev>& ev, const std::vector<int>& prefill, int push, int pop, const std::string& shown) {
    sim::NoPreempt np; struct V { uint64_t pi, pr, oi, oo; }; std::map<int64_t, V> m; std::vector<const Ev*> miss;
    uint64_t k = 0; const uint64_t BASE = prefill.size() + 1; for(int v : prefill) { m[v] = V{ k, k, ~0ull, ~0ull }; ++k; }
    for(auto& e : ev) if(e.kind == push) m[e.arg] = V{ e.inv + BASE, e.ret == ~0ull ? ~0ull : e.ret + BASE, ~0ull, ~0ull };
    for(auto& e : ev) if(e.kind == pop) { if(e.res == -1) miss.push_back(&e); else if(m.count(e.res)) { m[e.res].oi = e.inv + BASE; m[e.res].oo = e.ret + BASE; } }
    for(auto& a : m) for(auto& b : m) if(a.second.pr < b.second.pi && b.second.oo != ~0ull && b.second.oo < a.second.oi) sim::fail("order", "value %lld was pushed before %lld, which came out first:%s", (long long)a.first, (long long)b.first, shown.c_str());
    for(auto e : miss) for(auto& a : m) if(a.second.pr < e->inv + BASE && a.second.oi > e->ret + BASE) sim::fail("lost", "a pop found nothing although value %lld was inside all the time:%s", (long long)a.first, shown.c_str());
  }
  struct LeakCheck {
    uint64_t at; LeakCheck() : at(sim::code_live()) {}
    void check(const char* what) { sim::NoPreempt np; uint64_t n = sim::code_live(); if(n > at) sim::fail("leak", "%llu heap blocks are still allocated after %s was destroyed", (unsigned long long)(n - at), what); }
  };
  inline int64_t pickw(sim::Rng& r, std::initializer_list<int> w) { int t = 0; for(int x : w) t += x; int64_t v = (int64_t)r.below(t); int i = 0; for(int x : w) { if(v < x) return i; v -= x; ++i; } return 0; }
}
#endif
