// C02: LocklessQueue is a single-producer single-consumer FIFO: exactly once, in order, elements alive, Length exact at rest.
#include "common.h"
#include "bss-util/LocklessQueue.h"
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "pop_empty", "pop_hit", "garbage_collected_nodes", "peek_true", "peek_false", "role_swapped", "second_queue_the_other_way", "queue_moved", 0 };
  const char* const harness_real = "LocklessQueue, default node allocator (LocklessQueue.h, BlockAlloc.h, BlockAllocMT.h)";
  const char* const harness_stub = "thread scheduler, malloc/free";
}
enum { PUSH, PUSHMOVE, POP, PEEKPOP, PEEK };
static const char* const names[] = { "push", "push", "pop", "peekpop", "peek" };
typedef bss::LocklessQueue<Val, size_t> Q;
static Q* qs[2]; static History* hs[2]; // a second queue of the same type goes the other way
static void step(int actor, const sim::Op& op) {
  Q* q = qs[op.b]; History* h = hs[op.b];
  switch(op.kind) {
  case PUSH: case PUSHMOVE: { Val v(op.a); int i = h->begin(actor, PUSH, op.a); if(op.kind == PUSH) q->Push((const Val&)v); else q->Push(std::move(v)); h->end(i, 0); break; }
  case POP: { Val v; int i = h->begin(actor, POP, 0); bool ok = q->Pop(v); h->end(i, ok ? v.id : -1); sim::probe(ok ? 1 : 0); break; }
  case PEEK: { int i = h->begin(actor, PEEK, 0); bool ok = q->Peek(); h->end(i, ok); sim::probe(ok ? 3 : 4); break; }
  case PEEKPOP: { // the consumer sees an element: it must then be able to take one
    int i = h->begin(actor, PEEK, 0); bool pk = q->Peek(); h->end(i, pk);
    if(!pk) { sim::probe(4); break; }
    sim::probe(3); Val v; i = h->begin(actor, POP, 0); bool ok = q->Pop(v); h->end(i, ok ? v.id : -1);
    SIM_CHECK(ok, "peek-lied", "Peek() told the only consumer that an element is available but Pop() found none");
    break; }
  }
}
// moves a queue at rest; how: 1 into a new one, 2 into one that holds items, 3 to itself
template<class X> static void relocate(X*& q, int64_t how) { if(how == 1) { X* n = new X(std::move(*q)); delete q; q = n; } else if(how == 2) { X* n = new X; n->Push(Val(7)); n->Push(Val(8)); Val v; n->Pop(v); *n = std::move(*q); delete q; q = n; } else if(how == 3) { X& same = *q; *q = std::move(same); } }
struct FifoState { std::vector<int> q; std::string key() const { return std::string((const char*)q.data(), q.size() * sizeof(int)); } };
void harness_generate(sim::Rng& r, sim::Plan& p) {
  bool big = r.chance(1, 3); int per = big ? (int)r.range(10, 60) : (int)r.range(2, 12);
  p.p[0] = r.below(4); p.p[1] = big; p.p[2] = r.chance(1, 3); // prefill, long, second phase with swapped threads
  p.p[4] = r.chance(1, 3) ? r.below(64) : 0; bool two = r.chance(1, 3); p.p[3] = two; int id = 1000, phases = p.p[2] ? 2 : 1;
  for(int ph = 0; ph < phases; ++ph) {
    for(int i = 0; i < per; ++i) p.add(ph * 2 + (ph ? 1 : 0), r.chance(1, 2) ? PUSH : PUSHMOVE, ++id);
    int pops = (int)r.range(per / 2, per + 3);
    for(int i = 0; i < pops; ++i) p.add(ph * 2 + (ph ? 0 : 1), (int)pickw(r, { 0, 0, 6, 2, 1 }));
    if(two) { size_t at = p.ops.size(); for(int i = 0; i < per; ++i) p.add(ph * 2 + (ph ? 0 : 1), r.chance(1, 2) ? PUSH : PUSHMOVE, ++id, 1); pops = (int)r.range(per / 2, per + 3); for(int i = 0; i < pops; ++i) p.add(ph * 2 + (ph ? 1 : 0), (int)pickw(r, { 0, 0, 6, 2, 1 }), 0, 1);
      for(; at < p.ops.size(); ++at) std::swap(p.ops[at], p.ops[r.below(at)]); }
  }
}
void harness_execute(const sim::Plan& p) {
  int live0 = Val::live(); for(int i = 0; i < 2; ++i) { hs[i] = new History; hs[i]->ev.reserve(1024); qs[i] = i && !p.p[3] ? 0 : new Q; }
  std::vector<int> pre; for(int i = 0; i < p.p[0]; ++i) { qs[0]->Push(Val(i + 1)); pre.push_back(i + 1); }
  if(p.p[4]) sim::probe(7); relocate(qs[0], p.p[4] & 3);
  run_actors(p, 2, step, 0); relocate(qs[0], p.p[4] >> 2 & 3); if(p.p[3]) relocate(qs[1], p.p[4] >> 4);
  if(p.p[2]) { sim::probe(5); run_actors(p, 2, step, 2); }
  sim::NoPreempt np; for(int qi = p.p[3] ? 1 : 0; qi >= 0; --qi) {
  Q* q = qs[qi]; History* h = hs[qi]; if(qi) sim::probe(6); std::vector<int> keep = pre; if(qi) pre.clear();
  std::vector<int64_t> in(pre.begin(), pre.end()), out;
  for(auto& e : h->ev) { if(e.kind == PUSH) in.push_back(e.arg); else if(e.kind == POP && e.res != -1) out.push_back(e.res); }
  for(size_t i = 0; i < out.size(); ++i) if(i >= in.size() || out[i] != in[i]) sim::fail("order", "pop number %zu returned %lld instead of %lld:%s", i, (long long)out[i], i < in.size() ? (long long)in[i] : -1ll, show(h->ev, names).c_str());
  fifo_order(h->ev, pre, PUSH, POP, show(h->ev, names));
  if(!p.p[1] && h->ev.size() <= 60) {
    FifoState s; s.q = pre;
    bool ok = linearizable(h->ev, s, [](FifoState& st, const Ev& e) {
      if(e.kind == PUSH) { st.q.push_back((int)e.arg); return true; }
      if(e.kind == PEEK) return (bool)e.res == !st.q.empty();
      if(e.res == -1) return st.q.empty();
      if(st.q.empty() || st.q.front() != e.res) return false;
      st.q.erase(st.q.begin()); return true;
    });
    if(!ok) sim::fail("not-linearizable", "no sequential FIFO order explains (prefilled 1..%d):%s", (int)pre.size(), show(h->ev, names).c_str());
  }
  if(q->Length() != in.size() - out.size()) sim::fail("length", "Length() is %zu after %zu pushes and %zu pops", (size_t)q->Length(), in.size(), out.size());
  // elements delivered or never pushed are gone: at rest at most one consumed node plus those the producer has not collected yet stays
  Val v; size_t k = out.size();
  while(q->Peek()) { if(!q->Pop(v)) sim::fail("peek-lied", "Peek() true but Pop() fails at rest"); if(k >= in.size() || v.id != in[k]) sim::fail("order", "drain returned %lld out of order", (long long)v.id); ++k; }
  if(q->Pop(v)) sim::fail("peek-lied", "Peek() false but Pop() succeeds at rest");
  if(k != in.size()) sim::fail("lost", "%zu values were pushed but only %zu came out", in.size(), k);
  if(q->Length() != 0) sim::fail("length", "Length() is %zu on a drained queue", (size_t)q->Length());
  if(qi) { pre = keep; v = Val(); delete q; continue; }
  // the producer reclaims consumed nodes on its next push: memory use stays bounded by what is queued
  q->Push(Val(5)); q->Pop(v); q->Push(Val(6));
  int inq = Val::live() - live0 - 1; // v itself is alive
  if(inq > 3) sim::fail("not-reclaimed", "%d element objects alive inside a queue holding 1 element", inq);
  sim::probe(2); q->Pop(v);
  { uint64_t b = 0; for(int i = 0; i < 220; ++i) { if(i == 20) b = sim::live_bytes(); q->Push(Val(i)); q->Pop(v); } if(sim::live_bytes() > b + 256) sim::fail("memory-grows", "200 rounds of one push and one pop took another %llu bytes", (unsigned long long)(sim::live_bytes() - b)); }
  v = Val(); delete q;
  if(Val::live() != live0 + 1) sim::fail("element-leak", "%d elements are still alive after the queue was destroyed", Val::live() - live0 - 1);
} }
