// C01: MicroLockQueue is a linearizable multi-producer multi-consumer FIFO; elements are delivered exactly once, alive.
#include "common.h"
#include "bss-util/LocklessQueue.h"
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "pop_empty", "pop_hit", "pops_overlapping_push", "overlapping_pops", "long_runs", "queue_moved", 0 };
  const char* const harness_real = "MicroLockQueue, LocklessBlockPolicy/BlockPolicy node allocator, LQ_QNode (bss-util/LocklessQueue.h, BlockAllocMT.h, BlockAlloc.h, Alloc.h)";
  const char* const harness_stub = "thread scheduler, malloc/free";
}
enum { PUSH, POP, PUSHMOVE };
static const char* const names[] = { "push", "pop", "push" };
typedef bss::MicroLockQueue<Val, size_t> Q;
static Q* q; static History* h; static bool lin;

static void step(int actor, const sim::Op& op) {
  if(op.kind != POP) {
    Val v(op.a);
    int i = h->begin(actor, PUSH, op.a);
    if(op.kind == PUSH) q->Push((const Val&)v); else q->Push(std::move(v));
    h->end(i, 0);
    sim::logf("push %lld", (long long)op.a);
  } else {
    Val v;
    int i = h->begin(actor, POP, 0);
    bool ok = q->Pop(v);
    h->end(i, ok ? v.id : -1);
    sim::probe(ok ? 1 : 0);
    sim::logf("pop -> %lld", ok ? (long long)v.id : -1ll);
  }
}
// moves a queue at rest; how: 1 into a new one, 2 into one that holds items, 3 to itself
template<class X> static void relocate(X*& q, int64_t how) { if(how == 1) { X* n = new X(std::move(*q)); delete q; q = n; } else if(how == 2) { X* n = new X; n->Push(Val(7)); n->Push(Val(8)); Val v; n->Pop(v); *n = std::move(*q); delete q; q = n; } else if(how == 3) { X& same = *q; *q = std::move(same); } }
struct FifoState {
  std::vector<int> q;
  std::string key() const { return std::string((const char*)q.data(), q.size() * sizeof(int)); }
};
void harness_generate(sim::Rng& r, sim::Plan& p) {
  bool longrun = r.chance(1, 4);
  int threads = (int)r.range(2, longrun ? 6 : 4), per = longrun ? (int)r.range(6, 40) : (int)r.range(2, 28 / threads);
  int mode = (int)r.below(4); // mix
  p.p[0] = threads; p.p[1] = longrun; p.p[2] = r.below(4); p.p[3] = r.chance(1, 3) ? r.below(16) : 0; // prefill, moves
  int id = 1000;
  for(int t = 0; t < threads; ++t)
    for(int i = 0; i < per; ++i) {
      bool push = mode == 0 ? r.chance(1, 2) : mode == 1 ? t % 2 == 0 : mode == 2 ? r.chance(1, 3) : t == 0;
      p.add(t, push ? (r.chance(1, 2) ? PUSH : PUSHMOVE) : POP, push ? ++id : 0);
    }
}
void harness_execute(const sim::Plan& p) {
  sim::enable(sim::F_SPURIOUS_CAS);
  lin = !p.p[1];
  h = new History; h->ev.reserve(1024);
  int live0 = Val::live();
  q = new Q;
  std::vector<int> prefill;
  for(int i = 0; i < p.p[2]; ++i) { q->Push(Val(i + 1)); prefill.push_back(i + 1); }
  relocate(q, p.p[3] & 3); if(p.p[3]) sim::probe(5);
  run_actors(p, (int)p.p[0], step);
  relocate(q, p.p[3] >> 2);
  sim::NoPreempt np;
  size_t pushes = prefill.size(), pops = 0;
  std::map<int64_t, int> got; std::map<int64_t, int> pushed;
  for(int v : prefill) pushed[v] = 1;
  for(auto& e : h->ev) { if(e.kind == PUSH) { ++pushes; pushed[e.arg] = 1; } else if(e.res != -1) { ++pops; if(++got[e.res] > 1) sim::fail("duplicate", "value %lld was popped twice:%s", (long long)e.res, show(h->ev, names).c_str()); } }
  for(auto& g : got) if(!pushed.count(g.first)) sim::fail("invented", "popped value %lld was never pushed:%s", (long long)g.first, show(h->ev, names).c_str());
  fifo_order(h->ev, prefill, PUSH, POP, show(h->ev, names));
  if(lin) {
    FifoState s; s.q = prefill;
    bool ok = linearizable(h->ev, s, [](FifoState& st, const Ev& e) {
      if(e.kind == PUSH) { st.q.push_back((int)e.arg); return true; }
      if(e.res == -1) return st.q.empty();
      if(st.q.empty() || st.q.front() != e.res) return false;
      st.q.erase(st.q.begin()); return true;
    });
    if(!ok) sim::fail("not-linearizable", "no sequential FIFO order explains (prefilled 1..%d):%s", (int)prefill.size(), show(h->ev, names).c_str());
  } else {
    sim::probe(4);
    // each consumer sees every producer's values in order
    std::map<std::pair<int, int>, int64_t> last; std::map<int64_t, int> by;
    for(auto& e : h->ev) if(e.kind == PUSH) by[e.arg] = e.actor;
    for(auto& e : h->ev) if(e.kind == POP && e.res != -1 && by.count(e.res)) {
      auto k = std::make_pair(e.actor, by[e.res]);
      if(last.count(k) && last[k] > e.res) sim::fail("order", "consumer t%d received %lld after %lld although producer t%d pushed them the other way round", e.actor, (long long)e.res, (long long)last[k], k.second);
      last[k] = e.res;
    }
  }
  for(size_t i = 0; i < h->ev.size(); ++i) for(size_t j = i + 1; j < h->ev.size() && j < i + 6; ++j) if(h->ev[j].inv < h->ev[i].ret && h->ev[i].inv < h->ev[j].ret) { if(h->ev[i].kind == POP && h->ev[j].kind == POP) sim::probe(3); else if(h->ev[i].kind != h->ev[j].kind) sim::probe(2); }
  if(q->Length() != pushes - pops) sim::fail("length", "Length() is %zu after %zu pushes and %zu pops", (size_t)q->Length(), pushes, pops);
  if(q->Peek() != (pushes > pops)) sim::fail("peek", "Peek() is %d with %zu elements left", (int)q->Peek(), pushes - pops);
  // drain: everything that was pushed and not popped must still be there, once
  size_t drained = 0; Val v; int64_t prevby[64]; for(auto& x : prevby) x = -1;
  while(q->Pop(v)) { ++drained; if(++got[v.id] > 1 || !pushed.count(v.id)) sim::fail("duplicate", "value %lld comes out of the drain although it was already delivered or never pushed", (long long)v.id); if(drained > pushes) sim::fail("duplicate", "drain does not end"); }
  if(got.size() != pushed.size()) sim::fail("lost", "%zu values were pushed but only %zu ever came out:%s", pushed.size(), got.size(), show(h->ev, names).c_str());
  if(q->Length() != 0 || q->Peek()) sim::fail("length", "Length() is %zu, Peek() %d on a drained queue", (size_t)q->Length(), (int)q->Peek());
  { uint64_t b = 0; for(int i = 0; i < 220; ++i) { if(i == 20) b = sim::live_bytes(); q->Push(Val(i)); q->Pop(v); } if(sim::live_bytes() > b + 256) sim::fail("memory-grows", "200 rounds of one push and one pop took another %llu bytes", (unsigned long long)(sim::live_bytes() - b)); }
  v = Val();
  delete q;
  if(Val::live() != live0 + 1) sim::fail("element-leak", "%d elements are still alive after the queue was destroyed", Val::live() - live0 - 1);
}
