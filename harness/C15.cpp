// C15: Scheduler fires every event when due, never early, in due order, once per due time; events may add events.
#include "common.h"
#include "bss-util/Scheduler.h"
#include <functional>
#include <time.h>
#include <map>
#include <vector>
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "fired", "rescheduled", "added_in_callback", "update_when_empty", "several_due", "clock_back", "late_update", "added_and_due_in_callback", "long_uptime", 0 };
  const char* const harness_real = "Scheduler, BinaryHeap, DynArray, HighPrecisionTimer";
  const char* const harness_stub = "monotonic clock";
  extern uint64_t (*sim_clock_hook)(int clk);
}
// All times are multiples of a quarter millisecond, exactly representable however they are summed.
enum { ADV, BACK, ADD, UPDATE, LENGTH };
static const int64_t Q = 250000; static uint64_t mono, start, hw; // hw: highest reading the scheduler has sampled
static uint64_t clk(int) { return mono; }
static double model_ms() { return (hw - start) / 1000000.0; }
struct Event { double due; int kind; int times; double interval; bool done; int id; uint64_t child; Event(): done(false) {} };
struct World { std::vector<Event*> evs; bool inupdate; double last; int firedthis; int budget; };
static World* w; typedef bss::Scheduler<std::function<double()>> S; static S* s;
static void add(double t, int times, double interval, uint64_t child);
static double fire(int id, Val v) {
  double ret; uint64_t child = 0;
  { sim::NoPreempt np; sim::seq();
    if(v.id != id) sim::fail("wrong-event", "event %d fired with the state of another or of a destroyed event", id);
    Event* e = w->evs[id]; double now = model_ms();
    sim::logf("event %d (due %.2f) fires at %.2f", id, e->due, now);
    if(!w->inupdate) sim::fail("outside", "event %d fired outside of Update", id);
    if(e->done) sim::fail("again", "event %d fired after it asked to be removed", id);
    if(e->due > now) sim::fail("early", "event %d due at %.2f ms fired at %.2f ms", id, e->due, now);
    for(auto x : w->evs) if(!x->done && x->due < e->due) sim::fail("order", "event %d (due %.2f) fired before event %d (due %.2f)", id, e->due, x->id, x->due);
    sim::probe(0); if(++w->firedthis > 1) sim::probe(4); if(now > e->due) sim::probe(6);
    if(--e->times <= 0) { e->done = true; ret = 0.0; } else { e->due = now + e->interval; ret = e->interval; sim::probe(1); }
    child = e->child; e->child = 0;
  }
  if(child) { int n = (int)(child & 7); for(int i = 0; i < n; ++i) { sim::probe(2); double t = (double)((child >> (8 + 6 * i)) & 31) * 0.25; if(t == 0) sim::probe(7); add(t, 1 + (int)((child >> 3) & 1), 0.25 * (1 + (double)((child >> 4) & 15)), 0); } }
  return ret;
}
static void add(double t, int times, double interval, uint64_t child) {
  int id; { sim::NoPreempt np; Event* e = new Event; e->due = model_ms() + t; e->times = times; e->interval = interval; e->child = child; e->id = id = (int)w->evs.size(); w->evs.push_back(e); sim::logf("add event %d due %.2f", id, e->due); }
  Val v(id); s->Add(t, [id, v]() -> double { return fire(id, v); });
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = r.range(1, 4000000000ll); p.p[1] = r.chance(1, 3) ? (int64_t)(r.next() >> r.range(27, 55)) : 0; bool crowd = r.chance(1, 3);
  int n = (int)r.range(1, crowd ? 60 : 16); if(r.chance(1, 40)) for(int i = (int)r.range(100, 500); i--;) p.add(0, ADD, r.range(0, 4000), r.chance(1, 5) ? 2 : 1, r.range(1, 60), 0);
  for(int i = 0; i < n; ++i) {
    int k = (int)pickw(r, { 5, 1, crowd ? 12 : 5, 6, 2 });
    if(k == ADD) p.add(0, k, r.chance(1, 4) ? 0 : r.range(0, r.chance(1, 4) ? 4000 : 40), r.chance(1, 3) ? r.range(2, 5) : 1, r.range(1, 60), r.chance(1, 3) ? (int64_t)(r.next() & 0x3fffffffffffull & ~7ull) | r.range(1, 5) : 0);
    else p.add(0, k, k == BACK ? r.range(1, 4000) : r.chance(1, 5) ? 0 : r.range(1, r.chance(1, 5) ? 4000 : 60));
  }
}
void harness_execute(const sim::Plan& p) {
  mono = start = hw = (uint64_t)p.p[0] * Q; sim_clock_hook = clk;
  w = new World; w->inupdate = false; w->evs.reserve(4096); s = new S; sim::set_limits(2000000, 6000000);
  auto pending = [&]() { size_t n = 0; for(auto e : w->evs) n += !e->done; return n; };
  auto update = [&]() {
    { sim::NoPreempt np; if(mono > hw) hw = mono; w->firedthis = 0; if(!pending()) sim::probe(3); }
    w->inupdate = true; s->Update(); w->inupdate = false;
    for(auto e : w->evs) if(!e->done && e->due <= model_ms()) sim::fail("missed", "event %d was due at %.2f ms but Update at %.2f ms returned without firing it", e->id, e->due, model_ms());
    SIM_CHECK((size_t)s->Length() == pending(), "length", "Length() is %zu with %zu events pending", (size_t)s->Length(), pending());
  };
  if(p.p[1]) { mono += (uint64_t)p.p[1] * Q; update(); sim::probe(8); }
  for(auto& o : p.ops) {
    switch(o.kind) {
    case ADV: mono += (uint64_t)o.a * Q; break;
    case BACK: if(mono - start > (uint64_t)o.a * Q) { mono -= (uint64_t)o.a * Q; sim::note_fault(sim::F_CLOCK_BACK); sim::probe(5); } break;
    case ADD: add((double)o.a * 0.25, (int)o.b, (double)o.c * 0.25, (uint64_t)o.d); break;
    case UPDATE: update(); break;
    case LENGTH: SIM_CHECK((size_t)s->Length() == pending(), "length", "Length() is %zu with %zu events pending", (size_t)s->Length(), pending()); break;
    }
    sim::mix(mono);
  }
  // everything that was asked for comes to an end once the clock runs on
  for(int i = 0; i < 400 && pending(); ++i) { mono += 4100 * (uint64_t)Q; update(); }
  SIM_CHECK(pending() == 0, "missed", "%zu events never fired", pending());
  delete s; SIM_CHECK(Val::live() == 0, "leak", "%d event states were never destroyed", Val::live());
  sim_clock_hook = 0;
}
