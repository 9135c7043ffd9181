// C14: HighPrecisionTimer measures exactly the time its clock has moved, never backwards, whatever the clocks do.
#include "common.h"
#include "bss-util/HighPrecisionTimer.h"
#include <time.h>
#include <math.h>
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "clock_back", "held_until_catchup", "wall_jump", "warped", "overridden", "long_span", "copied", "profiler", 0 };
  const char* const harness_real = "HighPrecisionTimer (HighPrecisionTimer.h/.cpp)";
  const char* const harness_stub = "clock_gettime for the monotonic, wall and CPU clocks";
  extern uint64_t (*sim_clock_hook)(int clk);
}
enum { ADV, BACK, WALL, UPDATE, WARP, OVERNS, OVERMS, RESETT, RESETD, COPY, PROF, CHECKPROF };
static uint64_t mono; static int64_t walloff; static uint64_t cpuoff;
static uint64_t clk(int id) { return id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? mono + (uint64_t)walloff : id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID ? mono - cpuoff : mono; }
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = r.chance(1, 3) ? r.range(2000000000ll, 100000000000ll) : r.range(1000000000000ll, 4000000000000000ll); // initial monotonic reading
  p.p[1] = r.range(-1000000000ll, 1700000000000000000ll);
  int n = (int)r.range(2, 24);
  for(int i = 0; i < n; ++i) {
    int k = (int)pickw(r, { 10, 4, 2, 10, 4, 2, 2, 1, 2, 1, 1, 2 });
    int64_t span = r.chance(1, 4) ? r.range(0, 3) : r.chance(1, 2) ? r.range(1, 40000000) : r.chance(1, 2) ? r.range(900000000, 1100000000) : r.chance(1, 3) ? r.range(1, 86400ll * 400) * 1000000000 + r.range(0, 999999999) : r.range(1, 5000000000ll);
    p.add(0, k, span, r.chance(1, 6) ? 64 : r.range(1, 400)); // b: warp in 1/64ths
    if((k == ADV || k == BACK || k == WALL) && r.chance(2, 3)) p.add(0, r.chance(3, 4) ? UPDATE : WARP, 0, r.range(1, 400));
  }
}
struct Model { uint64_t cur, t, d; double tol, dms; };
static bool near_(double a, double b, double slack) { return fabs(a - b) <= slack + 1e-9 * fabs(b); }
void harness_execute(const sim::Plan& p) {
  mono = (uint64_t)p.p[0]; walloff = p.p[1]; cpuoff = mono / 3; sim_clock_hook = clk;
  bss::HighPrecisionTimer* t = new bss::HighPrecisionTimer; Model m = { mono, 0, 0, 0, 0 };
  uint64_t prof = 0, profat = 0; bool hp = false; uint64_t prev = 0;
  for(auto& o : p.ops) {
    bool rst = false; double ret = -1; bool hasret = false;
    switch(o.kind) {
    case ADV: mono += (uint64_t)o.a; if(o.a > 86400ll * 1000000000) sim::probe(5); continue;
    case BACK: { uint64_t b = (uint64_t)o.a % (mono / 2); mono -= b; sim::note_fault(sim::F_CLOCK_BACK); sim::probe(0); hp = false; continue; } // the profiler difference has no meaning across it
    case WALL: walloff += (o.b & 1) ? o.a : -o.a; sim::note_fault(sim::F_CLOCK_FWD); sim::probe(2); continue;
    case UPDATE: case WARP: {
      double w = o.kind == UPDATE ? 1.0 : o.b / 64.0; uint64_t nw = mono < m.cur ? m.cur : mono; uint64_t d = nw - m.cur; if(mono < m.cur) sim::probe(1);
      ret = o.kind == UPDATE ? t->Update() : t->Update(w); hasret = true;
      m.dms = d / 1000000.0 / w; m.cur = nw;
      uint64_t nd = w == 1.0 ? d : (uint64_t)(d / w); uint64_t got = t->GetDeltaNS(); // rounding to whole nanoseconds is free, one nanosecond either way (and double precision on spans beyond 2^53)
      uint64_t slack = w == 1.0 ? 0 : 1 + (uint64_t)(d / w * 1e-15 * 4); if(w != 1.0) sim::probe(3);
      SIM_CHECK((got > nd ? got - nd : nd - got) <= slack, "delta", "%llu ns passed (warp %g) but the timer reports %llu ns", (unsigned long long)d, w, (unsigned long long)got);
      m.d = got; m.t += got; break; }
    case OVERNS: t->Override((uint64_t)o.a); m.cur = mono; m.d = (uint64_t)o.a; m.t += m.d; m.dms = o.a / 1000000.0; sim::probe(4); break;
    case OVERMS: { double ms = (double)(o.a % 5000000000ll) / 1024.0; t->Override(ms); m.cur = mono; uint64_t got = t->GetDeltaNS(); double e = ms * 1e6; SIM_CHECK(near_((double)got, e, 1.0), "delta", "override with %g ms gives %llu ns", ms, (unsigned long long)got); m.d = got; m.t += got; m.dms = ms; sim::probe(4); break; }
    case RESETT: t->ResetTime(); m.t = 0; rst = true; break;
    case RESETD: t->ResetDelta(); m.cur = mono; m.d = 0; m.dms = 0; break;
    case COPY: { bss::HighPrecisionTimer* c = new bss::HighPrecisionTimer(*t); delete t; t = c; sim::probe(6); break; }
    case PROF: prof = bss::HighPrecisionTimer::OpenProfiler(); profat = mono; hp = true; break;
    case CHECKPROF: if(hp) { uint64_t e = bss::HighPrecisionTimer::CloseProfiler(prof); SIM_CHECK(e == mono - profat, "profiler", "%llu ns passed since the profiler was opened but it reports %llu", (unsigned long long)(mono - profat), (unsigned long long)e); sim::probe(7); } break;
    }
    sim::seq(); sim::mix(m.t); sim::logf("op %d a=%lld: clock %llu -> delta %llu ns, time %llu ns", o.kind, (long long)o.a, (unsigned long long)mono, (unsigned long long)t->GetDeltaNS(), (unsigned long long)t->GetTimeNS());
    SIM_CHECK(t->GetDeltaNS() == m.d, "delta", "timer reports a delta of %llu ns instead of %llu", (unsigned long long)t->GetDeltaNS(), (unsigned long long)m.d);
    SIM_CHECK(t->GetTimeNS() == m.t, "time", "timer reports a total of %llu ns instead of %llu", (unsigned long long)t->GetTimeNS(), (unsigned long long)m.t);
    SIM_CHECK(rst || t->GetTimeNS() >= prev, "backwards", "time went backwards"); prev = t->GetTimeNS();
    SIM_CHECK(near_(t->GetDelta(), m.dms, 2e-6), "delta-ms", "delta is %.9g ms, expected %.9g", t->GetDelta(), m.dms);
    SIM_CHECK(near_(t->GetTime(), m.t / 1000000.0, 2e-6), "time-ms", "total is %.9g ms, expected %.9g", t->GetTime(), m.t / 1000000.0);
    SIM_CHECK(!hasret || near_(ret, m.dms, 2e-6), "delta-ret", "Update returned %.9g ms, expected %.9g", ret, m.dms);
  }
  sim_clock_hook = 0; delete t;
}
