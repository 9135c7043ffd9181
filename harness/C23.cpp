// C23: an animation calls every keyframe exactly once per pass, in time order, however the time is cut into steps.
#include "common.h"
#include "bss-util/Serializer.h"
#include "bss-util/Animation.h"
#include <vector>
#include <algorithm>
#include <math.h>
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "several_in_one_step", "looped", "skipped_whole_loops", "rewound", "skipped_ahead", "interval_ended", "interval_ended_in_the_step_it_began", "overlapping_intervals", "ended", "same_time", "smooth_before_first", "smooth_after_last", "reset_while_active", "long_stall", "two_players_interleaved", 0 };
  const char* const harness_real = "Animation, AniData, AniDataInterval, AniDataSmooth, AniState and its tracks, PriorityQueue, BinaryHeap, ArraySort";
  const char* const harness_stub = "time (steps of any length, stalls, rewinds and skips), two players of one animation on simulated threads";
}
// All times are multiples of 1/64, exactly representable however they are summed.
enum { FD, FI, FS, REMOVE, STEP, RESET, SETTIME, AGAIN };
struct Frame { double t, len; int id; float v; };
struct Obj;
typedef bss::AniData<int> D; typedef bss::AniDataInterval<int> I; typedef bss::AniDataSmooth<float> S; typedef bss::Animation<D, I, S> Ani;
static std::vector<Frame> fd, fi, fs; static Ani* ani; static double len, loopat; static int active_players;
struct Obj {
  int who; std::vector<int> d, add, rem; std::vector<int> handle; std::vector<int> open; float f; int sets; // handle[h] = frame id; open[h]: 1 active, 0 removed
  void fired(int v) { sim::yield(); sim::NoPreempt np; sim::seq(); sim::mix(v); d.push_back(v); sim::logf("player %d: keyframe %d", who, v); }
  int begin(int v) { sim::yield(); sim::NoPreempt np; sim::seq(); sim::mix(v + 1000); add.push_back(v); handle.push_back(v); open.push_back(1); sim::logf("player %d: interval %d begins (handle %d)", who, v, (int)handle.size()); return (int)handle.size(); }
  void end(int h) {
    sim::yield(); sim::NoPreempt np; sim::seq(); sim::mix(h + 2000); sim::logf("player %d: handle %d ends", who, h);
    SIM_CHECK(h >= 1 && h <= (int)handle.size(), "unknown-end", "player %d is told to end an interval it never began (%d)", who, h);
    SIM_CHECK(open[h - 1], "ended-twice", "player %d: interval %d is ended twice", who, handle[h - 1]);
    open[h - 1] = 0; rem.push_back(handle[h - 1]);
  }
  void set(float v) { sim::yield(); sim::NoPreempt np; f = v; ++sets; sim::seq(); }
};
typedef bss::AniState<Obj, Ani, bss::AniStateDiscrete<Obj, D, int, &Obj::fired>, bss::AniStateInterval<Obj, I, int, int, &Obj::begin, &Obj::end>, bss::AniStateSmooth<Obj, S, float, &Obj::set>> State;
static const Frame& find(const std::vector<Frame>& f, int id) { for(auto& x : f) if(x.id == id) return x; sim::fail("unknown-value", "a callback got the value %d, which no keyframe has", id); static Frame n; return n; }

struct Player {
  Obj o; State* st; double t, init; std::vector<bool> dd, ii; std::vector<int> act; // model: what this pass has fired, which intervals are active
  void start(int who) { sim::NoPreempt np; o = Obj(); o.who = who; o.f = -12345; o.sets = 0; st = new State(&o, ani); t = 0; dd.assign(fd.size(), false); ii.assign(fi.size(), false); act.clear(); init = who ? 7.5f : -3.0f; st->SetValues(std::tuple<float>{ (float)init });
    SIM_CHECK(std::get<0>(st->GetValues()) == (float)init, "init", "the initial value is not the one that was set"); }
  void take() { o.d.clear(); o.add.clear(); o.rem.clear(); }
  // Advances the model to time to and appends what that fires.
  void advance(double to, std::vector<int>& d, std::vector<int>& a, std::vector<int>& r) {
    for(size_t i = 0; i < fd.size(); ++i) if(!dd[i] && fd[i].t <= to) { dd[i] = true; d.push_back(fd[i].id); }
    std::vector<int> began;
    for(size_t i = 0; i < fi.size(); ++i) if(!ii[i] && fi[i].t <= to) { ii[i] = true; a.push_back(fi[i].id); act.push_back(fi[i].id); began.push_back(fi[i].id); }
    if(act.size() > 1) sim::probe(7);
    std::stable_sort(act.begin(), act.end(), [](int x, int y) { const Frame& p = find(fi, x), &q = find(fi, y); return p.t + p.len < q.t + q.len; });
    while(!act.empty() && find(fi, act[0]).t + find(fi, act[0]).len <= to) { r.push_back(act[0]); sim::probe(5); if(std::find(began.begin(), began.end(), act[0]) != began.end()) sim::probe(6); act.erase(act.begin()); }
  }
  void clear(std::vector<int>& r) { if(!act.empty()) sim::probe(12); for(int x : act) r.push_back(x); act.clear(); dd.assign(fd.size(), false); ii.assign(fi.size(), false); }
  static std::string list(const std::vector<int>& v) { std::string s; for(int x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return s.empty() ? "nothing" : s; }
  // got must be want up to the order of entries with the same key (time); cuts: places where the order starts again
  void same(const char* what, const char* key, const std::vector<Frame>& f, const std::vector<int>& got, const std::vector<int>& want, const std::vector<size_t>& cuts, bool byend, double from) {
    SIM_CHECK(got.size() == want.size(), key, "player %d, step from %g to %g: %s should be %s but are %s", o.who, from, t, what, list(want).c_str(), list(got).c_str());
    size_t b = 0;
    for(size_t c = 0; c <= cuts.size(); ++c) {
      size_t e = c < cuts.size() ? cuts[c] : got.size(); bool any = byend && (c % 2) == 1; // every other part of the ends is a reset: any order
      std::vector<int> x(got.begin() + b, got.begin() + e), y(want.begin() + b, want.begin() + e);
      std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
      SIM_CHECK(x == y, key, "player %d, step from %g to %g: %s should be %s but are %s", o.who, from, t, what, list(want).c_str(), list(got).c_str());
      for(size_t i = b + 1; i < e && !any; ++i) { const Frame& p = find(f, got[i - 1]), &q = find(f, got[i]); double kp = p.t + (byend ? p.len : 0), kq = q.t + (byend ? q.len : 0);
        SIM_CHECK(kp <= kq, "order", "player %d, step from %g to %g: %s come in the order %s, %d (at %g) before %d (at %g)", o.who, from, t, what, list(got).c_str(), got[i - 1], kp, got[i], kq); }
      b = e;
    }
  }
  void smooth() {
    if(fs.empty()) { SIM_CHECK(o.sets == 0, "smooth", "a value is set although there are no keyframes for it"); return; }
    if(fs.size() == 1 && t >= fs[0].t) return; // a single keyframe that is over is left alone
    size_t c = 0; while(c < fs.size() && fs[c].t <= t) ++c;
    double want; if(c >= fs.size()) { want = fs.back().v; sim::probe(11); } else { if(!c) sim::probe(10); double h = c ? fs[c - 1].t : 0.0, a = c ? fs[c - 1].v : init; want = a + (fs[c].v - a) * (t - h) / (fs[c].t - h); }
    SIM_CHECK(fabs(o.f - want) < 1e-3, "smooth", "player %d at %g: the interpolated value is %g instead of %g", o.who, t, o.f, want);
  }
  void step(double delta) {
    double from; std::vector<int> d, a, r; std::vector<size_t> dc, ac, rc; bool over, moved = true;
    { sim::NoPreempt np; from = t; take(); over = t >= len && loopat < 0;
      if(over) { moved = false; sim::probe(8); }
      else {
        t += delta; advance(t, d, a, r); if(d.size() > 1) sim::probe(0); if(delta > 2 * len) sim::probe(13);
        if(t >= len && loopat >= 0) {
          rc.push_back(r.size()); clear(r); dc.push_back(d.size()); ac.push_back(a.size()); rc.push_back(r.size());
          if(t - len >= len - loopat) sim::probe(2);
          t = loopat + fmod(t - len, len - loopat); sim::probe(1); advance(t, d, a, r);
        }
      }
      if(++active_players > 1) sim::probe(14); }
    int sets = o.sets; bool more = st->Interpolate(delta);
    sim::NoPreempt np; --active_players;
    SIM_CHECK(st->GetTime() == t, "time", "player %d, step of %g from %g: the time is %g instead of %g", o.who, delta, from, st->GetTime(), t);
    SIM_CHECK(more == (t < len), "return", "player %d at %g of %g: Interpolate returns %d", o.who, t, len, (int)more);
    same("the keyframes", "keyframe", fd, o.d, d, dc, false, from); same("the intervals that begin", "interval-begin", fi, o.add, a, ac, false, from); same("the intervals that end", "interval-end", fi, o.rem, r, rc, true, from);
    if(moved) smooth(); else SIM_CHECK(o.sets == sets, "smooth", "a value is set after the end");
  }
  void reset(double to, bool really) { // Reset, or SetTime backwards, or destruction
    std::vector<int> r; { sim::NoPreempt np; take(); clear(r); t = to; }
    if(really) st->Reset();
    check_reset(r);
  }
  void check_reset(std::vector<int> r) {
    sim::NoPreempt np; SIM_CHECK(o.d.empty() && o.add.empty(), "keyframe", "going back fires keyframes");
    std::vector<int> x = o.rem; std::sort(x.begin(), x.end()); std::sort(r.begin(), r.end());
    SIM_CHECK(x == r, "interval-end", "player %d: going back ends the intervals %s instead of %s", o.who, list(x).c_str(), list(r).c_str());
  }
  void settime(double to) {
    std::vector<int> r; { sim::NoPreempt np; take(); if(t > to) { sim::probe(3); clear(r); } else sim::probe(4); t = to; }
    st->SetTime(to); check_reset(r);
    SIM_CHECK(st->GetTime() == to, "time", "after SetTime(%g) the time is %g", to, st->GetTime());
  }
  void stop() { std::vector<int> r; { sim::NoPreempt np; take(); clear(r); } delete st; st = 0; check_reset(r); sim::NoPreempt np; for(size_t i = 0; i < o.open.size(); ++i) SIM_CHECK(!o.open[i], "interval-end", "interval %d was never ended", o.handle[i]); }
};
static Player pl[2];
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = r.chance(1, 2) ? -1 : r.chance(1, 2) ? 0 : r.range(1, 1000); // where it loops to (scaled to the length), or not at all
  p.p[1] = r.chance(1, 3) ? r.range(1, 200) : 0; p.p[2] = r.chance(1, 3) ? r.range(1, 2) : 0; p.p[3] = r.below(5); p.p[4] = r.chance(1, 2); // extra length, frames given at once, how the animation is passed on, two players
  int span = r.chance(1, 3) ? 20 : r.chance(1, 3) ? 2000 : 200;
  int nf = (int)r.range(0, r.chance(1, 40) ? 200 : r.chance(1, 4) ? 40 : 12);
  for(int i = 0; i < nf; ++i) p.add(0, pickw(r, { 4, 5, 3, 1 }), r.chance(1, 6) ? 0 : r.range(0, span), r.chance(1, 8) ? 0 : r.range(0, r.chance(1, 3) ? 2 * span : span / 2 + 1), r.range(-500, 500));
  int n = (int)r.range(1, r.chance(1, 40) ? 200 : 40), big = r.chance(1, 4);
  for(int i = 0; i < n; ++i) {
    int k = STEP + (int)pickw(r, { 20, 1, 2, 1 });
    p.add((int)(p.p[4] ? r.below(2) : 0), k, k == STEP ? r.chance(1, 8) ? 0 : r.range(1, r.chance(big, 6) ? 6 * span + 1 : span / 4 + 2) : r.range(0, 1000));
  }
}
static void act(int who, const sim::Op& o) {
  if(o.kind < STEP) return;
  Player& q = pl[who];
  switch(o.kind) {
  case STEP: q.step((double)o.a / 64); break;
  case RESET: q.reset(0, true); break;
  case SETTIME: { double to = floor(len * 64 * (double)o.a / 1000) / 64; if(to < len) q.settime(to); break; }
  case AGAIN: q.stop(); q.start(who); break;
  }
}
void harness_execute(const sim::Plan& p) {
  fd.clear(); fi.clear(); fs.clear(); int id = 0; active_players = 0;
  Ani a0; bool bulk = p.p[2] != 0; std::set<int64_t> st;
  auto byt = [](const Frame& x, const Frame& y) { return x.t < y.t; };
  auto put = [&](std::vector<Frame>& v, Frame f) { for(auto& x : v) if(x.t == f.t) sim::probe(9); v.push_back(f); };
  for(auto& o : p.ops) {
    Frame f = { (double)o.a / 64, (double)o.b / 64, ++id, (float)o.c / 4 };
    switch(o.kind) {
    case FD: put(fd, f); if(!bulk) { if(o.b & 1) a0.Add<D>(f.t, f.id); else a0.Add<D>(D::FRAME{ f.t, f.id }); } break;
    case FI: put(fi, f); if(!bulk) a0.Add<I>(I::FRAME{ f.t, f.id, f.len }); break;
    case FS: if(!st.insert(o.a).second) break; fs.push_back(f); if(!bulk) a0.Add<S>(f.t, f.v); break;
    case REMOVE: if(!bulk && !fi.empty()) { auto fr = a0.Get<I>().Frames(); size_t at = (size_t)o.b % fr.length; int gone = fr[at].value; SIM_CHECK(a0.Remove<I>(at), "remove", "a keyframe cannot be removed"); for(size_t i = 0; i < fi.size(); ++i) if(fi[i].id == gone) { fi.erase(fi.begin() + i); break; } } break;
    }
  }
  std::stable_sort(fd.begin(), fd.end(), byt); std::stable_sort(fi.begin(), fi.end(), byt); std::stable_sort(fs.begin(), fs.end(), byt);
  if(bulk) {
    std::vector<D::FRAME> x; for(auto& f : fd) x.push_back(D::FRAME{ f.t, f.id }); std::vector<I::FRAME> y; for(auto& f : fi) y.push_back(I::FRAME{ f.t, f.id, f.len }); std::vector<S::FRAME> z; for(auto& f : fs) z.push_back(S::FRAME{ f.t, f.v });
    if(p.p[2] == 1) { a0.Set<D>(x.data(), x.size()); a0.Set<I>(y.data(), y.size()); a0.Set<S>(z.data(), z.size()); }
    else { a0.Get<D>() = D(x.data(), x.size()); a0.Get<I>() = I(y.data(), y.size()); a0.Get<S>() = S(z.data(), z.size()); a0.SetLength(); }
  }
  a0.Get<S>().SetInterpolation(&S::LerpInterpolate);
  len = 0; for(auto& f : fd) len = std::max(len, f.t); for(auto& f : fi) len = std::max(len, f.t + f.len); for(auto& f : fs) len = std::max(len, f.t);
  SIM_CHECK(a0.GetLength() == len, "length", "the length is %g instead of %g", a0.GetLength(), len);
  if(p.p[1]) { len += (double)p.p[1] / 64; a0.SetLength(len); SIM_CHECK(a0.GetLength() == len, "length", "the length is %g instead of %g", a0.GetLength(), len); }
  loopat = p.p[0] < 0 || len <= 0 ? -1 : floor(len * 64 * (double)p.p[0] / 1001) / 64; if(loopat >= 0) a0.SetLoop(loopat);
  Ani a1, *copy = 0;
  switch(p.p[3]) {
  case 1: ani = copy = new Ani(a0); break;
  case 2: ani = copy = new Ani(std::move(a0)); break;
  case 3: a1 = a0; ani = &a1; break;
  case 4: a1 = std::move(a0); ani = &a1; break;
  default: ani = &a0;
  }
  sim::set_limits(3000000, 6000000);
  for(int i = 0; i < 1 + (p.p[4] != 0); ++i) pl[i].start(i);
  if(p.p[4]) run_actors(p, 2, act); else for(auto& o : p.ops) act(0, o);
  for(int i = 0; i < 1 + (p.p[4] != 0); ++i) { if(loopat < 0) pl[i].step(2 * len + 1); pl[i].stop(); }
  delete copy;
}
