// C24: the profiler attributes exactly the time that passed to each call path, and its reports say so.
#include "common.h"
#include "bss-util/Profiler.h"
#include <sstream>
#include <vector>
#include <map>
#include <math.h>
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "nested", "recursion", "many_zones", "same_zone_on_several_paths", "report_with_open_zones", "report_without_zones", "no_time_passed", "nanoseconds", "microseconds", "milliseconds", "seconds", "never_run_zone", "zone_created_late", 0 };
  const char* const harness_real = "Profiler, ProfilerBlock, HighPrecisionTimer, ArraySort, Array, BlockPolicy";
  const char* const harness_stub = "clock";
  extern uint64_t (*sim_clock_hook)(int clk);
}
enum { ENTER, LEAVE, ADV, REPORT, CREATE };
static uint64_t mono; static uint64_t clk(int) { return mono; }
struct Node { int zone; Node* up; std::vector<Node*> kids; uint64_t n; double sum, own; uint64_t begun, inner; Node(int z, Node* u) : zone(z), up(u), n(0), sum(0), own(0), begun(0), inner(0) {} double avg() const { return n ? sum / n : 0; } double code() const { return n ? own / n : 0; } };
struct Open { bss::ProfilerBlock* block; bss::Profiler::PROF_TRIENODE* cache; uint64_t time; };
static std::vector<bss::Profiler::ProfilerData*> zones; static std::vector<std::string> names; static Node* root; static Node* at; static std::vector<Open> st;
static void create() { char b[32]; { sim::NoPreempt np; snprintf(b, sizeof b, "zone%zu", zones.size()); names.push_back(b); } zones.push_back(new bss::Profiler::ProfilerData(strdup(b), zones.size() % 2 ? "/some/path/file.cpp" : "c:\\some\\file.cpp", 100 + zones.size())); }
static std::string pathof(const Node* n) { if(!n || n->zone < 0) return ""; std::string p = pathof(n->up); return (p.empty() ? "" : p + ">") + names[n->zone]; }
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = r.chance(1, 4) ? r.range(17, 60) : r.chance(1, 20) ? 300 : r.range(0, 15); p.p[1] = r.range(0, 1000000); p.p[2] = r.range(1, 7);
  int n = (int)r.range(0, r.chance(1, 40) ? 800 : r.chance(1, 4) ? 120 : 30), z = (int)p.p[0], few = r.chance(1, 2), maxlog = r.chance(1, 3) ? 6 : 43, base = r.chance(1, 2) ? 0 : (int)r.range(0, 300);
  for(int i = 0; i < n; ++i) {
    int k = (int)pickw(r, { 6, 6, 8, 1, 1 });
    int64_t a = 0; if(k == ENTER) a = few ? base + (int64_t)r.below(4) : (int64_t)r.below(z + 3); else if(k == ADV) a = r.chance(1, 8) ? 0 : (int64_t)(r.next() >> (63 - (int)r.range(0, maxlog)));
    p.add(0, k, a, r.below(2));
  }
}
static bool close_(double a, double b) { return fabs(a - b) <= 1e-4 * (fabs(a) + fabs(b)) + 1e-6; }
struct Line { int level; std::string label; double ns; };
static bool parse(const std::string& l, Line& out) {
  size_t i = 0; while(i < l.size() && l[i] == ' ') ++i; out.level = (int)i / 2; if(i % 2) return false;
  size_t c = l.rfind(": "); if(c == std::string::npos) return false; out.label = l.substr(i, c - i);
  std::string rest = l.substr(c + 2); size_t bar = rest.find("   ["); if(bar != std::string::npos) rest = rest.substr(0, bar);
  size_t sp = rest.find(' '); if(sp == std::string::npos) return false;
  char* e; double v = strtod(rest.c_str(), &e); if(e != rest.c_str() + sp) return false;
  std::string u = rest.substr(sp + 1);
  if(u == "ns") { sim::probe(7); out.ns = v; } else if(u == "ms") { sim::probe(9); out.ns = v * 1e6; } else if(u == "s") { sim::probe(10); out.ns = v * 1e9; } else if(u == "us" || u == "\xce\x9cs" || u == "\xce\xbcs" || u == "\xc2\xb5s") { sim::probe(8); out.ns = v * 1e3; } else return false;
  return true;
}
static std::string label(int z) { char b[64]; snprintf(b, sizeof b, "[file.cpp:%zu] %s", (size_t)zones[z]->line, names[z].c_str()); return b; }
static void flatten(Node* n, std::map<std::string, std::pair<double, uint64_t>>& flat, std::map<std::string, double>& tree, std::map<std::string, double>& code) {
  if(n->zone >= 0) { auto& f = flat[label(n->zone)]; f.first += n->sum; f.second += n->n; tree[pathof(n)] = n->avg(); if(!n->kids.empty()) code[pathof(n)] = n->code(); }
  for(auto k : n->kids) flatten(k, flat, tree, code);
}
static void report(int which) {
  std::stringstream* ss; { sim::NoPreempt np; ss = new std::stringstream; if(!st.empty()) sim::probe(4); if(zones.empty()) sim::probe(5); sim::seq(); }
  bss::Profiler::profiler.WriteToStream(*ss, (uint8_t)which);
  sim::NoPreempt np; std::string text = ss->str(), l; delete ss; sim::logf("report %d: %s", which, text.c_str());
  for(unsigned char c : text) sim::mix(c);
  std::map<std::string, std::pair<double, uint64_t>> flat; std::map<std::string, double> tree, code; flatten(root, flat, tree, code);
  for(size_t i = 0; i < zones.size(); ++i) if(!flat[label((int)i)].second) sim::probe(11);
  std::stringstream in(text); int sect = 0; std::map<std::string, int> seen; std::vector<std::string> path; double last = 1e300; std::vector<double> lastat; std::set<std::string> gotcode; int sections = 0;
  auto zone_of = [&](const std::string& lb) -> int { for(size_t i = 0; i < zones.size(); ++i) if(label((int)i) == lb) return (int)i; return -1; };
  auto finish = [&]() {
    if(sect == 1 || sect == 3) for(auto& t : tree) SIM_CHECK(seen[t.first] == 1, "missing", "the %s report lists %s %d times instead of once", sect == 1 ? "tree" : "heat", t.first.c_str(), seen[t.first]);
    if(sect == 2) for(size_t i = 0; i < zones.size(); ++i) SIM_CHECK(seen[label((int)i)] == 1, "missing", "the flat report lists %s %d times instead of once", label((int)i).c_str(), seen[label((int)i)]);
    if(sect == 3) for(auto& c : code) SIM_CHECK(gotcode.count(c.first), "missing", "the heat report does not show the own time of %s", c.first.c_str());
    seen.clear(); path.clear(); last = 1e300; lastat.clear(); gotcode.clear();
  };
  while(std::getline(in, l)) {
    if(l.empty()) continue;
    if(l.find("Output:") != std::string::npos) { finish(); sect = l.find("Tree") != std::string::npos ? 1 : l.find("Flat") != std::string::npos ? 2 : l.find("Heat") != std::string::npos ? 3 : 0; sections |= sect == 1 ? 2 : sect == 2 ? 1 : 4; continue; }
    Line x; SIM_CHECK(parse(l, x), "format", "a report line cannot be read: '%s'", l.c_str());
    if(sect == 2) {
      SIM_CHECK(x.level == 0 && zone_of(x.label) >= 0, "unknown", "the flat report lists '%s'", l.c_str());
      auto f = flat[x.label]; double want = f.second ? f.first / f.second : 0; ++seen[x.label];
      SIM_CHECK(close_(x.ns, want), "time", "the flat report says %g ns for %s, which took %g ns on average over %llu runs", x.ns, x.label.c_str(), want, (unsigned long long)f.second);
      SIM_CHECK(x.ns <= last * (1 + 1e-4), "order", "the flat report is not sorted: %s after one with %g ns", l.c_str(), last); last = x.ns;
      continue;
    }
    SIM_CHECK(x.level <= (int)path.size(), "level", "the report line '%s' is indented below nothing", l.c_str());
    path.resize(x.level); std::string up; for(auto& s : path) up += (up.empty() ? "" : ">") + s;
    if(sect == 3) { lastat.resize(x.level + 1, 1e300); SIM_CHECK(x.ns <= lastat[x.level] * (1 + 1e-4), "order", "the heat report is not sorted at '%s'", l.c_str()); lastat[x.level] = x.ns; }
    if(sect == 3 && x.label == "[code]") { SIM_CHECK(code.count(up), "unknown", "the heat report shows own time below '%s'", up.c_str()); SIM_CHECK(close_(x.ns, code[up]), "time", "the heat report says %g ns of own time for %s instead of %g", x.ns, up.c_str(), code[up]); SIM_CHECK(gotcode.insert(up).second, "unknown", "own time of %s is listed twice", up.c_str()); path.push_back("[code]"); continue; }
    int z = zone_of(x.label); SIM_CHECK(z >= 0, "unknown", "the report lists '%s'", l.c_str());
    std::string p = (up.empty() ? "" : up + ">") + names[z]; path.push_back(names[z]);
    SIM_CHECK(tree.count(p), "unknown", "the %s report shows %s, which never ran", sect == 1 ? "tree" : "heat", p.c_str());
    ++seen[p]; SIM_CHECK(close_(x.ns, tree[p]), "time", "the %s report says %g ns for %s instead of %g", sect == 1 ? "tree" : "heat", x.ns, p.c_str(), tree[p]);
  }
  finish();
  SIM_CHECK(sections == which, "sections", "reports %d were asked for, %d were written", which, sections);
}
static void leave() {
  Open o = st.back(); st.pop_back();
  if(o.block) delete o.block; else bss::Profiler::profiler.EndProfile(o.time, o.cache);
  sim::NoPreempt np; uint64_t t = mono - at->begun; ++at->n; at->sum += (double)t; at->own += (double)(t - at->inner); at->up->inner += t; at = at->up; sim::seq();
}
void harness_execute(const sim::Plan& p) {
  mono = (uint64_t)p.p[1]; sim_clock_hook = clk; sim::set_limits(8000000, 20000000); zones.reserve(512); names.reserve(512); st.reserve(512);
  root = at = new Node(-1, 0); for(int i = 0; i < p.p[0]; ++i) create(); if(zones.size() > 16) sim::probe(2);
  bool moved = false; std::map<int, std::set<std::string>> paths;
  for(auto& o : p.ops) switch(o.kind) {
    case CREATE: if(zones.size() < 400) { create(); sim::probe(12); } break;
    case ADV: mono += (uint64_t)o.a; moved |= o.a != 0; break;
    case LEAVE: if(!st.empty()) leave(); break;
    case REPORT: report((int)p.p[2]); break;
    case ENTER: {
      if(zones.empty() || st.size() > 60) break;
      int z = (int)(o.a % (int64_t)zones.size());
      { sim::NoPreempt np; Node* k = 0; for(auto x : at->kids) if(x->zone == z) k = x; if(!k) at->kids.push_back(k = new Node(z, at)); for(Node* u = at; u; u = u->up) if(u->zone == z) sim::probe(1); if(at->zone >= 0) sim::probe(0); at = k; at->begun = mono; at->inner = 0; paths[z].insert(pathof(at)); if(paths[z].size() > 1) sim::probe(3); }
      Open q = { 0, 0, 0 };
      if(o.b) q.block = new bss::ProfilerBlock(zones[z]->id, bss::Profiler::profiler.GetCur());
      else { q.cache = bss::Profiler::profiler.GetCur(); q.time = bss::Profiler::profiler.StartProfile(zones[z]->id); }
      st.push_back(q); break; }
  }
  report((int)p.p[2]); while(!st.empty()) leave();
  if(!moved) sim::probe(6);
  report((int)p.p[2]); sim_clock_hook = 0;
}
