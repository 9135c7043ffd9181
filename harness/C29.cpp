// C29: string tables and whole files hold exactly what a stream or disk delivered, however the bytes arrive and wherever delivery ends.
#include "iofault.h"
#include "bss-util/StringTable.h"
#include <sstream>
#include <vector>
using namespace hx; using namespace bss;
extern "C" {
  const char* const harness_probes[] = { "built", "appended", "joined", "joined_with_itself", "dumped", "sink_failed", "reloaded", "source_cut_in_a_string", "source_cut_between_strings", "nothing_arrived", "source_error", "empty_string_first", "wide_characters", "append_to_empty", "copied", "moved", "file_loaded", "file_open_failed", "file_read_failed", "file_empty", "file_of_wide_elements", "file_terminated", "wanted_less_than_there_is", 0 };
  const char* const harness_real = "StringTable, Array, bssLoadFile, real iostream and stdio layers";
  const char* const harness_stub = "streams (chunked, cut, failing sources; failing sinks), disk (open and read errors, short reads)";
}
enum { BUILD, APPEND, JOIN, SELFJOIN, COPY, MOVE, DUMP, RELOAD, WIDE, LOADF };
typedef std::vector<std::string> V;
static std::string word(uint64_t s) { sim::Rng r(s); std::string o; int n = r.chance(1, 4) ? 0 : r.chance(1, 10) ? (int)r.range(60, 300) : (int)r.below(12); for(int i = 0; i < n; ++i) o += r.chance(1, 8) ? (char)r.range(-128, -1) : (char)r.range(1, 127); return o; }
static V words(uint64_t s, size_t n) { V v; for(size_t i = 0; i < n; ++i) v.push_back(word(s + i * 7919)); return v; }
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = r.range(1, 3); p.p[1] = r.chance(1, 3) ? 0 : r.range(2, 60); p.p[2] = r.chance(1, 2); int n = (int)r.range(2, 24);
  for(int t = 0; t < p.p[0]; ++t) for(int i = 0; i < n; ++i) p.add(t, i == 0 ? (int)BUILD : pickw(r, { 2, 4, 2, 1, 1, 1, 2, 4, 2, 3 }), (int64_t)r.below(r.chance(1, 6) ? 40 : 8), (int64_t)(r.next() >> 1));
}
typedef StringTable<char> ST; typedef StringTable<char, uint32_t> S32; typedef StringTable<wchar_t> SW;
struct Own { ST* t = 0; V* m = 0; }; static Own own[4]; static const sim::Plan* plan;
static std::string bytes(const V& v) { std::string o; for(auto& s : v) { o += s; o.push_back(0); } return o; }
static std::string show(const std::string& s) { std::string o; char b[8]; for(unsigned char c : s.substr(0, 24)) if(c >= 32 && c < 127) o += (char)c; else { snprintf(b, 8, "\\x%02x", c); o += b; } return o; }
template<class S> static void same(const S& t, const V& v, const char* when) { SIM_CHECK((size_t)t.Length() == v.size(), "model", "%s: %zu strings instead of %zu", when, (size_t)t.Length(), v.size()); for(size_t i = 0; i < v.size(); ++i) { const auto* s = t.GetString((decltype(t.Length()))i); size_t k = 0; for(; k < v[i].size(); ++k) if(s[k] != (decltype(*s + 0))v[i][k]) break; SIM_CHECK(k == v[i].size() && !s[k], "model", "%s: string %zu is not \"%s\"", when, i, show(v[i]).c_str()); } }
static ST* mk(const V& v) { std::vector<const char*> p; for(auto& s : v) p.push_back(s.c_str()); return new ST(p.data(), p.size()); }
static V some(size_t n, uint64_t s) { sim::NoPreempt np; return words(s, n); }
// loads from a source that delivers `data` in pieces and ends or fails at `cut`; gives what must have become of it
template<class S, class C> static void reload(const std::string& data, const V& v, uint64_t seed, size_t a, const char* when) {
  sim::Rng r(seed); FSource src; { sim::NoPreempt np; src.data = data; src.r.s = seed | 1; src.chunk = 1 + r.below(r.chance(1, 3) ? 3 : 60); if(r.chance(1, 2)) src.end = r.below(data.size() + 1); src.err = r.chance(1, 3); }
  size_t want = data.size(); if(r.chance(1, 8)) { want = (size_t)r.below(data.size() + 1) / sizeof(C) * sizeof(C); if(want < data.size()) sim::probe(22); } else if(r.chance(1, 6)) want += (size_t)r.range(1, 40) * sizeof(C);
  std::istream is(&src); S t(&is, (decltype(S((std::istream*)0, 0).Length()))want);
  sim::NoPreempt np; size_t lim = src.end < data.size() ? src.end : data.size(); size_t got = (want < lim ? want : lim) / sizeof(C); if(src.hit && src.err) sim::probe(10); // bytes that arrived, in characters
  if(want > lim || src.hit) SIM_CHECK(!is.good(), "silent", "%s: the source ended early and the stream does not show it", when);
  if(src.hit && src.err && !t.Length()) { SIM_CHECK(!t.TotalWordCapacity(), "model", "%s: no strings but characters", when); return; } // the standard stream does not say what arrived before an error
  V w; size_t at = 0; std::string part; bool open = false; for(auto& s : v) { if(at + s.size() + 1 <= got) { w.push_back(s); at += s.size() + 1; } else { if(at < got) { part = s.substr(0, got - at); open = true; } break; } }
  if(!got) sim::probe(9); else if(open) sim::probe(7); else if(lim < data.size()) sim::probe(8); if(w.size() && w[0].empty()) sim::probe(11);
  size_t n = (size_t)t.Length(); SIM_CHECK(n == w.size() + (open ? 1 : 0), "model", "%s: %zu of %zu bytes arrived with %zu complete strings%s, the table has %zu", when, got * sizeof(C), data.size(), w.size(), open ? " and a part of one" : "", n);
  SIM_CHECK((size_t)t.TotalWordCapacity() == got, "model", "%s: the table counts %zu characters, %zu arrived", when, (size_t)t.TotalWordCapacity(), got);
  if(open) { const C* s = t.GetString((decltype(t.Length()))(n - 1)); size_t k = 0; while(s[k] && k < part.size() && s[k] == (C)part[k]) ++k; SIM_CHECK(!s[k] && k + 1 >= part.size(), "model", "%s: the string that was cut after \"%s\" is not a prefix of that", when, show(part).c_str()); w.push_back(part.substr(0, k)); }
  same(t, w, when); sim::probe(6);
  S c(t); same(c, w, "a copy of a loaded table"); S d(std::move(c)); same(d, w, "a moved loaded table"); (void)a;
}
static void loadfile(uint64_t seed, size_t a) {
  sim::Rng r(seed); std::string data; { sim::NoPreempt np; size_t n = r.chance(1, 6) ? 0 : a < 8 ? (size_t)r.below(64) : (size_t)r.below(20000); for(size_t i = 0; i < n; ++i) data.push_back((char)r.next()); sim::disk_put("/sim/blob", data.data(), data.size()); sim::seq(); for(char c : data) sim::mix((unsigned char)c); }
  sim::IoStats b = sim::iostats(); sim::disk_faults(true); int how = (int)r.below(4); std::string got; bool null = false; size_t n = 0, el = 1;
  auto take = [&](auto& p, bool term) { typedef std::remove_reference_t<decltype(p.first[0])> E; sim::disk_faults(false); sim::NoPreempt np; el = sizeof(E); n = p.second; null = !p.first; if(term && !null) { SIM_CHECK(n > 0 && p.first[n - 1] == 0, "model", "a file that was to be terminated is not"); --n; sim::probe(21); } if(!null) got.assign((const char*)p.first.get(), n * el); };
  if(how == 0) { auto p = bssLoadFile<char>("/sim/blob"); take(p, false); } else if(how == 1) { auto p = bssLoadFile<char, true>("/sim/blob"); take(p, true); } else if(how == 2) { auto p = bssLoadFile<uint8_t>("/sim/blob"); take(p, false); } else if(r.chance(1, 2)) { auto p = bssLoadFile<uint32_t>("/sim/blob"); take(p, false); sim::probe(20); } else { auto p = bssLoadFile<uint16_t, true>("/sim/blob"); take(p, true); sim::probe(20); }
  sim::IoStats e = sim::iostats(); SIM_CHECK(sim::disk_open_files() == 0, "handle", "loading a file leaves it open");
  if(e.open_errs > b.open_errs || e.read_errs > b.read_errs) { sim::probe(e.open_errs > b.open_errs ? 17 : 18); SIM_CHECK(null && !n, "silent", "a file that could not be read gave %zu elements", n); return; }
  SIM_CHECK(!null && n == data.size() / el && got == data.substr(0, n * el), "model", "a file of %zu bytes gave %zu elements of %zu bytes that are not its content", data.size(), n, el); sim::probe(data.empty() ? 19 : 16);
  auto no = bssLoadFile<char>("/sim/none"); SIM_CHECK(!no.first && !no.second, "silent", "a file that does not exist gave %zu elements", no.second);
}
static void step(int a, const sim::Op& op) {
  Own& o = own[a]; uint64_t s = (uint64_t)op.b; size_t n = (size_t)op.a;
  V cur;
  auto set = [&](ST* t, const V& v) { delete o.t; o.t = t; sim::NoPreempt np; *o.m = v; cur = v; };
  { sim::NoPreempt np; cur = *o.m; }
  switch(op.kind) {
  case BUILD: { V v = some(n, s); set(mk(v), v); sim::probe(0); break; }
  case APPEND: { std::string w; { sim::NoPreempt np; w = word(s); } if(cur.empty()) sim::probe(13); if(s & 1) o.t->AppendString(w.c_str()); else *o.t += w.c_str(); cur.push_back(w); sim::NoPreempt np; o.m->push_back(w); sim::probe(1); break; }
  case JOIN: { if(cur.size() > 300) break; V v = some(n, s); ST* x = mk(v); if(s & 1) *o.t += *x; else { ST y = *o.t + *x; same(*o.t, cur, "the left side of a sum"); *o.t = y; } same(*x, v, "the right side of a sum"); delete x; cur.insert(cur.end(), v.begin(), v.end()); sim::NoPreempt np; *o.m = cur; sim::probe(2); break; }
  case SELFJOIN: if(cur.size() < 200) { *o.t += *o.t; V v(cur); cur.insert(cur.end(), v.begin(), v.end()); sim::NoPreempt np; *o.m = cur; sim::probe(3); } break;
  case COPY: { ST* x; if(s & 1) x = new ST((const ST&)*o.t); else { x = mk(some(n, s)); *x = (const ST&)*o.t; } same(*x, cur, "a copy"); same(*o.t, cur, "what was copied"); { const ST& self = *x; *x = self; } same(*x, cur, "a table assigned to itself"); V keep(cur); set(x, keep); sim::probe(14); break; }
  case MOVE: { ST* x; if(s & 1) x = new ST(std::move(*o.t)); else { x = mk(some(n, s)); *x = std::move(*o.t); } V keep(cur); set(x, keep); sim::probe(15); break; }
  case DUMP: { FSink k; k.den = (unsigned)plan->p[1]; std::ostream os(&k); o.t->DumpToStream(&os); std::string w = bytes(cur); if(k.failed) { sim::probe(5); SIM_CHECK(!os.good(), "silent", "the sink failed and the stream does not show it"); SIM_CHECK(w.compare(0, k.got.size(), k.got) == 0, "model", "a failing sink was given something else"); } else SIM_CHECK(k.got == w, "model", "dumped %zu bytes that are not the %zu of the table", k.got.size(), w.size()); sim::probe(4); break; }
  case RELOAD: { std::string d = bytes(cur); if(d.empty()) { ST t((std::istream*)0, 5); SIM_CHECK(t.Length() == 0, "model", "a table of nothing"); break; } if(s & 1) reload<ST, char>(d, cur, s, n, "loading"); else reload<S32, char>(d, cur, s, n, "loading with small indices"); break; }
  case WIDE: { V v; { sim::NoPreempt np; for(auto& w : some(n, s)) { v.push_back(w); for(auto& c : v.back()) c &= 0x7f; size_t z; while((z = v.back().find('\0')) != std::string::npos) v.back().erase(z, 1); } } if(v.empty()) break; std::vector<std::wstring> ws; for(auto& w : v) ws.push_back(std::wstring(w.begin(), w.end())); std::vector<const wchar_t*> ps; for(auto& w : ws) ps.push_back(w.c_str()); SW t(ps.data(), ps.size()); same(t, v, "a table of wide strings"); std::ostringstream os; t.DumpToStream(&os); reload<SW, wchar_t>(os.str(), v, s, n, "loading wide strings"); sim::probe(12); break; }
  case LOADF: loadfile(s, n); break;
  }
  same(*o.t, cur, "after the operation"); sim::seq(); sim::mix(cur.size() * 31 + op.kind);
}
void harness_execute(const sim::Plan& p) {
  sim::set_limits(4000000, 8000000); plan = &p; sim::enable(sim::F_SHORT_READ); if(p.p[1]) { sim::enable(sim::F_WRITE_ERR); if(p.p[2]) { sim::enable(sim::F_READ_ERR); sim::enable(sim::F_OPEN_ERR); } } sim::disk_rates(p.p[1] ? (unsigned)p.p[1] : 8);
  int th = (int)p.p[0]; LeakCheck lk; for(int i = 0; i < th; ++i) { sim::NoPreempt np; own[i].m = new V; own[i].t = mk(V()); }
  for(auto& op : p.ops) step(op.actor, op);
  for(int i = 0; i < th; ++i) { delete own[i].t; sim::NoPreempt np; delete own[i].m; own[i] = Own(); }
  lk.check("the tables");
}
