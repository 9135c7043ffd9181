// C16: INI storage: what was edited and saved is what is stored and loaded again; I/O faults never lose an edit or damage the file silently.
#include "common.h"
#include "bss-util/INIstorage.h"
#include <string>
#include <vector>
using namespace hx;
namespace sim { void disk_quota(size_t n); }
extern "C" {
  const char* const harness_probes[] = { "saved", "save_failed_then_saved", "open_failed", "read_failed", "reloaded", "duplicate_sections", "duplicate_keys", "removed_root_instance", "copied", "move_assigned", "prefix_names", "discarded", "disk_full", "section_copies", 0 };
  const char* const harness_real = "INIstorage, INIsection, INIentry, INIParser.c, Str, Hash";
  const char* const harness_stub = "disk (stdio on a simulated file: open/read/write/close errors, short transfers, full disk)";
}
enum { ADDSEC, RMSEC, INSERT, SET, DEL, EDITADD, SAVE, SAVEAS, RELOAD, COPY, MOVE, DISCARD };
static const char* const SN[] = { "alpha", "al", "beta", "alphabet", "Gamma ray!", "b", "a section name beyond any small buffer" };
static const char* const KN[] = { "key", "k", "keyword", "other!", "two words", "x", "a key that is longer than any small buffer" };
enum { NS = 7, NK = 7 };
static std::string val(int64_t v) { static const char* const base[] = { "!v!", "", "a value", "k=v", "[odd]", "\xc3\xa9t\xc3\xa9", "0.5", "path/to/x" }; if((v & 15) == 9) return std::to_string((int)(v >> 4 & 31) * 37 - 500); std::string s = base[v & 7]; if(v & 8) s += std::to_string(v >> 4); if(v & 512) s += std::string((v >> 10) & 127, 'y'); return s; }
static void numbers(const bss::INIentry& x, const std::string& s, const char* when) { // an entry whose text is a number is that number
  if(s.empty() || s.size() > 18) return; bool hex = s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X'); size_t i = hex ? 2 : s[0] == '-', dots = 0; if(i >= s.size()) return;
  for(; i < s.size(); ++i) if(s[i] == '.' && !hex) ++dots; else if(hex ? !isxdigit((unsigned char)s[i]) : !isdigit((unsigned char)s[i])) return;
  if(dots > 1 || s.back() == '.') return; double d; int64_t n; if(hex) { uint64_t u = strtoull(s.c_str() + 2, 0, 16); n = (int64_t)u; d = (double)u; } else if(dots) { d = strtod(s.c_str(), 0); n = (int64_t)d; } else { n = strtoll(s.c_str(), 0, 10); d = (double)n; }
  SIM_CHECK(x.GetInt() == n && (int64_t)x == n && (int)x == (int)n && (bool)x == (n != 0), "value", "%s: '%s' is the integer %lld instead of %lld", when, s.c_str(), (long long)x.GetInt(), (long long)n);
  SIM_CHECK(x.GetDouble() == d && (double)x == d && (float)x == (float)d, "value", "%s: '%s' is the number %.17g instead of %.17g", when, s.c_str(), x.GetDouble(), d);
}
struct MSec { std::string name; std::vector<std::pair<std::string, std::string>> e; };
struct Model { std::vector<MSec> s; };
static bool ieq(const std::string& a, const char* b) { return !strcasecmp(a.c_str(), b); }
static MSec* fsec(Model& m, const char* n, size_t inst) { for(auto& s : m.s) if(ieq(s.name, n) && !inst--) return &s; return 0; }
static size_t csec(Model& m, const char* n) { size_t c = 0; for(auto& s : m.s) c += ieq(s.name, n); return c; }
static int fkey(MSec& s, const char* k, size_t inst) { for(size_t i = 0; i < s.e.size(); ++i) if(ieq(s.e[i].first, k) && !inst--) return (int)i; return -1; }
static void seccompare(bss::INIsection* s, MSec* ms, const char* sname, size_t j, const char* when) {
  SIM_CHECK(ieq(s->GetName(), sname), "sections", "%s: section [%s] #%zu carries the name [%s]", when, sname, j, s->GetName());
  size_t seen = 0; for(auto& e : *s) { (void)e; ++seen; }
  SIM_CHECK(seen == ms->e.size(), "entries", "%s: [%s] #%zu iterates over %zu entries instead of %zu", when, sname, j, seen, ms->e.size());
  for(int k = 0; k < NK; ++k) {
    size_t c = 0; for(auto& e : ms->e) c += ieq(e.first, KN[k]); if(c > 1) sim::probe(6);
    SIM_CHECK(s->GetNumEntries(KN[k]) == c, "entries", "%s: [%s] #%zu has %zu entries '%s' instead of %zu", when, sname, j, s->GetNumEntries(KN[k]), KN[k], c);
    SIM_CHECK(!s->GetEntryPtr(KN[k], c), "entries", "%s: [%s] #%zu has an entry '%s' number %zu", when, sname, j, KN[k], c);
    for(size_t l = 0; l < c; ++l) { bss::INIentry* e = s->GetEntryPtr(KN[k], l); SIM_CHECK(e, "entries", "%s: entry '%s' #%zu of [%s] #%zu is missing", when, KN[k], l, sname, j);
      const std::string& want = ms->e[fkey(*ms, KN[k], l)].second; SIM_CHECK(want == e->GetString(), "value", "%s: [%s] #%zu '%s' #%zu is '%s' instead of '%s'", when, sname, j, KN[k], l, e->GetString(), want.c_str()); numbers(*e, want, when);
      SIM_CHECK(ieq(e->GetKey(), KN[k]), "value", "%s: an entry '%s' carries the key '%s'", when, KN[k], e->GetKey()); }
  }
}
static void compare(bss::INIstorage& ini, Model& m, const char* when) {
  sim::NoPreempt np; size_t total = 0;
  for(auto& x : ini) { (void)x; ++total; }
  SIM_CHECK(total == m.s.size(), "sections", "%s: iterating finds %zu sections instead of %zu", when, total, m.s.size());
  for(int i = 0; i < NS; ++i) {
    size_t n = csec(m, SN[i]); if(n > 1) sim::probe(5);
    SIM_CHECK(ini.GetNumSections(SN[i]) == n, "sections", "%s: %zu sections [%s] instead of %zu", when, ini.GetNumSections(SN[i]), SN[i], n);
    SIM_CHECK(!ini.GetSection(SN[i], n), "sections", "%s: a section [%s] number %zu exists", when, SN[i], n);
    for(size_t j = 0; j < n; ++j) {
      bss::INIsection* s = ini.GetSection(SN[i], j); SIM_CHECK(s, "sections", "%s: section [%s] #%zu is missing", when, SN[i], j);
      SIM_CHECK(s->GetIndex() == j, "sections", "%s: section [%s] #%zu says it is number %zu", when, SN[i], j, s->GetIndex());
      seccompare(s, fsec(m, SN[i], j), SN[i], j, when);
    }
  }
}
// sections taken out of the storage by copy, move and assignment (over an empty section and over one with content) show the same content, and outlive each other
static void seccopies(bss::INIstorage& ini, Model& m, const char* sn, size_t si, const char* on, int how) {
  bss::INIsection* s = ini.GetSection(sn, si); bss::INIsection* o = ini.GetSection(on, 0); MSec* ms = fsec(m, sn, si); if(!s || !ms) return;
  sim::probe(13);
  bss::INIsection* c = new bss::INIsection(*s); seccompare(c, ms, sn, si, "copied section");
  bss::INIsection* d = o && how & 1 ? new bss::INIsection(*o) : new bss::INIsection(); *d = *c; seccompare(d, ms, sn, si, "assigned section");
  bss::INIsection* e = new bss::INIsection(std::move(*c)); delete c; seccompare(e, ms, sn, si, "moved section");
  bss::INIsection* f = o && how & 2 ? new bss::INIsection(*o) : new bss::INIsection(); *f = std::move(*e); delete e; seccompare(f, ms, sn, si, "move-assigned section");
  bss::INIsection* self = f; *f = *self; seccompare(f, ms, sn, si, "self-assigned section");
  delete f; seccompare(d, ms, sn, si, "assigned section after its source is gone"); delete d;
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = r.below(4); // initial sections
  p.p[1] = (int64_t)r.next(); p.p[2] = r.chance(1, 2); p.p[3] = r.chance(1, 6) ? r.range(10, 300) : 0; p.p[4] = r.range(3, 10);
  int few = r.chance(1, 2) ? 2 : NS, fk = r.chance(1, 2) ? 2 : NK; p.p[5] = few; p.p[6] = fk; int rs = (int)r.below(NS), rk = (int)r.below(NK); p.p[7] = rs; p.p[8] = rk;
  int n = (int)r.range(1, 22);
  for(int i = 0; i < n; ++i) { int k = (int)pickw(r, { 5, 3, 10, 6, 5, 4, 4, 1, 3, 2, 1, 1 });
    int64_t v = (int64_t)r.below(1 << 17); if(r.chance(3, 4)) v &= ~512ll;
    p.add(0, k, (int64_t)(r.below(few) + rs) % NS | (r.chance(1, 2) ? 0 : (int64_t)r.below(4) << 8) | (r.chance(1, 6) ? 1 << 16 : 0), (int64_t)(r.below(fk) + rk) % NK | (r.chance(1, 2) ? 0 : (int64_t)r.below(4) << 8), v); }
  p.add(0, SAVE); if(r.chance(1, 2)) p.add(0, RELOAD);
}
static std::string render(Model& m, sim::Rng& r) {
  std::string o; const char* nl = r.chance(1, 4) ? "\r\n" : "\n";
  auto noise = [&]() { while(r.chance(1, 4)) { static const char* const N[] = { "; comment", "", "   ", ";[alpha]", "; key=value", "garbage" }; o += N[r.below(6)]; o += nl; } };
  noise();
  for(auto& s : m.s) { if(r.chance(1, 3)) o += nl; if(r.chance(1, 6)) o += " "; o += "[" + (r.chance(1, 6) ? " " + s.name + " " : s.name) + "]"; if(r.chance(1, 6)) o += " ; c"; o += nl; noise();
    for(auto& e : s.e) { o += (r.chance(1, 6) ? "  " : "") + e.first + (r.chance(1, 4) ? " = " : "=") + e.second; if(r.chance(1, 6)) o += " ; c"; o += nl; noise(); } }
  if(r.chance(1, 3) && o.size()) { while(o.size() && (o.back() == '\n' || o.back() == '\r')) o.pop_back(); }
  return o;
}
void harness_execute(const sim::Plan& p) {
  std::string path = "/sim/cfg/main.ini"; sim::set_limits(4000000, 12000000);
  if(p.p[2]) { sim::enable(sim::F_OPEN_ERR); sim::enable(sim::F_READ_ERR); sim::enable(sim::F_SHORT_READ); sim::enable(sim::F_WRITE_ERR); sim::enable(sim::F_SHORT_WRITE); sim::enable(sim::F_CLOSE_ERR); sim::disk_rates((unsigned)p.p[4]); }
  Model* mp = new Model; Model& m = *mp; sim::Rng r((uint64_t)p.p[1]);
  for(int i = 0; i < p.p[0]; ++i) { MSec s; s.name = SN[(r.below((uint64_t)p.p[5]) + p.p[7]) % NS]; int n = (int)r.below(5); for(int j = 0; j < n; ++j) s.e.push_back({ KN[(r.below((uint64_t)p.p[6]) + p.p[8]) % NK], val((int64_t)r.below(1 << 9)) }); m.s.push_back(s); }
  std::string text; { sim::NoPreempt np; text = render(m, r); } sim::logf("initial file: %s", text.c_str());
  sim::disk_put(path.c_str(), text.data(), text.size());
  bss::INIstorage* ini = new bss::INIstorage(path.c_str()); compare(*ini, m, "after loading");
  bool dirty = false, failed = false, full = false; std::string disk = text; // disk: what the file must hold while nothing was saved
  auto ondisk = [&](const std::string& f) { std::vector<char> d; if(!sim::disk_get(f.c_str(), d)) return std::string("<none>"); return std::string(d.data(), d.size()); };
  bool damaged = false; // a failed save may leave a partial file; it must be repaired by the next save that works
  for(auto& o : p.ops) {
    const char* sn = SN[(o.a & 255) % NS]; size_t si = (size_t)(o.a >> 8 & 3); const char* kn = KN[(o.b & 255) % NK]; size_t ki = (size_t)(o.b >> 8 & 3); std::string v = val(o.c); bool newsec = o.a >> 16 & 1;
    sim::seq(); sim::logf("op %d sec=[%s]#%zu key=%s#%zu value='%s'", o.kind, sn, si, kn, ki, v.c_str());
    sim::IoStats before = sim::iostats(); auto bad = [&]() { auto& a = sim::iostats(); bool sv = o.kind == SAVE || o.kind == SAVEAS; return a.read_errs + a.write_errs + a.open_errs + a.close_errs * sv > before.read_errs + before.write_errs + before.open_errs + before.close_errs * sv; };
    bool wasdirty = dirty; int rc = 0; bool edit = false;
    switch(o.kind) {
    case ADDSEC: // a file that cannot be opened would leave a section that is not in the text: opened with a harmless edit first
      sim::disk_faults(true); rc = ini->EditEntry("no such section", "k", "v"); sim::disk_faults(false);
      if(!bad()) { ini->AddSection(sn); m.s.push_back(MSec{ sn, {} }); dirty = true; } break;
    case RMSEC: { sim::disk_faults(true); bool ok = ini->RemoveSection(sn, si); sim::disk_faults(false); edit = true; MSec* s = fsec(m, sn, si);
      if(bad()) { SIM_CHECK(!ok, "blind-edit", "RemoveSection reports success although the file could not be read"); break; }
      SIM_CHECK(ok == (s != 0), "result", "RemoveSection([%s], %zu) returned %d", sn, si, (int)ok);
      if(s) { if(!si && csec(m, sn) > 1) sim::probe(7); m.s.erase(m.s.begin() + (s - m.s.data())); } dirty = true; break; }
    case INSERT: case SET: case DEL: case EDITADD: {
      size_t ca = newsec && o.kind == INSERT ? (size_t)~0 : si; const char* nv = o.kind == DEL ? 0 : v.c_str();
      if(ca == (size_t)~0) { sim::disk_faults(true); ini->EditEntry("no such section", "k", "v"); sim::disk_faults(false); if(bad()) break; }
      MSec* s = o.kind == EDITADD ? fsec(m, sn, 0) : fsec(m, sn, si); if(o.kind == EDITADD && !s) { sim::disk_faults(true); ini->EditEntry("no such section", "k", "v"); sim::disk_faults(false); if(bad()) break; }
      sim::disk_faults(ca != (size_t)~0 && !(o.kind == EDITADD && !s));
      if(o.kind == EDITADD) rc = ini->EditAddEntry(sn, kn, v.c_str()); else rc = ini->EditEntry(sn, kn, nv, o.kind == INSERT ? (size_t)~0 : ki, ca);
      sim::disk_faults(false);
      if(bad()) { SIM_CHECK(rc != 0, "blind-edit", "EditEntry reports success although the file could not be read"); break; }
      bool expect; int at = -1;
      if(o.kind == EDITADD) { expect = true; if(!s) { m.s.push_back(MSec{ sn, {} }); s = &m.s.back(); } at = fkey(*s, kn, 0); if(at < 0) s->e.push_back({ kn, v }); else s->e[at].second = v; }
      else if(ca == (size_t)~0) { expect = true; m.s.push_back(MSec{ sn, { { kn, v } } }); }
      else if(!s) expect = false;
      else if(o.kind == INSERT) { expect = true; s->e.push_back({ kn, v }); }
      else { at = fkey(*s, kn, ki); expect = at >= 0; if(expect) { if(o.kind == SET) s->e[at].second = v; else { if(!ki && fkey(*s, kn, 1) >= 0) sim::probe(7); s->e.erase(s->e.begin() + at); } } }
      SIM_CHECK((rc == 0) == expect, "result", "editing [%s]#%zu %s#%zu returned %d", sn, si, kn, ki, rc); dirty = true; break; }
    case SAVE: case SAVEAS: {
      if(o.kind == SAVEAS) { if(!dirty) continue; path = path == "/sim/cfg/main.ini" ? "/sim/other.ini" : "/sim/cfg/main.ini"; disk = ondisk(path); }
      if(p.p[3] && !full && p.p[2]) { sim::disk_quota((size_t)p.p[3]); full = true; sim::probe(12); }
      sim::disk_faults(true); ini->EndINIEdit(o.kind == SAVEAS ? path.c_str() : 0); sim::disk_faults(false); sim::disk_quota((size_t)-1);
      if(bad()) { failed = true; damaged = true; SIM_CHECK(sim::disk_open_files() == 0, "handle", "a failed save leaves the file open"); break; }
      if(dirty) { sim::probe(0); if(failed) sim::probe(1); failed = false; damaged = false; dirty = false; disk = ondisk(path);
        bss::INIstorage* q = new bss::INIstorage(path.c_str()); sim::logf("file: %s", disk.c_str()); compare(*q, m, "file after saving"); delete q; } break; }
    case RELOAD: if(dirty || failed) continue; delete ini; ini = new bss::INIstorage(path.c_str()); sim::probe(4); break;
    case COPY: { bss::INIstorage* q = new bss::INIstorage(*ini); compare(*q, m, "copy"); if(o.c & 1) { bss::INIstorage* t = ini; ini = q; q = t; } delete q; sim::probe(8); seccopies(*ini, m, sn, si, SN[(o.b & 255) % NS], (int)(o.c >> 1)); break; }
    case MOVE: { bss::INIstorage* q = new bss::INIstorage("/sim/absent.ini"); if(o.c & 1) { sim::disk_put("/sim/small.ini", "[al]\nkey=1\n", 11); delete q; q = new bss::INIstorage("/sim/small.ini"); } if(o.c & 2) *q = *ini; else *q = std::move(*ini); bss::INIstorage* t = ini; ini = q; delete t; sim::probe(9); break; }
    case DISCARD: { if(!dirty || damaged) continue; ini->DiscardINIEdit(); ini->EndINIEdit(); SIM_CHECK(ondisk(path) == disk, "discard", "a discarded edit changed the file"); sim::probe(11); return; }
    }
    if(bad()) { auto& a = sim::iostats(); sim::probe(a.open_errs > before.open_errs ? 2 : a.read_errs > before.read_errs ? 3 : 0, a.write_errs == before.write_errs && a.close_errs == before.close_errs); }
    (void)wasdirty; (void)edit;
    if(!damaged) SIM_CHECK(ondisk(path) == disk || o.kind == SAVE || o.kind == SAVEAS, "file-touched", "the file changed without a save");
    compare(*ini, m, "in memory");
    SIM_CHECK(sim::disk_open_files() == 0, "handle", "a file was left open");
  }
  if(dirty) { sim::logf("final save"); ini->EndINIEdit(); if(failed) sim::probe(1); sim::logf("file: %s", ondisk(path).c_str()); bss::INIstorage* q = new bss::INIstorage(path.c_str()); compare(*q, m, "file after the disk works again"); delete q; }
  for(auto& s : m.s) for(auto& t : m.s) if(s.name.size() < t.name.size() && !strncasecmp(s.name.c_str(), t.name.c_str(), s.name.size())) sim::probe(10);
  delete ini;
}
