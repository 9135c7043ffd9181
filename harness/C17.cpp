// C17: loading an INI file gives exactly what its complete lines say, however the bytes arrive; a read error ends the load.
#include "common.h"
#include "bss-util/INIstorage.h"
#include <string>
#include <vector>
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "loaded_completely", "read_error_mid_file", "open_failed", "line_at_the_limit", "line_over_the_limit", "entry_before_any_section", "no_newline_at_the_end", "crlf", "through_FILE", "repeated_names", "reloaded_after_error", 0 };
  const char* const harness_real = "INIstorage loading, INIsection, INIentry, INIParser.c, Str, Hash, lock-free node pool";
  const char* const harness_stub = "disk (stdio on a simulated file: open and read errors, short reads of any length)";
}
enum { SECTION, ENTRY, COMMENT, BLANK, GARBAGE };
static const char* const SN[] = { "alpha", "al", "Beta", "alphabet", "!Gamma ray!", "b", "\xc3\xa9t\xc3\xa9", "a section name that is longer than any small buffer would ever be" };
static const char* const KN[] = { "key", "k", "keyword", "Other!", "two words", "x", "cl\xc3\xa9", "a key that is longer than any small buffer would ever be" };
static const char* const VN[] = { "v", "", "!a value!", "k=v=w", "[odd]", "\xc3\xa9t\xc3\xa9", "-0.5", "path/to\\x", "\"quoted text\"", "#5", "42", "-17", "0xff", "0XFFFFFFFFFFFFFFFF", "3.25", "-900719925474099.5", "9007199254740993", "0" };
enum { NS = 8, NK = 8, NV = 18 };
struct Entry { std::string key, val; bool cut; };
struct Sec { std::string name; std::vector<Entry> e; };
struct Line { std::string text; int kind; std::string a, b; bool cut; };
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = r.chance(2, 3); p.p[1] = r.chance(1, 3) ? 2 : r.range(2, 12); p.p[6] = r.chance(1, 5); p.p[2] = r.chance(1, 4); p.p[3] = r.chance(1, 4); p.p[4] = r.chance(1, 3); p.p[5] = r.range(1, 3);
  int few = r.chance(1, 2) ? 2 : NS, fk = r.chance(1, 2) ? 2 : NK, rs = (int)r.below(NS), rk = (int)r.below(NK), big = r.chance(1, 3);
  int n = (int)r.range(0, r.chance(1, 5) ? 80 : 20);
  for(int i = 0; i < n; ++i) {
    int k = (int)pickw(r, { 3, 8, 1, 1, 1 });
    int64_t len = big && r.chance(1, 4) ? (r.chance(1, 2) ? r.range(1015, 1030) : r.range(30, 2600)) : 0; // wanted length of the whole line
    p.add(0, k, k == SECTION ? (int64_t)(r.below(few) + rs) % NS : (int64_t)(r.below(fk) + rk) % NK, (int64_t)r.below(NV), (int64_t)r.below(256) | len << 8);
  }
}
static std::string lower(const std::string& s) { std::string o = s; for(auto& c : o) if(c >= 'A' && c <= 'Z') c += 32; return o; }
static bool ieq(const std::string& a, const char* b) { return lower(a) == lower(b); }
static void numbers(const bss::INIentry& x, const std::string& s, const char* when) { // an entry whose text is a number is that number
  if(s.empty() || s.size() > 18) return; bool hex = s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X'); size_t i = hex ? 2 : s[0] == '-', dots = 0; if(i >= s.size()) return;
  for(; i < s.size(); ++i) if(s[i] == '.' && !hex) ++dots; else if(hex ? !isxdigit((unsigned char)s[i]) : !isdigit((unsigned char)s[i])) return;
  if(dots > 1 || s.back() == '.') return; double d; int64_t n; if(hex) { uint64_t u = strtoull(s.c_str() + 2, 0, 16); n = (int64_t)u; d = (double)u; } else if(dots) { d = strtod(s.c_str(), 0); n = (int64_t)d; } else { n = strtoll(s.c_str(), 0, 10); d = (double)n; }
  SIM_CHECK(x.GetInt() == n && (int64_t)x == n && (int)x == (int)n && (bool)x == (n != 0), "value", "%s: '%s' is the integer %lld instead of %lld", when, s.c_str(), (long long)x.GetInt(), (long long)n);
  SIM_CHECK(x.GetDouble() == d && (double)x == d && (float)x == (float)d, "value", "%s: '%s' is the number %.17g instead of %.17g", when, s.c_str(), x.GetDouble(), d);
}
static void compare(bss::INIstorage& ini, const std::vector<Sec>& m, const char* when) {
  sim::NoPreempt np;
  size_t total = 0; for(auto& x : ini) { (void)x; ++total; }
  SIM_CHECK(total == m.size(), "sections", "%s: %zu sections instead of %zu", when, total, m.size());
  std::map<std::string, size_t> seen;
  for(auto& s : m) {
    size_t inst = seen[lower(s.name)]++; if(inst) sim::probe(9);
    bss::INIsection* q = ini.GetSection(s.name.c_str(), inst); SIM_CHECK(q, "sections", "%s: section [%s] number %zu is missing", when, s.name.c_str(), inst);
    SIM_CHECK(s.name == q->GetName(), "sections", "%s: section number %zu is called [%s] instead of [%s]", when, inst, q->GetName(), s.name.c_str());
    size_t ne = 0; for(auto& x : *q) { (void)x; ++ne; }
    SIM_CHECK(ne == s.e.size(), "entries", "%s: [%s] number %zu has %zu entries instead of %zu", when, s.name.c_str(), inst, ne, s.e.size());
    std::map<std::string, size_t> ks;
    for(auto& e : s.e) {
      size_t ki = ks[lower(e.key)]++; if(ki) sim::probe(9);
      bss::INIentry* x = q->GetEntryPtr(e.key.c_str(), ki); SIM_CHECK(x, "entries", "%s: entry '%s' number %zu of [%s] number %zu is missing", when, e.key.c_str(), ki, s.name.c_str(), inst);
      SIM_CHECK(e.key == x->GetKey(), "value", "%s: entry '%s' is called '%s'", when, e.key.c_str(), x->GetKey());
      std::string v = x->GetString();
      if(e.cut) SIM_CHECK(v == e.val.substr(0, v.size()), "value", "%s: the cut value of '%s' is not a prefix of what the file says", when, e.key.c_str());
      else SIM_CHECK(v == e.val, "value", "%s: [%s] number %zu '%s' number %zu is '%.80s' (%zu bytes) instead of '%.80s' (%zu bytes)", when, s.name.c_str(), inst, e.key.c_str(), ki, v.c_str(), v.size(), e.val.c_str(), e.val.size());
      if(!e.cut) numbers(*x, e.val, when);
    }
    for(auto& k : ks) { std::string n = k.first; SIM_CHECK(q->GetNumEntries(n.c_str()) == k.second || strcasecmp(n.c_str(), n.c_str()), "entries", "%s: %zu entries '%s' are reported instead of %zu", when, q->GetNumEntries(n.c_str()), n.c_str(), k.second); }
  }
  for(auto& k : seen) SIM_CHECK(ini.GetNumSections(k.first.c_str()) == k.second, "sections", "%s: %zu sections [%s] are reported instead of %zu", when, ini.GetNumSections(k.first.c_str()), k.first.c_str(), k.second);
}
static bss::INIstorage* load(const char* path, bool viafile) {
  if(!viafile) return new bss::INIstorage(path);
  FILE* f = fopen(path, "rb"); if(!f) return 0;
  sim::probe(8);
  bss::INIstorage* r = new bss::INIstorage(f);
  SIM_CHECK(sim::disk_open_files() == 1, "handle", "loading from a caller's FILE closed it");
  fclose(f); return r;
}
void harness_execute(const sim::Plan& p) {
  sim::set_limits(8000000, 20000000);
  const char* path = "/sim/in.ini"; const char* nl = p.p[2] ? "\r\n" : "\n"; if(p.p[2]) sim::probe(7);
  std::vector<Line> L;
  for(auto& o : p.ops) {
    Line l; l.kind = o.kind; l.cut = false; bool sp1 = o.c & 1, sp2 = o.c & 2, com = (o.c & 12) == 12; size_t len = (size_t)(o.c >> 8);
    switch(o.kind) {
    case SECTION: l.a = SN[o.a % NS]; l.text = std::string(sp1 ? "  " : "") + "[" + (sp2 ? " " + l.a + "\t" : l.a) + "]" + (com ? " ; [no]" : ""); break;
    case ENTRY: { l.a = KN[o.a % NK]; l.b = VN[o.b % NV]; if(o.c & 16) l.b += std::to_string(o.c & 255);
      std::string head = std::string(sp1 ? " \t" : "") + l.a + (sp2 ? " = " : "=");
      if(len > head.size() + l.b.size() + 8) { com = false; while(head.size() + l.b.size() + strlen(nl) < len) l.b += (char)('a' + (l.b.size() * 7 + l.b.size() / 26) % 26); }
      l.text = head + l.b + (com ? "  ; c=d" : ""); break; }
    case COMMENT: l.text = o.b & 1 ? "; key=value [alpha]" : "  ;[alpha]"; break;
    case BLANK: l.text = sp1 ? " \t " : ""; break;
    case GARBAGE: l.text = o.b & 1 ? "garbage without meaning" : "=no key"; break;
    }
    L.push_back(l);
  }
  std::string text; std::vector<size_t> ends;
  for(size_t i = 0; i < L.size(); ++i) {
    bool last = i + 1 == L.size();
    size_t full = L[i].text.size() + (last && p.p[3] ? 0 : strlen(nl));
    if(full > 1023) { L[i].cut = true; sim::probe(4); } else if(full > 1018) sim::probe(3);
    text += L[i].text; if(!last || !p.p[3]) text += nl; else sim::probe(6);
    ends.push_back(text.size());
  }
  auto upto = [&](size_t n) { std::vector<Sec> m; for(size_t i = 0; i < n; ++i) { Line& l = L[i]; if(l.kind == SECTION) m.push_back(Sec{ l.a, {} }); else if(l.kind == ENTRY) { if(m.empty()) { m.push_back(Sec{ "", {} }); sim::probe(5); } m.back().e.push_back(Entry{ l.a, l.b, l.cut }); } } return m; };
  sim::disk_put(path, text.data(), text.size()); sim::logf("file: %s", text.c_str());
  if(p.p[6]) sim::enable(sim::F_OPEN_ERR); sim::enable(sim::F_SHORT_READ); for(auto& l : L) { sim::seq(); for(char c : l.text) sim::mix((unsigned char)c); } if(p.p[0]) sim::enable(sim::F_READ_ERR); sim::disk_rates((unsigned)p.p[1]);
  bool failed = false; std::vector<Sec> all = upto(L.size());
  for(int round = 0; round < p.p[5]; ++round) {
    sim::IoStats b = sim::iostats(); sim::seq(); sim::mix(b.bytes_read * 31 + b.short_reads);
    sim::disk_faults(true); bss::INIstorage* ini = load(path, p.p[4]); sim::disk_faults(false);
    sim::IoStats a = sim::iostats();
    SIM_CHECK(sim::disk_open_files() == 0, "handle", "loading leaves the file open");
    if(a.open_errs > b.open_errs) { sim::probe(2); if(ini) { compare(*ini, std::vector<Sec>(), "file that cannot be opened"); delete ini; } continue; }
    SIM_CHECK(ini, "handle", "no storage");
    if(a.read_errs == b.read_errs) { compare(*ini, all, failed ? "loading again after an error" : "loading"); sim::probe(0); if(failed) sim::probe(10); }
    else {
      size_t got = (size_t)(a.bytes_read - b.bytes_read), n = 0; while(n < ends.size() && ends[n] <= got && text[ends[n] - 1] == '\n') ++n;
      failed = true; if(n && n < L.size()) sim::probe(1);
      bool cutline = n < L.size() && (L[n].cut || L[n].text.size() >= 1023); // the head of a line that fills the line buffer is parsed on its own
      if(!cutline) compare(*ini, upto(n), "loading up to a read error");
    }
    delete ini;
  }
  // nothing is left behind: loading the same file again and again needs no more memory than the first time
  { bss::INIstorage* i1 = load(path, false); compare(*i1, all, "loading from a healthy disk"); delete i1; sim::probe(0); }
  uint64_t l0 = sim::live_blocks(); { bss::INIstorage* i2 = load(path, false); delete i2; }
  SIM_CHECK(sim::live_blocks() == l0, "leak", "loading and dropping the same file again leaves %lld more blocks of memory", (long long)(sim::live_blocks() - l0));
}
