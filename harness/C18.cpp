// C18: Logger: every target gets every byte logged while it is attached, once and in order, whatever the other targets do; headers carry the simulated local time.
#include <iomanip>
#include "common.h"
#include "bss-util/Logger.h"
#include <ostream>
#include <string>
#include <vector>
#include <time.h>
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "target_failed_others_served", "file_write_failed", "file_open_failed", "target_recovered", "assimilated", "moved", "move_assigned_over_targets", "level_redefined", "new_level", "filtered_by_level", "midnight_between_zones", "pending_flushed_by_attach", "cleared", "assimilated_twice", 0 };
  const char* const harness_real = "Logger, StreamSplitter, format engine, GetTimeZoneMinutes, real ostream/ofstream buffering";
  const char* const harness_stub = "target stream buffers and disk (failing and short writes), wall clock, time zone database (TZ strings), fontconfig (never called)";
  void* FcInitLoadConfigAndFonts() { return 0; } void* FcNameParse(const void*) { return 0; } int FcConfigSubstitute(void*, void*, int) { return 0; } void FcDefaultSubstitute(void*) {}
  void* FcFontMatch(void*, void*, void*) { return 0; } int FcPatternGetString(void*, const char*, int, void*) { return 1; } void FcPatternDestroy(void*) {}
  long GetTimeZoneMinutes();
}
enum { ADD, ADDFILE, CLEAR, LOG, PRINTLOG, LOGFORMAT, RAW, FLUSH, ASSIM, TOASSIM, SETLEVEL, MAXLEVEL, FORMAT, MOVECTOR, MOVEASSIGN, RECOVER, CLOCK };
enum { NT = 4, NA = 2 };
struct TBuf : std::streambuf { // a target that may refuse what it is given
  std::string got; bool dead = false; int id = 0; bool isfaulty = false;
  bool hit(size_t n, size_t& take) { take = n; if(dead) { take = 0; return true; } if(!isfaulty) return false; if(sim::fault(sim::F_WRITE_ERR, 1, 6)) { take = 0; return true; } if(n > 1 && sim::fault(sim::F_SHORT_WRITE, 1, 8)) { take = (size_t)sim::faultval(sim::F_SHORT_WRITE, 0, (int64_t)n - 1); return true; } return false; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { sim::NoPreempt np; size_t k; hit((size_t)n, k); got.append(s, k); return (std::streamsize)k; }
  int overflow(int c) override { sim::NoPreempt np; size_t k; if(c == EOF) return 0; if(hit(1, k)) return EOF; got.push_back((char)c); return c; }
  int sync() override { sim::NoPreempt np; return dead || (isfaulty && sim::fault(sim::F_CLOSE_ERR, 1, 20)) ? -1 : 0; }
};
struct MTarget { bool file; int id; std::string want; bool broken; }; // what a healthy target must have received since it was attached
struct MLog { std::vector<MTarget> t; std::string pending; std::vector<std::pair<int, std::string>> levels; int maxlevel; const char* fmt; const char* nfmt; long tz; std::vector<int> assim; };
static TBuf* tb[NT]; static std::ostream* ts[NT]; static TBuf* ab[NA]; static std::ostream* as_[NA];
static const char* const ZONES[] = { "UTC0", "AAA5", "BBB-9", "CCC3:30", "DDD-5:45", "EEE11", "FFF-14" };
static const long ZMIN[] = { 0, -300, 540, -210, 345, -660, 840 };
static const char* const FMTS[] = { "{4} [{0}] ({1}:{2}) {3}", "{5}|{0}|{3}", "{3}{1}-{2}: ", "[{5}] {4} {{0} {9}{12}{a}", "" };
static const char* const NFMTS[] = { "{4} ({1}:{2}) {3}", "{5} {1} {3}", "null {2}" };
static const char* const LV[] = { "L0:", "X ", "", "a longer level name: " };
static int64_t wallsec;
static uint64_t clockfn(int clk) { return clk == CLOCK_REALTIME ? (uint64_t)wallsec * 1000000000ull + 123456789ull : sim::now(); }
extern "C" uint64_t (*sim_clock_hook)(int clk);
static void civil(int64_t days, int& y, int& m, int& d) { days += 719468; int64_t era = (days >= 0 ? days : days - 146096) / 146097; unsigned doe = (unsigned)(days - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = (int)(doy - (153 * mp + 2) / 5 + 1); m = (int)(mp < 10 ? mp + 3 : mp - 9); y = (int)(yoe + era * 400 + (m <= 2)); }
static std::string stamp(long tz, bool timeonly) {
  int64_t t = wallsec + tz * 60; int64_t day = t / 86400, s = t % 86400; if(s < 0) { s += 86400; --day; } char b[64];
  if(day != wallsec / 86400) sim::probe(10);
  int y, m, d; civil(day, y, m, d);
  if(timeonly) snprintf(b, sizeof b, "%d:%02d:%02d", (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60)); else snprintf(b, sizeof b, "%04d-%02d-%02d %d:%02d:%02d", y, m, d, (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60));
  return b;
}
static std::string expand(const char* f, const std::vector<std::string>& a, bool header) {
  std::string o; for(size_t i = 0; f[i];) {
    if(f[i] == '{' && isdigit((unsigned char)f[i + 1]) && (f[i + 2] == '}' || (isdigit((unsigned char)f[i + 2]) && f[i + 3] == '}'))) {
      int n = f[i + 1] - '0'; if(f[i + 2] == '}') i += 3; else { n = n * 10 + f[i + 2] - '0'; i += 4; }
      if(n < (int)a.size()) o += a[n]; else if(!header) o += "{INVALID PARAMETER " + std::to_string(n) + "}";
    } else o += f[i++];
  }
  return o;
}
static std::string levelstr(MLog& m, int l) { if(l < 0) return ""; for(auto& k : m.levels) if(k.first == l) return k.second; return "?"; }
static bool haslevel(MLog& m, int l) { if(l < 0) return true; for(auto& k : m.levels) if(k.first == l) return true; return false; }
static std::string header(MLog& m, const char* src, const char* file, size_t line, int level) {
  const char* b = file; for(const char* c = file; *c; ++c) if(*c == '/' || *c == '\\') b = c + 1;
  return expand(!src && m.nfmt ? m.nfmt : m.fmt, { src ? src : "", b, std::to_string(line), levelstr(m, level), stamp(m.tz, true), stamp(m.tz, false) }, true);
}
static std::string fpath(int id) { return "/sim/log" + std::to_string(id); }
static std::string ondisk(int id) { std::vector<char> d; if(!sim::disk_get(fpath(id).c_str(), d)) return "<none>"; return std::string(d.data(), d.size()); }
static bool streambad(MTarget& t) { return t.file ? false : !ts[t.id]->good(); }
static void flushm(MLog& m) { for(auto& t : m.t) if(!t.broken) t.want += m.pending; m.pending.clear(); }
static std::map<int, std::string>* base; // what each stream target held before it was attached
static void check(MLog& m, const char* when) {
  sim::NoPreempt np; bool someoneBroken = false, served = false;
  for(auto& t : m.t) if(!t.file) {
    if(!t.broken && !ts[t.id]->good()) t.broken = true; // it refused something: from here on it owes nothing until the user clears it
    if(t.broken) { someoneBroken = true; continue; }
    std::string full = tb[t.id]->got;
    SIM_CHECK(full == t.want, "delivery", "%s: target %d holds '...%s' (%zu bytes) instead of '...%s' (%zu bytes)", when, t.id, full.substr(full.size() > 90 ? full.size() - 90 : 0).c_str(), full.size(), t.want.substr(t.want.size() > 90 ? t.want.size() - 90 : 0).c_str(), t.want.size());
    served = true;
  } else if(!t.broken) { std::string d = ondisk(t.id); SIM_CHECK(d == t.want, "delivery", "%s: log file %d holds '%.120s' (%zu bytes) instead of '%.120s' (%zu bytes)", when, t.id, d.c_str(), d.size(), t.want.c_str(), t.want.size()); served = true; }
  if(someoneBroken && served) sim::probe(0);
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = (int64_t)r.below(7); p.p[1] = r.chance(1, 2); p.p[2] = r.range(2, 10); p.p[3] = r.chance(1, 6) ? 0 : r.range(0, 4102444800ll); p.p[4] = (int64_t)r.below(1 << NT); p.p[5] = (int64_t)r.below(4);
  int n = (int)r.range(2, r.chance(1, 40) ? 150 : 26);
  for(int i = 0; i < n; ++i) p.add(0, (int)pickw(r, { 6, 3, 1, 10, 4, 4, 5, 3, 2, 4, 3, 1, 2, 1, 1, 3, 3 }), (int64_t)r.below(1 << 20), (int64_t)r.below(1ull << 40), (int64_t)r.below(1000));
}
void harness_execute(const sim::Plan& p) {
  sim::set_limits(8000000, 20000000);
  static char zone[32]; snprintf(zone, sizeof zone, "TZ=%s", ZONES[p.p[0]]); putenv(zone); tzset();
  wallsec = p.p[3]; sim_clock_hook = clockfn;
  if(p.p[1]) { sim::enable(sim::F_WRITE_ERR); sim::enable(sim::F_SHORT_WRITE); sim::enable(sim::F_CLOSE_ERR); sim::enable(sim::F_OPEN_ERR); sim::disk_rates((unsigned)p.p[2]); }
  for(int i = 0; i < NT; ++i) { tb[i] = new TBuf; tb[i]->id = i; tb[i]->isfaulty = p.p[4] >> i & 1; ts[i] = new std::ostream(tb[i]); }
  for(int i = 0; i < NA; ++i) { ab[i] = new TBuf; as_[i] = new std::ostream(ab[i]); }
  int nfile = 0; long tz = ZMIN[p.p[0]];
  SIM_CHECK(GetTimeZoneMinutes() == tz, "timezone", "GetTimeZoneMinutes() is %ld in a zone %ld minutes from UTC", GetTimeZoneMinutes(), tz);
  struct FIo { uint64_t before; };
  auto werr = []() { auto& a = sim::iostats(); return a.write_errs + a.close_errs + a.open_errs; };
  auto fresh = [&]() { MLog m; m.maxlevel = 127; m.fmt = FMTS[0]; m.nfmt = NFMTS[0]; m.tz = tz; static const char* const D[] = { "FATAL: ", "ERROR: ", "WARNING: ", "NOTICE: ", "INFO: ", "DEBUG: " }; for(int i = 0; i < 6; ++i) m.levels.push_back({ i, D[i] }); return m; };
  // File targets share the disk's error counters: an error during an operation makes every attached file target suspect.
  auto guarded = [&](MLog& m, std::function<void()> f) { uint64_t w = werr(); sim::disk_faults(true); f(); sim::disk_faults(false); if(werr() != w) { for(auto& t : m.t) if(t.file && !t.broken) { t.broken = true; sim::probe(1); } } };
  bss::Logger* lg; MLog m = fresh();
  auto attach = [&](int id) { ts[id]->clear(); tb[id]->dead = false; MTarget t = { false, id, tb[id]->got, false }; m.t.push_back(t); };
  auto attachfile = [&](int id, bool bad) { MTarget t = { true, id, "", bad }; m.t.push_back(t); };
  if(p.p[5] == 0) lg = new bss::Logger(); else if(p.p[5] == 1) { lg = new bss::Logger(ts[0]); attach(0); }
  else { uint64_t w = werr(); sim::disk_faults(true); lg = new bss::Logger(fpath(nfile).c_str(), p.p[5] == 3 ? ts[1] : 0); sim::disk_faults(false); attachfile(nfile++, werr() != w); if(p.p[5] == 3) attach(1); }
  std::vector<int> assim; // streams currently redirected into the logger
  for(auto& o : p.ops) {
    sim::seq(); sim::mix((uint64_t)o.kind * 1000003 + o.a); char txt[64]; snprintf(txt, sizeof txt, "msg%lld", (long long)(o.b % 100000)); std::string big = (o.b >> 8) % 5 == 0 ? std::string((size_t)((o.b >> 16) % 700), 'q') : "";
    const char* src = o.a & 1 ? (o.a & 2 ? "Src" : "") : 0; const char* file = (const char*[]){ "a/b/file.cpp", "plain.h", "c:\\x\\y.cpp", "m/i\\x/ed.c" }[o.a >> 2 & 3]; size_t line = (size_t)o.c; int level = (int)(o.a >> 4 & 7) - 1;
    sim::logf("op %d a=%llx '%s'", o.kind, (unsigned long long)o.a, txt);
    bool on = level < m.maxlevel; if(o.kind >= LOG && o.kind <= LOGFORMAT) { if(!haslevel(m, level)) level = m.levels[0].first; on = level < m.maxlevel; if(!on) sim::probe(9); }
    switch(o.kind) {
    case ADD: { int id = (int)(o.a % NT); bool dup = false; for(auto& t : m.t) if(!t.file && t.id == id) dup = true; if(dup) continue; ts[id]->clear();
      if(!m.pending.empty()) sim::probe(11); guarded(m, [&] { lg->AddTarget(*ts[id]); }); flushm(m); attach(id); break; }
    case ADDFILE: { if(nfile >= 6) continue; int id = nfile++; guarded(m, [&] { uint64_t w = werr(); sim::IoStats b = sim::iostats(); lg->AddTarget(fpath(id).c_str()); (void)w; flushm(m); bool bad = sim::iostats().open_errs > b.open_errs; if(bad) sim::probe(2); attachfile(id, bad); if(bad) { } }); break; }
    case CLEAR: { guarded(m, [&] { lg->ClearTargets(); }); flushm(m); check(m, "after clearing"); SIM_CHECK(sim::disk_open_files() == 0, "handle", "clearing the targets leaves a log file open"); m.t.clear(); sim::probe(12); break; }
    case LOG: guarded(m, [&] { lg->Log(src, file, line, (int8_t)level, txt, big.c_str(), o.b % 1000 - 500, 'c', std::setw(6), o.b % 100); }); if(on) { m.pending += header(m, src, file, line, level) + txt + big + std::to_string(o.b % 1000 - 500) + "c" + std::string(6 - std::to_string(o.b % 100).size(), ' ') + std::to_string(o.b % 100) + "\n"; flushm(m); } break;
    case PRINTLOG: guarded(m, [&] { lg->PrintLog(src, file, line, (int8_t)level, "%s|%s|%05d", txt, big.c_str(), (int)(o.b % 1000)); }); if(on) { char n[16]; snprintf(n, sizeof n, "%05d", (int)(o.b % 1000)); m.pending += header(m, src, file, line, level) + txt + "|" + big + "|" + n + "\n"; flushm(m); } break;
    case LOGFORMAT: { static const char* const UF[] = { "{0} {1} {2}", "{2}{2}", "no args", "{1}{3} {10}" }; const char* f = UF[o.a >> 8 & 3]; guarded(m, [&] { lg->LogFormat(src, file, line, (int8_t)level, f, (const char*)txt, (int)(o.b % 77), big.c_str()); });
      if(on) { m.pending += header(m, src, file, line, level) + expand(f, { txt, std::to_string(o.b % 77), big }, false) + "\n"; flushm(m); } break; }
    case RAW: guarded(m, [&] { lg->GetStream() << txt << big; }); m.pending += txt + big; break;
    case FLUSH: guarded(m, [&] { lg->GetStream().flush(); }); flushm(m); break;
    case ASSIM: { int id = (int)(o.a % NA); for(int x : assim) if(x == id) sim::probe(13); lg->Assimilate(*as_[id]); assim.push_back(id); sim::probe(4); break; }
    case TOASSIM: { int id = (int)(o.a % NA); bool in = false; for(int x : assim) in |= x == id; std::string before = ab[id]->got; bool fl = o.a & 16; guarded(m, [&] { *as_[id] << txt << big; if(fl) as_[id]->flush(); });
      if(in) { m.pending += txt + big; if(fl) flushm(m); SIM_CHECK(ab[id]->got == before, "assimilated", "text written to a redirected stream still reaches its own buffer"); } else SIM_CHECK(ab[id]->got == before + txt + big, "assimilated", "text written to a stream that is not redirected did not reach its own buffer"); break; }
    case SETLEVEL: { int l = (int)(o.a % 12); const char* s = LV[o.a >> 5 & 3]; lg->SetLevel((uint8_t)l, s); bool f = false; for(auto& k : m.levels) if(k.first == l) { k.second = s; f = true; } if(!f) { m.levels.push_back({ l, s }); sim::probe(8); } else sim::probe(7); break; }
    case MAXLEVEL: { int l = (int)(o.a % 14); if(l >= 12) l = 127; lg->SetMaxLevel((uint8_t)l); m.maxlevel = l; break; }
    case FORMAT: if(o.a & 1) { m.fmt = FMTS[(o.a >> 1) % 5]; lg->SetFormat(m.fmt); } else { int k = (int)((o.a >> 1) % 4); m.nfmt = k == 3 ? 0 : NFMTS[k]; if(!m.nfmt) { m.nfmt = NFMTS[2]; } lg->SetNullFormat(m.nfmt); } break;
    case MOVECTOR: { bss::Logger* q = new bss::Logger(std::move(*lg)); delete lg; lg = q; sim::probe(5); break; }
    case MOVEASSIGN: { // the logger is assigned over one that has a target and a redirected stream of its own
      bss::Logger* q = new bss::Logger(); int id = -1; for(int i = 0; i < NT; ++i) { bool used = false; for(auto& t : m.t) if(!t.file && t.id == i) used = true; if(!used) id = i; }
      TBuf ob; std::ostream os(&ob); if(o.a & 2) q->Assimilate(os);
      std::string want; if(id >= 0) { ts[id]->clear(); q->AddTarget(*ts[id]); q->GetStream() << "old" << txt; want = tb[id]->got + "old" + txt; sim::probe(6); }
      *q = std::move(*lg); delete lg; lg = q;
      if(id >= 0 && ts[id]->good()) SIM_CHECK(tb[id]->got == want, "delivery", "assigning over a logger loses what was still unflushed for its own target");
      if(o.a & 2) { SIM_CHECK(os.rdbuf() == &ob, "assimilated", "a stream redirected into a logger that was assigned over still points into it"); }
      break; }
    case RECOVER: for(auto& t : m.t) if(!t.file && t.broken && (o.a >> t.id & 1)) { // the user repairs a failed target: from now on it must be served again
        flushm(m); guarded(m, [&] { lg->GetStream().flush(); }); ts[t.id]->clear(); tb[t.id]->dead = false; t.broken = false; t.want = tb[t.id]->got; sim::probe(3); } break;
    case CLOCK: { wallsec += (o.a & 1) ? (int64_t)(o.b % 100000) : (o.b % 90); if(wallsec > 4102444800ll) wallsec = 4102444800ll; continue; }
    }
    SIM_CHECK(lg->GetStream().good(), "logger-stream", "the logger's own stream went bad");
    check(m, "during the run");
  }
  bool fin = p.p[1] && (p.p[4] & 1); if(!fin) sim::disk_faults(false);
  guarded(m, [&] { delete lg; }); flushm(m); check(m, "after the logger was destroyed");
  SIM_CHECK(sim::disk_open_files() == 0, "handle", "a destroyed logger leaves a log file open");
  for(int i = 0; i < NA; ++i) { SIM_CHECK(as_[i]->rdbuf() == ab[i], "assimilated", "stream %d still points into the destroyed logger", i); std::string b = ab[i]->got; *as_[i] << "after"; SIM_CHECK(ab[i]->got == b + "after", "assimilated", "a released stream does not write to its own buffer"); }
  for(int i = 0; i < NT; ++i) { delete ts[i]; delete tb[i]; } for(int i = 0; i < NA; ++i) { delete as_[i]; delete ab[i]; }
}
