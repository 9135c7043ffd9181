// Driver: one forked process per simulated run; search, replay, minimise.
#include "rt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <string>
#include <unordered_set>
#include <algorithm>
using namespace rt;
namespace rt { void sched_init(); void run(const sim::Plan& plan, uint64_t seed, const Input* in); }
static const char* FN[] = { "alloc_fail", "eintr", "spurious_cas", "spurious_wake", "clock_jump_forward", "clock_jump_back", "open_error", "read_error", "short_read", "truncation", "write_error", "short_write", "close_error", "bit_flip", "stall", "preempt", "thread_create_fail", "exception", "cancel", "crash", "extreme_random", "semaphore_full" };
static double wall() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void clearR() { memset(R, 0, offsetof(Result, ops)); R->nops = R->nsw = R->nfault = R->loglen = 0; }
static uint64_t h64(uint64_t a, uint64_t b) { sim::Rng r(a * 0x9e3779b97f4a7c15ull ^ b); r.next(); return r.next(); }

static void child(uint64_t seed, const Input* in, const std::vector<sim::Op>* fixedops, const int64_t* fixedp, bool trace) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  trap_handlers();
  logging = trace;
  static sim::Plan plan;
  memset(plan.p, 0, sizeof plan.p);
  if(in) { plan.ops = in->ops; memcpy(plan.p, in->p, sizeof plan.p); }
  else if(fixedops) { plan.ops = *fixedops; memcpy(plan.p, fixedp, sizeof plan.p); }
  else { sim::Rng g(h64(seed, 1)); harness_generate(g, plan); }
  if(plan.ops.size() > MAXOPS) { R->status = 2; snprintf(R->msg, sizeof R->msg, "plan too long"); _exit(0); }
  memcpy(R->p, plan.p, sizeof plan.p);
  R->nops = (int)plan.ops.size(); for(int i = 0; i < R->nops; ++i) R->ops[i] = plan.ops[i];
  rt::run(plan, h64(seed, 2), in);
}
static void one(uint64_t seed, const Input* in, const std::vector<sim::Op>* fo = 0, const int64_t* fp = 0, bool trace = false) {
  clearR();
  pid_t p = fork();
  if(p < 0) { perror("fork"); exit(2); }
  if(!p) { child(seed, in, fo, fp, trace); _exit(0); }
  int st = 0; while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && R->status == 0) { R->status = 2; snprintf(R->cls, sizeof R->cls, "harness"); snprintf(R->msg, sizeof R->msg, "run process ended abnormally (wait status %d)", st); }
}
static void to_input(Input& in) {
  memcpy(in.knobs, R->knobs, sizeof in.knobs); memcpy(in.p, R->p, sizeof in.p);
  in.ops.assign(R->ops, R->ops + R->nops); in.sw.assign(R->sw, R->sw + R->nsw); in.frec.assign(R->frec, R->frec + R->nfault);
}
static void save(const char* path, const char* prop, uint64_t seed, const Input& in, const char* cls, const char* msg, uint64_t hash) {
  FILE* f = fopen(path, "w"); if(!f) { perror(path); exit(2); }
  fprintf(f, "property %s\nseed %llu\nclass %s\n", prop, (unsigned long long)seed, cls);
  std::string m = msg; for(auto& c : m) if(c == '\n') c = ' ';
  fprintf(f, "message %s\nhash %llu\nknobs", m.c_str(), (unsigned long long)hash);
  for(int i = 0; i < KN_N; ++i) fprintf(f, " %lld", (long long)in.knobs[i]);
  fprintf(f, "\nparams"); for(int i = 0; i < 32; ++i) fprintf(f, " %lld", (long long)in.p[i]);
  fprintf(f, "\n");
  for(auto& o : in.ops) fprintf(f, "op %d %d %lld %lld %lld %lld\n", o.actor, o.kind, (long long)o.a, (long long)o.b, (long long)o.c, (long long)o.d);
  for(auto& s : in.sw) fprintf(f, "switch %d %llu %d\n", s.fiber, (unsigned long long)s.cnt, s.target);
  for(auto& x : in.frec) fprintf(f, "fault %d %u %lld %s\n", x.kind, x.nth, (long long)x.val, FN[x.kind]);
  fclose(f);
}
static bool load(const char* path, Input& in, std::string& prop, uint64_t& seed, std::string& cls, uint64_t& hash) {
  FILE* f = fopen(path, "r"); if(!f) return false;
  memset(in.knobs, 0, sizeof in.knobs); memset(in.p, 0, sizeof in.p);
  static char line[8192]; hash = 0;
  while(fgets(line, sizeof line, f)) {
    char w[32] = ""; int off = 0; sscanf(line, "%31s%n", w, &off); char* r = line + off; std::string k = w;
    while(*r == ' ') ++r; r[strcspn(r, "\n")] = 0;
    if(k == "property") prop = r; else if(k == "seed") seed = strtoull(r, 0, 10); else if(k == "class") cls = r; else if(k == "hash") hash = strtoull(r, 0, 10);
    else if(k == "knobs") { for(int i = 0; i < KN_N; ++i) in.knobs[i] = strtoll(r, &r, 10); }
    else if(k == "params") { for(int i = 0; i < 32; ++i) in.p[i] = strtoll(r, &r, 10); }
    else if(k == "op") { sim::Op o; o.actor = strtol(r, &r, 10); o.kind = strtol(r, &r, 10); o.a = strtoll(r, &r, 10); o.b = strtoll(r, &r, 10); o.c = strtoll(r, &r, 10); o.d = strtoll(r, &r, 10); in.ops.push_back(o); }
    else if(k == "switch") { SwRec s; s.fiber = strtol(r, &r, 10); s.cnt = strtoull(r, &r, 10); s.target = strtol(r, &r, 10); in.sw.push_back(s); }
    else if(k == "fault") { FaultRec x; x.kind = strtol(r, &r, 10); x.nth = strtoul(r, &r, 10); x.val = strtoll(r, &r, 10); in.frec.push_back(x); }
  }
  fclose(f); return true;
}
static std::string want; static double stopat;
static bool still(const Input& in) { one(0, &in); return R->status == 1 && want == R->cls; }
template<class V> static bool ddmin(Input& in, V Input::* mem) {
  bool any = false; size_t chunk = ((in.*mem).size() + 1) / 2;
  while(chunk >= 1 && !(in.*mem).empty()) {
    bool cut = false;
    for(size_t i = 0; i < (in.*mem).size() && wall() < stopat;) {
      Input c = in; auto& v = c.*mem; size_t n = std::min(chunk, v.size() - i); v.erase(v.begin() + i, v.begin() + i + n);
      if(still(c)) { if((void*)&(c.*mem) != (void*)&c.sw && R->nsw < (int)c.sw.size()) c.sw.assign(R->sw, R->sw + R->nsw); in = c; cut = any = true; } else i += chunk;
    }
    if(wall() >= stopat) break;
    if(chunk == 1) { if(!cut) break; } else chunk = (chunk + 1) / 2 < chunk ? (chunk + 1) / 2 : 1;
  }
  return any;
}
static const char* arg(int c, char** v, const char* k, const char* d) { for(int i = 2; i + 1 < c; ++i) if(!strcmp(v[i], k)) return v[i + 1]; return d; }

static void jstr(FILE* f, const char* s) { fputc('"', f); for(; *s; ++s) { if(*s == '"' || *s == '\\') fputc('\\', f); if((unsigned char)*s < 32) fputc(' ', f); else if((unsigned char)*s > 126) fputc('?', f); else fputc(*s, f); } fputc('"', f); }

int main(int argc, char** argv) {
  if(argc < 2) return 2;
  R = (Result*)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  mem_init(); sched_init();
  std::string cmd = argv[1];
  const char* prop = arg(argc, argv, "--property", "?");
  if(cmd == "search") {
    uint64_t base = strtoull(arg(argc, argv, "--seed", "1"), 0, 10); uint64_t first = strtoull(arg(argc, argv, "--first", "0"), 0, 10), count = strtoull(arg(argc, argv, "--count", "100"), 0, 10), stride = strtoull(arg(argc, argv, "--stride", "1"), 0, 10);
    double limit = atof(arg(argc, argv, "--time", "60")), t0 = wall(); const char* out = arg(argc, argv, "--out", "/dev/null"); const char* hf = arg(argc, argv, "--hashes", 0);
    uint64_t ph = 0; for(const char* c = prop; *c; ++c) ph = ph * 131 + *c;
    std::unordered_set<uint64_t> hs; uint64_t runs = 0, points = 0, atomics = 0, sw = 0, forced = 0, simt = 0, ev = 0, nontriv = 0, allocs = 0; uint64_t faults[F_N] = { 0 }, frun[F_N] = { 0 }, probes[NPROBE] = { 0 }, strat[8] = { 0 }; int viol = 0; std::string vcls, vmsg; uint64_t vidx = 0;
    for(uint64_t i = 0; i < count && wall() - t0 < limit; ++i) {
      uint64_t idx = first + i * stride, seed = h64(base * 0x1000003ull + ph, idx);
      one(seed, 0); ++runs;
      if(R->status == 2) { fprintf(stderr, "HARNESS-ERROR seed=%llu %s\n", (unsigned long long)seed, R->msg); return 2; }
      points += R->points; atomics += R->atomics; sw += R->switches; forced += R->forced; simt += R->simtime - 1000ull * 1000000000ull; ev += R->events; allocs += R->allocs;
      bool nt = R->events > 1; if(nt) ++nontriv; if(nt) hs.insert(R->hash);
      for(int k = 0; k < F_N; ++k) { faults[k] += R->faults[k]; frun[k] += R->faults[k] != 0; }
      for(int k = 0; k < NPROBE; ++k) probes[k] += R->probes[k];
      strat[R->strategy]++;
      if(R->status == 1) { viol = 1; vcls = R->cls; vmsg = R->msg; vidx = idx; Input in; to_input(in); save(out, prop, seed, in, R->cls, R->msg, R->hash); break; }
    }
    if(hf) { FILE* f = fopen(hf, "wb"); if(f) { for(auto h : hs) fwrite(&h, 8, 1, f); fclose(f); } }
    printf("{\"runs\":%llu,\"points\":%llu,\"atomics\":%llu,\"switches\":%llu,\"forced\":%llu,\"sim_ns\":%llu,\"events\":%llu,\"allocs\":%llu,\"distinct\":%zu,\"wall\":%.3f,\"violation\":%d", (unsigned long long)runs, (unsigned long long)points, (unsigned long long)atomics, (unsigned long long)sw, (unsigned long long)forced, (unsigned long long)simt, (unsigned long long)ev, (unsigned long long)allocs, hs.size(), wall() - t0, viol);
    if(viol) { printf(",\"class\":"); jstr(stdout, vcls.c_str()); printf(",\"message\":"); jstr(stdout, vmsg.c_str()); printf(",\"idx\":%llu", (unsigned long long)vidx); }
    printf(",\"faults\":{"); bool c = false; for(int k = 0; k < F_N; ++k) if(faults[k]) { printf("%s\"%s\":%llu", c ? "," : "", FN[k], (unsigned long long)faults[k]); c = true; }
    printf("},\"fault_runs\":{"); c = false; for(int k = 0; k < F_N; ++k) if(faults[k]) { printf("%s\"%s\":%llu", c ? "," : "", FN[k], (unsigned long long)frun[k]); c = true; }
    printf("},\"strategies\":[%llu,%llu,%llu,%llu,%llu],\"probes\":{", (unsigned long long)strat[0], (unsigned long long)strat[1], (unsigned long long)strat[2], (unsigned long long)strat[3], (unsigned long long)strat[4]);
    for(int k = 0; k < NPROBE && harness_probes[k]; ++k) { if(k) putchar(','); jstr(stdout, harness_probes[k]); printf(":%llu", (unsigned long long)probes[k]); }
    printf("},\"real\":"); jstr(stdout, harness_real); printf(",\"stub\":"); jstr(stdout, harness_stub); printf("}\n");
    return viol;
  }
  if(cmd == "hash") { // determinism self-check: the event hash of given runs
    uint64_t base = strtoull(arg(argc, argv, "--seed", "1"), 0, 10), ph = 0; for(const char* c = prop; *c; ++c) ph = ph * 131 + *c;
    uint64_t n = strtoull(arg(argc, argv, "--count", "20"), 0, 10);
    for(uint64_t i = 0; i < n; ++i) { one(h64(base * 0x1000003ull + ph, i), 0); uint64_t h = R->hash, p = R->points; int st = R->status; Input in; to_input(in); one(0, &in); printf("%llu %d %llu %llu %s\n", (unsigned long long)i, st, (unsigned long long)h, (unsigned long long)p, R->hash == h && R->points == p && R->status == st ? "replay-identical" : "REPLAY-DIFFERS"); }
    return 0;
  }
  if(cmd == "sample") { // write out the first runs of this seed
    uint64_t base = strtoull(arg(argc, argv, "--seed", "1"), 0, 10), ph = 0; for(const char* c = prop; *c; ++c) ph = ph * 131 + *c;
    uint64_t n = strtoull(arg(argc, argv, "--count", "2"), 0, 10);
    for(uint64_t i = 0; i < n; ++i) {
      one(h64(base * 0x1000003ull + ph, i), 0, 0, 0, true);
      printf("run %llu: %d ops, %llu points, %llu switches, %d faults; params", (unsigned long long)i, R->nops, (unsigned long long)R->points, (unsigned long long)R->switches, R->nfault);
      for(int k = 0; k < 8; ++k) printf(" %lld", (long long)R->p[k]);
      printf("; ops"); for(int k = 0; k < R->nops && k < 12; ++k) printf(" t%d:%d(%lld)", R->ops[k].actor, R->ops[k].kind, (long long)R->ops[k].a);
      printf("; trace "); int m = R->loglen < 600 ? R->loglen : 600; for(int k = 0; k < m; ++k) putchar(R->log[k] == '\n' ? ';' : R->log[k]);
      printf("\n---\n");
    }
    return 0;
  }
  Input in; std::string p, cls; uint64_t seed = 0, hash = 0;
  if(argc < 3 || !load(argv[2], in, p, seed, cls, hash)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
  if(cmd == "replay") {
    bool trace = false; for(int i = 3; i < argc; ++i) if(!strcmp(argv[i], "--trace")) trace = true;
    one(0, &in, 0, 0, trace);
    if(trace) fwrite(R->log, 1, R->loglen, stdout);
    printf("status=%d class=%s hash=%llu expected_hash=%llu %s\n", R->status, R->cls, (unsigned long long)R->hash, (unsigned long long)hash, R->msg);
    if(R->status == 2) return 2;
    if(R->status == 1 && cls == R->cls && R->hash == hash) return 1;
    return R->status == 1 ? 3 : 0;
  }
  if(cmd == "minimize") {
    const char* out = argv[3]; double limit = atof(arg(argc, argv, "--time", "20")); want = cls; stopat = wall() + limit;
    if(!still(in)) { fprintf(stderr, "replay did not reproduce (%d %s vs %s)\n", R->status, R->cls, cls.c_str()); return 2; }
    double t0 = wall();
    // fewer operations, looking for a failing schedule of the smaller workload anew
    for(size_t chunk = (in.ops.size() + 1) / 2; chunk >= 1 && wall() - t0 < limit * 0.45;) {
      bool cut = false;
      for(size_t i = 0; i < in.ops.size() && wall() - t0 < limit * 0.45;) {
        Input c = in; size_t n = std::min(chunk, c.ops.size() - i); c.ops.erase(c.ops.begin() + i, c.ops.begin() + i + n);
        bool ok = still(c);
        for(int s = 0; !ok && s < 150 && wall() - t0 < limit * 0.45; ++s) { one(h64(seed + 77, i * 1000 + s), 0, &c.ops, c.p); ok = R->status == 1 && want == R->cls; if(ok) to_input(c); }
        if(ok) { in = c; cut = true; } else i += chunk;
      }
      if(chunk == 1) { if(!cut) break; } else chunk = (chunk + 1) / 2;
    }
    for(int round = 0; round < 6 && wall() < stopat; ++round) { bool a = ddmin(in, &Input::frec); a |= ddmin(in, &Input::sw); a |= ddmin(in, &Input::ops); if(!a) break; }
    if(!still(in)) { fprintf(stderr, "minimised schedule did not reproduce\n"); return 2; }
    save(out, p.c_str(), seed, in, R->cls, R->msg, R->hash);
    printf("ops=%zu switches=%zu faults=%zu class=%s %s\n", in.ops.size(), in.sw.size(), in.frec.size(), R->cls, R->msg);
    return 1;
  }
  return 2;
}
