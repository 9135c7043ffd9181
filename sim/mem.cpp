// Simulated heap: fixed-address arena with red zones, byte-granular shadow, optional reuse, injected failures.
#include "rt.h"
#include <sys/mman.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <malloc.h>
using namespace rt;
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void* __libc_memalign(size_t, size_t); }
namespace rt {
  static char* const ARENA = (char*)0x520000000000ull; static const size_t ASZ = 512ull << 20;
  static unsigned char* const SHADOW = (unsigned char*)0x530000000000ull;
  static void (*watcher)(size_t);
  static char* brk_; static bool reuse; static int fillb; static uint64_t live, blocks, calls, ucalls, codelive; static bool afaults; static unsigned anum = 1, aden = 20;
  enum { SH_NONE = 0, SH_LIVE = 1, SH_FREED = 2, SH_RED = 3 };
  struct Hdr { uint64_t size; uint32_t magic, state; void* next; uint64_t pad; };  // 32 bytes before the payload
  static const uint32_t MAGIC = 0x51AB10C5;
  static Hdr* freelist[2048];
  bool in_arena(const void* p) { return (uint64_t)p - (uint64_t)ARENA < ASZ; }
  void mem_init() {
    if(mmap(ARENA, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ARENA ||
       mmap(SHADOW, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)SHADOW) { fprintf(stderr, "cannot map arena\n"); _exit(2); }
    brk_ = ARENA + 64;
  }
  void mem_start(int64_t r, int64_t f) { reuse = r != 0; fillb = (int)f; }
  static bool bad(const void* a, size_t n, size_t& at) {
    unsigned char* s = SHADOW + ((char*)a - ARENA);
    for(size_t i = 0; i < n; ++i) if(s[i] != SH_LIVE) { at = i; return true; }
    return false;
  }
  void shadow_check(const void* a, size_t n, bool w, const char* what) {
    size_t at;
    if((uint64_t)a + n > (uint64_t)ARENA + ASZ || !bad(a, n, at)) return;
    int s = SHADOW[(char*)a - ARENA + at];
    sim::fail("memory", "%s %s of %zu bytes at arena+0x%zx touches %s memory (byte %zu)", w ? "write" : "read", what, n, (size_t)((char*)a - ARENA), s == SH_FREED ? "freed" : s == SH_RED ? "out-of-bounds (red zone)" : "unallocated", at);
  }
  static void* do_alloc(size_t n, size_t align) {
    ++calls; if(!np) { ++ucalls; if(watcher) watcher(n); }
    if(afaults && !np && sim::fault(sim::F_ALLOC_FAIL, anum, aden)) { errno = ENOMEM; return 0; }
    if(n > ASZ / 2) { errno = ENOMEM; return 0; }
    size_t cls = (n + 15) / 16;
    Hdr* h = 0;
    if(reuse && align <= 16 && cls < 2048 && freelist[cls]) { h = freelist[cls]; freelist[cls] = (Hdr*)h->next; }
    char* p;
    if(h) p = (char*)(h + 1);
    else {
      if(align < 16) align = 16;
      p = (char*)(((uint64_t)brk_ + sizeof(Hdr) + align - 1) & ~(align - 1));
      if(p + cls * 16 + 32 > ARENA + ASZ) { errno = ENOMEM; return 0; }
      brk_ = p + cls * 16 + 16;
      h = (Hdr*)p - 1;
    }
    h->size = n; h->magic = MAGIC; h->state = 1; h->next = 0; h->pad = !np; codelive += !np;
    unsigned char* s = SHADOW + (p - ARENA);
    memset(s - 32, SH_RED, 32); memset(s, SH_LIVE, n); memset(s + n, SH_RED, cls * 16 - n + 16);
    memset(p, fillb, n);
    live += n; ++blocks;
    return p;
  }
  static void do_free(void* p) {
    if((uint64_t)p % 16) sim::fail("memory", "free of a pointer that was never allocated (arena+0x%zx)", (size_t)((char*)p - ARENA));
    Hdr* h = (Hdr*)p - 1;
    if(h->magic != MAGIC || (SHADOW[(char*)p - ARENA - 1] != SH_RED)) sim::fail("memory", "free of a pointer that was never allocated (arena+0x%zx)", (size_t)((char*)p - ARENA));
    if(h->state != 1) sim::fail("memory", "double free (arena+0x%zx, %llu bytes)", (size_t)((char*)p - ARENA), (unsigned long long)h->size);
    h->state = 2; live -= h->size; --blocks; codelive -= h->pad;
    memset(SHADOW + ((char*)p - ARENA), SH_FREED, h->size);
    memset(p, 0xDD, h->size);
    size_t cls = (h->size + 15) / 16;
    if(reuse && cls < 2048) { h->next = freelist[cls]; freelist[cls] = h; }
  }
}
namespace sim {
  bool valid(const void* p, size_t n) { size_t at; return in_arena(p) && !bad(p, n, at); }
  uint64_t live_bytes() { return live; }
  uint64_t live_blocks() { return blocks; }
  uint64_t alloc_calls() { return calls; }
  uint64_t code_allocs() { return ucalls; }
  void watch_allocs(void (*f)(size_t)) { watcher = f; }
  uint64_t code_live() { return codelive; }
  void alloc_faults(bool on) { afaults = on; }
  void alloc_fail_rate(unsigned n, unsigned d) { anum = n; aden = d; }
  size_t block_size(const void* p) { return ((Hdr*)p - 1)->size; }
  const void* block_base(const void* p) { // start of the live allocation that contains p
    if(!in_arena(p) || SHADOW[(char*)p - ARENA] != SH_LIVE) return 0;
    const char* q = (const char*)p; while(SHADOW[q - 1 - ARENA] == SH_LIVE) --q;
    return q;
  }
}
extern "C" {
  void* malloc(size_t n) { return cur ? do_alloc(n, 16) : __libc_malloc(n); }
  void free(void* p) { if(!p) return; if(in_arena(p)) do_free(p); else __libc_free(p); }
  void* calloc(size_t a, size_t b) { if(!cur) return __libc_calloc(a, b); size_t n; if(__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; } void* p = do_alloc(n, 16); if(p) memset(p, 0, n); return p; }
  void* realloc(void* p, size_t n) {
    if(!in_arena(p) && (p || !cur)) return __libc_realloc(p, n);
    if(!p) return do_alloc(n, 16);
    Hdr* h = (Hdr*)p - 1;
    if(h->magic != MAGIC || h->state != 1) sim::fail("memory", "realloc of a pointer that is not a live allocation");
    if(!n) { do_free(p); return 0; }
    void* q = do_alloc(n, 16);
    if(!q) return 0;
    memcpy(q, p, n < h->size ? n : h->size); do_free(p); return q;
  }
  void* memalign(size_t al, size_t n) { return cur ? do_alloc(n, al) : __libc_memalign(al, n); }
  void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
  int posix_memalign(void** p, size_t al, size_t n) { void* q = memalign(al, n); if(!q) return ENOMEM; *p = q; return 0; }
  size_t malloc_usable_size(void* p) { return p ? (in_arena(p) ? ((Hdr*)p - 1)->size : 0) : 0; }

  static inline void chk(const void* p, size_t n, bool w, const char* what) {
    if(!n || !cur) return;
    if((uint64_t)p < 4096) sim::fail("memory", "%s through a null pointer", what);
    if(in_arena(p)) shadow_check(p, n, w, what);
  }
  // Copies are not indivisible: other threads may run before, in the middle and after.
  void* __sim_memcpy(void* d, const void* s, size_t n) {
    chk(s, n, false, "memcpy"); chk(d, n, true, "memcpy");
    if(cur && !np && n) { point(s, 1, K_READ); size_t h = n / 2; memcpy(d, s, h); point(d, 1, K_WRITE); memcpy((char*)d + h, (const char*)s + h, n - h); return d; }
    return memcpy(d, s, n);
  }
  void* __sim_memmove(void* d, const void* s, size_t n) { chk(s, n, false, "memmove"); chk(d, n, true, "memmove"); if(cur && !np && n) point(d, 1, K_WRITE); return memmove(d, s, n); }
  void* __sim_memset(void* d, int c, size_t n) { chk(d, n, true, "memset"); if(cur && !np && n) point(d, 1, K_WRITE); return memset(d, c, n); }
  int __sim_memcmp(const void* a, const void* b, size_t n) { chk(a, n, false, "memcmp"); chk(b, n, false, "memcmp"); return memcmp(a, b, n); }
  size_t __sim_strlen(const char* s) { chk(s, 1, false, "strlen"); size_t n = 0; while(s[n]) { ++n; if(in_arena(s + n) && cur) shadow_check(s + n, 1, false, "strlen"); } return n; }
  char* __sim_strcpy(char* d, const char* s) { size_t n = __sim_strlen(s) + 1; chk(d, n, true, "strcpy"); memcpy(d, s, n); return d; }
  char* __sim_strncpy(char* d, const char* s, size_t n) { chk(d, n, true, "strncpy"); size_t i = 0; for(; i < n; ++i) { chk(s + i, 1, false, "strncpy"); if(!(d[i] = s[i])) break; } for(; i < n; ++i) d[i] = 0; return d; }
}
static void on_signal(int sig, siginfo_t* si, void*) {
  static int depth; if(depth++) _exit(3);
  if(!cur) { signal(sig, SIG_DFL); raise(sig); return; }
  if(sig == SIGPROF) sim::fail("no-progress", "the run used 20 s of CPU time without finishing (thread t%d)", cur->id);
  if(sig == SIGSEGV || sig == SIGBUS) sim::fail("memory", "%s at address %s%p in thread t%d", sig == SIGSEGV ? "SIGSEGV" : "SIGBUS", (uint64_t)si->si_addr < 65536 ? "(near null) " : "", (void*)((uint64_t)si->si_addr < 65536 ? si->si_addr : 0), cur->id);
  if(sig == SIGABRT) sim::fail("abort", "abort() in thread t%d (terminate, failed assertion or libc check)", cur->id);
  sim::fail("crash", "signal %d in thread t%d", sig, cur->id);
}
namespace rt {
  void trap_handlers() {
    static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for(int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGPROF }) sigaction(s, &sa, 0);
    itimerval it; it.it_interval = { 0, 0 }; it.it_value = { 20, 0 }; setitimer(ITIMER_PROF, &it, 0);
  }
}
extern "C" void __assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
  const char* b = strrchr(file, '/');
  if(cur) sim::fail("assert", "assertion `%s' failed in %s (%s)", e, fn ? fn : "?", b ? b + 1 : file);
  fprintf(stderr, "assert %s %s:%u\n", e, file, line); _exit(3);
}
