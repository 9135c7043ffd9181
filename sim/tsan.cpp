// The instrumentation interface emitted by g++ -fsanitize=thread: instead of a race detector, every
// shared access becomes a scheduling point with a memory-validity check, and every atomic operation
// is executed here in one indivisible step.
#include "rt.h"
using namespace rt;
typedef __int128 i128;
static uint64_t since_point;
namespace rt { void sched_point(PtKind k); }
#define PT(a, n, k) do { if(cur) { since_point = 0; point((const void*)(a), n, k); } } while(0)
extern "C" {
  void __tsan_init() {}
  void __tsan_func_entry(void*) {}
  void __tsan_func_exit() {}
  void __sanitizer_cov_trace_pc() {
    if(cur && ++since_point > 60000000ull) sim::fail("no-progress", "thread t%d executed 60 million basic blocks without touching shared state: it is stuck in a loop", cur->id);
  }
#define RW(n) \
  void __tsan_read##n(void* a) { PT(a, n, K_READ); } \
  void __tsan_write##n(void* a) { PT(a, n, K_WRITE); } \
  void __tsan_unaligned_read##n(void* a) { PT(a, n, K_READ); } \
  void __tsan_unaligned_write##n(void* a) { PT(a, n, K_WRITE); } \
  void __tsan_volatile_read##n(void* a) { PT(a, n, K_READ); } \
  void __tsan_volatile_write##n(void* a) { PT(a, n, K_WRITE); }
  RW(1) RW(2) RW(4) RW(8) RW(16)
  void __tsan_read_range(void* a, unsigned long n) { if(n) PT(a, n, K_READ); }
  void __tsan_write_range(void* a, unsigned long n) { if(n) PT(a, n, K_WRITE); }
  void __tsan_vptr_update(void* a, void*) { PT(a, 8, K_WRITE); }
  void __tsan_vptr_read(void* a) { PT(a, 8, K_READ); }

// a release may be followed by work on memory the code no longer owns, possibly in a callback: preempt there too
#define AFTER() do { if(cur && !np) sched_point(K_ATOMIC); } while(0)
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { PT(a, sizeof(T), K_ATOMIC); return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { PT(a, sizeof(T), K_ATOMIC); *a = v; AFTER(); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { PT(a, sizeof(T), K_ATOMIC); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { PT(a, sizeof(T), K_ATOMIC); T o = *a; *a = (T)((unsigned __int128)o + (unsigned __int128)v); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { PT(a, sizeof(T), K_ATOMIC); T o = *a; *a = (T)((unsigned __int128)o - (unsigned __int128)v); AFTER(); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { PT(a, sizeof(T), K_ATOMIC); T o = *a; *a = o & v; AFTER(); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { PT(a, sizeof(T), K_ATOMIC); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { PT(a, sizeof(T), K_ATOMIC); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { PT(a, sizeof(T), K_ATOMIC); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { PT(a, sizeof(T), K_ATOMIC); T o = *a; if(o == *c) { *a = v; return 1; } *c = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { PT(a, sizeof(T), K_ATOMIC); T o = *a; if(cur && !np && sim::fault(sim::F_SPURIOUS_CAS, 1, 8)) { *c = o; return 0; } if(o == *c) { *a = v; return 1; } *c = o; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { PT(a, sizeof(T), K_ATOMIC); T o = *a; if(o == c) *a = v; return o; }
  AT(8, int8_t) AT(16, int16_t) AT(32, int32_t) AT(64, int64_t) AT(128, i128)
  void __tsan_atomic_thread_fence(int) { if(cur && !np) sched_point(K_ATOMIC); }
  void __tsan_atomic_signal_fence(int) {}

  // libatomic entry points (16-byte std::atomic without inline expansion)
  bool __sim_atomic_is_lock_free(size_t, void*) { return true; }

  // --- inline assembly: called from the trampolines that instr.py inserts ------------------
  // ea/size of the operand are computed by the inserted code.
  uint64_t __sim_r11, __sim_ea;
  static unsigned char torn_old[16];
  void __sim_asm_point_c(uint64_t size) { PT((void*)__sim_ea, (unsigned)size, K_ATOMIC); }
  // A read-modify-write without a LOCK prefix is not indivisible: its load happens before other
  // threads may run, its store after. Modelled by restoring the value it loaded before it executes.
  void __sim_asm_torn_c(uint64_t size) {
    if(!cur) return;
    void* ea = (void*)__sim_ea; if(size > 16) size = 16;
    PT(ea, (unsigned)size, K_ATOMIC);
    if(np) return;
    unsigned char old[16]; memcpy(old, ea, size);
    PT(ea, (unsigned)size, K_ATOMIC);
    memcpy(ea, old, size);
    (void)torn_old;
  }
}
#define TRAMP(name, fn) \
asm(".text\n.globl " name "\n" name ":\n" \
    " pushfq\n push %rax\n push %rcx\n push %rdx\n push %rsi\n push %rdi\n push %r8\n push %r9\n push %r10\n push %r11\n push %rbx\n push %rbp\n" \
    " mov %rsp,%rbx\n mov 104(%rsp),%rdi\n sub $272,%rsp\n and $-64,%rsp\n" \
    " movdqu %xmm0,(%rsp)\n movdqu %xmm1,16(%rsp)\n movdqu %xmm2,32(%rsp)\n movdqu %xmm3,48(%rsp)\n movdqu %xmm4,64(%rsp)\n movdqu %xmm5,80(%rsp)\n movdqu %xmm6,96(%rsp)\n movdqu %xmm7,112(%rsp)\n" \
    " movdqu %xmm8,128(%rsp)\n movdqu %xmm9,144(%rsp)\n movdqu %xmm10,160(%rsp)\n movdqu %xmm11,176(%rsp)\n movdqu %xmm12,192(%rsp)\n movdqu %xmm13,208(%rsp)\n movdqu %xmm14,224(%rsp)\n movdqu %xmm15,240(%rsp)\n" \
    " call " fn "\n" \
    " movdqu (%rsp),%xmm0\n movdqu 16(%rsp),%xmm1\n movdqu 32(%rsp),%xmm2\n movdqu 48(%rsp),%xmm3\n movdqu 64(%rsp),%xmm4\n movdqu 80(%rsp),%xmm5\n movdqu 96(%rsp),%xmm6\n movdqu 112(%rsp),%xmm7\n" \
    " movdqu 128(%rsp),%xmm8\n movdqu 144(%rsp),%xmm9\n movdqu 160(%rsp),%xmm10\n movdqu 176(%rsp),%xmm11\n movdqu 192(%rsp),%xmm12\n movdqu 208(%rsp),%xmm13\n movdqu 224(%rsp),%xmm14\n movdqu 240(%rsp),%xmm15\n" \
    " mov %rbx,%rsp\n pop %rbp\n pop %rbx\n pop %r11\n pop %r10\n pop %r9\n pop %r8\n pop %rdi\n pop %rsi\n pop %rdx\n pop %rcx\n pop %rax\n popfq\n ret $8\n")
// the operand size is pushed by the inserted code: stack on entry = [return address][size]
TRAMP("__sim_asm_point", "__sim_asm_point_c");
TRAMP("__sim_asm_torn", "__sim_asm_torn_c");
