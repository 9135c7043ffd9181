// Deterministic interleaving for a demonstration: runs A() instruction by instruction (x86 trap flag) and runs
// B() - standing for another thread - to completion after the k-th instruction of A.
#ifndef STEP_H
#define STEP_H
#include <signal.h>
#include <string.h>
#include <functional>
#include <ucontext.h>
namespace step {
  static volatile long at, count; static volatile bool fired; static std::function<void()>* other;
  static void handler(int, siginfo_t*, void* uc) {
    if(++count == at) { fired = true; ((ucontext_t*)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; (*other)(); ((ucontext_t*)uc)->uc_mcontext.gregs[REG_EFL] |= 0x100ll; }
  }
  static inline void on() { __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc"); }
  static inline void off() { __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc"); }
  // Returns false when A has fewer than k instructions (B did not run).
  template<class A> __attribute__((noinline)) bool run(long k, A a, std::function<void()> b) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, 0);
    other = &b; at = k; count = 0; fired = false;
    on(); a(); off();
    return fired;
  }
}
#endif
