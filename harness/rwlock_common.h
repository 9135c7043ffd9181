// Shared by C07 (mutual exclusion) and C08 (progress, Attempt semantics, final state).
#include "common.h"
#include "bss-util/RWLock.h"
using namespace hx;
enum { WRITE, READ, TRYWRITE, TRYSTRICT, TRYREAD, UPGRADE, TRYUPGRADE, NOPS };
static bss::RWLock* lk;
static int readers, writers; static uint64_t cells[4]; static uint64_t writes_done;
static int holders_w, holders_r;   // oracle view: sections currently inside
static int pending_w;              // threads between asking for exclusive access and giving it up
static int pending_any;
static void enter_w(const char* how) { sim::NoPreempt np; sim::seq(); sim::logf("enter write (%s)", how); if(writers || readers) sim::fail("exclusion", "t%d entered a write section (%s) while %d writers and %d readers were inside", sim::self(), how, writers, readers); ++writers; }
static void leave_w() { sim::NoPreempt np; sim::seq(); sim::logf("leave write"); --writers; }
static void enter_r(const char* how) { sim::NoPreempt np; sim::seq(); sim::logf("enter read (%s)", how); if(writers) sim::fail("exclusion", "t%d entered a read section (%s) while %d writer is inside", sim::self(), how, writers); ++readers; }
static void leave_r() { sim::NoPreempt np; sim::seq(); sim::logf("leave read"); --readers; }
// what users do under the lock: multi-word state that must be seen consistent
static void wbody(int n) { uint64_t v = cells[0]; for(int i = 0; i < 4; ++i) { if(cells[i] != v) sim::fail("torn", "writer t%d sees cell %d = %llu, cell 0 = %llu", sim::self(), i, (unsigned long long)cells[i], (unsigned long long)v); cells[i] = v + 1; if(i < n) sim::yield(); } ++writes_done; }
static void rbody(int n) { uint64_t v = cells[0]; for(int i = 0; i < 4; ++i) { if(i < n) sim::yield(); if(cells[i] != v) sim::fail("torn", "reader t%d sees cell %d = %llu, cell 0 = %llu", sim::self(), i, (unsigned long long)cells[i], (unsigned long long)v); } }
