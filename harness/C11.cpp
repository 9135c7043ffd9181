// C11: the lockless.h primitives are indivisible for every operand size.
#include "common.h"
#include "bss-util/lockless.h"
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "cas_success", "cas_failure", "bit_was_set", "bit_was_clear", "xadd", "xchg", "cas16", 0 };
  const char* const harness_real = "atomic_xadd, atomic_xchg, asmcas, asmcasr, asmbts, asmbtr (lockless.h), inline assembly included";
  const char* const harness_stub = "thread scheduler";
}
enum { XADD, XCHG, CAS, CASR, BTS, BTR, NK };
static const char* const names[] = { "xadd", "xchg", "cas", "casr", "bts", "btr" };
// one cell per size, surrounded by guard bytes
template<class T> struct Cell { unsigned char g0[16]; alignas(16) volatile T v; unsigned char g1[16]; };
static Cell<uint8_t>* c1; static Cell<uint16_t>* c2; static Cell<uint32_t>* c4; static Cell<uint64_t>* c8; static Cell<bss::bss_PTag<void>>* c16; static History* h; static int width;
static uint64_t maskof() { return width == 1 ? 0xff : width == 2 ? 0xffff : width == 4 ? 0xffffffffull : ~0ull; }
template<class T> static void doop(volatile T* v, int actor, const sim::Op& op) {
  T a = (T)op.a, b = (T)op.b;
  switch(op.kind) {
  case XADD: { int i = h->begin(actor, op.kind, op.a); T o = bss::atomic_xadd<T>(v, a); h->end(i, (int64_t)o); sim::probe(4); break; }
  case XCHG: { int i = h->begin(actor, op.kind, op.a); T o = bss::atomic_xchg<T>(v, a); h->end(i, (int64_t)o); sim::probe(5); break; }
  case CAS: { int i = h->begin(actor, op.kind, op.a); h->ev[i].arg = (op.a & 0xffff) << 16 | (op.b & 0xffff); bool ok = bss::asmcas<T>(v, (T)(op.a & 0xffff), (T)(op.b & 0xffff)) != 0; h->end(i, ok); sim::probe(ok ? 0 : 1); break; }
  case CASR: { int i = h->begin(actor, op.kind, op.a); h->ev[i].arg = (op.a & 0xffff) << 16 | (op.b & 0xffff); T r = 0; bool ok = bss::asmcasr<T>(v, (T)(op.a & 0xffff), (T)(op.b & 0xffff), r); h->end(i, (int64_t)((uint64_t)r & 0xffffffffffffull) << 1 | ok); sim::probe(ok ? 0 : 1); break; }
  }
  (void)b;
}
static void step(int actor, const sim::Op& op) {
  if(width == 16) {
    bss::bss_PTag<void> nv, ov, r; nv.p = (void*)(op.a & 0xffff); nv.tag = (op.a >> 16) & 7; ov.p = (void*)(op.b & 0xffff); ov.tag = (op.b >> 16) & 7; r.p = 0; r.tag = 0;
    int i = h->begin(actor, op.kind == CAS ? CAS : CASR, (op.a & 0x7ffff) << 24 | (op.b & 0x7ffff)); sim::probe(6);
    if(op.kind == CAS) { bool ok = bss::asmcas<bss::bss_PTag<void>>(&c16->v, nv, ov) != 0; h->end(i, ok); }
    else { bool ok = bss::asmcasr<bss::bss_PTag<void>>(&c16->v, nv, ov, r); h->end(i, (int64_t)(((uint64_t)r.p & 0xffff) | (uint64_t)(r.tag & 7) << 16) << 1 | ok); }
    return;
  }
  if(op.kind == BTS || op.kind == BTR) {
    int i = h->begin(actor, op.kind, op.a); bool o;
    if(width == 4) o = op.kind == BTS ? bss::asmbts<uint32_t>((uint32_t*)&c4->v, (uint32_t)op.a) : bss::asmbtr<uint32_t>((uint32_t*)&c4->v, (uint32_t)op.a);
    else o = op.kind == BTS ? bss::asmbts<uint64_t>((uint64_t*)&c8->v, (uint64_t)op.a) : bss::asmbtr<uint64_t>((uint64_t*)&c8->v, (uint64_t)op.a);
    h->end(i, o); sim::probe(o ? 2 : 3); return;
  }
  switch(width) { case 1: doop<uint8_t>(&c1->v, actor, op); break; case 2: doop<uint16_t>(&c2->v, actor, op); break; case 4: doop<uint32_t>(&c4->v, actor, op); break; case 8: doop<uint64_t>(&c8->v, actor, op); break; }
}
struct CellState { uint64_t v; std::string key() const { return std::string((const char*)&v, 8); } };
void harness_generate(sim::Rng& r, sim::Plan& p) {
  static const int ws[] = { 1, 2, 4, 8, 16, 4, 8 }; width = ws[r.below(7)]; p.p[0] = width;
  int threads = (int)r.range(2, 4), per = (int)r.range(1, 6); p.p[1] = threads; p.p[2] = r.below(3);
  int only = r.chance(1, 2) ? (int)r.below(NK) : -1; uint64_t vals[4] = { 0, 1, r.below(width == 1 ? 128 : 30000), r.below(width == 1 ? 255 : 60000) };
  for(int t = 0; t < threads; ++t) for(int i = 0; i < per; ++i) {
    int k = only >= 0 ? only : (int)r.below(NK);
    if(width == 16) k = k % 2 ? CAS : CASR; else if((k == BTS || k == BTR) && width < 4) k = XADD;
    int64_t a, b;
    if(k == BTS || k == BTR) { a = r.chance(1, 3) ? width * 8 - 1 : r.range(0, r.chance(1, 2) ? 3 : width * 8 - 1); b = 0; }
    else if(width == 16) { a = (int64_t)(vals[r.below(3)] | r.below(3) << 16); b = (int64_t)(vals[r.below(3)] | r.below(3) << 16); }
    else { a = (int64_t)vals[r.below(4)]; b = (int64_t)vals[r.below(4)]; if(k == XADD && r.chance(1, 4)) a = (int64_t)(width == 1 ? 200 : width == 2 ? 65000 : 0xfffffff0u); if(k == XADD && a == 0) a = 1; }
    p.add(t, k, a, b);
  }
}
template<class T> static Cell<T>* mk() { Cell<T>* c = (Cell<T>*)aligned_alloc(16, sizeof(Cell<T>)); memset((void*)c, 0x5a, sizeof *c); memset((void*)&c->v, 0, sizeof c->v); return c; }
template<class T> static void guards(Cell<T>* c) { unsigned char* b = (unsigned char*)c; unsigned char* v = (unsigned char*)&c->v; for(size_t i = 0; i < sizeof *c; ++i) if(!(b + i >= v && b + i < v + sizeof c->v) && b[i] != 0x5a) sim::fail("overwrite", "bytes next to the operand changed (offset %ld from it)", (long)(b + i - v)); }
void harness_execute(const sim::Plan& p) {
  width = (int)p.p[0]; h = new History; h->ev.reserve(256);
  c1 = mk<uint8_t>(); c2 = mk<uint16_t>(); c4 = mk<uint32_t>(); c8 = mk<uint64_t>(); c16 = mk<bss::bss_PTag<void>>();
  run_actors(p, (int)p.p[1], step);
  sim::NoPreempt np;
  guards(c1); guards(c2); guards(c4); guards(c8); guards(c16);
  uint64_t fin = width == 1 ? c1->v : width == 2 ? c2->v : width == 4 ? c4->v : width == 8 ? c8->v : ((uint64_t)c16->v.p & 0xffff) | (uint64_t)(c16->v.tag & 7) << 16;
  Ev last = { 99, 90, 0, (int64_t)fin, sim::seq(), 0 }; last.ret = sim::seq(); std::vector<Ev> ev = h->ev; ev.push_back(last);
  CellState s = { 0 }; uint64_t M = maskof();
  bool ok = linearizable(ev, s, [M](CellState& st, const Ev& e) -> bool {
    uint64_t old = st.v;
    if(e.kind == 90) return old == (uint64_t)e.res;
    if(width == 16) {
      uint64_t nv = (uint64_t)e.arg >> 24 & 0x7ffff, ov = (uint64_t)e.arg & 0x7ffff;
      bool hit = old == ov; if(hit) st.v = nv;
      if(e.kind == CAS) return hit == (bool)e.res;
      return (uint64_t)e.res == (old << 1 | (uint64_t)hit);
    }
    switch(e.kind) {
    case XADD: st.v = (old + (uint64_t)e.arg) & M; return ((uint64_t)e.res & M) == old;
    case XCHG: st.v = (uint64_t)e.arg & M; return ((uint64_t)e.res & M) == old;
    case CAS: case CASR: { uint64_t nv = ((uint64_t)e.arg >> 16 & 0xffff) & M, ov = ((uint64_t)e.arg & 0xffff) & M; bool hit = old == ov; if(hit) st.v = nv; if(e.kind == CAS) return hit == (bool)e.res; return (uint64_t)e.res == ((old & 0xffffffffffffull) << 1 | (uint64_t)hit); }
    case BTS: st.v = old | 1ull << e.arg; return (bool)(old >> e.arg & 1) == (bool)e.res;
    case BTR: st.v = old & ~(1ull << e.arg); return (bool)(old >> e.arg & 1) == (bool)e.res;
    }
    return false;
  });
  if(!ok) sim::fail("not-atomic", "no order of indivisible %d-byte operations explains these results (final value %llu):%s", width, (unsigned long long)fin, [&] { std::vector<Ev> x = h->ev; return show(x, names); }().c_str());
}
