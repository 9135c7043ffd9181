// C31: handles release what they own exactly once, however they are copied, moved, chained, interrupted by exceptions and handed between threads; calls reach their target exactly once.
#include "common.h"
#include "bss-util/bss_util.h"
#include "bss-util/SmartPtr.h"
#include "bss-util/RefCounter.h"
#include "bss-util/Singleton.h"
#include "bss-util/Delegate.h"
#include "bss-util/Variant.h"
#include "bss-util/Str.h"
using namespace hx; using namespace bss;
extern "C" {
  const char* const harness_probes[] = { "reference_count", "owner", "variant", "delegate", "singleton", "handed_to_another_thread", "last_reference_dropped", "self_assignment", "chain_advanced", "chain_moved_out", "owner_replaced", "view_outlived_owner", "deleter_custom", "variant_emptied", "variant_type_changed", "copy_threw", "moved_from_view", "deferred_call", "stored_call", "singleton_moved", "object_value_assigned", "destroyed_in_chain", 0 };
  const char* const harness_real = "OwnerPtr, ref_ptr, RefCounter, Singleton, Variant, Delegate, StoreFunction, StoreDelegate, DeferFunction, DeferDelegate, Str";
  const char* const harness_stub = "thread scheduler, malloc/free";
}
static int64_t nid; static bool thrower[64]; struct Thrown {};
static std::set<int64_t>* alive; // objects that exist, by id
static void born(int64_t id) { sim::NoPreempt np; if(!alive->insert(id).second) sim::harness_error("id"); }
static void died(int64_t id) { sim::NoPreempt np; if(!alive->erase(id)) sim::fail("object", "object %lld was destroyed although it does not exist any more", (long long)id); }
static bool is_alive(int64_t id) { sim::NoPreempt np; return alive->count(id) != 0; }
static int64_t fresh() { sim::NoPreempt np; return ++nid; }
struct Box { virtual ~Box() {} virtual void step(const sim::Op& o) = 0; virtual void all() = 0; };
enum { NSLOT = 5 };
// ---- reference counting
struct RN : RefCounter { int64_t id, val; ref_ptr<RN> next; const RN* self; RN(int64_t i) : id(i), val(i), self(this) { born(i); } RN(const RN& o) : RefCounter(o), id(fresh()), val(o.val), self(this) { born(id); } ~RN() { ok(); self = 0; died(id); }
  RN& operator=(const RN& o) { RefCounter::operator=(o); ok(); o.ok(); val = o.val; return *this; } void ok() const { if(self != this) sim::fail("object", "a reference leads to an object that does not exist"); } };
struct Refs : Box { ref_ptr<RN> s[NSLOT]; struct M { int64_t next = 0; int extra = 0; int64_t val; RN* p = 0; }; std::map<int64_t, M> m; int64_t h[NSLOT] = {};
  int refs(int64_t id) { int n = m[id].extra; for(auto x : h) n += x == id; for(auto& p : m) n += p.second.next == id; return n; }
  void gone() { sim::NoPreempt np; bool again = true; int n = 0; while(again) { again = false; for(auto it = m.begin(); it != m.end(); ++it) if(!refs(it->first)) { if(is_alive(it->first)) sim::fail("leak", "object %lld has no reference left and still exists", (long long)it->first); m.erase(it); again = true; if(n++) sim::probe(21); sim::probe(6); break; } } for(auto& p : m) if(!is_alive(p.first)) sim::fail("object", "object %lld was destroyed with %d references left", (long long)p.first, refs(p.first)); }
  void all() { gone(); for(int i = 0; i < NSLOT; ++i) { const ref_ptr<RN>& c = s[i]; SIM_CHECK(!s[i] == !h[i] && (c == (const RN*)0) == !h[i] && (c != (const RN*)0) == !!h[i], "model", "a reference is %s", h[i] ? "lost" : "not empty"); if(h[i]) { s[i]->ok(); SIM_CHECK(c->id == h[i] && (*c).id == h[i] && (*s[i]).val == m[h[i]].val && (const RN*)c == (RN*)s[i], "model", "a reference leads to object %lld instead of %lld", (long long)c->id, (long long)h[i]); int64_t x = c->next.operator!() ? 0 : c->next->id; SIM_CHECK(x == m[h[i]].next, "model", "the chain continues with %lld instead of %lld", (long long)x, (long long)m[h[i]].next); } } }
  void step(const sim::Op& o) { int a = (int)(o.b % NSLOT), b = (int)(o.c % NSLOT); sim::probe(0); auto set = [&](int i, int64_t id) { h[i] = id; }; { sim::NoPreempt np; }
    switch(o.d % 16) {
    case 0: case 1: { int64_t id = fresh(); RN* p = new RN(id); s[a] = p; sim::NoPreempt np; m[id].val = id; set(a, id); break; }
    case 2: { ref_ptr<RN> t(s[a]); s[b] = t; sim::NoPreempt np; set(b, h[a]); if(a == b) sim::probe(7); break; }
    case 3: { const ref_ptr<RN>& c = s[a]; s[b] = c; sim::NoPreempt np; set(b, h[a]); if(a == b) sim::probe(7); break; }
    case 4: { RN* p = s[a]; s[b] = p; sim::NoPreempt np; set(b, h[a]); if(a == b) sim::probe(7); break; }
    case 5: { s[b] = std::move(s[a]); sim::NoPreempt np; if(a != b) { set(b, h[a]); h[a] = 0; } else sim::probe(7); break; }
    case 6: case 7: { if(!h[a]) break; bool mv = o.d % 16 == 7; { sim::NoPreempt np; sim::probe(mv ? 9 : 8); if(mv && refs(h[a]) > 1) mv = true; } int64_t x = m[h[a]].next, old = h[a]; if(mv) s[a] = std::move(s[a]->next); else s[a] = s[a]->next; sim::NoPreempt np; set(a, x); if(mv) m[old].next = 0; break; }
    case 8: case 9: { if(!h[a] || !h[b] || h[a] >= h[b]) break; if(o.d % 16 == 8) s[a]->next = s[b]; else { s[a]->next = std::move(s[b]); } sim::NoPreempt np; m[h[a]].next = h[b]; if(o.d % 16 == 9) { int64_t k = h[b]; (void)k; h[b] = 0; } break; }
    case 10: { s[a] = (RN*)0; sim::NoPreempt np; h[a] = 0; break; }
    case 11: { if(!h[a]) break; int n = 1 + (int)(o.a % 3); int r = n == 1 ? s[a]->Grab() : s[a]->Grab(n); sim::NoPreempt np; m[h[a]].extra += n; m[h[a]].p = s[a]; SIM_CHECK(r == refs(h[a]), "model", "Grab gives %d references instead of %d", r, refs(h[a])); break; }
    case 12: { if(!h[a] || !m[h[a]].extra) break; int r = s[a]->Drop(); sim::NoPreempt np; m[h[a]].extra--; SIM_CHECK(r == refs(h[a]), "model", "Drop gives %d references instead of %d", r, refs(h[a])); break; }
    case 13: { if(!h[a]) break; ref_ptr<RN> t(std::move(s[a])); SIM_CHECK(!s[a], "model", "a reference that was moved away is still there"); s[b] = std::move(t); sim::NoPreempt np; int64_t x = h[a]; h[a] = 0; set(b, x); break; }
    case 14: { if(!h[a] || !h[b]) break; *s[a] = *s[b]; sim::NoPreempt np; m[h[a]].val = m[h[b]].val; sim::probe(20); break; }
    case 15: { if(!h[a]) break; RN* p = new RN(*s[a]); s[b] = p; sim::NoPreempt np; int64_t v = m[h[a]].val; m[p->id].val = v; set(b, p->id); break; } }
    all(); }
  ~Refs() { for(;;) { RN* p = 0; int want = 0; { sim::NoPreempt np; for(auto& x : m) if(x.second.extra) { p = x.second.p; --x.second.extra; want = refs(x.first); break; } } if(!p) break; { int r = p->Drop(); SIM_CHECK(r == want, "model", "Drop gives %d references instead of %d", r, want); } gone(); } for(int i = 0; i < NSLOT; ++i) { s[i] = (RN*)0; { sim::NoPreempt np; h[i] = 0; } } gone(); SIM_CHECK(m.empty(), "leak", "objects are left after the last reference"); } };
// ---- single owners and views
struct ON; struct ODel { void operator()(ON* p) const; }; template<class D> struct ONT { int64_t id; const void* self; OwnerPtr<ONT, D> next; ONT(int64_t i) : id(i), self(this) { born(i); } ~ONT() { ok(); self = 0; died(id); } void ok() const { if(self != this) sim::fail("object", "a pointer leads to an object that does not exist"); } };
static int deletes; struct Cust { template<class T> void operator()(T* p) const { if(!p) sim::fail("model", "the deleter was called without an object"); { sim::NoPreempt np; ++deletes; sim::probe(12); } p->ok(); delete p; } };
struct Std0 { template<class T> void operator()(T* p) const { delete p; } };
template<class D> struct Owners : Box { typedef ONT<D> N; typedef OwnerPtr<N, D> P; P s[NSLOT]; struct M { int64_t id = 0; bool own = false, blur = false; } h[NSLOT]; std::map<int64_t, int64_t> next; N keep; std::set<int64_t> mine;
  Owners() : keep(fresh()) {} bool ok(int i) { return h[i].id && !h[i].blur && is_alive(h[i].id); }
  void kill(int64_t id) { while(id) { mine.erase(id); if(is_alive(id)) sim::fail("leak", "the owner of object %lld let it go and it still exists", (long long)id); int64_t n = next[id]; next.erase(id); for(auto& x : h) if(x.id == id && !x.own) sim::probe(11); id = n; if(id) sim::probe(21); } }
  void drop(int i) { sim::probe(10); if(h[i].own) kill(h[i].id); }
  void all() { sim::NoPreempt np; for(int64_t x : mine) if(!is_alive(x)) sim::fail("object", "object %lld was destroyed although its owner still has it", (long long)x); for(int i = 0; i < NSLOT; ++i) { if(h[i].blur) continue; SIM_CHECK(!s[i] == !h[i].id && (s[i] == (const N*)0) == !h[i].id && (s[i] != (const N*)0) == !!h[i].id, "model", "a pointer is %s", h[i].id ? "lost" : "not empty"); if(ok(i)) { const P& c = s[i]; s[i]->ok(); SIM_CHECK(c->id == h[i].id && (*c).id == h[i].id && (*s[i]).id == h[i].id && (const N*)c == (N*)s[i], "model", "a pointer leads to object %lld instead of %lld", (long long)c->id, (long long)h[i].id); for(int j = 0; j < NSLOT; ++j) if(ok(j) || (!h[j].blur && !h[j].id)) SIM_CHECK((s[i] == s[j]) == (h[i].id == h[j].id) && (s[i] != s[j]) == (h[i].id != h[j].id), "model", "two pointers compare wrongly"); } } }
  void step(const sim::Op& o) { int a = (int)(o.b % NSLOT), b = (int)(o.c % NSLOT); sim::probe(1); bool same = h[a].id && h[a].id == h[b].id && a != b && h[b].own && !h[a].own; bool inchain = false; { sim::NoPreempt np; if(h[b].own && h[a].id) for(int64_t x = h[b].id; x; x = next[x]) if(x == h[a].id && a != b) inchain = true; }
    switch(o.d % 12) {
    case 0: case 1: { int64_t id = fresh(); N* p = new N(id); s[a] = p; sim::NoPreempt np; drop(a); mine.insert(id); h[a] = M{ id, true, false }; next[id] = 0; break; }
    case 2: { if(same || inchain) break; P t(s[a]); s[b] = t; sim::NoPreempt np; drop(b); if(a == b) { h[a].own = false; } else { h[b] = h[a]; h[b].own = false; } break; }
    case 3: { if(same || inchain) break; const P& c = s[a]; s[b] = c; sim::NoPreempt np; if(a == b) { sim::probe(7); break; } drop(b); h[b] = h[a]; h[b].own = false; break; }
    case 4: case 5: { if(inchain && !(h[a].own)) break; if(inchain) break; s[b] = std::move(s[a]); sim::NoPreempt np; if(a == b) { sim::probe(7); break; } drop(b); h[b] = h[a]; h[a].own = false; h[a].blur = true; sim::probe(16); break; }
    case 6: { if(!ok(a) || !h[a].own) break; int64_t n = next[h[a].id], old = h[a].id; s[a] = std::move(s[a]->next); sim::NoPreempt np; next[old] = 0; kill(old); h[a] = M{ n, n != 0, false }; sim::probe(9); break; }
    case 7: { if(!ok(a) || !ok(b) || !h[b].own || a == b || next.count(h[a].id) == 0) break; bool cyc = false; { sim::NoPreempt np; for(int64_t x = h[b].id; x; x = next[x]) if(x == h[a].id) cyc = true; } if(cyc) break; int64_t old = next[h[a].id]; s[a]->next = std::move(s[b]); sim::NoPreempt np; if(old) kill(old); next[h[a].id] = h[b].id; h[b].own = false; h[b].blur = true; sim::probe(8); break; }
    case 8: { s[a] = (N*)0; sim::NoPreempt np; drop(a); h[a] = M(); break; }
    case 9: { s[a] = keep; sim::NoPreempt np; drop(a); h[a] = M{ keep.id, false, false }; break; }
    case 10: { int64_t id = fresh(); N* p = new N(id); P t(p); if(o.a % 2) { s[a] = std::move(t); sim::NoPreempt np; drop(a); mine.insert(id); h[a] = M{ id, true, false }; next[id] = 0; } else { P u(std::move(t)); SIM_CHECK(u->id == id, "model", "a moved pointer leads elsewhere"); P w(*u); P z((N*)0); SIM_CHECK(w->id == id && !z, "model", "a view leads elsewhere"); } if(!(o.a % 2)) { } break; }
    case 11: { if(h[a].blur) break; P t(std::move(s[a])); { sim::NoPreempt np; h[a].own ? (void)0 : (void)0; } if(o.a % 2) { s[a] = std::move(t); } else { sim::NoPreempt np; } bool own = h[a].own; if(!(o.a % 2)) { { sim::NoPreempt np; h[a].blur = true; h[a].own = false; } P u; u = std::move(t); if(own) { sim::NoPreempt np; SIM_CHECK(is_alive(h[a].id), "object", "moving a pointer destroyed its object"); } { P v(std::move(u)); } if(own) { sim::NoPreempt np; kill(h[a].id); } } break; } }
    if(o.d % 12 == 10 && !(o.a % 2)) { sim::NoPreempt np; } all(); }
  ~Owners() { for(int i = 0; i < NSLOT; ++i) { s[i] = (N*)0; sim::NoPreempt np; drop(i); h[i] = M(); } } };
// ---- variants
struct VBase { int64_t bv; }; template<int K> struct alignas(K == 1 ? 16 : 8) VO : VBase { int64_t v; const void* self; int64_t id; char pad[K * 24];
  void thr() const { int t = sim::self(); if(t >= 0 && t < 64 && thrower[t] && sim::fault(sim::F_EXCEPTION, 1, 4)) { sim::probe(15); throw Thrown(); } }
  void in(int64_t x) { v = bv = x; self = this; id = fresh(); born(id); if((size_t)this % alignof(VO)) sim::fail("object", "an object of a variant is at an address its type is not allowed at"); }
  VO() { in(-1); } VO(int64_t x) { in(x); } VO(const VO& o) { int64_t x = o.get(); thr(); in(x); } VO(VO&& o) noexcept { int64_t x = o.get(); in(x); if(K != 1) o.v = -2; } ~VO() { get(); self = 0; died(id); }
  VO& operator=(const VO& o) { get(); int64_t x = o.get(); thr(); v = bv = x; return *this; } VO& operator=(VO&& o) noexcept { get(); int64_t x = o.get(); if(&o != this) { v = bv = x; if(K != 1) o.v = -2; } return *this; }
  int64_t get() const { if(self != this) sim::fail("object", "an object of a variant was used before its construction, after its destruction or after being moved bytewise"); return v; } };
typedef Variant<char, VO<0>, double, VO<1>, Str, VO<2>> V; typedef Variant<int64_t, char, double, short> VN;
struct Vars : Box { V* s[3]; VN n[2]; struct M { int t = -1; int64_t v = 0; bool any = false; } h[3]; int nt[2] = { -1, -1 }; int64_t nv[2] = {};
  Vars() { for(auto& x : s) x = new V(); }
  void chk(const V& c, M& x, const char* what) { if(x.any) { x.t = c.tag(); SIM_CHECK(x.t >= -1 && x.t < 6, "model", "a variant has type %d", x.t); switch(x.t) { case 1: c.get<VO<0>>().get(); break; case 3: c.get<VO<1>>().get(); break; case 5: c.get<VO<2>>().get(); break; default: break; } return; }
    SIM_CHECK(c.tag() == x.t, "model", "%s: a variant has type %d instead of %d", what, c.tag(), x.t); SIM_CHECK(c.is<char>() == (x.t == 0) && c.is<VO<0>>() == (x.t == 1) && c.is<Str>() == (x.t == 4) && V::type<Str>() == 4 && V::contains<double>() && !V::contains<float>(), "model", "%s: a variant says it holds another type", what);
    switch(x.t) { case 0: SIM_CHECK(c.get<char>() == (char)x.v, "model", "%s: character %d instead of %d", what, c.get<char>(), (char)x.v); break; case 1: num(c.get<VO<0>>().get(), x, what); break; case 2: SIM_CHECK(c.get<double>() == (double)x.v, "model", "%s: number %g instead of %lld", what, c.get<double>(), (long long)x.v); SIM_CHECK((size_t)&c.get<double>() % alignof(double) == 0, "object", "a number of a variant is at an address its type is not allowed at"); break; case 3: num(c.get<VO<1>>().get(), x, what); break; case 4: SIM_CHECK(!strcmp(c.get<Str>().c_str(), str(x.v).c_str()), "model", "%s: text '%s' instead of '%s'", what, c.get<Str>().c_str(), str(x.v).c_str()); break; case 5: num(c.get<VO<2>>().get(), x, what); break; } }
  static std::string str(int64_t v) { std::string r = std::to_string((long long)v); if(v & 1) r += "-a text that does not fit into a short string"; return r; }
  void num(int64_t v, M& x, const char* what) { SIM_CHECK(v == x.v, "model", "%s: object %lld instead of %lld", what, (long long)v, (long long)x.v); }
  void all() { for(int i = 0; i < 3; ++i) chk(*s[i], h[i], "held"); for(int i = 0; i < 2; ++i) { SIM_CHECK(n[i].tag() == nt[i], "model", "a variant of numbers has type %d instead of %d", n[i].tag(), nt[i]); if(nt[i] >= 0) { SIM_CHECK(n[i].convert<int>() == (int)nv[i] && n[i].convert<double>() == (double)nv[i] && n[i].convert<int64_t>() == nv[i], "model", "a variant of numbers converts to %g instead of %lld", n[i].convert<double>(), (long long)nv[i]); } } }
  template<class F> void guard(int b, M after, F f) { bool th = false; int t = sim::self(); thrower[t] = true; M before = h[b]; try { f(); } catch(const Thrown&) { th = true; } thrower[t] = false; sim::NoPreempt np; if(th) { h[b].any = true; } else { h[b] = after; if(before.t != after.t) sim::probe(14); } }
  void put(int b, int64_t v, int t, bool mv) { M a; a.t = t; a.v = v; V& x = *s[b]; switch(t) {
    case 0: { char c = (char)(v % 100); a.v = c; guard(b, a, [&] { if(mv) x = std::move(c); else x = c; }); break; } case 2: { double d = (double)v; guard(b, a, [&] { if(mv) x = std::move(d); else x = (const double&)d; }); break; }
    case 4: { Str k(str(v).c_str()); guard(b, a, [&] { if(mv) x = std::move(k); else x = (const Str&)k; }); break; } case 1: obj<0>(b, a, x, mv); break; case 3: obj<1>(b, a, x, mv); break; default: obj<2>(b, a, x, mv); break; } }
  template<int K> void obj(int b, M a, V& x, bool mv) { VO<K> o(a.v); guard(b, a, [&] { if(mv) x = std::move(o); else x = (const VO<K>&)o; }); }
  void moved(int i) { if(h[i].t == 1 || h[i].t == 5) h[i].v = -2; else if(h[i].t == 4) h[i].any = true; }
  void step(const sim::Op& o) { int a = (int)(o.b % 3), b = (int)(o.c % 3); sim::probe(2); int64_t v = (int64_t)(o.a % 1000);
    switch(o.d % 11) { case 0: case 1: case 2: put(a, v, (int)(o.a / 1000 % 6), o.a & 1); break;
    case 3: { if(h[a].any) break; M x = h[a]; if(a == b) { sim::probe(7); } guard(b, x, [&] { const V& c = *s[a]; *s[b] = c; }); break; }
    case 4: { if(h[a].any || a == b) break; M x = h[a]; guard(b, x, [&] { *s[b] = std::move(*s[a]); }); sim::NoPreempt np; moved(a); break; }
    case 5: { if(h[a].any) break; V* n2 = 0; int t = sim::self(); thrower[t] = true; try { n2 = o.a & 1 ? new V(*s[a]) : new V((const V&)*s[a]); } catch(const Thrown&) {} thrower[t] = false; if(!n2) break; M x = h[a]; chk(*n2, x, "copy"); delete s[b]; s[b] = n2; sim::NoPreempt np; h[b] = x; break; }
    case 6: { if(h[a].any) break; M x = h[a]; V* n2 = new V(std::move(*s[a])); chk(*n2, x, "moved"); { sim::NoPreempt np; moved(a); } delete s[b]; s[b] = n2; sim::NoPreempt np; h[b] = x; break; }
    case 7: { delete s[a]; s[a] = new V(); sim::NoPreempt np; h[a] = M(); sim::probe(13); break; }
    case 8: { M x; switch(o.a % 4) { case 0: s[a]->typeset<VO<0>>(); x.t = 1; x.v = -1; break; case 1: s[a]->typeset<VO<1>>(); x.t = 3; x.v = -1; break; case 2: s[a]->typeset<VO<2>>(); x.t = 5; x.v = -1; break; default: s[a]->typeset<double>(); x.t = 2; x.v = 0; s[a]->get<double>() = 0; break; } sim::NoPreempt np; h[a] = x; break; }
    case 9: { int i = a % 2; switch(o.a % 5) { case 0: n[i] = (int64_t)v; nt[i] = 0; nv[i] = v; break; case 1: n[i] = (char)(v % 100); nt[i] = 1; nv[i] = v % 100; break; case 2: n[i] = (double)v; nt[i] = 2; nv[i] = v; break; case 3: n[i] = (short)v; nt[i] = 3; nv[i] = v; break; default: n[i] = n[1 - i]; nt[i] = nt[1 - i]; nv[i] = nv[1 - i]; } break; }
    case 10: { V x(VO<2>((int64_t)v)); M y; y.t = 5; y.v = v; chk(x, y, "made"); VO<0> q(v + 1); V z(q); y.t = 1; y.v = v + 1; chk(z, y, "made"); Str k(str(v).c_str()); V w((const Str&)k); y.t = 4; y.v = v; chk(w, y, "made"); Variant<VO<0>, VO<2>> pb(VO<2>((int64_t)v)); SIM_CHECK(pb.convertP<VBase>()->bv == v, "model", "a base of a variant's object is wrong"); break; } }
    all(); }
  ~Vars() { for(auto x : s) delete x; } };
// ---- calls
struct Call { int64_t sum = 0; int calls = 0; int64_t add(int64_t x, int64_t& y) { ++calls; y += 1; return sum += x; } int64_t peek(int64_t x, int64_t& y) const { y += 2; return sum - x; } };
static int64_t cfree(int64_t x, int64_t& y) { y += 3; return x * 2; } static int64_t cobj(Call* c, int64_t x, int64_t& y) { ++c->calls; y += 4; return c->sum -= x; } static int64_t cconst(const Call* c, int64_t x, int64_t& y) { y += 5; return c->sum ^ x; }
static void put(Call* c, int64_t x, VO<0> o) { ++c->calls; c->sum += x + o.get(); } struct Later { Call* c; void run(int64_t x, int y) { ++c->calls; c->sum += x * y; } };
struct Dels : Box { typedef Delegate<int64_t, int64_t, int64_t&> D; D d[NSLOT]; int k[NSLOT] = {}; int tg[NSLOT] = {}; Call c[2], m[2]; std::function<int64_t(int64_t, int64_t&)> f[2]; bool bound = false;
  Dels() { { sim::NoPreempt np; for(int i = 0; i < 2; ++i) { Call* x = &c[i]; f[i] = [x](int64_t v, int64_t& y) { ++x->calls; y += 6; return x->sum += v * 3; }; } } }
  void all() { for(int i = 0; i < 2; ++i) SIM_CHECK(c[i].sum == m[i].sum && c[i].calls == m[i].calls, "model", "a call arrived %d times instead of %d and left %lld instead of %lld", c[i].calls, m[i].calls, (long long)c[i].sum, (long long)m[i].sum); for(int i = 0; i < NSLOT; ++i) if(k[i] != 3) SIM_CHECK(d[i].IsEmpty() == (k[i] == 0), "model", "a delegate is %sempty", k[i] ? "" : "not "); }
  void step(const sim::Op& o) { int a = (int)(o.b % NSLOT), b = (int)(o.c % NSLOT), t = (int)(o.a & 1); int64_t v = (int64_t)(o.a % 977); sim::probe(3); Call* p = &c[t]; const Call* q = p;
    switch(o.d % 8) { case 0: case 1: { int z = 1 + (int)(o.a / 2 % 6); switch(z) { case 1: d[a] = D::From<Call, &Call::add>(p); break; case 2: d[a] = D::From<Call, &Call::peek>(q); break; case 3: d[a] = D::FromC<&cfree>(); break; case 4: d[a] = D::FromC<Call, &cobj>(p); break; case 5: d[a] = D::FromC<Call, &cconst>(q); break; case 6: d[a] = D(f[t]); break; } k[a] = z; tg[a] = t; break; }
    case 2: { D x(d[a]); d[b] = x; k[b] = k[a]; tg[b] = tg[a]; break; } case 3: { d[b] = d[a]; k[b] = k[a]; tg[b] = tg[a]; break; } case 4: { d[a] = D(); k[a] = 0; break; }
    case 5: case 6: { if(!k[a]) break; Call& x = m[tg[a]]; int64_t y = v, r, e; switch(k[a]) { case 1: ++x.calls; e = x.sum += v; break; case 2: e = x.sum - v; break; case 3: e = v * 2; break; case 4: ++x.calls; e = x.sum -= v; break; case 5: e = x.sum ^ v; break; default: ++x.calls; e = x.sum += v * 3; break; }
      if(o.d % 8 == 5) r = d[a](v, y); else { StoreDelegate<int64_t, int64_t, int64_t&> st(d[a], (int64_t)v, y); r = o.a & 2 ? st() : st.Call(); sim::probe(18); } SIM_CHECK(r == e && y == v + k[a], "model", "a call through a delegate gives %lld instead of %lld", (long long)r, (long long)e); break; }
    case 7: { int w = (int)(o.a / 2 % 3); sim::probe(17); if(w == 0) { { auto df = defer(&put, (Call*)p, (int64_t)v, VO<0>(3)); SIM_CHECK(c[t].calls == m[t].calls, "model", "a deferred call ran early"); sim::yield(); } m[t].calls++; m[t].sum += v + 3; }
      else if(w == 1) { Later l{ p }; { auto df = defer(Delegate<void, int64_t, int>::From<Later, &Later::run>(&l), (int64_t)v, 4); SIM_CHECK(c[t].calls == m[t].calls, "model", "a deferred call ran early"); } m[t].calls++; m[t].sum += v * 4; }
      else { StoreFunction<void, Call*, int64_t, VO<0>> sf(&put, (Call*)p, (int64_t)v, VO<0>(5)); int n = 1 + (int)(o.a % 3); for(int i = 0; i < n; ++i) sf(); m[t].calls += n; m[t].sum += n * (v + 5); } break; } }
    all(); } };
// ---- singletons (one type for each thread that may hold the box, handed around with it)
template<int I> struct Sing : Singleton<Sing<I>> { typedef Singleton<Sing<I>> B; int64_t v; Sing(int64_t x) : v(x) {} Sing(Sing&& m) : B(std::move(m)), v(m.v) {} Sing& operator=(Sing&& m) { B::operator=(std::move(m)); v = m.v; return *this; } static Sing* Instance() { return B::_instance; } };
namespace bss { template<class T> T* Singleton<T>::_instance = 0; }
template<int I> struct Sings : Box { typedef Sing<I> S; S* s[3] = {}; int at = -1; int64_t v[3] = {}; Sings() { }
  void all() { SIM_CHECK(S::Instance() == (at < 0 ? 0 : s[at]), "model", "the instance is %s", at < 0 ? "an object that does not exist" : "not the last object made"); for(int i = 0; i < 3; ++i) if(s[i]) SIM_CHECK(s[i]->v == v[i], "model", "a singleton changed"); }
  void step(const sim::Op& o) { int a = (int)(o.b % 3), b = (int)(o.c % 3); sim::probe(4); switch(o.d % 5) { case 0: case 1: if(!s[a]) { v[a] = fresh(); s[a] = new S(v[a]); at = a; } break; case 2: if(s[a]) { delete s[a]; s[a] = 0; if(at == a) at = -1; } break;
    case 3: if(s[a] && !s[b]) { s[b] = new S(std::move(*s[a])); v[b] = v[a]; if(at == a) { at = b; sim::probe(19); } } break; case 4: if(s[a] && s[b]) { *s[b] = std::move(*s[a]); v[b] = v[a]; if(at == a) { at = b; sim::probe(19); } if(a == b) sim::probe(7); } break; } all(); }
  ~Sings() { for(auto x : s) delete x; SIM_CHECK(!S::Instance(), "model", "an instance is left after all were destroyed"); } };
enum { STEP, SWAP };
void harness_generate(sim::Rng& r, sim::Plan& p) { p.p[0] = r.range(1, 3); p.p[1] = (int64_t)(r.next() >> 3); int n = (int)r.range(4, 60); for(int t = 0; t < p.p[0]; ++t) for(int i = 0; i < n; ++i) p.add(t, r.chance(1, 14) ? (int)SWAP : (int)STEP, (int64_t)(r.next() >> 8), (int64_t)r.below(64), (int64_t)r.below(64), (int64_t)r.below(2640)); }
static Box* own[4]; static Box* shelf;
static Box* make(int k, int i) { switch(k) { case 0: return new Refs(); case 1: return new Owners<Cust>(); case 2: return new Owners<Std0>(); case 3: case 4: return new Vars(); case 5: return new Dels(); default: break; } switch(i) { case 0: return new Sings<0>(); case 1: return new Sings<1>(); case 2: return new Sings<2>(); default: return new Sings<3>(); } }
static void act(int a, const sim::Op& op) { { sim::NoPreempt np; sim::mix(sim::seq() * 31 + (uint64_t)a); } if(op.kind == SWAP) { Box* b; { sim::NoPreempt np; b = shelf; shelf = own[a]; own[a] = b; } sim::probe(5); own[a]->all(); return; } own[a]->step(op); }
void harness_execute(const sim::Plan& p) {
  sim::set_limits(4000000, 8000000); sim::enable(sim::F_EXCEPTION); { sim::NoPreempt np; alive = new std::set<int64_t>(); nid = 0; memset(thrower, 0, sizeof thrower); } LeakCheck lk; int th = (int)p.p[0]; int64_t k = p.p[1];
  for(int i = 0; i <= th; ++i) { Box* b = make((int)(k % 7), i); if(i < th) own[i] = b; else shelf = b; k /= 7; }
  run_actors(p, th, act);
  for(int i = 0; i < th; ++i) { own[i]->all(); delete own[i]; } shelf->all(); delete shelf;
  SIM_CHECK(alive->empty(), "leak", "%zu objects were never destroyed", alive->size()); lk.check("every handle");
  { sim::NoPreempt np; delete alive; alive = 0; } }
