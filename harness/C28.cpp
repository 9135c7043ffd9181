// C28: array containers owned by different threads over a shared concurrent cache allocator behave exactly like their models.
#include "common.h"
#include "bss-util/CacheAlloc.h"
#include "bss-util/DynArray.h"
#include "bss-util/ArrayCircular.h"
#include "bss-util/ArraySort.h"
#include "bss-util/Map.h"
#include "bss-util/LinkedArray.h"
#include "bss-util/CompactArray.h"
#include "bss-util/Queue.h"
#include "bss-util/Stack.h"
#include "bss-util/BinaryHeap.h"
#include "bss-util/PriorityQueue.h"
#include <map>
#include <algorithm>
using namespace hx; using namespace bss;
extern "C" {
  const char* const harness_probes[] = { "dyn_safe", "dyn_simple", "dyn_construct", "dyn_move", "fixed_array", "circular_safe", "circular_simple", "sorted", "map", "linked_array", "compact", "bits", "queue", "stack", "heap", "priority_heap", "handed_over", "cleared", "moved", "copied", "self_assigned", "wrapped", "long_content", "rebuilt", "priority_queue", "arbitrary_array", 0 };
  const char* const harness_real = "DynArray, DynArray<bool>, Array, ArrayCircular, ArraySort, Map, LinkedArray, CompactArray, Queue, Stack, BinaryHeap, PriorityHeap, PolymorphicAllocator, CachePolicy";
  const char* const harness_stub = "thread scheduler, malloc/free";
}
enum { ADD, DEL, INSERT, LEN, CAP, SET, ALL, CLEAR, MOVE, COPY, SELF, APPEND, SWAP, NK };
static int live; static int64_t nid;
// SAFE: may not be moved bytewise; otherwise it may, but is still constructed and destroyed exactly once.
template<int MODE> struct TObj { int64_t v; const void* self; static constexpr bool S = MODE != 1;
  void in() { self = S ? (const void*)this : (const void*)&live; sim::NoPreempt np; ++live; }
  TObj() : v(-1) { in(); } TObj(int64_t x) : v(x) { in(); } TObj(const TObj& o) : v(o.get()) { in(); } TObj(TObj&& o) noexcept : v(o.get()) { in(); o.v = -2; } ~TObj() { get(); self = 0; sim::NoPreempt np; --live; }
  TObj& operator=(const TObj& o) { get(); v = o.get(); return *this; } TObj& operator=(TObj&& o) noexcept { get(); int64_t x = o.get(); if(&o != this) { o.v = -2; v = x; } return *this; }
  bool operator<(const TObj& o) const { return get() < o.get(); } bool operator>(const TObj& o) const { return get() > o.get(); } bool operator==(const TObj& o) const { return get() == o.get(); } bool operator!=(const TObj& o) const { return get() != o.get(); }
  int64_t get() const { if(self != (S ? (const void*)this : (const void*)&live)) sim::fail("object", "an object of a container was used before its construction, after its destruction or after being moved bytewise"); return v; } };
struct MObj : TObj<3> { MObj() {} MObj(int64_t x) : TObj<3>(x) {} MObj(MObj&& o) noexcept : TObj<3>(std::move(o)) {} MObj& operator=(MObj&& o) noexcept { TObj<3>::operator=(std::move(o)); return *this; } };
typedef TObj<2> Obj; typedef TObj<1> CObj;
static int64_t g(int64_t x) { return x; } template<int M> static int64_t g(const TObj<M>& x) { return x.get(); }
struct Box { virtual ~Box() {} virtual void op(int k, size_t a, int64_t id) = 0; virtual void all() = 0; };
typedef std::vector<int64_t> V;
#define BAD(c, ...) SIM_CHECK(c, "model", __VA_ARGS__)
template<class T> using CA = PolymorphicAllocator<T, CachePolicy>;
template<class T> static CachePolicy<T>* pc;
struct ModelBox : Box { V* m; const char* nm; ModelBox(const char* n) : nm(n) { sim::NoPreempt np; m = new V; } ~ModelBox() { sim::NoPreempt np; delete m; }
  size_t n() { return m->size(); } template<class F> void mod(F f) { sim::NoPreempt np; f(*m); }
  void eq(const V& v, const char* how) { sim::NoPreempt np; if(v.size() > 20) sim::probe(22); if(v.size() != m->size()) sim::fail("model", "%s: %s gives %zu items, %zu were put in and not removed", nm, how, v.size(), m->size()); for(size_t i = 0; i < v.size(); ++i) if(v[i] != (*m)[i]) sim::fail("model", "%s: item %zu of %zu is %lld instead of %lld (%s)", nm, i, v.size(), (long long)v[i], (long long)(*m)[i], how); } };
template<class C> static C* mk(size_t cap) { (void)cap; return new C(); }
// ---- DynArray and Array
template<class C, class T, bool FIXED, bool COPIES> struct DynBox : ModelBox { C* t; C* (*make)(size_t); int pi;
  DynBox(const char* n, C* (*mkf)(size_t), size_t cap) : ModelBox(n), make(mkf) { t = make(FIXED ? 0 : cap); } ~DynBox() { delete t; }
  size_t length() { if constexpr(FIXED) return (size_t)t->Capacity(); else return (size_t)t->Length(); }
  void op(int k, size_t a, int64_t id) override {
    switch(k) {
    case ADD: { size_t at; if(id & 1) at = t->Add(T(id)); else if constexpr(COPIES) { T x(id); at = t->Add((const T&)x); } else at = t->AddConstruct(id); BAD(at == n(), "%s: Add gave index %zu instead of %zu", nm, at, n()); mod([&](V& v) { v.push_back(id); }); BAD(g(t->Back()) == id, "%s: Back is not the item added last", nm); break; }
    case DEL: if(n()) { if(id & 1) { t->RemoveLast(); mod([&](V& v) { v.pop_back(); }); } else { size_t i = a % n(); t->Remove(i); mod([&](V& v) { v.erase(v.begin() + i); }); all(); } } break;
    case INSERT: { size_t i = a % (n() + 1); if constexpr(COPIES) { if(id & 1) { T x(id); t->Insert((const T&)x, i); } else t->Insert(T(id), i); } else t->Insert(T(id), i); mod([&](V& v) { v.insert(v.begin() + i, id); }); all(); break; }
    case LEN: { size_t l = a % 30, o = n(); if constexpr(FIXED) { if((id & 3) == 0) { t->SetCapacityDiscard(l); if(l != o) o = 0; } else t->SetCapacity(l); } else t->SetLength(l); BAD(length() == l, "%s: SetLength(%zu) gave %zu items", nm, l, length()); for(size_t i = o; i < l; ++i) { if constexpr(!std::is_same<T, int64_t>::value) BAD(g((*t)[i]) == -1, "%s: item %zu added by SetLength was not constructed", nm, i); (*t)[i] = T(id + (int64_t)i); } mod([&](V& v) { if(FIXED && o == 0) v.clear(); v.resize(l); for(size_t i = o; i < l; ++i) v[i] = id + (int64_t)i; }); all(); break; }
    case CAP: if constexpr(!FIXED) { t->SetCapacity(a); BAD((size_t)t->Capacity() >= a && (size_t)t->Capacity() >= n(), "%s: SetCapacity(%zu) gave %zu", nm, a, (size_t)t->Capacity()); all(); } break;
    case SET: if constexpr(COPIES) { std::vector<T> x; V w; { size_t c = a % 12; x.reserve(c); for(size_t i = 0; i < c; ++i) { x.push_back(T(id + (int64_t)i)); w.push_back(id + (int64_t)i); } } Slice<const T, size_t> s(x.data(), x.size()); if(id & 1) t->Set(s); else *t = s; mod([&](V& v) { v = w; }); all(); } break;
    case CLEAR: t->Clear(); BAD(t->Empty(), "%s: not empty after Clear", nm); mod([&](V& v) { v.clear(); }); sim::probe(17); all(); break;
    case MOVE: { C* o; if(id & 1) o = new C(std::move(*t)); else { o = make(FIXED ? 0 : a % 5); if(id & 2) o->Add(T(1)); *o = std::move(*t); } delete t; t = o; sim::probe(18); all(); break; }
    case COPY: if constexpr(COPIES) { C* o; if(id & 1) o = new C((const C&)*t); else { o = make(FIXED ? 0 : a % 40); for(size_t i = 0; i < a % 9; ++i) o->Add(T(1)); *o = (const C&)*t; } all(); C* old = t; t = o; all(); if(id & 4) { t = old; old = o; } delete old; sim::probe(19); all(); } break;
    case SELF: if constexpr(COPIES) { const C& r = *t; *t = r; sim::probe(20); all(); } break;
    case APPEND: if constexpr(COPIES) { if(!(a % 6) && n() < 60) { *t += *t; mod([&](V& v) { V c(v); v.insert(v.end(), c.begin(), c.end()); }); all(); break; } C* o = make(FIXED ? 0 : 2); V w; for(size_t i = 0; i < a % 9; ++i) { o->Add(T(id + (int64_t)i)); w.push_back(id + (int64_t)i); } if((id & 1) || (!FIXED && !std::is_same<T, int64_t>::value)) *t += *o; else { C s = *t + *o; *t = s; } delete o; mod([&](V& v) { v.insert(v.end(), w.begin(), w.end()); }); all(); } break;
    default: all(); } }
  void all() override { V v; for(auto& x : *t) v.push_back(g(x)); BAD(length() == v.size(), "%s: Length says %zu, the iteration meets %zu", nm, length(), v.size()); eq(v, "an iteration"); const C& c = *t; for(size_t i = 0; i < v.size(); ++i) BAD(g(c[i]) == v[i], "%s: an index gives another item", nm); if(v.size()) BAD(g(c.Front()) == v[0] && g(c.Back()) == v.back(), "%s: Front or Back is wrong", nm); auto s = t->GetSlice(); BAD((size_t)s.length == v.size() && (v.empty() || g(s.Back()) == v.back()), "%s: the slice is wrong", nm); }
};
// ---- circular, queue
template<class C, class T> struct CircBox : ModelBox { C* t; C* (*make)(size_t); size_t cap; // the model keeps the most recent item first
  CircBox(const char* n, C* (*mkf)(size_t), size_t c) : ModelBox(n), make(mkf), cap(c) { t = make(cap); } ~CircBox() { delete t; }
  void op(int k, size_t a, int64_t id) override {
    switch(k) {
    case ADD: case INSERT: case APPEND: if(!cap) break; if(id & 1) t->Push(T(id)); else { T x(id); t->Push((const T&)x); } mod([&](V& v) { if(v.size() == cap) { v.pop_back(); sim::probe(21); } v.insert(v.begin(), id); }); BAD(g(t->Front()) == id, "%s: Front is not the item pushed last", nm); break;
    case DEL: case SET: if(n()) { bool back = id & 1; int64_t w; { sim::NoPreempt np; w = back ? m->back() : m->front(); } T x = back ? t->PopBack() : t->Pop(); BAD(g(x) == w, "%s: %s gave %lld instead of %lld", nm, back ? "PopBack" : "Pop", (long long)g(x), (long long)w); mod([&](V& v) { if(back) v.pop_back(); else v.erase(v.begin()); }); } break;
    case CAP: case LEN: { size_t c = a % 24; t->SetCapacity((ptrdiff_t)c); BAD((size_t)t->Capacity() == c, "%s: SetCapacity(%zu) gave %zu", nm, c, (size_t)t->Capacity()); if(c < cap) mod([&](V& v) { v.clear(); }); cap = c; all(); break; }
    case CLEAR: t->Clear(); mod([&](V& v) { v.clear(); }); sim::probe(17); all(); break;
    case MOVE: { C* o; if(id & 1) o = new C(std::move(*t)); else { o = make(a % 5); if((id & 2) && a % 5) o->Push(T(1)); *o = std::move(*t); } delete t; t = o; sim::probe(18); all(); break; }
    case COPY: { C* o; if(id & 1) o = new C((const C&)*t); else { o = make(a % 12); if(a % 12) for(size_t i = 0; i < a % 17; ++i) o->Push(T(1)); *o = (const C&)*t; } all(); C* old = t; t = o; all(); if(id & 4) { t = old; old = o; } delete old; sim::probe(19); all(); break; }
    case SELF: { const C& r = *t; *t = r; sim::probe(20); all(); break; }
    default: all(); } }
  void all() override { V v; for(auto& x : *t) v.push_back(g(x)); BAD((size_t)t->Length() == v.size(), "%s: Length says %zu, the iteration meets %zu", nm, (size_t)t->Length(), v.size()); eq(v, "an iteration"); const C& c = *t; if(v.size()) BAD(g(c.Front()) == v[0] && g(c.Back()) == v.back(), "%s: Front or Back is wrong", nm); BAD((size_t)t->Capacity() == cap, "%s: the capacity changed from %zu to %zu", nm, cap, (size_t)t->Capacity()); }
};
template<class C, class T, bool FIFO> struct QueueBox : ModelBox { C* t; C* (*make)(size_t); QueueBox(const char* n, C* (*mkf)(size_t), size_t c) : ModelBox(n), make(mkf) { t = make(c); } ~QueueBox() { delete t; }
  int64_t next() { sim::NoPreempt np; return FIFO ? m->front() : m->back(); } void drop() { mod([&](V& v) { if(FIFO) v.erase(v.begin()); else v.pop_back(); }); }
  void op(int k, size_t a, int64_t id) override {
    switch(k) {
    case ADD: case INSERT: case APPEND: case CAP: case LEN: if(id & 1) t->Push(T(id)); else { T x(id); t->Push((const T&)x); } mod([&](V& v) { v.push_back(id); }); break;
    case DEL: case SET: if(n()) { int64_t w = next(); if(id & 4) { BAD(g(t->Peek()) == w, "%s: Peek gave another item", nm); t->Discard(); } else { T x = t->Pop(); BAD(g(x) == w, "%s: Pop gave %lld instead of %lld", nm, (long long)g(x), (long long)w); } drop(); } break;
    case CLEAR: t->Clear(); mod([&](V& v) { v.clear(); }); sim::probe(17); all(); break;
    case MOVE: { C* o; if(id & 1) o = new C(std::move(*t)); else { o = make(a % 5); if(id & 2) o->Push(T(1)); *o = std::move(*t); } delete t; t = o; sim::probe(18); all(); break; }
    case COPY: { C* o; if(id & 1) o = new C((const C&)*t); else { o = make(a % 12); for(size_t i = 0; i < a % 17; ++i) o->Push(T(1)); *o = (const C&)*t; } all(); C* old = t; t = o; all(); if(id & 4) { t = old; old = o; } delete old; sim::probe(19); all(); break; }
    case SELF: { const C& r = *t; *t = r; sim::probe(20); all(); break; }
    default: all(); } }
  void all() override { BAD((size_t)t->Length() == n(), "%s: Length says %zu of %zu", nm, (size_t)t->Length(), n()); if(n()) BAD(g(t->Peek()) == next(), "%s: Peek gives another item", nm); C* o = new C((const C&)*t); V v; while(o->Length()) { auto x = o->Pop(); v.push_back(g(x)); } delete o; if(!FIFO) std::reverse(v.begin(), v.end()); eq(v, "popping a copy"); }
};
// ---- sorted array and map
static char CObjK(const Obj& a, const Obj& b) { int64_t x = a.get() >> 20, y = b.get() >> 20; return x < y ? -1 : x > y; }
static int64_t mkv(size_t k, int64_t id) { return ((int64_t)k << 20) | (id & 0xfffff); }
typedef ArraySort<Obj, CObjK, size_t, ARRAY_SAFE, CA<Obj>> AS; typedef Map<int, Obj, CompT<int>, size_t, ARRAY_SAFE> MP;
struct SortBox : ModelBox { AS* t; static AS* make(size_t c) { return new AS(c, pc<Obj>); } SortBox(size_t c) : ModelBox("sorted array") { t = make(c); } ~SortBox() { delete t; }
  void put(int64_t x) { mod([&](V& v) { v.push_back(x); }); }
  void op(int k, size_t a, int64_t id) override { size_t key = a % 12; int64_t x = mkv(key, id);
    switch(k) {
    case ADD: case INSERT: case APPEND: { size_t at; if(id & 1) at = t->Insert(Obj(x)); else { Obj o(x); at = t->Insert((const Obj&)o); } put(x); BAD(at < t->Length() && g((*t)[at]) == x, "sorted array: Insert gave the index of another item"); all(); break; }
    case DEL: { size_t i = a % (n() + 1); bool r = t->Remove(i); BAD(r == (i < n()), "sorted array: Remove(%zu) of %zu gave %d", i, n(), (int)r); if(r) mod([&](V& v) { v.erase(v.begin() + i); }); all(); break; }
    case LEN: { size_t c = a % 4; t->Discard(c); mod([&](V& v) { v.resize(v.size() < c ? 0 : v.size() - c); }); all(); break; }
    case SET: if(n()) { size_t i = a % n(); size_t r = t->ReplaceData(i, Obj(x)); mod([&](V& v) { v.erase(v.begin() + i); v.push_back(x); }); BAD(g((*t)[r]) == x, "sorted array: ReplaceData gave the index of another item"); all(); } break;
    case CAP: { size_t f = t->Find(Obj(mkv(key, 0))), b = t->FindNear(Obj(mkv(key, 0)), true), c = t->FindNear(Obj(mkv(key, 0)), false); sim::NoPreempt np; std::vector<size_t> ks; for(auto y : *m) ks.push_back((size_t)(y >> 20)); auto lo = std::lower_bound(ks.begin(), ks.end(), key), hi = std::upper_bound(ks.begin(), ks.end(), key); bool has = lo != hi; if(has != (f != (size_t)-1) || (has && ks[f] != key)) sim::fail("model", "sorted array: Find(%zu) gave %zd", key, (ssize_t)f); size_t wb = hi == ks.begin() ? (size_t)-1 : (size_t)(hi - ks.begin() - 1); if(b != wb) sim::fail("model", "sorted array: FindNear(%zu, before) gave %zd instead of %zd of %zu", key, (ssize_t)b, (ssize_t)wb, ks.size()); size_t wa = hi == ks.end() ? (size_t)-1 : (size_t)(hi - ks.begin()), wl = lo == ks.end() ? (size_t)-1 : (size_t)(lo - ks.begin()); if(c != wa && c != wl) sim::fail("model", "sorted array: FindNear(%zu, after) gave %zd instead of %zd of %zu", key, (ssize_t)c, (ssize_t)wa, ks.size()); break; }
    case CLEAR: t->Clear(); mod([&](V& v) { v.clear(); }); sim::probe(17); all(); break;
    case MOVE: { AS* o; if(id & 1) o = new AS(std::move(*t)); else { o = make(a % 5); if(id & 2) o->Insert(Obj(1)); *o = std::move(*t); } delete t; t = o; sim::probe(18); all(); break; }
    case COPY: { AS* o; if(id & 1) o = new AS((const AS&)*t); else { o = make(a % 12); for(size_t i = 0; i < a % 7; ++i) o->Insert(Obj(1)); *o = (const AS&)*t; } AS* old = t; t = o; all(); if(id & 4) { t = old; old = o; } delete old; sim::probe(19); all(); break; }
    case SELF: { const AS& r = *t; *t = r; sim::probe(20); all(); break; }
    default: all(); } }
  void all() override { V v; for(auto& x : *t) v.push_back(g(x)); for(size_t i = 1; i < v.size(); ++i) BAD((v[i - 1] >> 20) <= (v[i] >> 20), "sorted array: item %zu of %zu is out of order", i, v.size()); sim::NoPreempt np; V a = v, b = *m; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if(a != b) sim::fail("model", "sorted array: holds %zu items that are not the %zu put in and not removed", a.size(), b.size()); *m = v; } // equal items may be in any order
};
struct MapBox : Box { MP* t; std::map<int, int64_t>* m; MapBox(size_t c) { t = new MP(c); sim::NoPreempt np; m = new std::map<int, int64_t>; } ~MapBox() { delete t; sim::NoPreempt np; delete m; }
  int64_t val(int k) { sim::NoPreempt np; auto i = m->find(k); return i == m->end() ? -9 : i->second; }
  void find(int k) { size_t i = t->Get(k); int64_t w = val(k); BAD((i != (size_t)-1) == (w != -9), "map: key %d is %s", k, w == -9 ? "there although it should not be" : "missing"); if(w != -9) BAD(t->KeyIndex(i) == k && g(t->DataIndex(i)) == w && g(t->GetData(k)) == w && g((*t)(i)) == w, "map: the value of key %d changed", k); }
  void op(int k, size_t a, int64_t id) override { int key = (int)(a % 20);
    switch(k) {
    case ADD: case INSERT: case APPEND: if(val(key) != -9) { sim::NoPreempt np; break; } { size_t i; if(id & 1) i = t->Insert(key, Obj(id)); else { Obj o(id); i = t->Insert(key, (const Obj&)o); } { sim::NoPreempt np; (*m)[key] = id; } BAD(t->KeyIndex(i) == key && g(t->DataIndex(i)) == id, "map: Insert gave the index of another key"); } break;
    case DEL: { size_t w = t->Get(key), r = t->Remove(key); BAD(w == r, "map: Remove(%d) gave %zd", key, (ssize_t)r); { sim::NoPreempt np; m->erase(key); } find(key); break; }
    case SET: { int64_t w = val(key); t->Set(key, Obj(id)); if(w != -9) { sim::NoPreempt np; (*m)[key] = id; } find(key); break; }
    case LEN: { size_t i = t->Get(key); int to = (int)(id % 20); if(i == (size_t)-1 || val(to) != -9) { BAD(t->ReplaceKey(t->Length(), to) == (size_t)-1, "map: replaced the key of an index that does not exist"); break; } size_t r; if(id & 8) { r = t->ReplaceKey(i, to); sim::NoPreempt np; (*m)[to] = (*m)[key]; } else { r = t->Replace(i, to, Obj(id)); sim::NoPreempt np; (*m)[to] = id; } { sim::NoPreempt np; m->erase(key); } BAD(t->KeyIndex(r) == to, "map: Replace gave the index of another key"); find(key); find(to); all(); break; }
    case CAP: { size_t b = t->GetNear(key, true), c = t->GetNear(key, false); sim::NoPreempt np; std::vector<int> ks; for(auto& y : *m) ks.push_back(y.first); auto lo = std::lower_bound(ks.begin(), ks.end(), key), hi = std::upper_bound(ks.begin(), ks.end(), key); size_t wb = hi == ks.begin() ? (size_t)-1 : (size_t)(hi - ks.begin() - 1); if(b != wb) sim::fail("model", "map: GetNear(%d, before) gave %zd instead of %zd", key, (ssize_t)b, (ssize_t)wb); size_t wa = hi == ks.end() ? (size_t)-1 : (size_t)(hi - ks.begin()), wl = lo == ks.end() ? (size_t)-1 : (size_t)(lo - ks.begin()); if(c != wa && c != wl) sim::fail("model", "map: GetNear(%d, after) gave %zd instead of %zd", key, (ssize_t)c, (ssize_t)wa); break; }
    case CLEAR: t->Clear(); { sim::NoPreempt np; m->clear(); } sim::probe(17); all(); break;
    case MOVE: { MP* o; if(id & 1) o = new MP(std::move(*t)); else { o = new MP(a % 5); if(id & 2) o->Insert(5, Obj(1)); *o = std::move(*t); } delete t; t = o; sim::probe(18); all(); break; }
    case COPY: { MP* o; if(id & 1) o = new MP((const MP&)*t); else { o = new MP(a % 12); for(size_t i = 0; i < a % 7; ++i) o->Insert((int)i, Obj(1)); *o = (const MP&)*t; } MP* old = t; t = o; all(); if(id & 4) { t = old; old = o; } delete old; sim::probe(19); all(); break; }
    case SELF: { const MP& r = *t; *t = r; sim::probe(20); all(); break; }
    default: all(); } }
  void all() override { size_t c = 0, n; int last = -1; for(auto& kv : *t) { BAD(std::get<0>(kv) > last, "map: out of order"); last = std::get<0>(kv); ++c; } { sim::NoPreempt np; n = m->size(); } BAD(c == n && t->Length() == n, "map: an iteration meets %zu keys, Length says %zu, %zu are in it", c, (size_t)t->Length(), n); for(int k = 0; k < 20; ++k) find(k); }
};
// ---- linked array
typedef LinkedArray<Obj, size_t, ARRAY_SAFE, CA<internal::LINKEDNODE<Obj, size_t>>> LA;
struct LinkBox : ModelBox { LA* t; static LA* make(size_t c) { return new LA(c, pc<internal::LINKEDNODE<Obj, size_t>>); } LinkBox(size_t c) : ModelBox("linked array") { t = make(c); } ~LinkBox() { delete t; }
  size_t at(size_t i) { size_t r = t->Front(); while(i--) t->Next(r); return r; }
  void op(int k, size_t a, int64_t id) override {
    switch(k) {
    case ADD: { size_t i; if(id & 1) i = t->Add(Obj(id)); else { Obj o(id); i = t->Add((const Obj&)o); } mod([&](V& v) { v.push_back(id); }); BAD(g((*t)[i]) == id && t->Back() == i, "linked array: Add gave the index of another item"); break; }
    case INSERT: case APPEND: case SET: { size_t p = a % (n() + 1); bool after = id & 1; size_t r; if(p == n()) { r = after ? t->InsertAfter(Obj(id), (size_t)-1) : t->InsertBefore(Obj(id), (size_t)-1); mod([&](V& v) { v.push_back(id); }); } else { size_t i = at(p); r = after ? t->InsertAfter(Obj(id), i) : t->InsertBefore(Obj(id), i); mod([&](V& v) { v.insert(v.begin() + p + after, id); }); } BAD(g(t->GetItem(r)) == id, "linked array: an insertion gave the index of another item"); all(); break; }
    case DEL: if(n()) { size_t p = a % n(); size_t i = at(p); int64_t w; { sim::NoPreempt np; w = (*m)[p]; } Obj o = t->Remove(i); BAD(g(o) == w, "linked array: Remove gave another item"); mod([&](V& v) { v.erase(v.begin() + p); }); all(); } break;
    case CAP: case LEN: t->SetCapacity(a); BAD(t->Capacity() >= a, "linked array: SetCapacity(%zu) gave %zu", a, t->Capacity()); all(); break;
    case CLEAR: t->Clear(); mod([&](V& v) { v.clear(); }); sim::probe(17); all(); break;
    case MOVE: { LA* o; if(id & 1) o = new LA(std::move(*t)); else { o = make(a % 5); if(id & 2) o->Add(Obj(1)); *o = std::move(*t); } delete t; t = o; sim::probe(18); all(); break; }
    case COPY: { LA* o; if(id & 1) o = new LA((const LA&)*t); else { o = make(a % 12); for(size_t i = 0; i < a % 7; ++i) o->Add(Obj(1)); *o = (const LA&)*t; } all(); LA* old = t; t = o; all(); if(id & 4) { t = old; old = o; } delete old; sim::probe(19); all(); break; }
    case SELF: { const LA& r = *t; *t = r; sim::probe(20); all(); break; }
    default: all(); } }
  void all() override { V v, b; for(auto& x : *t) { v.push_back(g(x)); if(v.size() > 5000) break; } BAD(t->Length() == v.size(), "linked array: Length says %zu, the iteration meets %zu", t->Length(), v.size()); eq(v, "an iteration"); for(size_t i = t->Back(); i != (size_t)-1; t->Prev(i)) { b.push_back(g((*t)[i])); if(b.size() > 5000) break; } std::reverse(b.begin(), b.end()); eq(b, "walking backwards"); }
};
// ---- compact array
typedef CompactArray<int64_t, 3, size_t, CA<int64_t>> CP;
struct CompBox : ModelBox { CP* t; static CP* make() { return new CP(pc<int64_t>); } CompBox() : ModelBox("compact array") { t = make(); } ~CompBox() { delete t; }
  void op(int k, size_t a, int64_t id) override {
    switch(k) {
    case ADD: { size_t i = t->Add(id); BAD(i == n(), "compact array: Add gave index %zu instead of %zu", i, n()); mod([&](V& v) { v.push_back(id); }); break; }
    case DEL: if(n()) { if(id & 1) { t->RemoveLast(); mod([&](V& v) { v.pop_back(); }); } else { size_t i = a % n(); t->Remove(i); mod([&](V& v) { v.erase(v.begin() + i); }); } all(); } break;
    case INSERT: case APPEND: { size_t i = a % (n() + 1); t->Insert(id, i); mod([&](V& v) { v.insert(v.begin() + i, id); }); all(); break; }
    case LEN: { size_t l = a % 12, o = n(); t->SetLength(l); BAD(t->Length() == l, "compact array: SetLength"); for(size_t i = o; i < l; ++i) (*t)[i] = id + (int64_t)i; mod([&](V& v) { v.resize(l); for(size_t i = o; i < l; ++i) v[i] = id + (int64_t)i; }); all(); break; }
    case CAP: t->SetCapacity(a); BAD(t->Capacity() >= a && t->Capacity() >= n(), "compact array: SetCapacity(%zu) with %zu items gave %zu", a, n(), t->Capacity()); all(); break;
    case SET: { V w; for(size_t i = 0; i < a % 9; ++i) w.push_back(id + (int64_t)i); Slice<const int64_t, size_t> s(w.data(), w.size()); if(id & 1) t->Set(s); else *t = s; mod([&](V& v) { v = w; }); all(); break; }
    case CLEAR: t->Clear(); BAD(t->Empty(), "compact array: not empty after Clear"); mod([&](V& v) { v.clear(); }); sim::probe(17); all(); break;
    case MOVE: { CP* o; if(id & 1) o = new CP(std::move(*t)); else { o = make(); if(id & 2) for(size_t i = 0; i < a % 9; ++i) o->Add(1); *o = std::move(*t); } delete t; t = o; sim::probe(18); all(); break; }
    case COPY: { CP* o; if(id & 1) o = new CP((const CP&)*t); else { o = make(); for(size_t i = 0; i < a % 19; ++i) o->Add(1); *o = (const CP&)*t; } all(); CP* old = t; t = o; all(); if(id & 4) { t = old; old = o; } delete old; sim::probe(19); all(); break; }
    case SELF: { const CP& r = *t; *t = r; sim::probe(20); all(); break; }
    default: all(); } }
  void all() override { V v; for(auto x : *t) v.push_back(x); BAD(t->Length() == v.size(), "compact array: Length"); eq(v, "an iteration"); const CP& c = *t; if(v.size()) BAD(c.Front() == v[0] && c.Back() == v.back(), "compact array: Front or Back is wrong"); auto s = t->GetSlice(); BAD(s.length == v.size(), "compact array: the slice is wrong"); }
};
// ---- bits
typedef DynArray<bool> DB;
struct BitBox : ModelBox { DB* t; BitBox(size_t c) : ModelBox("bit array") { t = new DB(c); } ~BitBox() { delete t; }
  void op(int k, size_t a, int64_t id) override { bool b = (id >> 3) & 1;
    switch(k) {
    case ADD: { size_t i; if(id & 1) i = t->Add(b); else { i = t->AddConstruct(); b = false; } BAD(i == n(), "bit array: Add gave index %zu instead of %zu", i, n()); mod([&](V& v) { v.push_back(b); }); all(); break; }
    case DEL: if(n()) { if(id & 1) { t->RemoveLast(); mod([&](V& v) { v.pop_back(); }); } else { size_t i = a % n(); t->Remove(i); mod([&](V& v) { v.erase(v.begin() + i); }); } all(); } break;
    case INSERT: case APPEND: { size_t i = a % (n() + 1); t->Insert(b, i); mod([&](V& v) { v.insert(v.begin() + i, b); }); all(); break; }
    case LEN: { size_t l = a * 3; t->SetLength(l); mod([&](V& v) { v.resize(l, 0); }); all(); break; }
    case CAP: t->SetCapacity(a * 4); BAD(t->Capacity() >= a * 4 && t->Capacity() >= n(), "bit array: SetCapacity(%zu) gave %zu", a * 4, t->Capacity()); all(); break;
    case SET: if(n()) { size_t i = a % n(), l = (size_t)id % (n() - i + 1); size_t c = t->CountBits(i, l), w = 0; { sim::NoPreempt np; for(size_t j = i; j < i + l; ++j) w += (size_t)(*m)[j]; } BAD(c == w, "bit array: CountBits(%zu, %zu) gave %zu instead of %zu", i, l, c, w); if(id & 1) { (*t)[i] = b; mod([&](V& v) { v[i] = b; }); } else if(id & 2) { t->Flip(); mod([&](V& v) { for(auto& x : v) x = !x; }); } all(); } break;
    case CLEAR: t->Clear(); BAD(t->Empty(), "bit array: not empty after Clear"); mod([&](V& v) { v.clear(); }); sim::probe(17); all(); break;
    case MOVE: { DB* o; if(id & 1) o = new DB(std::move(*t)); else { o = new DB(a % 20); if(id & 2) o->Add(true); *o = std::move(*t); } delete t; t = o; sim::probe(18); all(); break; }
    case COPY: { DB* o; if(id & 1) o = new DB((const DB&)*t); else { o = new DB(a * 5); for(size_t i = 0; i < a; ++i) o->Add(true); *o = (const DB&)*t; } all(); DB* old = t; t = o; all(); if(id & 4) { t = old; old = o; } delete old; sim::probe(19); all(); break; }
    case SELF: { const DB& r = *t; *t = r; sim::probe(20); all(); break; }
    default: all(); } }
  void all() override { V v; const DB& c = *t; for(size_t i = 0; i < t->Length(); ++i) v.push_back(c[i]); eq(v, "indexing"); V w; for(auto x : *t) w.push_back((bool)x); eq(w, "an iteration"); if(v.size()) BAD(c.Front() == (v[0] != 0) && c.Back() == (v.back() != 0) && (bool)t->Front() == c.Front() && (bool)t->Back() == c.Back(), "bit array: Front or Back is wrong"); }
};
// ---- heaps
typedef BinaryHeap<Obj, size_t, CompT<Obj>, ARRAY_SAFE, CA<Obj>> BH;
struct HeapBox : ModelBox { BH* t; static BH* make() { return new BH(pc<Obj>); } HeapBox() : ModelBox("heap") { t = make(); } ~HeapBox() { delete t; }
  int64_t top() { sim::NoPreempt np; return *std::max_element(m->begin(), m->end()); } void drop(int64_t x) { mod([&](V& v) { v.erase(std::find(v.begin(), v.end(), x)); }); }
  void op(int k, size_t a, int64_t id) override { int64_t x = mkv(a, id);
    switch(k) {
    case ADD: case INSERT: case APPEND: case CAP: if(id & 1) t->Insert(Obj(x)); else { Obj o(x); t->Insert((const Obj&)o); } mod([&](V& v) { v.push_back(x); }); break;
    case DEL: if(n()) { if(id & 1) { int64_t w = top(); Obj o = t->Pop(); BAD(g(o) == w, "heap: Pop gave another item than the first"); drop(w); } else { size_t i = a % n(); int64_t w = g(t->Get(i)); BAD(t->Remove(i), "heap: Remove gave false"); drop(w); } all(); } break;
    case SET: if(n()) { size_t i = a % n(); int64_t w = g(t->Get(i)); BAD(t->Set(i, Obj(x)), "heap: Set gave false"); drop(w); mod([&](V& v) { v.push_back(x); }); all(); } break;
    case CLEAR: t->Clear(); BAD(t->Empty(), "heap: not empty after Clear"); mod([&](V& v) { v.clear(); }); sim::probe(17); all(); break;
    case MOVE: { BH* o; if(id & 1) o = new BH(std::move(*t)); else { o = make(); if(id & 2) o->Insert(Obj(1)); *o = std::move(*t); } delete t; t = o; sim::probe(18); all(); break; }
    case COPY: { BH* o; if(id & 1) o = new BH((const BH&)*t); else { o = make(); for(size_t i = 0; i < a % 9; ++i) o->Insert(Obj(1)); *o = (const BH&)*t; } all(); BH* old = t; t = o; all(); if(id & 4) { t = old; old = o; } delete old; sim::probe(19); all(); break; }
    case SELF: { const BH& r = *t; *t = r; sim::probe(20); all(); break; }
    default: all(); } }
  void all() override { V v; for(auto& x : *t) v.push_back(g(x)); BAD(t->Length() == v.size(), "heap: Length"); if(v.size()) BAD(g(t->Peek()) == top(), "heap: Peek does not give the first item"); sim::NoPreempt np; V w = *m; std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end()); if(v != w) sim::fail("model", "heap: holds %zu items that are not the %zu put in and not removed", v.size(), w.size()); }
};
typedef PriorityHeap<Obj, size_t, CompT<Obj>, ARRAY_SAFE, CA<std::pair<size_t, Obj>>> PH;
struct PrioBox : Box { PH* t; std::map<size_t, int64_t>* m; size_t peak = 0; static PH* make() { return new PH(pc<std::pair<size_t, Obj>>); } PrioBox() { t = make(); sim::NoPreempt np; m = new std::map<size_t, int64_t>; } ~PrioBox() { delete t; sim::NoPreempt np; delete m; }
  size_t top() { sim::NoPreempt np; size_t r = m->begin()->first; for(auto& x : *m) if(x.second > (*m)[r]) r = x.first; return r; } int64_t val(size_t k) { sim::NoPreempt np; return (*m)[k]; } void drop(size_t k) { sim::NoPreempt np; m->erase(k); }
  size_t some(size_t a) { sim::NoPreempt np; auto i = m->begin(); std::advance(i, a % m->size()); return i->first; }
  void op(int k, size_t a, int64_t id) override { int64_t x = mkv(a, id); size_t n; { sim::NoPreempt np; n = m->size(); }
    switch(k) {
    case ADD: case INSERT: case APPEND: case CAP: { size_t key; if(id & 1) key = t->Push(Obj(x)); else { Obj o(x); key = t->Push((const Obj&)o); } sim::NoPreempt np; if(m->count(key)) sim::fail("model", "priority heap: key %zu was given out twice", key); (*m)[key] = x; if(m->size() > peak) peak = m->size(); if(key > 4 * peak + 16) sim::fail("growth", "priority heap: gave out key %zu although it never held more than %zu items", key, peak); break; }
    case DEL: if(n) { if((id & 3) == 0) { size_t w = top(); Obj o = t->Pop(); BAD(g(o) == val(w), "priority heap: Pop gave another item than the first"); drop(w); } else if((id & 3) == 1) { size_t w = top(); t->Discard(); drop(w); } else { size_t w = some(a); BAD(t->Remove(w), "priority heap: Remove gave false"); drop(w); } all(); } break;
    case SET: if(n) { size_t w = some(a); bool r; if(id & 1) r = t->Set(w, Obj(x)); else { Obj o(x); r = t->Set(w, (const Obj&)o); } BAD(r, "priority heap: Set gave false"); { sim::NoPreempt np; (*m)[w] = x; } all(); } break;
    case CLEAR: t->Clear(); { sim::NoPreempt np; m->clear(); } sim::probe(17); all(); break;
    case MOVE: { PH* o; if(id & 1) o = new PH(std::move(*t)); else { o = make(); if(id & 2) o->Push(Obj(1)); *o = std::move(*t); } delete t; t = o; sim::probe(18); all(); break; }
    case COPY: { PH* o; if(id & 1) o = new PH((const PH&)*t); else { o = make(); for(size_t i = 0; i < a % 9; ++i) o->Push(Obj(1)); *o = (const PH&)*t; } all(); PH* old = t; t = o; all(); if(id & 4) { t = old; old = o; } delete old; sim::probe(19); all(); break; }
    case SELF: { const PH& r = *t; *t = r; sim::probe(20); all(); break; }
    default: all(); } }
  void all() override { std::vector<std::pair<size_t, int64_t>> v; { sim::NoPreempt np; v.assign(m->begin(), m->end()); } BAD(t->Length() == v.size() && t->Empty() == v.empty(), "priority heap: Length says %zu of %zu", t->Length(), v.size()); for(auto& x : v) BAD(g(t->Get(x.first)) == x.second, "priority heap: key %zu has the value of another", x.first); if(v.size()) BAD(g(t->Peek()) == val(top()), "priority heap: Peek does not give the first item"); }
};
// ---- arrays made at once from lists and slices (on the heap), compared with what they were made from
template<class C, class T> static void made(const C& c, size_t len, int64_t id, const char* what) { C d(c); BAD((size_t)len == 3, "%s made of 3 items has %zu", what, len); for(size_t i = 0; i < 3; ++i) BAD(g(T(c[i])) == g(T(id + (int64_t)i)) && g(T(d[i])) == g(T(c[i])), "%s made of 3 items: item %zu is another", what, i); }
static void made_all(int64_t id) { sim::probe(23); typedef DynArray<Obj, size_t, ARRAY_SAFE> D; typedef Array<Obj, size_t, ARRAY_SAFE> A; typedef DynArray<int64_t> DI; typedef Array<int64_t> AI; typedef CompactArray<int64_t> CI; typedef CompactArray<int> CN; typedef DynArray<bool> DBi;
  switch(id & 7) {
  case 0: { D x({ Obj(id), Obj(id + 1), Obj(id + 2) }); made<D, Obj>(x, x.Length(), id, "array of objects"); break; } case 1: { A x({ Obj(id), Obj(id + 1), Obj(id + 2) }); made<A, Obj>(x, x.Capacity(), id, "fixed array"); break; }
  case 2: { Obj o[3] = { Obj(id), Obj(id + 1), Obj(id + 2) }; D x(Slice<const Obj, size_t>(o, 3)); made<D, Obj>(x, x.Length(), id, "array of objects"); break; } case 3: { Obj o[3] = { Obj(id), Obj(id + 1), Obj(id + 2) }; A x(Slice<const Obj, size_t>(o, 3)); made<A, Obj>(x, x.Capacity(), id, "fixed array"); break; }
  case 4: { DI x({ id, id + 1, id + 2 }); AI y({ id, id + 1, id + 2 }); made<DI, int64_t>(x, x.Length(), id, "array of numbers"); made<AI, int64_t>(y, y.Capacity(), id, "fixed array of numbers"); break; }
  case 5: { CI x({ id, id + 1, id + 2 }); made<CI, int64_t>(x, x.Length(), id, "compact array"); CN y({ (int)id, (int)id + 1, (int)id + 2 }); made<CN, int64_t>(y, y.Length(), (int)id, "compact array"); break; }
  case 6: { int64_t o[3] = { id, id + 1, id + 2 }; CI x(Slice<const int64_t, size_t>(o, 3)); made<CI, int64_t>(x, x.Length(), id, "compact array"); CN y({ (int)id }); y.Add((int)id + 1); y.Add((int)id + 2); made<CN, int64_t>(y, y.Length(), (int)id, "compact array"); break; }
  default: { bool b = (id >> 4) & 1; DBi x({ b, !b, true }); BAD(x.Length() == 3 && (bool)x[0] == b && (bool)x[1] == !b && (bool)x[2], "bit array made of 3 bits has others"); } } }
// ---- a heap built from an array, sorted arrays through the heap, and the queue of keyed values
typedef BinaryHeap<int64_t> BHi;
typedef PriorityQueue<int64_t, Obj, CompT<int64_t>, size_t, ARRAY_SAFE, CA<std::pair<int64_t, Obj>>> PQ;
struct PQBox : ModelBox { PQ* t; static PQ* make() { return new PQ(pc<std::pair<int64_t, Obj>>); } PQBox() : ModelBox("priority queue") { t = make(); } ~PQBox() { delete t; }
  int64_t top() { sim::NoPreempt np; return *std::max_element(m->begin(), m->end()); } void drop(int64_t x) { mod([&](V& v) { v.erase(std::find(v.begin(), v.end(), x)); }); }
  int64_t one(const std::pair<int64_t, Obj>& p) { BAD(g(p.second) == ~p.first, "priority queue: a key has the value of another"); return p.first; }
  void op(int k, size_t a, int64_t id) override { int64_t x = mkv(a, id);
    switch(k) {
    case ADD: case INSERT: case CAP: if(id & 1) t->Push(int64_t(x), Obj(~x)); else { int64_t y = x; t->Push((const int64_t&)y, Obj(~x)); } mod([&](V& v) { v.push_back(x); }); break;
    case SET: case LEN: case APPEND: { V v; { sim::NoPreempt np; v = *m; } V s(v); // the same items through a heap of numbers
      if(id & 1) { BHi::HeapSort(s.data(), s.size()); std::sort(v.begin(), v.end()); BAD(s == v, "HeapSort of %zu numbers is not their sorted sequence", v.size()); }
      else { BHi h(s.data(), s.size()); BHi h2; h2 = h; if(id & 2) h = std::move(h2); BAD(h.Length() == v.size(), "heap of an array of %zu has length %zu", v.size(), (size_t)h.Length()); std::sort(v.begin(), v.end()); while(v.size()) { BAD(h.Pop() == v.back(), "heap made of an array: Pop gave another item than the first"); v.pop_back(); } BAD(h.Empty(), "heap made of an array: too many items"); }
      sim::probe(23); break; }
    case DEL: if(n()) { int64_t w = top(); if((id & 3) == 0) { auto p = t->Pop(); BAD(one(p) == w, "priority queue: Pop gave another item than the first"); drop(w); } else if((id & 3) == 1) { t->Discard(); drop(w); } else { size_t i = a % n(); w = one(t->Get(i)); BAD(t->Remove(i), "priority queue: Remove gave false"); drop(w); } all(); } BAD(!t->Remove(n()), "priority queue: removed an index that does not exist"); break;
    case CLEAR: t->Clear(); BAD(t->Empty(), "priority queue: not empty after Clear"); mod([&](V& v) { v.clear(); }); sim::probe(17); all(); break;
    case MOVE: { PQ* o; if(id & 1) o = new PQ(std::move(*t)); else { o = make(); if(id & 2) o->Push(1, Obj(~1)); *o = std::move(*t); } delete t; t = o; sim::probe(18); all(); break; }
    case COPY: { PQ* o; if(id & 1) o = new PQ((const PQ&)*t); else { o = make(); for(size_t i = 0; i < a % 9; ++i) o->Push(1, Obj(~1)); *o = (const PQ&)*t; } all(); PQ* old = t; t = o; all(); if(id & 4) { t = old; old = o; } delete old; sim::probe(19); all(); break; }
    case SELF: { const PQ& r = *t; *t = r; sim::probe(20); all(); break; }
    default: all(); } }
  void all() override { V v; for(size_t i = 0; i < t->Length(); ++i) v.push_back(one(t->Get(i))); BAD(t->Empty() == v.empty(), "priority queue: Empty"); if(v.size()) BAD(one(t->Peek()) == top(), "priority queue: Peek does not give the first item"); sim::NoPreempt np; V w = *m; std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end()); if(v != w) sim::fail("model", "priority queue: holds %zu items that are not the %zu put in and not removed", v.size(), w.size()); }
};
// ---- an array whose element size is chosen at run time; the model keeps the low bytes of each item
typedef ArbitraryArray<size_t> AA; // its allocator is always the heap
struct ArbBox : ModelBox { AA* t; size_t el; static size_t pick(int64_t id) { static const size_t E[] = { 1, 2, 3, 4, 5, 6, 7, 8 }; return E[(id >> 4) & 7]; } ArbBox(size_t c) : ModelBox("array of chosen element size") { el = 1 + c % 8; t = new AA(c, el); } ~ArbBox() { delete t; }
  int64_t cut(int64_t x) { return el >= 8 ? x : x & ((1ll << (8 * el)) - 1); }
  void op(int k, size_t a, int64_t id) override {
    switch(k) {
    case ADD: case INSERT: case APPEND: { int64_t x = (id * 0x9E3779B97F4A7C15ll) ^ id; size_t i = t->Add(x); BAD(i == n(), "%s: Add gave index %zu instead of %zu", nm, i, n()); mod([&](V& v) { v.push_back(cut(x)); }); all(); break; }
    case DEL: if(n()) { if(id & 1) { t->RemoveLast(); mod([&](V& v) { v.pop_back(); }); } else { size_t i = a % n(); t->Remove(i); mod([&](V& v) { v.erase(v.begin() + i); }); } all(); } break;
    case LEN: { size_t l = a % (n() + 1); t->SetLength(l); mod([&](V& v) { v.resize(l); }); all(); break; }
    case CAP: { el = pick(id); t->SetElement(el); mod([&](V& v) { for(auto& x : v) x = cut(x); }); BAD(t->Element() == el, "%s: SetElement(%zu) gave %zu", nm, el, (size_t)t->Element()); sim::probe(23); all(); break; }
    case SET: if((id & 1) && a) { V v; for(size_t i = 0; i < a; ++i) v.push_back(id * 77 + (int64_t)i); if(id & 2) { t->SetElement(v.data(), v.size()); el = 8; } else { size_t e = pick(id); std::vector<uint8_t> b; for(auto x : v) b.insert(b.end(), (uint8_t*)&x, (uint8_t*)&x + e); t->SetElement(b.data(), e, v.size()); el = e; for(auto& x : v) x = cut(x); } mod([&](V& w) { w = v; }); sim::probe(23); all(); } else if(n()) { size_t i = a % n(); int64_t x = id * 31; memcpy((*t)[i], &x, el); mod([&](V& v) { v[i] = cut(x); }); all(); } break;
    case CLEAR: t->Clear(); BAD(t->Empty(), "%s: not empty after Clear", nm); mod([&](V& v) { v.clear(); }); sim::probe(17); all(); break;
    case MOVE: { AA* o; if(id & 1) o = new AA(std::move(*t)); else { o = new AA(a % 20, 3); if(id & 2) o->Add(id); *o = std::move(*t); } delete t; t = o; sim::probe(18); all(); break; }
    case COPY: { AA* o; if(id & 1) o = new AA((const AA&)*t); else { o = new AA(a, 5); for(size_t i = 0; i < a; ++i) o->Add(id); *o = (const AA&)*t; } all(); AA* old = t; t = o; all(); if(id & 4) { t = old; old = o; } delete old; sim::probe(19); all(); break; }
    case SELF: { const AA& r = *t; *t = r; sim::probe(20); all(); break; }
    default: all(); } }
  void all() override { V v; const AA& c = *t; BAD(c.Length() == n() && c.Element() == el, "%s: Length says %zu of %zu, Element %zu of %zu", nm, (size_t)c.Length(), n(), (size_t)c.Element(), el); for(size_t i = 0; i < c.Length(); ++i) { int64_t x = 0; memcpy(&x, c[i], el); v.push_back(x); if(el == 8 && i == 0) BAD(c.Front<int64_t>() == x && c.begin<int64_t>()[0] == x, "%s: Front", nm); if(el == 8) BAD(c.Get<int64_t>(i) == x, "%s: Get", nm); } eq(v, "indexing"); if(el == 8 && v.size()) BAD(c.Back<int64_t>() == v.back() && t->end<int64_t>() - t->begin<int64_t>() == (ptrdiff_t)v.size(), "%s: Back or end", nm); if(v.size()) BAD(c.Front<uint8_t>() == (uint8_t)v[0] && c.Back<uint8_t>() == (uint8_t)v.back(), "%s: Front or Back", nm); }
};
#define MK(name, ...) typedef __VA_ARGS__ name; static name* mk_##name(size_t c) { return new name(c, pc<TY>); }
#define TY Obj
MK(DySafe, DynArray<Obj, size_t, ARRAY_SAFE, CA<Obj>>) MK(ArSafe, Array<Obj, size_t, ARRAY_SAFE, CA<Obj>>)
typedef ArrayCircular<Obj, ptrdiff_t, ARRAY_SAFE, CA<Obj>> CiSafe; static CiSafe* mk_CiSafe(size_t c) { return new CiSafe((ptrdiff_t)c, pc<Obj>); }
typedef Queue<Obj, ptrdiff_t, ARRAY_SAFE, CA<Obj>> QuSafe; static QuSafe* mk_QuSafe(size_t c) { return new QuSafe((ptrdiff_t)c, pc<Obj>); }
typedef Stack<Obj, size_t, ARRAY_SAFE, CA<Obj>> StSafe; static StSafe* mk_StSafe(size_t c) { return new StSafe(c, pc<Obj>); }
#undef TY
typedef DynArray<int64_t> DySimple; static DySimple* mk_DySimple(size_t c) { return new DySimple(c); }
#define TY CObj
MK(DyCons, DynArray<CObj, size_t, ARRAY_CONSTRUCT, CA<CObj>>)
typedef DynArray<MObj, size_t, ARRAY_MOVE> DyMove; static DyMove* mk_DyMove(size_t c) { return new DyMove(c); }
typedef ArrayCircular<int64_t> CiSimple; static CiSimple* mk_CiSimple(size_t c) { return new CiSimple((ptrdiff_t)c); }
static const int KINDS = 18;
static Box* make(int k, size_t c) {
  sim::probe(k < 16 ? k : 24 + k - 16);
  switch(k) {
  case 0: return new DynBox<DySafe, Obj, false, true>("array of objects", mk_DySafe, c); case 1: return new DynBox<DySimple, int64_t, false, true>("array of numbers", mk_DySimple, c); case 2: return new DynBox<DyCons, CObj, false, true>("array of constructed objects", mk_DyCons, c); case 3: return new DynBox<DyMove, MObj, false, false>("array of movable objects", mk_DyMove, c);
  case 4: return new DynBox<ArSafe, Obj, true, true>("fixed array", mk_ArSafe, 0); case 5: return new CircBox<CiSafe, Obj>("circular array of objects", mk_CiSafe, c); case 6: return new CircBox<CiSimple, int64_t>("circular array of numbers", mk_CiSimple, c); case 7: return new SortBox(c); case 8: return new MapBox(c); case 9: return new LinkBox(c); case 10: return new CompBox(); case 11: return new BitBox(c);
  case 12: return new QueueBox<QuSafe, Obj, true>("queue", mk_QuSafe, c); case 13: return new QueueBox<StSafe, Obj, false>("stack", mk_StSafe, c); case 14: return new HeapBox(); case 15: return new PrioBox(); case 16: return new PQBox(); default: return new ArbBox(c); } }
static Box* own[8]; static Box* shelf;
static void step(int a, const sim::Op& op) {
  int64_t id; { sim::NoPreempt np; id = ++nid * 16 + (int64_t)(op.b & 15); } // the low bits choose a variant
  if(op.kind == SET && !(op.a % 5)) made_all(id);
  if(op.kind == SWAP) { Box* b; { sim::NoPreempt np; b = shelf; shelf = own[a]; own[a] = b; } sim::probe(16); own[a]->all(); return; }
  sim::seq(); own[a]->op(op.kind, (size_t)op.a, id);
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  int th = (int)r.range(1, 4); p.p[0] = th; bool same = r.chance(1, 2); int k0 = (int)r.below(KINDS); int64_t kinds = 0; for(int i = 0; i <= th; ++i) kinds = kinds * 32 + (same ? k0 : (int)r.below(KINDS)); p.p[1] = kinds; p.p[2] = r.range(1, 6); p.p[3] = r.chance(1, 2) ? 0 : r.range(1, 12);
  int per = (int)r.range(5, r.chance(1, 4) ? 120 : 40); bool grow = r.chance(1, 2); if(r.chance(1, 80)) { per = (int)r.range(200, 500); grow = true; }
  for(int t = 0; t < th; ++t) for(int i = 0; i < per; ++i) { int k = pickw(r, { grow ? 12 : 6, 5, grow ? 6 : 3, r.chance(1, 3) ? 1 : 0, 1, 1, 1, r.chance(1, 6) ? 1 : 0, 1, 1, r.chance(1, 4) ? 1 : 0, 1, th > 1 ? 1 : 0 }); p.add(t, k, r.below(r.chance(1, 4) ? 70 : 30), r.below(16)); }
}
void harness_execute(const sim::Plan& p) {
  sim::set_limits(6000000, 12000000); live = 0; nid = 0; LeakCheck lk;
  typedef internal::LINKEDNODE<Obj, size_t> LN; size_t is = 64 * (size_t)p.p[2]; pc<Obj> = new CachePolicy<Obj>(8192, is, 16); pc<CObj> = new CachePolicy<CObj>(8192, is, 16); pc<int64_t> = new CachePolicy<int64_t>(8192, is, 16); typedef std::pair<int64_t, Obj> QO; pc<QO> = new CachePolicy<QO>(8192, is, 16); typedef std::pair<size_t, Obj> PO; pc<PO> = new CachePolicy<PO>(8192, is, 16); pc<LN> = new CachePolicy<LN>(8192, is, 16);
  int th = (int)p.p[0]; int64_t k = p.p[1]; for(int i = 0; i <= th; ++i) { Box* b = make((int)(k % 32), (size_t)p.p[3]); if(i < th) own[i] = b; else shelf = b; k /= 32; }
  run_actors(p, th, step);
  for(int i = 0; i < th; ++i) { own[i]->all(); delete own[i]; } shelf->all(); delete shelf; own[0] = shelf = 0; delete pc<Obj>; delete pc<CObj>; delete pc<int64_t>; delete pc<LN>; delete pc<PO>; delete pc<QO>;
  lk.check("the containers and their allocator"); SIM_CHECK(live == 0, "object", "%d objects put into the containers were not destroyed with them", live);
}
