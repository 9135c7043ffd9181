// C27: node containers owned by different threads over shared concurrent allocators behave exactly like their models.
#include "common.h"
#include "bss-util/BlockAllocMT.h"
#include "bss-util/CacheAlloc.h"
#include "bss-util/AVLTree.h"
#include "bss-util/TRBtree.h"
#include "bss-util/AATree.h"
#include "bss-util/LinkedList.h"
#include "bss-util/Hash.h"
#include "bss-util/KDTree.h"
#include <map>
#include <set>
#include <list>
#include <algorithm>
using namespace hx; using namespace bss;
extern "C" {
  const char* const harness_probes[] = { "avl_map", "avl_set", "red_black", "aa_tree", "list_last", "list_plain", "hash_shared_cache", "hash_heap", "handed_over", "cleared", "moved", "removed_missing", "duplicate_insert", "key_replaced", "rehash", "copied", "tree_of_20", "hash_of_strings", "rectangle_query", "kd_tree", "hash_ignoring_case", "hash_of_pairs", "hash_set", "intrusive_list", "hash_of_wide_numbers", "default_allocator", 0 };
  const char* const harness_real = "AVLTree, TRBtree, AATree, LinkedList, Hash, KDTree, PolymorphicAllocator, LocklessBlockPolicy, CachePolicy";
  const char* const harness_stub = "thread scheduler, malloc/free";
}
enum { INS, DEL, FIND, NEAR, ALL, CLEAR, MOVE, COPY, SWAP, REPL };
static int live, total; static int64_t nid;
struct Obj { int64_t v; const Obj* self; Obj() : v(-1), self(this) { sim::NoPreempt np; ++live; ++total; } Obj(int64_t x) : v(x), self(this) { sim::NoPreempt np; ++live; ++total; } Obj(const Obj& o) : v(o.get()), self(this) { sim::NoPreempt np; ++live; ++total; } Obj(Obj&& o) : v(o.get()), self(this) { sim::NoPreempt np; o.v = -2; ++live; ++total; } ~Obj() { get(); self = 0; sim::NoPreempt np; --live; } Obj& operator=(const Obj& o) { get(); v = o.get(); return *this; } Obj& operator=(Obj&& o) { get(); int64_t x = o.get(); o.v = -2; v = x; return *this; }
  int64_t get() const { if(self != this) sim::fail("object", "an object of a container was used before its construction, after its destruction or after being moved bytewise"); return v; } };
static char CompObj(const Obj& a, const Obj& b) { int64_t x = a.get() >> 20, y = b.get() >> 20; return x < y ? -1 : x > y; }
struct Box { virtual ~Box() {} virtual void op(int k, int key, int64_t id) = 0; virtual void all() = 0; virtual const char* name() = 0; };
static const int KEYS = 40;
#define BAD(c, ...) SIM_CHECK(c, "model", __VA_ARGS__)
// ---- AVL
template<class D, bool DEF = false> struct AvlBox : Box { // DEF: the allocator the type has by default, which all threads share
  typedef typename internal::AVLTreeDataField<int, D>::Node N; typedef PolymorphicAllocator<N, LocklessBlockPolicy> A; typedef std::conditional_t<DEF, AVLTree<int, D>, AVLTree<int, D, CompT<int>, A>> Tr; static Tr* fresh(LocklessBlockPolicy<N>* p) { if constexpr(DEF) return new Tr(); else return new Tr(p); } typedef LocklessBlockPolicy<N> P;
  Tr* t; P* pol; std::map<int, int64_t>* m; static constexpr bool MAP = !std::is_void<D>::value;
  AvlBox(P* p) : pol(p) { t = fresh(p); sim::NoPreempt np; m = new std::map<int, int64_t>; } ~AvlBox() { delete t; sim::NoPreempt np; delete m; } const char* name() override { return MAP ? "AVL map" : "AVL set"; }
  static int height(N* n, const char* w, bool& ok) { if(!n) return 0; int l = height(n->_left, w, ok), r = height(n->_right, w, ok); if(l - r > 1 || r - l > 1) ok = false; return 1 + (l > r ? l : r); }
  bool has(int k) { sim::NoPreempt np; return m->count(k) != 0; } int64_t val(int k) { sim::NoPreempt np; auto i = m->find(k); return i == m->end() ? -9 : i->second; }
  void find(int k) { if constexpr(MAP) { D* r = t->GetRef(k); BAD((r != 0) == has(k), "%s: key %d is %s although it was %s", name(), k, r ? "there" : "missing", r ? "never put in or removed" : "put in"); if(r) BAD(r->get() == val(k), "%s: key %d has a value of another key", name(), k); } else { int r = t->Get(k, -1); BAD((r == k) == has(k), "%s: Get(%d) gave %d", name(), k, r); } }
  void op(int k, int key, int64_t id) override {
    switch(k) {
    case INS: { N* r; if constexpr(MAP) r = id & 1 ? t->Insert(key, Obj(id)) : [&]() { Obj o(id); return t->Insert(key, (const Obj&)o); }(); else r = t->Insert(key); if(has(key)) { sim::probe(12); BAD(r == 0, "%s: a second insertion of key %d gave a node", name(), key); } else { BAD(r != 0, "%s: the insertion of key %d gave no node", name(), key); sim::NoPreempt np; (*m)[key] = id; } find(key); break; }
    case DEL: { bool r = t->Remove(key); BAD(r == has(key), "%s: Remove(%d) gave %d", name(), key, (int)r); if(!r) sim::probe(11); { sim::NoPreempt np; m->erase(key); } find(key); break; }
    case FIND: find(key); break;
    case NEAR: { N* r = t->Near(key); sim::NoPreempt np; if(m->empty()) { if(r) sim::fail("model", "%s: Near of an empty tree gave a node", name()); break; } if(!r) sim::fail("model", "%s: Near(%d) gave nothing", name(), key); int g; if constexpr(MAP) g = r->_key.first; else g = r->_key; auto u = m->lower_bound(key); bool ok = u != m->end() && u->first == g; if(!ok && u != m->end() && u->first == key) ok = false; else if(!ok && u != m->begin()) { --u; ok = u->first == g; } if(!ok) sim::fail("model", "%s: Near(%d) gave %d, which is not a neighbour", name(), key, g); break; }
    case CLEAR: t->Clear(); { sim::NoPreempt np; m->clear(); } sim::probe(9); all(); break;
    case MOVE: { Tr* n; if(id & 1) n = new Tr(std::move(*t)); else { n = fresh(pol); if(id & 2) { if constexpr(MAP) n->Insert(5, Obj(1)); else n->Insert(5); } *n = std::move(*t); } delete t; t = n; sim::probe(10); all(); break; }
    case REPL: { int to = (int)(id % KEYS); if(has(to) || !has(key) || key == to) break; t->ReplaceKey(key, to); { sim::NoPreempt np; (*m)[to] = (*m)[key]; m->erase(key); } sim::probe(13); find(key); find(to); break; }
    default: all(); } }
  void all() override {
    std::vector<std::pair<int, int64_t>> v; auto add = [&](auto& kd) { if constexpr(MAP) v.push_back({ kd.first, kd.second.get() }); else v.push_back({ kd, val(kd) }); }; t->Traverse(add); sim::NoPreempt np; if(v.size() > 20) sim::probe(16);
    if(v.size() > 1 && v[0].first > v[1].first) std::reverse(v.begin(), v.end());
    if(v.size() != m->size()) sim::fail("model", "%s: a traversal met %zu entries, %zu are in it", name(), v.size(), m->size()); size_t i = 0; for(auto& x : *m) { if(v[i].first != x.first || v[i].second != x.second) sim::fail("model", "%s: entry %zu of the traversal is key %d, expected %d", name(), i, v[i].first, x.first); ++i; }
    bool ok = true; height(t->GetRoot(), name(), ok); if(!ok) sim::fail("balance", "%s: the heights of two sibling subtrees differ by more than one", name()); }
};
// ---- red-black
struct TrbBox : Box {
  typedef TRB_Node<Obj> N; typedef PolymorphicAllocator<N, LocklessBlockPolicy> A; typedef TRBtree<Obj, CompObj, A> Tr; typedef LocklessBlockPolicy<N> P; Tr* t; P* pol; std::multimap<int, int64_t>* m;
  TrbBox(P* p) : pol(p) { t = new Tr(p); sim::NoPreempt np; m = new std::multimap<int, int64_t>; } ~TrbBox() { delete t; sim::NoPreempt np; delete m; } const char* name() override { return "red-black tree"; }
  static int64_t mk(int k, int64_t id) { return ((int64_t)k << 20) | (id & 0xfffff); }
  void find(int k) { N* r = t->Get(Obj(mk(k, 0))); sim::NoPreempt np; if((r != 0) != (m->count(k) != 0)) sim::fail("model", "red-black tree: key %d is %s", k, r ? "there although it should not be" : "missing"); if(r && (r->value.get() >> 20) != k) sim::fail("model", "red-black tree: Get(%d) gave another key", k); }
  void op(int k, int key, int64_t id) override {
    switch(k) {
    case INS: { Obj o(mk(key, id)); N* r = t->Insert(o); BAD(r && r->value.get() == o.get(), "red-black tree: Insert gave a node with another value"); sim::NoPreempt np; if(m->count(key)) sim::probe(12); m->insert({ key, mk(key, id) }); break; }
    case DEL: { N* n = t->Get(Obj(mk(key, 0))); if(id & 1) { if(n) { if((id & 2) && n->next && (n->next->value.get() >> 20) == key) n = n->next; } } int64_t v = n ? n->value.get() : -1; bool r = id & 1 ? t->Remove(n) : t->Remove(Obj(mk(key, 0))); BAD(r == (v >= 0), "red-black tree: Remove(%d) gave %d", key, (int)r); if(!r) sim::probe(11); else { sim::NoPreempt np; auto e = m->equal_range(key); for(auto i = e.first; i != e.second; ++i) if(i->second == v) { m->erase(i); break; } } if(!(id & 3)) all(); find(key); break; }
    case FIND: find(key); break;
    case NEAR: { bool before = id & 1; N* r = t->GetNear(Obj(mk(key, 0)), before); sim::NoPreempt np; if(m->empty()) { if(r) sim::fail("model", "red-black tree: GetNear of an empty tree gave a node"); break; } if(!r) sim::fail("model", "red-black tree: GetNear(%d) gave nothing", key); int g = (int)(r->value.get() >> 20), w; if(before) { auto u = m->upper_bound(key); w = u == m->begin() ? u->first : (--u)->first; } else { auto u = m->lower_bound(key); w = u == m->end() ? m->rbegin()->first : u->first; } if(g != w) sim::fail("model", "red-black tree: GetNear(%d, %s) gave %d instead of %d", key, before ? "before" : "after", g, w); break; }
    case CLEAR: t->Clear(); { sim::NoPreempt np; m->clear(); } sim::probe(9); all(); break;
    case MOVE: { Tr* n; if(id & 1) n = new Tr(std::move(*t)); else { n = new Tr(pol); if(id & 2) n->Insert(Obj(mk(5, 1))); *n = std::move(*t); } delete t; t = n; sim::probe(10); all(); break; }
    default: all(); } }
  void all() override {
    std::vector<int64_t> v, b; for(N* n = t->Front(); n; n = n->next) { v.push_back(n->value.get()); if(v.size() > 5000) sim::fail("model", "red-black tree: the list does not end"); } for(N* n = t->Back(); n; n = n->prev) { b.push_back(n->value.get()); if(b.size() > 5000) break; } int d = t->DEBUGVERIFY();
    sim::NoPreempt np; if(v.size() > 20) sim::probe(16); std::reverse(b.begin(), b.end()); if(v != b) sim::fail("model", "red-black tree: walking backwards does not give the reverse of walking forwards"); if(d < 0) sim::fail("balance", "red-black tree: the tree violates its invariants"); for(size_t i = 1; i < v.size(); ++i) if((v[i - 1] >> 20) > (v[i] >> 20)) sim::fail("model", "red-black tree: out of order"); std::vector<int64_t> w; for(auto& x : *m) w.push_back(x.second); std::sort(w.begin(), w.end()); std::sort(v.begin(), v.end()); if(v != w) sim::fail("model", "red-black tree: holds %zu entries that are not the %zu put in and not removed", v.size(), w.size()); }
};
// ---- AA
static std::vector<int64_t>* seen; static void see(Obj& x) { int64_t v = x.get(); sim::NoPreempt np; if(seen) seen->push_back(v); }
template<bool DEF> struct AaBoxT : Box {
  typedef AANODE<Obj> N; typedef PolymorphicAllocator<N, LocklessBlockPolicy> A; typedef std::conditional_t<DEF, AATree<Obj, CompObj>, AATree<Obj, CompObj, A>> Tr; static Tr* fresh(LocklessBlockPolicy<N>* p) { if constexpr(DEF) return new Tr(); else return new Tr(p); } typedef LocklessBlockPolicy<N> P; Tr* t; std::multimap<int, int64_t>* m;
  AaBoxT(P* p) { t = fresh(p); sim::NoPreempt np; m = new std::multimap<int, int64_t>; } ~AaBoxT() { delete t; sim::NoPreempt np; delete m; } const char* name() override { return "AA tree"; }
  static int64_t mk(int k, int64_t id) { return ((int64_t)k << 20) | (id & 0xfffff); }
  void find(int k) { N* r = t->Get(Obj(mk(k, 0))); sim::NoPreempt np; if((r != 0) != (m->count(k) != 0)) sim::fail("model", "AA tree: key %d is %s", k, r ? "there although it should not be" : "missing"); if(r && (r->data.get() >> 20) != k) sim::fail("model", "AA tree: Get gave another key"); }
  void op(int k, int key, int64_t id) override {
    switch(k) {
    case INS: t->Insert(Obj(mk(key, id))); { sim::NoPreempt np; if(m->count(key)) sim::probe(12); m->insert({ key, mk(key, id) }); } find(key); break;
    case DEL: { bool r = t->Remove(Obj(mk(key, 0))); { sim::NoPreempt np; if(r != (m->count(key) != 0)) sim::fail("model", "AA tree: Remove(%d) gave %d", key, (int)r); if(!r) { sim::probe(11); break; } } std::vector<int64_t> v; bool ok; values(v, ok); sim::NoPreempt np; auto e = m->equal_range(key); auto i = e.first; for(; i != e.second; ++i) if(std::find(v.begin(), v.end(), i->second) == v.end()) break; if(i == e.second) sim::fail("model", "AA tree: Remove(%d) removed nothing with this key", key); m->erase(i); break; }
    case CLEAR: t->Clear(); { sim::NoPreempt np; m->clear(); } sim::probe(9); all(); break;
    case FIND: case NEAR: find(key); break;
    case COPY: { std::vector<int64_t> v; bool ok; values(v, ok); std::vector<int64_t> w; { sim::NoPreempt np; if(seen) break; seen = &w; } t->template Traverse<&see>(); sim::NoPreempt np; seen = 0; if(v != w) sim::fail("model", "AA tree: Traverse met %zu of %zu items or in another order", w.size(), v.size()); break; }
    default: all(); } }
  static void walk(N* n, int lev, std::vector<int64_t>& v, bool& ok) { if(n->level == 0) return; if(n->level > lev) ok = false; walk(n->left, n->level - 1, v, ok); v.push_back(n->data.get()); if(v.size() > 5000) return; if(n->right->level == n->level && n->right->right->level == n->level) ok = false; walk(n->right, n->level, v, ok); }
  void values(std::vector<int64_t>& v, bool& ok) { ok = true; N* r = t->GetRoot(); BAD((r == 0) == t->IsEmpty(), "AA tree: GetRoot and IsEmpty disagree"); if(r) walk(r, r->level, v, ok); }
  void all() override { std::vector<int64_t> v, w; bool ok; values(v, ok); sim::NoPreempt np; if(v.size() > 20) sim::probe(16); for(size_t i = 1; i < v.size(); ++i) if((v[i - 1] >> 20) > (v[i] >> 20)) sim::fail("model", "AA tree: out of order"); for(auto& x : *m) w.push_back(x.second); std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end()); if(v != w) sim::fail("model", "AA tree: a walk in order gives %zu entries that are not the %zu put in and not removed", v.size(), w.size()); if(!ok) sim::fail("balance", "AA tree: the levels violate its invariants"); }
}; typedef AaBoxT<false> AaBox;
// ---- lists
template<bool LAST, bool SIZE> struct ListBox : Box {
  typedef LLNode<int64_t> N; typedef PolymorphicAllocator<N, LocklessBlockPolicy> A; typedef LinkedList<int64_t, A, LAST, SIZE> L; typedef LocklessBlockPolicy<N> P; L* t; P* pol; std::vector<int64_t>* m;
  ListBox(P* p) : pol(p) { t = new L(p); sim::NoPreempt np; m = new std::vector<int64_t>; } ~ListBox() { delete t; sim::NoPreempt np; delete m; } const char* name() override { return "list"; }
  N* at(size_t i) { N* n = t->Front(); while(i-- && n) n = n->next; return n; }
  void op(int k, int key, int64_t id) override { size_t n; { sim::NoPreempt np; n = m->size(); }
    switch(k) {
    case INS: if(id % 3 == 0) { N* r = t->Add(id); BAD(r && r->item == id, "list: Add gave a node with another item"); sim::NoPreempt np; if(LAST) m->push_back(id); else m->insert(m->begin(), id); } else if(id % 3 == 1) { t->Insert(id); sim::NoPreempt np; m->insert(m->begin(), id); } else { size_t i = n ? (size_t)key % (n + 1) : 0; if(i == n) { t->Insert(id, (N*)0); sim::NoPreempt np; if(LAST) m->push_back(id); else m->insert(m->begin(), id); } else { t->Insert(id, at(i)); sim::NoPreempt np; m->insert(m->begin() + i, id); } } if(!(id & 7)) all(); break;
    case DEL: if(n) { size_t i = (size_t)key % n; N* x = at(i); int64_t want; { sim::NoPreempt np; want = (*m)[i]; } BAD(x && x->item == want, "list: entry %zu is wrong", i); if(id % 3 == 0) t->Remove(x); else { bool back = id % 3 == 1; N* e = back ? x->prev : x->next; N* r = t->Remove(x, back); BAD(r == e, "list: Remove gave the wrong neighbour"); } sim::NoPreempt np; m->erase(m->begin() + i); } break;
    case FIND: { if(!n) break; int64_t x = id; if(id & 1) { sim::NoPreempt np; x = (*m)[(size_t)key % n]; } N* r; if constexpr(LAST) r = t->Item(x, 0, false); else r = t->Item(x); bool has; { sim::NoPreempt np; has = std::find(m->begin(), m->end(), x) != m->end(); } BAD((r != 0) == has && (!r || r->item == x), "list: an item is %s", r ? "found wrongly" : "missing"); break; }
    case CLEAR: t->Clear(); { sim::NoPreempt np; m->clear(); } sim::probe(9); all(); break;
    default: all(); } }
  void all() override { std::vector<int64_t> v, b; N* last = 0; for(N* n = t->Front(); n; n = n->next) { BAD(n->prev == last, "list: a backward link is wrong"); last = n; v.push_back(n->item); if(v.size() > 5000) sim::fail("model", "list: does not end"); } if constexpr(LAST) BAD(t->Back() == last, "list: Back is not the last node"); if constexpr(SIZE) BAD(t->Length() == v.size(), "list: Length gives %zu of %zu", t->Length(), v.size()); size_t c = 0; for(auto& x : *t) { BAD(x == v[c], "list: an iterator gives the wrong item"); ++c; } BAD(c == v.size(), "list: the iterator ends early"); sim::NoPreempt np; if(v != *m) sim::fail("model", "list: holds %zu entries that are not the %zu put in and not removed, in order", v.size(), m->size()); }
};
// ---- hash
template<class K> static K mkkey(int k); template<> int mkkey<int>(int k) { return k * 37; } template<> Str mkkey<Str>(int k) { char b[64]; snprintf(b, 64, k % 3 ? "key%d" : "a key that does not fit into the string object itself %d", k); return Str(b); }
struct CI : Str { CI() {} CI(const char* x) : Str(x) {} CI(const CI& o) : Str(o) {} CI(CI&& o) : Str(std::move(o)) {} CI& operator=(const CI& o) { Str::operator=(o); return *this; } CI& operator=(CI&& o) { Str::operator=(std::move(o)); return *this; } bool operator==(const CI& o) const { return !strcasecmp(c_str(), o.c_str()); } };
template<> CI mkkey<CI>(int k) { Str x = mkkey<Str>(k); char b[80]; snprintf(b, 80, "%s", x.c_str()); static unsigned z; sim::NoPreempt np; unsigned n = (unsigned)nid * 2654435761u + k * 77 + (z = 0); for(char* c = b; *c; ++c) { n = n * 1103515245 + 12345; if((n >> 16) & 1) *c = (char)toupper(*c); } return CI(b); }
typedef std::pair<int, int> PK; template<> PK mkkey<PK>(int k) { return PK(k % 5, k * 37); } template<> int64_t mkkey<int64_t>(int k) { return ((int64_t)(k % 7) << 33) | k; }
template<class K, class D, class A, ARRAY_TYPE AT> struct HashBox : Box {
  static constexpr bool NOCASE = std::is_same<K, CI>::value; typedef Hash<K, D, AT, &KH_AUTO_HASH<K, NOCASE>, &KH_AUTO_EQUAL<K, NOCASE>, A> H; H* t; std::map<int, int64_t>* m; typedef typename A::policy_type P; P* pol; const char* nm;
  H* make() { if constexpr(std::is_void<P>::value) return new H(); else return new H(0, pol); }
  HashBox(P* p, const char* n) : pol(p), nm(n) { t = make(); sim::NoPreempt np; m = new std::map<int, int64_t>; } ~HashBox() { delete t; sim::NoPreempt np; delete m; } const char* name() override { return nm; }
  static int64_t g(const Obj& o) { return o.get(); } static int64_t g(int64_t o) { return o; }
  int64_t val(int k) { sim::NoPreempt np; auto i = m->find(k); return i == m->end() ? -9 : i->second; }
  void find(int k) { K key = mkkey<K>(k); auto i = t->Iterator(key); bool e = t->ExistsIter(i); int64_t w = val(k); BAD(e == (w != -9) && t->Exists(key) == e && (*t)(key) == e, "%s: key %d is %s", nm, k, e ? "there although it should not be" : "missing"); if(e) { BAD(t->GetKey(i) == key, "%s: the key of an entry changed", nm); BAD(g(t->Value(i)) == w, "%s: the value of key %d changed", nm, k); D x = D(); BAD((*t)(key, x) && g(x) == w, "%s: the value of key %d is handed out wrongly", nm, k); } else { D x = D(); BAD(!(*t)(key, x) && !t->PointerValue(i), "%s: a missing key %d has a value", nm, k); } }
  void op(int k, int key, int64_t id) override { K kk = mkkey<K>(key);
    switch(k) {
    case INS: { auto cap = t->Capacity(); auto i = id & 1 ? t->Insert(kk, D(id)) : [&]() { D d(id); K k2(kk); return id & 2 ? t->Insert(std::move(k2), (const D&)d) : t->Insert(kk, (const D&)d); }(); if(cap && t->Capacity() != cap) sim::probe(14); BAD(t->ExistsIter(i) && g(t->Value(i)) == id, "%s: Insert gave an iterator to something else", nm); sim::NoPreempt np; if(m->count(key)) sim::probe(12); (*m)[key] = id; break; }
    case DEL: { bool r = id & 1 ? t->Remove(kk) : t->RemoveIter(t->Iterator(kk)); BAD(r == (val(key) != -9), "%s: Remove(%d) gave %d", nm, key, (int)r); if(!r) sim::probe(11); { sim::NoPreempt np; m->erase(key); } find(key); break; }
    case FIND: find(key); break;
    case NEAR: { bool r = t->Set(kk, D(id)); BAD(r == (val(key) != -9), "%s: Set(%d) gave %d", nm, key, (int)r); if(r) { sim::NoPreempt np; (*m)[key] = id; } find(key); break; }
    case CLEAR: t->Clear(); { sim::NoPreempt np; m->clear(); } sim::probe(9); all(); break;
    case MOVE: { H* n; if(id & 1) n = new H(std::move(*t)); else { n = make(); if(id & 2) n->Insert(mkkey<K>(5), D(1)); *n = std::move(*t); } delete t; t = n; sim::probe(10); all(); break; }
    case COPY: { H* n; if(id & 1) n = new H((const H&)*t); else { n = make(); if(id & 2) for(int i = 0; i < 40; ++i) n->Insert(mkkey<K>(i), D(i)); *n = (const H&)*t; *n = (const H&)*n; } all(); H* o = t; t = n; all(); if(id & 4) { t = o; o = n; } delete o; sim::probe(15); all(); break; }
    case REPL: t->SetCapacity((khint_t)(id % 100)); all(); break;
    default: all(); } }
  void all() override { std::map<int64_t, int> dummy2; size_t c = 0; for(auto kv : *t) { (void)kv; if(++c > 5000) break; } size_t n; { sim::NoPreempt np; n = m->size(); } BAD(c == n && (size_t)t->Length() == n, "%s: an iteration meets %zu entries, Length says %zu, %zu are in it", nm, c, (size_t)t->Length(), n); for(int k = 0; k < KEYS; ++k) find(k); }
};
template<class K, class A> struct SetBox : Box { typedef Hash<K, void, ARRAY_SAFE, &KH_AUTO_HASH<K, false>, &KH_AUTO_EQUAL<K, false>, A> H; H* t; typename A::policy_type* pol; std::set<int>* m; H* make() { return new H(0, pol); } SetBox(typename A::policy_type* p) : pol(p) { t = make(); sim::NoPreempt np; m = new std::set<int>; } ~SetBox() { delete t; sim::NoPreempt np; delete m; } const char* name() override { return "hash set"; }
  bool has(int k) { sim::NoPreempt np; return m->count(k) != 0; } void find(int k) { K key = mkkey<K>(k); BAD(t->Exists(key) == has(k) && (*t)(key) == has(k) && t->ExistsIter(t->Iterator(key)) == has(k), "hash set: key %d is %s", k, has(k) ? "missing" : "there although it should not be"); }
  void op(int k, int key, int64_t id) override { K kk = mkkey<K>(key);
    switch(k) {
    case INS: { auto i = id & 1 ? t->Insert(kk) : t->Insert(mkkey<K>(key)); BAD(t->ExistsIter(i) && t->GetKey(i) == kk, "hash set: Insert gave an iterator to another key"); sim::NoPreempt np; m->insert(key); break; }
    case DEL: { bool r = t->Remove(kk); BAD(r == has(key), "hash set: Remove(%d) gave %d", key, (int)r); { sim::NoPreempt np; m->erase(key); } find(key); break; }
    case FIND: case NEAR: find(key); break;
    case CLEAR: t->Clear(); { sim::NoPreempt np; m->clear(); } sim::probe(9); all(); break;
    case MOVE: { H* n; if(id & 1) n = new H(std::move(*t)); else { n = make(); if(id & 2) n->Insert(mkkey<K>(5)); *n = std::move(*t); } delete t; t = n; sim::probe(10); all(); break; }
    case COPY: { H* n; if(id & 1) n = new H((const H&)*t); else { n = make(); if(id & 2) for(int i = 0; i < 40; ++i) n->Insert(mkkey<K>(i)); *n = (const H&)*t; } H* o = t; t = n; all(); if(id & 4) { t = o; o = n; } delete o; all(); break; }
    case REPL: t->SetCapacity((khint_t)(id % 100)); all(); break;
    default: all(); } }
  void all() override { size_t c = 0, n; for(auto i : *t) { (void)i; if(++c > 5000) break; } { sim::NoPreempt np; n = m->size(); } BAD(c == n && (size_t)t->Length() == n, "hash set: an iteration meets %zu keys, Length says %zu, %zu are in it", c, (size_t)t->Length(), n); for(int k = 0; k < KEYS; ++k) find(k); }
};
// ---- intrusive lists: the nodes belong to the user, root and last to the list
struct INode : LLBase<INode> { int64_t v; LLBase<INode> alt; }; static LLBase<INode>& ialt(INode* n) { return n->alt; }
struct IntrBox : Box { INode* root = 0; INode* last = 0; INode* aroot = 0; std::vector<INode*>* m; std::vector<INode*>* am; IntrBox() { sim::NoPreempt np; m = new std::vector<INode*>; am = new std::vector<INode*>; } ~IntrBox() { sim::NoPreempt np; for(auto* n : *m) delete n; delete m; delete am; } const char* name() override { return "intrusive list"; }
  void op(int k, int key, int64_t id) override { size_t n = m->size();
    switch(k) {
    case INS: { INode* x; { sim::NoPreempt np; x = new INode; memset((void*)x, 0x77, sizeof(INode)); x->v = id; } AltLLAdd<INode, ialt>(x, aroot); { sim::NoPreempt np; am->insert(am->begin(), x); } size_t at = n ? (size_t)key % n : 0; INode* t; { sim::NoPreempt np; t = n ? (*m)[at] : 0; }
      switch(n ? id % 6 : id % 2) { case 0: LLAdd<INode>(x, root, last); at = 0; break; case 1: LLAddAfter<INode>(x, root, last); at = n; break; case 2: LLInsert<INode>(x, t, root); break; case 3: LLInsertAfter<INode>(x, t, last); ++at; break; case 4: if(t != root) LLInsert<INode>(x, t); else LLAdd<INode>(x, root, last); break; default: if(t != last) { LLInsertAfter<INode>(x, t); ++at; } else { last = LLAddAfter<INode>(x, last); at = n; } }
      { sim::NoPreempt np; m->insert(m->begin() + at, x); } all(); break; }
    case DEL: if(n) { size_t at = (size_t)key % n; INode* x; { sim::NoPreempt np; x = (*m)[at]; } if((id & 1) && x != root && x != last) LLRemove<INode>(x); else if((id & 2) && x != last) LLRemove<INode>(x, root); else LLRemove<INode>(x, root, last); AltLLRemove<INode, ialt>(x, aroot); { sim::NoPreempt np; m->erase(m->begin() + at); am->erase(std::find(am->begin(), am->end(), x)); delete x; } all(); } break;
    default: all(); } }
  void all() override { std::vector<INode*> v, b, a; for(INode* n = root; n && v.size() < 5000; n = n->next) v.push_back(n); for(INode* n = last; n && b.size() < 5000; n = n->prev) b.push_back(n); for(INode* n = aroot; n && a.size() < 5000; n = n->alt.next) { BAD(n->alt.prev == (a.empty() ? 0 : a.back()), "intrusive list: a backward link of the second list is wrong"); a.push_back(n); } sim::NoPreempt np; std::reverse(b.begin(), b.end()); if(v != *m) sim::fail("model", "intrusive list: walking forwards meets %zu nodes that are not the %zu linked, in order", v.size(), m->size()); if(b != *m) sim::fail("model", "intrusive list: walking backwards meets %zu nodes that are not the %zu linked, in order", b.size(), m->size()); if(a != *am) sim::fail("model", "intrusive list: the second list meets %zu nodes that are not the %zu linked", a.size(), am->size()); }
};
// ---- rectangles
struct Item { LLBase<Item> l; KDNode<Item>* node; float r[4]; int key; bool met; };
static const float* irect(Item* i) { return i->r; } static LLBase<Item>& ilist(Item* i) { return i->l; } static KDNode<Item>*& inode(Item* i) { return i->node; }
template<bool DEF> struct KdBoxT : Box {
  typedef KDNode<Item> N; typedef PolymorphicAllocator<N, LocklessBlockPolicy> A; typedef std::conditional_t<DEF, KDTree<Item, irect, ilist, inode>, KDTree<Item, irect, ilist, inode, A>> Tr; static Tr* fresh(LocklessBlockPolicy<N>* p) { if constexpr(DEF) return new Tr(20); else return new Tr(20, p); } typedef LocklessBlockPolicy<N> P; Tr* t; P* pol; std::vector<Item*>* m; unsigned alt = 0;
  KdBoxT(P* p) : pol(p) { t = fresh(p); sim::NoPreempt np; m = new std::vector<Item*>; } ~KdBoxT() { delete t; sim::NoPreempt np; for(auto* i : *m) delete i; delete m; } const char* name() override { return "KD tree"; }
  static void meet(Item* i) { if(i->met) sim::fail("model", "KD tree: an item was met twice"); i->met = true; }
  void query(float a, float b, float c, float d) { float q[4] = { a, b, c, d }; { sim::NoPreempt np; for(auto* i : *m) i->met = false; } size_t n = 0; auto f = [&](Item* i) { if(i->met) sim::fail("model", "KD tree: an item was met twice"); i->met = true; ++n; }; if((++alt) & 1) t->TraverseAction(q, f); else t->template Traverse<&KdBoxT::meet>(q); sim::NoPreempt np; for(auto* i : *m) { bool in = i->r[0] <= c && i->r[1] <= d && i->r[2] >= a && i->r[3] >= b; if(in != i->met) sim::fail("model", "KD tree: an item at (%g %g %g %g) was %s by a query for (%g %g %g %g)", i->r[0], i->r[1], i->r[2], i->r[3], in ? "missed" : "met", a, b, c, d); } sim::probe(18); }
  void op(int k, int key, int64_t id) override { sim::Rng r((uint64_t)id * 977 + key); float x = (float)r.range(-20, 20), y = (float)r.range(-20, 20), w = (float)r.range(0, r.chance(1, 4) ? 20 : 3), h = (float)r.range(0, 3); size_t n; { sim::NoPreempt np; n = m->size(); }
    switch(k) {
    case INS: { Item* i; { sim::NoPreempt np; i = new Item(); i->r[0] = x; i->r[1] = y; i->r[2] = x + w; i->r[3] = y + h; i->key = key; m->push_back(i); } t->Insert(i); break; }
    case DEL: if(n) { Item* i; { sim::NoPreempt np; size_t at = (size_t)key % n; i = (*m)[at]; m->erase(m->begin() + at); } t->Remove(i); sim::NoPreempt np; delete i; } break;
    case FIND: case NEAR: query(x - 3, y - 3, x + w, y + h); break;
    case CLEAR: t->Clear(); { sim::NoPreempt np; for(auto* i : *m) delete i; m->clear(); } sim::probe(9); break;
    case MOVE: { Tr* o; if(id & 1) o = new Tr(std::move(*t)); else { o = fresh(pol); *o = std::move(*t); } delete t; t = o; sim::probe(10); all(); break; }
    case REPL: if(id & 1) { t->Clear(); for(auto* i : *m) t->InsertRoot(i); t->Solve(); } else if(t->GetRoot() && n) t->Rebalance(t->GetRoot()); all(); break;
    case COPY: { Item* i; { sim::NoPreempt np; if(!n) break; i = (*m)[(size_t)key % n]; } t->Remove(i); i->r[0] = x; i->r[1] = y; i->r[2] = x + w; i->r[3] = y + h; t->Insert(i); break; }
    default: all(); } }
  void all() override { query(-1000, -1000, 1000, 1000); query(-5, -5, 5, 5); }
}; typedef KdBoxT<false> KdBox;
typedef PolymorphicAllocator<char, CachePolicy> CA;
static AvlBox<Obj>::P* pa; static AvlBox<void>::P* ps; static TrbBox::P* pt; static AaBox::P* paa; static ListBox<true, true>::P* pl; static CachePolicy<char>* pc; static KdBox::P* pk;
static bool dflt; static Box* make(int k) { if(dflt) { sim::probe(25); switch(k) { case 0: return new AvlBox<Obj, true>(0); case 1: return new AvlBox<void, true>(0); case 3: return new AaBoxT<true>(0); case 9: return new KdBoxT<true>(0); default: break; } } switch(k) { case 0: sim::probe(0); return new AvlBox<Obj>(pa); case 1: sim::probe(1); return new AvlBox<void>(ps); case 2: sim::probe(2); return new TrbBox(pt); case 3: sim::probe(3); return new AaBox(paa); case 4: sim::probe(4); return new ListBox<true, true>(pl); case 5: sim::probe(5); return new ListBox<false, false>(pl); case 6: sim::probe(6); return new HashBox<int, Obj, CA, ARRAY_SAFE>(pc, "hash over the shared cache"); case 9: sim::probe(19); return new KdBox(pk); case 10: sim::probe(20); return new HashBox<CI, Obj, CA, ARRAY_SAFE>(pc, "hash ignoring case"); case 11: sim::probe(21); return new HashBox<PK, Obj, CA, ARRAY_SAFE>(pc, "hash of pairs"); case 12: sim::probe(22); return new SetBox<Str, CA>(pc); case 13: sim::probe(23); return new IntrBox(); case 14: sim::probe(24); return new HashBox<int64_t, int64_t, CA, ARRAY_SIMPLE>(pc, "hash of wide numbers"); case 7: sim::probe(7); return new HashBox<int, int64_t, StandardAllocator<char>, ARRAY_SIMPLE>(0, "hash"); default: sim::probe(17); return new HashBox<Str, Obj, CA, ARRAY_SAFE>(pc, "hash of strings"); } }
static Box* own[8]; static Box* shelf; static const sim::Plan* plan;
static void step(int a, const sim::Op& op) {
  int64_t id; { sim::NoPreempt np; id = ++nid * 8 + (int64_t)(op.b & 7); } // the low bits choose a variant
  if(op.kind == SWAP) { Box* b; { sim::NoPreempt np; b = shelf; shelf = own[a]; own[a] = b; } sim::probe(8); own[a]->all(); return; }
  sim::seq(); own[a]->op(op.kind, (int)op.a, id);
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  int th = (int)r.range(1, 4); p.p[0] = th; bool same = r.chance(1, 2); int k0 = (int)r.below(15); int64_t kinds = 0; for(int i = 0; i <= th; ++i) kinds = kinds * 16 + (same ? k0 : (int)r.below(15)); p.p[1] = kinds; p.p[2] = r.range(1, 6); p.p[3] = r.chance(1, 6); if(p.p[3] && r.chance(1, 2)) { static const int ks[] = { 0, 1, 3, 9 }; int q = ks[r.below(4)]; p.p[1] = 0; for(int i = 0; i <= th; ++i) p.p[1] = p.p[1] * 16 + q; }
  int keys = (int)r.range(3, KEYS), per = (int)r.range(5, r.chance(1, 4) ? 120 : 40); bool grow = r.chance(1, 2); if(r.chance(1, 60)) { keys = (int)r.range(100, 400); per = (int)r.range(200, 400); grow = true; if(th > 2) th = 2; p.p[0] = th; }
  for(int t = 0; t < th; ++t) for(int i = 0; i < per; ++i) { int k = pickw(r, { grow ? 10 : 6, 6, 2, 2, 1, r.chance(1, 6) ? 1 : 0, 1, 1, th > 1 ? 1 : 0, 1 }); p.add(t, k, r.below(keys), r.below(8)); }
}
void harness_execute(const sim::Plan& p) {
  sim::set_limits(6000000, 12000000); plan = &p; live = total = 0; nid = 0; size_t init = (size_t)p.p[2]; dflt = p.p[3] != 0; LeakCheck lk;
  pa = new AvlBox<Obj>::P(init); ps = new AvlBox<void>::P(init); pt = new TrbBox::P(init); paa = new AaBox::P(init); pl = new ListBox<true, true>::P(init); pc = new CachePolicy<char>(8192, 64 * init, 16);
  pk = new KdBox::P(init); int th = (int)p.p[0]; int64_t k = p.p[1]; for(int i = 0; i <= th; ++i) { Box* b = make((int)(k % 16)); if(i < th) own[i] = b; else shelf = b; k /= 16; }
  run_actors(p, th, step);
  for(int i = 0; i < th; ++i) { own[i]->all(); delete own[i]; } shelf->all(); delete shelf; own[0] = shelf = 0;
  delete pa; delete ps; delete pt; delete paa; delete pl; delete pc; delete pk;
  if(!dflt) lk.check("the containers and their allocators"); SIM_CHECK(live == 0, "object", "%d objects put into the containers were not destroyed with them", live);
}
