// C32: graphs, disjoint sets and tries of several threads that share allocators are exactly what was built, and searches on them give what the definition says.
#include "common.h"
#include "bss-util/bss_util.h"
#include "bss-util/BlockAllocMT.h"
#include "bss-util/CacheAlloc.h"
#include "bss-util/Graph.h"
#include "bss-util/DisjointSet.h"
#include "bss-util/Trie.h"
using namespace hx; using namespace bss;
extern "C" {
  const char* const harness_probes[] = { "graph", "graph_default_allocator", "disjoint_set", "disjoint_set_shared", "trie", "handed_to_another_thread", "node_removed", "self_loop", "parallel_edge", "breadth_first", "breadth_first_stopped", "diamond", "matrix_written", "matrix_read", "matrix_after_removal", "graph_moved", "united", "united_with_itself", "not_a_set_name", "sets_added", "spanning_tree", "spanning_forest", "trie_prefix_missing", "trie_high_bytes", "trie_ignoring_case", "trie_empty_word", "trie_large_for_its_index", "sets_copied", "max_flow", "max_flow_after_removal", "flow_pushed_back", "circulation", 0 };
  const char* const harness_real = "Graph, BreadthFirstGraph, MaxFlow_PushRelabel, Circulation_MaxFlow, LowerBound_Circulation, LinkedArray, DisjointSet, Trie, BinaryHeap::HeapSort, Array, PolymorphicAllocator, LocklessBlockPolicy, CachePolicy";
  const char* const harness_stub = "thread scheduler, malloc/free";
}
struct Box { virtual ~Box() {} virtual void step(const sim::Op& o) = 0; virtual void all() = 0; };
// ---- graphs
typedef Edge<int64_t, uint16_t> GE; static long held; // blocks taken from the shared allocator and not given back
template<class T> struct CntPolicy : LocklessBlockPolicy<T> { T* allocate(size_t n, T* p = 0, size_t old = 0) { T* r = LocklessBlockPolicy<T>::allocate(n, p, old); sim::NoPreempt np; ++held; return r; } void deallocate(T* p, size_t n = 0) { { sim::NoPreempt np; --held; } LocklessBlockPolicy<T>::deallocate(p, n); } };
template<class T> using LB = PolymorphicAllocator<T, CntPolicy>;
typedef Graph<int64_t, int64_t, uint16_t, LB<GE>> GS; typedef Graph<int64_t, int64_t> GD; static CntPolicy<GE> *pol, *pol2;
static std::vector<uint16_t>* seen[64]; static size_t stopat[64]; static bool visit(uint16_t n) { sim::NoPreempt np; auto v = seen[sim::self()]; v->push_back(n); return v->size() == stopat[sim::self()]; }
static bool isedge(const int64_t* e) { return *e != 0; }
// A flow through a random network against Ford-Fulkerson, and a circulation with lower bounds that is known to exist
struct FE { uint16_t a, b; int cap, low, f; void* p; };
typedef bss::internal::__edge_MaxFlow<void> ME1; typedef bss::internal::__edge_MaxFlow<bss::internal::__edge_LowerBound<void>> ME2; typedef bss::internal::__vertex_Demand<void> VD;
template<class FG> static void flow(uint64_t seed) { typedef ME1 ME; FG g; std::vector<FE> es; std::vector<uint16_t> id; std::set<uint16_t> rem; sim::Rng r(seed); size_t n = 2 + r.below(7), m = r.below(n * 3 + 1), extra = r.chance(1, 2) ? r.below(4) : 0;
  for(size_t i = 0; i < n + extra; ++i) { uint16_t x = g.AddNode(); sim::NoPreempt np; id.push_back(x); }
  for(size_t i = 0; i < m; ++i) { ME e = { 0 }; uint16_t a = id[r.below(id.size())], b = id[r.below(id.size())]; e.capacity = (int)r.below(10); void* p = g.AddEdge(a, b, &e); sim::NoPreempt np; es.push_back(FE{ a, b, e.capacity, 0, 0, p }); }
  for(size_t i = 0; i < extra; ++i) { uint16_t x; { sim::NoPreempt np; size_t k = r.below(id.size()); x = id[k]; id.erase(id.begin() + k); for(size_t j = 0; j < es.size();) if(es[j].a == x || es[j].b == x) es.erase(es.begin() + j); else ++j; sim::probe(29); } g.RemoveNode(x); }
  uint16_t s = id[r.below(n)], t = s; while(t == s) t = id[r.below(n)];
  MaxFlow_PushRelabel(g, s, t); sim::probe(28); sim::NoPreempt np; size_t N = n + extra; std::vector<std::vector<int>> R(N, std::vector<int>(N, 0)); for(auto& e : es) R[e.a][e.b] += e.cap; int want = 0; auto C = R;
  for(;;) { std::vector<int> par(N, -1); par[s] = s; std::vector<int> q{ s }; for(size_t i = 0; i < q.size(); ++i) for(size_t y = 0; y < N; ++y) if(par[y] < 0 && R[q[i]][y] > 0) { par[y] = q[i]; q.push_back((int)y); } if(par[t] < 0) break; int f = 1 << 30; for(int y = t; y != s; y = par[y]) f = std::min(f, R[par[y]][y]); for(int y = t; y != s; y = par[y]) { R[par[y]][y] -= f; R[y][par[y]] += f; } want += f; } int out = 0; for(size_t y = 0; y < N; ++y) if(y != s) out += C[s][y]; if(out > want) sim::probe(30);
  std::map<int, int> ex; for(auto& e : es) { auto p = (typename FG::EDGE_*)e.p; SIM_CHECK(p->data.capacity == e.cap && p->data.flow >= 0 && p->data.flow <= e.cap, "flow", "an edge of capacity %d has flow %d of %d", e.cap, p->data.flow, p->data.capacity); ex[e.a] -= p->data.flow; ex[e.b] += p->data.flow; }
  for(auto& x : ex) if(x.first != s && x.first != t) SIM_CHECK(!x.second, "flow", "node %d keeps %d of the flow", x.first, x.second); SIM_CHECK(ex[t] == want && ex[s] == -want, "flow", "the maximum flow is %d, %d goes out and %d comes in", want, -ex[s], ex[t]); }
template<class FG> static void circulation(uint64_t seed) { typedef ME2 ME; FG g; std::vector<FE> es; std::vector<int> d; sim::Rng r(seed); size_t n = 1 + r.below(7), m = r.below(n * 3 + 1);
  { sim::NoPreempt np; d.assign(n, 0); for(size_t i = 0; i < m; ++i) { FE e{ (uint16_t)r.below(n), (uint16_t)r.below(n), 0, 0, 0, 0 }; e.low = r.chance(1, 2) ? 0 : (int)r.below(4); e.f = e.low + (int)r.below(5); e.cap = e.f + (int)r.below(4); d[e.a] -= e.f; d[e.b] += e.f; es.push_back(e); } }
  for(size_t i = 0; i < n; ++i) { VD v = { d[i] }; SIM_CHECK(g.AddNode(&v) == i, "model", "a node got another place"); } for(auto& e : es) { ME x = { 0 }; x.capacity = e.cap; x.d.data.lowerbound = e.low; e.p = g.AddEdge(e.a, e.b, &x); }
  LowerBound_Circulation(g); uint16_t s, t; int tot = Circulation_MaxFlow(g, s, t); SIM_CHECK(tot == 0, "flow", "a circulation that exists has %d of demand left", tot); MaxFlow_PushRelabel(g, s, t); sim::NoPreempt np; sim::probe(31); std::vector<int> got(n, 0); for(auto& e : es) { int f = ((typename FG::EDGE_*)e.p)->data.flow + e.low; SIM_CHECK(f >= e.low && f <= e.cap, "flow", "an edge between %d and %d has %d", e.low, e.cap, f); got[e.a] -= f; got[e.b] += f; } for(size_t i = 0; i < n; ++i) SIM_CHECK(got[i] == d[i], "flow", "a node that demands %d gets %d in a circulation that exists", d[i], got[i]); }
template<class G, bool D> struct GBox : Box { G* g; static G* mkg(bool other = false) { if constexpr(D) return new G(); else return new G(other ? pol2 : pol); } struct E { int64_t v; uint16_t from, to; typename G::EDGE_* p; }; std::map<uint16_t, int64_t> n; std::vector<E> e; bool removed = false;
  GBox() { g = mkg(); } ~GBox() { delete g; }
  uint16_t pick(int64_t k) { auto it = n.begin(); std::advance(it, (size_t)k % n.size()); return it->first; }
  void all() { sim::NoPreempt np; SIM_CHECK(g->NumNodes() == n.size() && g->NumEdges() == e.size(), "model", "a graph of %zu nodes and %zu edges says it has %d and %d", n.size(), e.size(), (int)g->NumNodes(), (int)g->NumEdges()); size_t c = 0; const G& cg = *g;
    for(uint16_t i = g->Front(); i != (uint16_t)-1; g->GetNodes().Next(i)) { if(++c > n.size() || !n.count(i)) sim::fail("model", "a graph lists node %d, which it does not have", (int)i); SIM_CHECK((*g)[i].data == n[i] && cg[i].data == n[i], "model", "node %d holds %lld instead of %lld", (int)i, (long long)(*g)[i].data, (long long)n[i]);
      std::set<typename G::EDGE_*> to, from; for(auto x = (*g)[i].to; x; x = x->next) if(!to.insert(x).second || to.size() > e.size()) sim::fail("model", "the edges of a node go in a circle"); for(auto x = (*g)[i].from; x; x = x->alt.next) if(!from.insert(x).second || from.size() > e.size()) sim::fail("model", "the edges to a node go in a circle");
      for(auto& x : e) { if(x.from == i && !to.erase(x.p)) sim::fail("model", "edge %d to %d is missing at its start", (int)x.from, (int)x.to); if(x.to == i && !from.erase(x.p)) sim::fail("model", "edge %d to %d is missing at its end", (int)x.from, (int)x.to); SIM_CHECK(x.p->from == x.from && x.p->to == x.to && x.p->data == x.v, "model", "edge %d to %d with %lld became %d to %d with %lld", (int)x.from, (int)x.to, (long long)x.v, (int)x.p->from, (int)x.p->to, (long long)x.p->data); }
      SIM_CHECK(to.empty() && from.empty(), "model", "a node has edges it was not given"); } SIM_CHECK(c == n.size(), "model", "a graph lists %zu of its %zu nodes", c, n.size()); }
  std::vector<int> levels(uint16_t r, std::map<uint16_t, int>& lv) { std::vector<uint16_t> q{ r }; lv[r] = 0; for(size_t i = 0; i < q.size(); ++i) for(auto& x : e) if(x.from == q[i] && !lv.count(x.to)) { lv[x.to] = lv[q[i]] + 1; q.push_back(x.to); } return {}; }
  void step(const sim::Op& o) { sim::probe(D ? 1 : 0);
    switch(o.d % 13) { case 0: case 1: { int64_t v = (int64_t)(o.a % 10007); uint16_t i = o.a & 1 ? g->AddNode(&v) : g->AddNode(); sim::NoPreempt np; if(n.size() > 40) sim::harness_error("too many nodes"); SIM_CHECK(!n.count(i), "model", "a node got the place of another one"); n[i] = o.a & 1 ? v : 0; break; }
    case 2: case 3: case 4: case 5: case 6: { if(n.empty() || e.size() > 120) break; int64_t v = 1 + (int64_t)(o.a % 1009); uint16_t f, t; { sim::NoPreempt np; f = pick(o.b); t = pick(o.c); } auto p = g->AddEdge(f, t, &v); sim::NoPreempt np; if(f == t) sim::probe(7); for(auto& x : e) if(x.from == f && x.to == t) { sim::probe(8); break; } e.push_back(E{ v, f, t, p }); break; }
    case 7: { if(e.empty()) break; size_t k = (size_t)o.a % e.size(); g->RemoveEdge(e[k].p); sim::NoPreempt np; e.erase(e.begin() + k); break; }
    case 8: { if(n.empty() || !(o.a & 1)) break; uint16_t i; { sim::NoPreempt np; i = pick(o.b); } g->RemoveNode(i); sim::NoPreempt np; n.erase(i); removed = true; sim::probe(6); for(size_t k = 0; k < e.size();) if(e[k].from == i || e[k].to == i) e.erase(e.begin() + k); else ++k; break; }
    case 9: { if(n.empty()) break; uint16_t r; std::map<uint16_t, int> lv; std::vector<uint16_t> got; int t = sim::self(); { sim::NoPreempt np; r = pick(o.b); levels(r, lv); seen[t] = &got; stopat[t] = o.a & 1 ? 0 : 1 + (size_t)(o.a / 2 % lv.size()); for(auto& x : e) for(auto& y : e) if(&x != &y && x.to == y.to && x.from != y.from && lv.count(x.from) && lv.count(y.from)) { sim::probe(11); goto k; } k:; }
      if(o.c & 1) BreadthFirstGraph<G, visit>(*g, r); else { std::unique_ptr<uint16_t[]> q(new uint16_t[n.size()]); BreadthFirstGraph<G, visit>(*g, r, q.get()); }
      sim::NoPreempt np; sim::probe(9); size_t want = stopat[t] ? stopat[t] : lv.size(); if(stopat[t]) sim::probe(10); SIM_CHECK(got.size() == want, "search", "a search that reaches %zu nodes and ends at %zu visited %zu", lv.size(), want, got.size()); std::set<uint16_t> once; int last = 0; for(auto x : got) { SIM_CHECK(lv.count(x), "search", "a search visited node %d, which it can't reach", (int)x); SIM_CHECK(once.insert(x).second, "search", "a search visited node %d twice", (int)x); SIM_CHECK(lv[x] >= last, "search", "a search visited node %d at distance %d after one at %d", (int)x, lv[x], last); last = lv[x]; } SIM_CHECK(got[0] == r, "search", "a search did not begin at its root"); break; }
    case 10: { size_t k = n.size(); if(!k) break; std::vector<int64_t> m, v; std::map<uint16_t, size_t> at; { sim::NoPreempt np; m.assign(k * k, 0); v.assign(k, -7); size_t i = 0; for(uint16_t x = g->Front(); x != (uint16_t)-1; g->GetNodes().Next(x)) at[x] = i++; } SIM_CHECK(g->ToMatrix(0, 0) == k, "model", "the matrix has another size"); uint16_t r = g->ToMatrix(m.data(), v.data()); sim::probe(12); if(removed) sim::probe(14);
      { sim::NoPreempt np; SIM_CHECK(r == k, "model", "the matrix has another size"); for(auto& x : n) SIM_CHECK(v[at[x.first]] == x.second, "model", "node %zu of the matrix is %lld instead of %lld", at[x.first], (long long)v[at[x.first]], (long long)x.second); for(size_t a = 0; a < k * k; ++a) { bool any = false, fit = false; for(auto& x : e) if(at[x.from] * k + at[x.to] == a) { any = true; if(x.v == m[a]) fit = true; } SIM_CHECK(any ? fit : m[a] == 0, "model", "the matrix has %lld where there is %s", (long long)m[a], any ? "another edge" : "no edge"); } }
      if(o.a & 1) { G* h = mkg(); h->template FromMatrix<isedge>((uint16_t)k, m.data(), v.data()); sim::probe(13); { sim::NoPreempt np; size_t cnt = 0; for(auto x : m) cnt += x != 0; SIM_CHECK(h->NumNodes() == k && h->NumEdges() == cnt, "model", "a graph made from a matrix of %zu edges has %d", cnt, (int)h->NumEdges()); std::vector<int64_t> m2(k * k, 0), v2(k, -7); h->ToMatrix(m2.data(), v2.data()); SIM_CHECK(m2 == m && v2 == v, "model", "a graph made from a matrix gives another one"); } delete h; } break; }
    case 11: { G* h = new G(std::move(*g)); if(o.a & 1) { delete g; g = h; } else { G* k = mkg((o.a & 2) != 0); k->AddNode(); uint16_t x = k->AddNode(); int64_t q = 3; k->AddEdge(x, 0, &q); *k = std::move(*h); if(o.b & 1) { G& same = *k; *k = std::move(same); } delete h; delete g; g = k; } sim::probe(15); break; }
    case 12: if constexpr(D) { if(o.b & 1) flow<Graph<ME1, void>>((uint64_t)o.a); else circulation<Graph<ME2, VD>>((uint64_t)o.a); } else { if(o.b & 1) flow<Graph<ME1, void, uint16_t, StandardAllocator<Edge<ME1, uint16_t>>>>((uint64_t)o.a); else circulation<Graph<ME2, VD, uint16_t, StandardAllocator<Edge<ME2, uint16_t>>>>((uint64_t)o.a); } break; }
    all(); } };
// ---- disjoint sets
template<class S> static S* mks(size_t n); typedef DisjointSet<uint32_t> DS; typedef DisjointSet<uint16_t, PolymorphicAllocator<int16_t, CachePolicy>> DP; static CachePolicy<int16_t>* pcs;
template<> DS* mks<DS>(size_t n) { return new DS((uint32_t)n); } template<> DP* mks<DP>(size_t n) { return new DP((uint16_t)n, pcs); }
template<class S> struct SBox : Box { S* s; std::vector<size_t> m; static constexpr bool P = std::is_same<S, DP>::value; typedef typename std::conditional<P, uint16_t, uint32_t>::type T;
  SBox(size_t n) { s = mks<S>(n); sim::NoPreempt np; for(size_t i = 0; i < n; ++i) m.push_back(i); } ~SBox() { delete s; }
  size_t sets() { std::set<size_t> x(m.begin(), m.end()); return x.size(); } size_t count(size_t k) { size_t n = 0; for(auto x : m) n += x == k; return n; }
  void chk(S& t) { sim::NoPreempt np; SIM_CHECK((size_t)t.Length() == m.size() && (size_t)t.NumSets() == sets(), "model", "%zu elements in %zu sets: it says %zu in %zu", m.size(), sets(), (size_t)t.Length(), (size_t)t.NumSets()); std::map<size_t, size_t> name; for(size_t i = 0; i < m.size(); ++i) { size_t f = (size_t)t.Find((T)i); SIM_CHECK(f < m.size() && m[f] == m[i] && t.IsSetName((T)f) && t.IsSetName((T)i) == (f == i), "model", "element %zu is found in set %zu", i, f); if(name.count(m[i])) SIM_CHECK(name[m[i]] == f, "model", "one set has two names"); name[m[i]] = f; SIM_CHECK((size_t)t.NumElements((T)i) == count(m[i]), "model", "a set of %zu elements says %lld", count(m[i]), (long long)t.NumElements((T)i)); } SIM_CHECK(!t.IsSetName((T)m.size()) && (long long)t.NumElements((T)m.size()) == -1, "model", "an element that does not exist has a set"); }
  void all() { chk(*s); }
  void step(const sim::Op& o) { sim::probe(P ? 3 : 2); size_t n = m.size();
    switch(o.d % 10) { case 0: case 1: case 2: case 3: { if(!n) break; size_t a = (size_t)o.a % (n + 1), b = (size_t)(o.a >> 20) % n; if(o.d & 1) { if(a < n) a = (size_t)s->Find((T)a); b = (size_t)s->Find((T)b); } bool na, ok; { sim::NoPreempt np; na = a < n && s->IsSetName((T)a) && s->IsSetName((T)b); ok = na && m[a] != m[b]; if(!na) sim::probe(18); else if(!ok) sim::probe(17); else sim::probe(16); } bool r = s->Union((T)a, (T)b); sim::NoPreempt np; SIM_CHECK(r == ok, "model", "uniting %s says %d", !na ? "what is no set name" : ok ? "two sets" : "a set with itself", r); if(ok) { size_t x = m[a], y = m[b]; for(auto& k : m) if(k == y) k = x; } break; }
    case 4: { if(n > 60) { sim::Rng g((uint64_t)o.a); for(size_t i = n / 3 + g.below(n / 3); i--;) { size_t a = (size_t)s->Find((T)g.below(n / 2)), b = (size_t)s->Find((T)g.below(n)); bool r = s->Union((T)a, (T)b); sim::NoPreempt np; SIM_CHECK(r == (m[a] != m[b]), "model", "uniting two sets says %d", (int)r); if(r) { size_t x = m[a], y = m[b]; for(auto& e : m) if(e == x) e = y; } } break; } size_t k = (size_t)(o.a % 9); s->AddSets((T)k); sim::NoPreempt np; for(size_t i = 0; i < k; ++i) m.push_back(m.size()); sim::probe(19); break; }
    case 5: { if(o.a % 4) break; s->Reset(); sim::NoPreempt np; for(size_t i = 0; i < n; ++i) m[i] = i; break; }
    case 6: { if(!n) break; size_t x = (size_t)o.a % n; auto p = s->GetElements((T)x); sim::NoPreempt np; size_t j = 0; for(size_t i = 0; i < n; ++i) if(m[i] == m[x]) { SIM_CHECK(p[j] == i, "model", "the elements of a set are wrong"); ++j; } std::vector<T> q(n); SIM_CHECK((size_t)s->GetElements((T)x, q.data()) == j && (size_t)s->GetElements((T)x, 0) == j, "model", "a set has another number of elements"); break; }
    case 7: { S* t = new S(*s); sim::probe(27); chk(*t); if(o.a & 1) { delete s; s = t; } else { S* u = mks<S>((size_t)(o.a / 2 % 12)); *u = *t; chk(*u); *s = *s; chk(*s); delete t; delete s; s = u; } break; }
    case 8: { S* t = new S(std::move(*s)); if(o.a & 1) { delete s; s = t; } else { S* u = mks<S>((size_t)(o.a / 2 % 12)); *u = std::move(*t); delete t; delete s; s = u; } break; }
    case 9: { size_t v = 1 + (size_t)(o.a % 14), k = (size_t)(o.a / 16 % 40); std::vector<std::pair<T, T>> ed, want; { sim::NoPreempt np; sim::Rng r((uint64_t)o.a); for(size_t i = 0; i < k; ++i) ed.push_back({ (T)r.below(v), (T)r.below(v) }); std::vector<size_t> c(v); for(size_t i = 0; i < v; ++i) c[i] = i; for(auto& x : ed) if(c[x.first] != c[x.second]) { want.push_back(x); size_t f = c[x.first], t = c[x.second]; for(auto& y : c) if(y == t) y = f; } if(want.size() == v - 1) sim::probe(20); else sim::probe(21); }
      auto r = DS::MinSpanningTree((uint32_t)v, ed.begin(), ed.end()); sim::NoPreempt np; SIM_CHECK(r.Capacity() == want.size(), "search", "a spanning tree has %zu edges instead of %zu", (size_t)r.Capacity(), want.size()); for(size_t i = 0; i < want.size(); ++i) SIM_CHECK(r[(uint32_t)i].first == want[i].first && r[(uint32_t)i].second == want[i].second, "search", "a spanning tree has another edge %zu", i); break; } }
    all(); } };
// ---- tries
template<class T, bool IC> struct TBox : Box { Trie<T, IC>* t = 0; std::vector<std::string> w; static std::string low(std::string s) { if(IC) for(auto& c : s) c = (char)tolower((unsigned char)c < 128 ? c : c); return s; }
  static std::vector<std::string> words(uint64_t seed) { sim::Rng r(seed); std::set<std::string> have; std::vector<std::string> o; int n = (int)r.range(1, sizeof(T) == 1 ? 40 : 120); size_t nodes = 0; bool hi = r.chance(1, 3) && !IC; int al = (int)r.range(1, 8); for(int i = 0; i < n * 2 && (int)o.size() < n; ++i) { std::string s; int l = r.chance(1, 20) ? 0 : (int)r.range(1, r.chance(1, 5) ? 12 : 4); for(int k = 0; k < l; ++k) s += hi && r.chance(1, 2) ? (char)r.range(128, 255) : r.chance(1, 12) ? "_-[^Zz09"[r.below(8)] : (char)((IC && r.chance(1, 2) ? 'A' : 'a') + r.below(al)); if(nodes + s.size() + 1 > (sizeof(T) == 1 ? 245u : 2000u)) break; if(have.insert(low(s)).second) { nodes += s.size() + 1; o.push_back(s); } } if(o.empty()) o.push_back("a"); return o; }
  static Trie<T, IC>* make(const std::vector<std::string>& w) { std::vector<const char*> p; for(auto& s : w) p.push_back(s.c_str()); return new Trie<T, IC>((T)w.size(), p.data()); }
  TBox(uint64_t seed) { { sim::NoPreempt np; w = words(seed); } t = make(w); } ~TBox() { delete t; }
  T want(const std::string& s) { std::string k = low(s); for(size_t i = 0; i < w.size(); ++i) if(low(w[i]) == k) return (T)i; return (T)-1; }
  void get(const std::string& s) { T a = t->Get(s.c_str()), b = t->Get(s.c_str(), (T)s.size()), c = (*t)[s.c_str()]; sim::NoPreempt np; T x = want(s); SIM_CHECK(a == x && b == x && c == x, "model", "a word of %zu letters is found at %d, %d and %d instead of %d", s.size(), (int)a, (int)b, (int)c, (int)x); }
  void all() { { sim::NoPreempt np; for(auto& s : w) { if(s.empty()) sim::probe(25); for(char c : s) if(c < 0) { sim::probe(23); break; } } if(sizeof(T) == 1 && t->Capacity() > 128) sim::probe(26); if(IC) sim::probe(24); } SIM_CHECK((size_t)t->Length() == w.size(), "model", "a trie of %zu words says it has %d", w.size(), (int)t->Length()); for(auto& s : w) get(s); }
  void step(const sim::Op& o) { sim::probe(4); std::string s; { sim::NoPreempt np; sim::Rng r((uint64_t)o.a); s = w[r.below(w.size())]; switch(r.below(5)) { case 0: s = s.substr(0, r.below(s.size() + 1)); sim::probe(22); break; case 1: s += (char)('a' + r.below(6)); break; case 2: if(s.size()) s[r.below(s.size())] = (char)r.range(1, 127); break; case 3: for(auto& c : s) if(r.chance(1, 2)) { if(c >= 'a' && c <= 'z') c = (char)(c - 32); else if(c >= 'A' && c <= 'Z') c = (char)(c + 32); } break; default: s = ""; int l = (int)r.below(6); while(l--) s += (char)('a' + r.below(4)); } }
    switch(o.d % 8) { default: get(s); break; case 5: { Trie<T, IC>* x = new Trie<T, IC>(*t); delete t; t = x; all(); break; } case 6: { Trie<T, IC>* x = new Trie<T, IC>(std::move(*t)); delete t; t = x; all(); break; } case 7: { std::vector<std::string> n2; { sim::NoPreempt np; n2 = words((uint64_t)o.a); } Trie<T, IC>* x = make(n2); if(o.b & 1) { *t = *x; delete x; } else { *t = std::move(*x); delete x; } { sim::NoPreempt np; w = n2; } all(); break; } } } };
enum { STEP, SWAP };
void harness_generate(sim::Rng& r, sim::Plan& p) { p.p[0] = r.range(1, 3); p.p[1] = (int64_t)(r.next() >> 3); p.p[2] = r.chance(1, 4); int n = (int)r.range(4, 44); for(int t = 0; t < p.p[0]; ++t) for(int i = 0; i < n; ++i) p.add(t, r.chance(1, 14) ? (int)SWAP : (int)STEP, (int64_t)(r.next() >> 8), (int64_t)r.below(64), (int64_t)r.below(64), (int64_t)r.below(2640)); }
static Box* own[4]; static Box* shelf; static bool def;
static Box* make(int k, uint64_t s) { switch(k) { case 0: case 1: case 2: if(def) return new GBox<GD, true>(); return new GBox<GS, false>(); case 3: return new SBox<DS>(s % 37 == 0 ? s / 64 % 300 : s % 20); case 4: case 5: return new SBox<DP>(s % 37 == 0 ? s / 64 % 300 : s % 20); case 6: return new TBox<uint8_t, false>(s); case 7: return new TBox<uint16_t, false>(s); case 8: return new TBox<uint8_t, true>(s); default: return new TBox<uint16_t, true>(s); } }
static void act(int a, const sim::Op& op) { { sim::NoPreempt np; sim::mix(sim::seq() * 31 + (uint64_t)a); } if(op.kind == SWAP) { Box* b; { sim::NoPreempt np; b = shelf; shelf = own[a]; own[a] = b; } sim::probe(5); own[a]->all(); return; } own[a]->step(op); }
void harness_execute(const sim::Plan& p) {
  sim::set_limits(6000000, 12000000); def = p.p[2] != 0; LeakCheck lk; held = 0; pol = new CntPolicy<GE>(); pol2 = new CntPolicy<GE>(); pcs = new CachePolicy<int16_t>(4096, 64, 16); int th = (int)p.p[0]; int64_t k = p.p[1];
  for(int i = 0; i <= th; ++i) { Box* b = make((int)(k % 10), (uint64_t)k); if(i < th) own[i] = b; else shelf = b; k /= 10; }
  if(def) { Graph<ME1, void> a; Graph<ME2, VD> b; } // the default allocators are made now: a lock of the C++ runtime is not simulated
  run_actors(p, th, act);
  for(int i = 0; i < th; ++i) { own[i]->all(); delete own[i]; } shelf->all(); delete shelf; SIM_CHECK(!held, "leak", "%ld edges were not given back to the allocator", held); delete pol; delete pol2; delete pcs;
  if(!def) lk.check("the structures and their allocators"); }
