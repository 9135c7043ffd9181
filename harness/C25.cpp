// C25: randomised components: for every sequence the random source gives (stuck and extreme values included) choices stay in range, nothing is lost or invented, and a seed repeats.
#include "common.h"
#include "bss-util/algo.h"
#include "bss-util/RandomQueue.h"
#include "bss-util/AliasTable.h"
#include <string>
#include <vector>
#include <algorithm>
#include <math.h>
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "queue_drained", "queue_of_objects", "removed_last", "shuffled", "shuffle_fair", "range_float", "range_integer", "all_values_reached", "engine_repeats", "seed_zero", "device_seed", "alias_drawn", "poisson", "subdivided", "normal", "source_stuck", 0 };
  const char* const harness_real = "RandomQueue, Shuffle, bssrand, XorshiftEngine, AliasTable, PoissonDiskSample, StochasticSubdivider, NormalZig";
  const char* const harness_stub = "the random device below the engine (scripted values), a random source that injects extreme values or is stuck";
}
enum { QUEUE, OBJQ, SHUFFLE, RANGE, ENGINE, ALIAS, POISSON, SUBDIV, NORMAL };
static uint64_t devval; static int devcalls;
std::random_device::result_type std::random_device::_M_getval() { ++devcalls; devval = devval * 6364136223846793005ull + 1442695040888963407ull; switch(devval >> 61) { case 0: case 1: return 0; case 2: return 1; case 3: return ~0u; } return (result_type)(devval >> 24); }
// A random source over the real engine: extreme values are injected, or it is stuck at an end of its range
template<class T> struct Src { typedef T result_type; bss::XorshiftEngine<T> e; int mode; explicit Src(uint64_t s, int m) : e(s), mode(m) { if(m == 1 || m == 2) { sim::note_fault(sim::F_RNG); sim::probe(15); } }
  static T min() { return bss::XorshiftEngine<T>::min(); } static T max() { return bss::XorshiftEngine<T>::max(); }
  T operator()() { if(mode == 1) return min(); if(mode == 2) return max(); if(mode == 3 && sim::fault(sim::F_RNG, 1, 6)) return e() & 1 ? min() : max(); return e(); } };
struct Obj { static int live; static void count(int d) { sim::NoPreempt np; live += d; } int64_t v; bool moved = false; char* own; // an object that must be destroyed exactly once
  explicit Obj(int64_t x = -1) : v(x), own(new char[3]) { count(1); } Obj(const Obj& o) : v(o.v), own(new char[3]) { SIM_CHECK(!o.moved, "moved-from", "an object that was moved away is copied"); count(1); } Obj(Obj&& o) : v(o.v), own(new char[3]) { o.moved = true; count(1); }
  Obj& operator=(const Obj& o) { v = o.v; moved = o.moved; return *this; } Obj& operator=(Obj&& o) { bool m = o.moved; v = o.v; if(&o != this) o.moved = true; moved = m; return *this; } ~Obj() { delete[] own; own = 0; count(-1); } };
int Obj::live;
static int64_t idof(int64_t v) { return v; } static int64_t idof(const Obj& v) { SIM_CHECK(!v.moved, "moved-from", "an object that was moved away is handed out"); return v.v; }
template<class Q, class E> static void queue(const sim::Op& o, E& e) {
  typedef std::decay_t<decltype(*((Q*)0)->begin())> T; sim::Rng r((uint64_t)o.c); std::multiset<int64_t> m; Q* q = new Q(); Q* other = 0; std::multiset<int64_t> mo; int64_t next = 1;
  auto same = [&](Q& x, std::multiset<int64_t>& want, const char* what) { sim::NoPreempt np; std::multiset<int64_t> g; for(auto& v : x) g.insert(idof(v)); SIM_CHECK((size_t)x.Length() == want.size(), "queue", "%s: %u items instead of %zu", what, (unsigned)x.Length(), want.size()); SIM_CHECK(g == want, "queue", "%s: the items held are not those put in and not yet taken out", what); SIM_CHECK(x.Empty() == want.empty(), "queue", "%s: Empty() is wrong", what); };
  for(int64_t i = 0; i < o.a; ++i) { sim::yield(); sim::seq();
    switch(pickw(r, { 10, 7, 2, 1, 1, 1, 1, 1 })) {
    case 0: { int64_t v = r.chance(1, 4) ? 7 : ++next; T t((T)(v)); if(r.chance(1, 2)) q->Push(t); else q->Push(std::move(t)); m.insert(v); break; }
    case 1: if(!m.empty()) { int64_t v = idof(q->Pop(e)); auto it = m.find(v); SIM_CHECK(it != m.end(), "queue", "Pop gave %lld, which is not in the queue", (long long)v); m.erase(it); sim::mix((uint64_t)v); } break;
    case 2: if(!m.empty()) { unsigned k = r.chance(1, 3) ? (unsigned)m.size() - 1 : (unsigned)r.below(m.size()); if(k + 1 == m.size()) sim::probe(2); int64_t v = idof(q->begin()[k]); q->Remove(k); m.erase(m.find(v)); } break;
    case 3: if(r.chance(1, 3)) { q->Clear(); m.clear(); } break;
    case 4: { Q* c = new Q(*q); same(*c, m, "copy"); delete other; other = c; mo = m; break; }
    case 5: { Q* c = new Q(std::move(*q)); delete q; q = c; break; }
    case 6: if(other && m.size() < 60) { *q += *other; for(auto v : mo) m.insert(v); } break;
    case 7: if(other) { if(r.chance(1, 2)) { *q = *other; m = mo; } else { *q = std::move(*other); m = mo; delete other; other = 0; } } break;
    }
    same(*q, m, "queue"); if(other) same(*other, mo, "copy kept aside"); }
  int64_t n = (int64_t)m.size(); for(int64_t i = 0; i < n; ++i) { sim::yield(); int64_t v = idof(q->Pop(e)); auto it = m.find(v); SIM_CHECK(it != m.end(), "queue", "Pop gave %lld, which is not in the queue (any more)", (long long)v); m.erase(it); }
  SIM_CHECK(q->Empty(), "queue", "the drained queue is not empty"); sim::probe(0); delete q; delete other;
}
template<class CT, class E> static void shuffle(const sim::Op& o, E& e, bool fair) {
  int n = (int)o.a % 120; std::vector<int64_t> v(n); for(int i = 0; i < n; ++i) v[i] = i / 2 * 1000 + i; std::vector<int64_t> w = v;
  if(n) bss::Shuffle<int64_t, CT, E>(v.data(), (CT)n, e); else { int64_t none = 5; bss::Shuffle<int64_t, CT, E>(&none, (CT)0, e); SIM_CHECK(none == 5, "shuffle", "shuffling nothing changed something"); }
  for(auto x : v) sim::mix((uint64_t)x);
  { sim::NoPreempt np; std::sort(v.begin(), v.end()); SIM_CHECK(v == w, "shuffle", "shuffling %d items lost or doubled one", n); } sim::probe(3);
  if(!fair) return;
  sim::NoPreempt np; int k = 2 + (int)(o.b % 5), N = 300; std::vector<int> cell(k * k); for(int i = 0; i < N; ++i) { int a[8]; for(int j = 0; j < k; ++j) a[j] = j; if(o.c & 1) { int* pa = a; bss::Shuffle<int>(pa, k); } else bss::Shuffle<int, CT, E>(a, (CT)k, e); for(int j = 0; j < k; ++j) { SIM_CHECK(a[j] >= 0 && a[j] < k, "shuffle", "shuffling %d items invented one", k); ++cell[a[j] * k + j]; } }
  for(int i = 0; i < k * k; ++i) { double p = 1.0 / k, s = sqrt(N * p * (1 - p)); SIM_CHECK(fabs(cell[i] - N * p) < 7 * s + 6, "fair", "of %d shuffles of %d items, item %d came to place %d in %d", N, k, i / k, i % k, cell[i]); } sim::probe(4);
}
template<class T, class E> static void range(T lo, T hi, E& e, const char* t) { T x = bss::bssrand<T, E>(lo, hi, e); sim::mix((uint64_t)(int64_t)(x * (T)1)); SIM_CHECK(x >= lo && x < hi, "range", "bssrand<%s>(%.17g, %.17g) gave %.17g", t, (double)lo, (double)hi, (double)x); }
template<class E> static void ranges(const sim::Op& o, E& e, bool fair) {
  sim::Rng r((uint64_t)o.c);
  for(int i = 0; i < 12; ++i) { int64_t a = (int64_t)(r.next() >> (1 + r.below(62))) * (r.chance(1, 2) ? 1 : -1) / 2, b = a + 1 + (int64_t)(r.next() >> (2 + r.below(61)));
    switch(r.below(6)) {
    case 0: range<int64_t>(a, b, e, "int64"); sim::probe(6); break; case 1: { uint64_t lo = (uint64_t)llabs(a), hi = lo + (uint64_t)(b - a); range<uint64_t>(lo, hi, e, "uint64"); break; }
    case 2: { int lo = (int)(a >> 34), hi = lo + 1 + (int)((uint64_t)(b - a) % 1000000000); range<int>(lo, hi, e, "int"); break; } case 3: { uint32_t lo = (uint32_t)llabs(a) >> 1, hi = lo + 1 + ((uint32_t)(b - a) >> 1); range<uint32_t>(lo, hi, e, "uint32"); break; }
    case 4: { float lo = (float)a / (1 << r.below(20)), hi = (float)b / (1 << r.below(20)); if(r.chance(1, 3)) { lo = (float)(int)r.below(5) - 2; hi = lo + 1 + (float)r.below(3); } if(lo < hi && isfinite(hi - lo)) { range<float>(lo, hi, e, "float"); sim::probe(5); } break; }
    case 5: { double lo = (double)a / (1 << r.below(20)), hi = (double)b / (1 << r.below(20)); if(r.chance(1, 3)) { lo = (double)(int)r.below(5) - 2; hi = lo + 1 + (double)r.below(3); } if(lo < hi) { range<double>(lo, hi, e, "double"); sim::probe(5); } break; } } }
  if(!fair) return;
  sim::NoPreempt np; int k = 2 + (int)(o.b % 7), N = 400; int64_t lo = (int64_t)r.below(2000) - 1000; std::vector<int> c(k); for(int i = 0; i < N; ++i) { int64_t x = o.a & 1 ? bss::bssRandInt(lo, lo + k) : bss::bssrand<int64_t, E>(lo, lo + k, e); SIM_CHECK(x >= lo && x < lo + k, "range", "an integer from [%lld, %lld) is %lld", (long long)lo, (long long)lo + k, (long long)x); ++c[x - lo]; }
  for(int i = 0; i < k; ++i) { double p = 1.0 / k, s = sqrt(N * p * (1 - p)); SIM_CHECK(fabs(c[i] - N * p) < 7 * s + 6, "fair", "of %d integers from a range of %d, %d came %d times", N, k, i, c[i]); } sim::probe(7);
  double sum = 0; for(int i = 0; i < N; ++i) { double x = bss::bssRandReal(-3, 5); SIM_CHECK(x >= -3 && x < 5, "range", "bssRandReal(-3, 5) gave %g", x); sum += x; } SIM_CHECK(fabs(sum / N - 1) < 7 * 8 / sqrt(12.0 * N), "fair", "the mean of %d reals from [-3,5) is %g", N, sum / N);
}
template<class T> static void engine(const sim::Op& o) {
  sim::Rng r((uint64_t)o.c); uint64_t s = r.chance(1, 3) ? 0 : r.next() >> r.below(64); if(!s) sim::probe(9); uint64_t S[16]; for(auto& x : S) x = r.next(); typedef bss::XorshiftEngine<T> E; int how = (int)r.below(4);
  E a(1), b(2); if(how == 0) { a.seed(s); b = E(s); } else if(how == 1) { a.seed(S); b = E(S); } else if(how == 2) { E d; SIM_CHECK(devcalls, "device", "an engine without a seed does not ask the random device"); sim::probe(10); a = d; b = d; } else { E d(5); d.seed(); a = d; b = d; sim::probe(10); }
  SIM_CHECK(a == b && !(a != b), "repeat", "two engines with the same seed are not equal");
  std::set<T> seen; int n = 40, skip = (int)r.below(20); std::vector<T> x;
  for(int i = 0; i < n; ++i) { sim::yield(); T v = a(); x.push_back(v); seen.insert(v); SIM_CHECK(v >= E::min() && v <= E::max(), "repeat", "a value outside the range of the engine"); }
  SIM_CHECK(seen.size() > (sizeof(T) == 1 ? 8u : 30u), "stuck", "%d values of an engine seeded with %llu (way %d) contain only %zu different ones", n, (unsigned long long)s, how, seen.size());
  if(r.chance(1, 2)) { b.discard((unsigned)skip); sim::probe(8); } else for(int i = 0; i < skip; ++i) { sim::yield(); T v = b(); SIM_CHECK(v == x[i], "repeat", "value %d differs between two engines with the same seed", i); }
  if(skip < n) SIM_CHECK(!(a == b) && a != b, "repeat", "engines at different places in their sequence are called equal");
  E c(b); for(int i = skip; i < n; ++i) { sim::yield(); T v = b(); SIM_CHECK(v == x[i], "repeat", "value %d differs between two engines with the same seed", i); SIM_CHECK(c() == v, "repeat", "a copied engine goes another way"); }
  SIM_CHECK(a == b && b == c, "repeat", "engines at the same place in their sequence are not equal"); sim::probe(8);
  { sim::NoPreempt np; bss::bssRandSeed(s); std::vector<int64_t> y; for(int i = 0; i < 10; ++i) y.push_back(bss::bssRandInt(0, 1000000)); bss::bssRandSeed(s); for(int i = 0; i < 10; ++i) SIM_CHECK(bss::bssRandInt(0, 1000000) == y[i], "repeat", "the default engine does not repeat for a seed"); SIM_CHECK(std::set<int64_t>(y.begin(), y.end()).size() > 4, "stuck", "the default engine seeded with %llu is stuck", (unsigned long long)s);
    uint64_t z = s ? s : 9; uint64_t u = bss::XorshiftRand(z), u2 = bss::XorshiftRand(); SIM_CHECK(bss::XorshiftRand(z) == u && bss::XorshiftRand() == u2 && u != u2, "repeat", "XorshiftRand does not repeat for a seed"); }
}
template<class U, class F, class E> static void alias(const sim::Op& o, E& e, bool fair) {
  sim::Rng r((uint64_t)o.c); int n = 1 + (int)(o.a % 12), W = 0; if(o.b % 23 == 0) n = 100 + (int)(o.a % 400); std::vector<int> w(n); for(auto& x : w) { x = r.chance(1, 4) ? 0 : (int)r.below(r.chance(1, 3) ? 1000 : 10); W += x; } if(!W) { w[0] = 1; W = 1; }
  std::vector<F> p(n); for(int i = 0; i < n; ++i) p[i] = (F)w[i] / (F)W;
  typedef bss::AliasTable<U, F> A; A* t = new A(p.data(), (U)n); SIM_CHECK((int)t->GetCount() == n, "alias", "the table has %d outcomes instead of %d", (int)t->GetCount(), n); for(auto& x : p) x = (F)-1; // the table keeps its own copy
  if(r.chance(1, 3)) { A* q = new A(std::move(*t)); delete t; t = q; } if(r.chance(1, 3)) { A* q = new A(*t); delete t; t = q; } if(r.chance(1, 3)) { double h[5] = { .5, .25, .125, .0625, .0625 }; F hf[5]; for(int i = 0; i < 5; ++i) hf[i] = (F)h[i]; A* q = r.chance(1, 2) ? new A() : new A(hf, 5); *q = *t; delete t; t = q; } if(r.chance(1, 4)) { A& self = *t; *t = self; } if(r.chance(1, 3)) { A* q = new A(); *q = std::move(*t); delete t; t = q; }
  SIM_CHECK((int)t->GetCount() == n, "alias", "a copied table has %d outcomes instead of %d", (int)t->GetCount(), n);
  int N = fair ? 600 : 40; std::vector<int> c(n); for(int i = 0; i < 5; ++i) { sim::yield(); U x = t->Get(e); SIM_CHECK(x < (U)n, "alias", "outcome %d of %d", (int)x, n); } sim::NoPreempt np; for(int i = 0; i < N; ++i) { U x = o.b & 1 && fair ? t->Get() : t->Get(e); SIM_CHECK(x < (U)n, "alias", "outcome %d of %d", (int)x, n); ++c[x]; }
  if(fair) for(int i = 0; i < n; ++i) { double q = (double)w[i] / W, s = sqrt(N * q * (1 - q)); if(!w[i]) SIM_CHECK(!c[i] || sizeof(F) == 4, "alias", "an outcome of probability 0 was drawn %d times", c[i]); SIM_CHECK(fabs(c[i] - N * q) < 7 * s + 6, "fair", "outcome %d of probability %g was drawn %d times of %d", i, q, c[i], N); } sim::probe(11); delete t;
}
template<class T> static void poisson(const sim::Op& o) {
  sim::NoPreempt np; sim::Rng r((uint64_t)o.c); T x = (T)r.range(-50, 50) / 4, y = (T)r.range(-50, 50) / 4, d = (T)r.range(1, 12) / 4; int big = r.chance(1, 2) ? 24 : 72; T rect[4] = { x, y, x + d * (T)r.range(1, big) / 3, y + d * (T)r.range(1, big) / 3 };
  std::vector<std::pair<T, T>> pts; bss::PoissonDiskSample<T>(rect, d, [&](T* p) { pts.push_back({ p[0], p[1] }); }, (size_t)r.range(1, 30));
  SIM_CHECK(!pts.empty(), "poisson", "no point at all");
  for(size_t i = 0; i < pts.size(); ++i) { SIM_CHECK(pts[i].first >= rect[0] && pts[i].first <= rect[2] && pts[i].second >= rect[1] && pts[i].second <= rect[3], "poisson", "point %zu lies outside", i); sim::mix((uint64_t)(int64_t)(pts[i].first * 1000));
    for(size_t j = 0; j < i; ++j) { double a = (double)pts[i].first - pts[j].first, b = (double)pts[i].second - pts[j].second; SIM_CHECK(a * a + b * b >= (double)d * d * 0.9999, "poisson", "points %zu and %zu are %g apart, the minimum is %g", i, j, sqrt(a * a + b * b), (double)d); } }
  sim::probe(12);
}
static void subdiv(const sim::Op& o) {
  sim::NoPreempt np; sim::Rng r((uint64_t)o.c); double rect[4] = { (double)r.range(-8, 8), (double)r.range(-8, 8), 0, 0 }; rect[2] = rect[0] + (double)r.range(1, 64); rect[3] = rect[1] + (double)r.range(1, 64); size_t maxd = 1 + (size_t)(o.a % 7); std::vector<std::array<double, 4>> L; double term = (double)r.below(5) / 8; size_t deepest = 0;
  bss::StochasticSubdivider<double>(rect, [&](size_t depth, const double(&)[4]) { deepest = std::max(deepest, depth); return depth >= maxd ? 1.0 : term; }, [&](const double(&q)[4]) { L.push_back({ q[0], q[1], q[2], q[3] }); }, [&](size_t, const double(&)[4]) { return r.chance(1, 8) ? 0.0 : r.chance(1, 8) ? 1.0 : (double)r.below(16) / 16; });
  SIM_CHECK(deepest <= maxd, "subdivide", "a branch goes on at depth %zu although it must end at %zu", deepest, maxd); double area = 0; for(auto& q : L) { SIM_CHECK(q[0] >= rect[0] && q[1] >= rect[1] && q[2] <= rect[2] && q[3] <= rect[3] && q[0] <= q[2] && q[1] <= q[3], "subdivide", "a piece lies outside"); area += (q[2] - q[0]) * (q[3] - q[1]); }
  double A = (rect[2] - rect[0]) * (rect[3] - rect[1]); SIM_CHECK(fabs(area - A) < 1e-6 * A, "subdivide", "the pieces cover %g of %g", area, A); sim::mix(L.size());
  for(int i = 0; i < 20; ++i) { double px = rect[0] + (rect[2] - rect[0]) * ((double)r.below(1000003) / 1000003.0), py = rect[1] + (rect[3] - rect[1]) * ((double)r.below(1000003) / 1000003.0); int in = 0, edge = 0; for(auto& q : L) { in += px >= q[0] && px < q[2] && py >= q[1] && py < q[3]; edge += px == q[0] || px == q[2] || py == q[1] || py == q[3]; } SIM_CHECK(in == 1 || edge, "subdivide", "a point lies in %d pieces", in); } sim::probe(13);
}
static void normal() {
  sim::NoPreempt np; bss::NormalZig<> z; const int N = 600; double s = 0, s2 = 0; int mid = 0, far = 0; for(int i = 0; i < N; ++i) { double x = i & 1 ? z() : z.Get(); SIM_CHECK(isfinite(x), "normal", "a sample is not a number"); s += x; s2 += x * x; mid += fabs(x) < 0.67448975; far += fabs(x) > 2; }
  SIM_CHECK(fabs(s / N) < 7 / sqrt((double)N), "fair", "the mean of %d normal samples is %g", N, s / N); SIM_CHECK(fabs(s2 / N - 1) < 8 * sqrt(2.0 / N), "fair", "the variance of %d normal samples is %g", N, s2 / N);
  SIM_CHECK(abs(mid - N / 2) < 7 * sqrt(N / 4.0), "fair", "%d of %d normal samples lie in the middle half", mid, N); SIM_CHECK(fabs(far - N * 0.0455) < 7 * sqrt(N * 0.0435) + 3, "fair", "%d of %d normal samples lie beyond two sigma", far, N); sim::probe(14);
}
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = (int64_t)r.next(); p.p[1] = r.chance(1, 2) ? 0 : r.range(1, 3); p.p[2] = r.range(1, 3); p.p[3] = (int64_t)r.next(); int n = (int)r.range(1, 5);
  for(int i = 0; i < n; ++i) { int k = (int)pickw(r, { 5, 4, 4, 4, 3, 3, 2, 2, 1 }); p.add((int)r.below((uint64_t)p.p[2]), k, k <= OBJQ ? r.range(1, 40) : (int64_t)r.below(1000), (int64_t)r.below(1000), (int64_t)(r.next() >> 1), (int64_t)r.below(4)); }
}
static int mode; static uint64_t base;
template<class E> static void run(const sim::Op& o) {
  E e(base ^ (uint64_t)o.c * 3, o.kind == ALIAS && mode == 2 ? 1 : mode); /* the standard integer distribution rejects, forever, a source stuck at its maximum */ bool fair = mode == 0;
  switch(o.kind) {
  case QUEUE: if(o.d & 1) queue<bss::RandomQueue<int64_t>>(o, e); else queue<bss::RandomQueue<int64_t, uint16_t>>(o, e); break;
  case OBJQ: queue<bss::RandomQueue<Obj, uint32_t, bss::ARRAY_SAFE>>(o, e); sim::probe(1); break;
  case SHUFFLE: if(o.d & 1) shuffle<uint8_t>(o, e, fair); else shuffle<int>(o, e, fair); break;
  case RANGE: ranges(o, e, fair); break;
  case ALIAS: if(o.d & 1) alias<size_t, double>(o, e, fair); else alias<uint32_t, double>(o, e, fair); break;
  }
}
static void act(int, const sim::Op& o) {
  sim::seq();
  sim::logf("op %d a=%lld b=%lld c=%lld d=%lld", o.kind, (long long)o.a, (long long)o.b, (long long)o.c, (long long)o.d);
  switch(o.kind) {
  case ENGINE: if(o.d == 0) engine<uint64_t>(o); else if(o.d == 1) engine<uint32_t>(o); else if(o.d == 2) engine<uint16_t>(o); else engine<uint8_t>(o); break;
  case POISSON: if(o.d & 1) poisson<double>(o); else poisson<float>(o); break;
  case SUBDIV: subdiv(o); break; case NORMAL: normal(); break;
  default: if(o.d & 2) run<Src<uint32_t>>(o); else run<Src<uint64_t>>(o);
  }
}
void harness_execute(const sim::Plan& p) {
  sim::set_limits(8000000, 20000000); mode = (int)p.p[1]; base = (uint64_t)p.p[0]; if(mode == 3) sim::enable(sim::F_RNG); devval = (uint64_t)p.p[3]; devcalls = 0; Obj::live = 0;
  bss::bssRandSeed(base | 1);
  run_actors(p, (int)p.p[2], act);
  SIM_CHECK(Obj::live == 0, "objects", "%d objects put into a queue were not destroyed exactly once", Obj::live);
}
