// C30: UBJSON: objects and documents survive writing and reading over any stream; documents written elsewhere give what they say; what was delivered counts and failures are visible.
#include "iofault.h"
#include "bss-util/UBJSON.h"
#include "bss-util/Hash.h"
#include <map>
#include <functional>
using namespace hx; using namespace bss;
extern "C" {
  const char* const harness_probes[] = { "written_by_library", "foreign_document", "sink_failed", "source_cut", "source_error", "no_op", "typed_container", "counted_container", "open_container", "unknown_member", "shuffled", "bytes_into_numbers", "array_too_long", "big_number", "embedded_zero", "character", "untyped_read", "untyped_rewritten", "untyped_read_twice", "zero_size_elements", "every_byte_arrived", "wider_number", "serializer_reused", 0 };
  const char* const harness_real = "UBJSONEngine, UBJSONTuple, Serializer, DynArray, Hash, Variant, Str, real iostream layer";
  const char* const harness_stub = "streams below (chunked, cut, failing sources; failing sinks)";
}
// ---- an independent value, decoder and writer
struct N { enum K { NUL, BOOL, INT, REAL, STR, ARR, OBJ } k = NUL; bool b = false; __int128 i = 0; double d = 0; std::string s; std::vector<N> a; std::vector<std::pair<std::string, N>> o;
  static N I(__int128 x) { N n; n.k = INT; n.i = x; return n; } static N D(double x) { N n; n.k = REAL; n.d = x; return n; } static N S(const std::string& x) { N n; n.k = STR; n.s = x; return n; } static N B(bool x) { N n; n.k = BOOL; n.b = x; return n; } static N A() { N n; n.k = ARR; return n; } static N O() { N n; n.k = OBJ; return n; } void put(const char* key, const N& v) { o.push_back({ key, v }); } };
static std::string big(__int128 x) { std::string o; bool neg = x < 0; if(neg) x = -x; do { o.insert(o.begin(), (char)('0' + (int)(x % 10))); x /= 10; } while(x); return neg ? "-" + o : o; }
static bool same(const N& x, const N& y, std::string& at) {
  if(x.k != y.k) { if(x.k == N::INT && y.k == N::REAL && (double)x.i == y.d) return true; if(x.k == N::REAL && y.k == N::INT && (double)y.i == x.d) return true; return false; }
  switch(x.k) { case N::NUL: return true; case N::BOOL: return x.b == y.b; case N::INT: return x.i == y.i; case N::REAL: return !memcmp(&x.d, &y.d, 8); case N::STR: return x.s == y.s;
  case N::ARR: if(x.a.size() != y.a.size()) return false; for(size_t i = 0; i < x.a.size(); ++i) if(!same(x.a[i], y.a[i], at)) { at += "[" + std::to_string(i) + "]"; return false; } return true;
  default: if(x.o.size() != y.o.size()) return false; for(auto& p : x.o) { bool f = false; for(auto& q : y.o) if(p.first == q.first) { f = true; if(!same(p.second, q.second, at)) { at += "." + p.first; return false; } } if(!f) { at += "." + p.first + " missing"; return false; } } return true; }
}
struct Dec { const std::string& s; size_t p = 0; bool bad = false; Dec(const std::string& x) : s(x) {} int get() { if(p >= s.size()) { bad = true; return -1; } return (unsigned char)s[p++]; } int peek() { return p < s.size() ? (unsigned char)s[p] : -1; }
  uint64_t be(int n) { uint64_t v = 0; while(n--) v = v << 8 | (uint64_t)(get() & 255); return v; }
  __int128 num(int t) { switch(t) { case 'i': return (int8_t)be(1); case 'U': return (uint8_t)be(1); case 'I': return (int16_t)be(2); case 'l': return (int32_t)be(4); case 'L': return (int64_t)be(8); } bad = true; return 0; }
  size_t len() { __int128 l = num(get()); if(l < 0 || l > (__int128)s.size()) { bad = true; return 0; } return (size_t)l; }
  std::string str(size_t n) { if(p + n > s.size()) { bad = true; return ""; } std::string r = s.substr(p, n); p += n; return r; }
  N val(int t = 0, int depth = 0) { N n; if(bad || depth > 50) { bad = true; return n; } if(!t) do t = get(); while(t == 'N');
    switch(t) { case 'Z': return n; case 'T': return N::B(true); case 'F': return N::B(false); case 'i': case 'U': case 'I': case 'l': case 'L': return N::I(num(t)); case 'd': { uint32_t v = (uint32_t)be(4); float f; memcpy(&f, &v, 4); return N::D(f); } case 'D': { uint64_t v = be(8); double f; memcpy(&f, &v, 8); return N::D(f); }
    case 'H': { std::string d = str(len()); __int128 v = 0; for(char c : d) { if(c < '0' || c > '9') { bad = true; return n; } v = v * 10 + (c - '0'); } return N::I(v); } case 'C': return N::S(str(1)); case 'S': return N::S(str(len()));
    case '[': case '{': { n.k = t == '[' ? N::ARR : N::OBJ; int end = t == '[' ? ']' : '}', ty = 0; int64_t c = -1; if(peek() == '$') { get(); ty = get(); if(peek() != '#') { bad = true; return n; } } if(peek() == '#') { get(); c = (int64_t)len(); }
      while(!bad && c) { if(c < 0) { while(peek() == 'N') get(); if(peek() == end) { get(); break; } } if(t == '[') n.a.push_back(val(ty, depth + 1)); else { std::string k = str(len()); N v = val(ty, depth + 1); n.o.push_back({ k, v }); } if(c > 0) --c; } return n; } }
    bad = true; return n; } };
struct Enc { sim::Rng r; std::string o; bool plain; Enc(uint64_t s, bool pl = false) : r(s), plain(pl) {} std::map<std::string, size_t> done; // end of each member of the outermost object
  void be(uint64_t v, int n) { while(n--) o += (char)(v >> (8 * n)); }
  static int fits(__int128 x) { return x >= 0 && x < 256 ? 'U' : x >= -128 && x < 128 ? 'i' : x >= -32768 && x < 32768 ? 'I' : x >= INT32_MIN && x <= INT32_MAX ? 'l' : x >= INT64_MIN && x <= INT64_MAX ? 'L' : 'H'; }
  static int wider(int t) { return t == 'U' || t == 'i' ? 'I' : t == 'I' ? 'l' : t == 'l' ? 'L' : t; }
  void num(__int128 x, int t) { switch(t) { case 'U': case 'i': be((uint64_t)x, 1); break; case 'I': be((uint64_t)x, 2); break; case 'l': be((uint64_t)x, 4); break; case 'L': be((uint64_t)x, 8); break; default: { sim::probe(13); std::string d = big(x); len(d.size()); o += d; } } }
  void len(size_t n) { int t = fits((__int128)n); while(r.chance(1, 6) && t != 'L') t = wider(t); if(t == 'U' && n < 128 && r.chance(1, 4)) t = 'i'; o += (char)t; num((__int128)n, t); }
  int kind(const N& v) { switch(v.k) { case N::NUL: return 'Z'; case N::BOOL: return v.b ? 'T' : 'F'; case N::INT: { int t = fits(v.i); if(t != 'H') while(r.chance(1, 8) && t != 'L') { t = wider(t); sim::probe(21); } return t; } case N::REAL: return (double)(float)v.d == v.d && r.chance(1, 2) ? 'd' : 'D'; case N::STR: return v.s.size() == 1 && r.chance(1, 2) ? 'C' : 'S'; case N::ARR: return '['; default: return '{'; } }
  static bool can(const N& v, int t) { switch(t) { case 'Z': return v.k == N::NUL; case 'T': return v.k == N::BOOL && v.b; case 'F': return v.k == N::BOOL && !v.b; case 'd': return v.k == N::REAL && (double)(float)v.d == v.d; case 'D': return v.k == N::REAL; case 'C': return v.k == N::STR && v.s.size() == 1; case 'S': return v.k == N::STR; case '[': return v.k == N::ARR; case '{': return v.k == N::OBJ; case 'H': return v.k == N::INT && v.i >= 0; }
    if(v.k != N::INT) return false; return t == 'U' ? v.i >= 0 && v.i < 256 : t == 'i' ? v.i >= -128 && v.i < 128 : t == 'I' ? v.i >= -32768 && v.i < 32768 : t == 'l' ? v.i >= INT32_MIN && v.i <= INT32_MAX : v.i >= INT64_MIN && v.i <= INT64_MAX; }
  void noop() { while(r.chance(1, 12)) { o += 'N'; sim::probe(5); } }
  void val(const N& v, int t = 0, int depth = 0) { if(!t) { noop(); t = kind(v); o += (char)t; }
    switch(t) { case 'Z': case 'T': case 'F': break; case 'd': { float f = (float)v.d; uint32_t u; memcpy(&u, &f, 4); be(u, 4); break; } case 'D': { uint64_t u; memcpy(&u, &v.d, 8); be(u, 8); break; } case 'C': o += v.s[0]; sim::probe(15); break; case 'S': len(v.s.size()); o += v.s; if(v.s.find('\0') != std::string::npos) sim::probe(14); break;
    case '[': case '{': { size_t n = t == '[' ? v.a.size() : v.o.size(); auto at = [&](size_t i) -> const N& { return t == '[' ? v.a[i] : v.o[i].second; }; int ty = 0; bool count = r.chance(1, 2);
      if(n && count && r.chance(2, 3)) { ty = kind(at(r.below(n))); for(size_t i = 0; i < n; ++i) if(!can(at(i), ty)) { ty = 0; break; } }
      if(ty) { o += '$'; o += (char)ty; sim::probe(6); if(strchr("ZTF", ty)) sim::probe(19); if(strchr("UiC", ty)) sim::probe(11); } if(count) { o += '#'; len(n); sim::probe(7); } else sim::probe(8);
      for(size_t i = 0; i < n; ++i) { if(t == '{') { if(!count) noop(); len(v.o[i].first.size()); o += v.o[i].first; } val(at(i), ty, depth + 1); if(!depth && t == '{') done[v.o[i].first] = o.size(); } if(!count) { noop(); o += t == '[' ? ']' : '}'; } break; }
    default: num(v.i, t); } } };
// ---- the typed object
struct Inner { int x = 0; Str n; bool operator==(const Inner& o) const { return x == o.x && n == o.n; } template<typename E> void Serialize(Serializer<E>& s, const char*) { s.template EvaluateType<Inner>(GenPair("x", x), GenPair("name", n)); } };
typedef Variant<Inner, double> VAR; typedef Hash<Str, int, ARRAY_SAFE> HM;
enum EN : char { EN_A = 1, EN_B = 77 };
struct T {
  EN en = EN_A; int64_t a = 0; uint16_t b = 0; uint32_t g = 0; double c = 0; float f = 0; Str s; std::string s2; bool t = false, u = false; std::vector<int> v; DynArray<Str, size_t, ARRAY_SAFE> d; std::array<int, 3> arr = { { 0, 0, 0 } }; std::tuple<short, Str, double> tup; Inner in; DynArray<Inner, uint32_t, ARRAY_SAFE> list; int8_t i8 = 0; char ch = 0; short sh = 0; uint64_t u64 = 0; std::vector<std::vector<int>> vv; DynArray<bool> bits; std::vector<uint8_t> by; DynArray<uint8_t> db; uint8_t fix[4] = { 0, 0, 0, 0 }; DynArray<uint16_t> us; std::vector<float> fl; std::vector<uint64_t> ub; std::vector<VAR> var; HM map; DynArray<int64_t> il; DynArray<short> sl; std::vector<char> cl;
  template<typename E> void Serialize(Serializer<E>& z, const char*) { z.template EvaluateType<T>(GenPair("en", (char&)en), GenPair("a", a), GenPair("b", b), GenPair("g", g), GenPair("c", c), GenPair("f", f), GenPair("str", s), GenPair("s2", s2), GenPair("t", t), GenPair("u", u), GenPair("v", v), GenPair("d", d), GenPair("arr", arr), GenPair("tup", tup), GenPair("in", in), GenPair("list", list), GenPair("i8", i8), GenPair("ch", ch), GenPair("sh", sh), GenPair("u64", u64), GenPair("vv", vv), GenPair("bits", bits), GenPair("by", by), GenPair("db", db), GenPair("fix", fix), GenPair("us", us), GenPair("fl", fl), GenPair("ub", ub), GenPair("var", var), GenPair("map", map), GenPair("il", il), GenPair("sl", sl), GenPair("cl", cl)); }
};
template<class C, class F> static N arr(const C& c, F f) { N n = N::A(); for(auto&& x : c) n.a.push_back(f(x)); return n; }
static N of(const Inner& i) { N n = N::O(); n.put("x", N::I(i.x)); n.put("name", N::S(i.n)); return n; }
static N of(const T& t) { auto I = [](auto x) { return N::I(x); }; auto S = [](auto& x) { return N::S(x); }; N n = N::O();
  n.put("en", N::I(t.en)); n.put("a", N::I(t.a)); n.put("b", N::I(t.b)); n.put("g", N::I(t.g)); n.put("c", N::D(t.c)); n.put("f", N::D(t.f)); n.put("str", N::S(t.s)); n.put("s2", N::S(t.s2)); n.put("t", N::B(t.t)); n.put("u", N::B(t.u)); n.put("v", arr(t.v, I)); n.put("d", arr(t.d, S)); n.put("arr", arr(t.arr, I));
  { N x = N::A(); x.a.push_back(N::I(std::get<0>(t.tup))); x.a.push_back(N::S(std::get<1>(t.tup))); x.a.push_back(N::D(std::get<2>(t.tup))); n.put("tup", x); } n.put("in", of(t.in)); n.put("list", arr(t.list, [](const Inner& i) { return of(i); })); n.put("i8", N::I(t.i8)); n.put("ch", N::I(t.ch)); n.put("sh", N::I(t.sh)); n.put("u64", N::I(t.u64)); n.put("vv", arr(t.vv, [&](auto& x) { return arr(x, I); }));
  { N x = N::A(); for(size_t i = 0; i < t.bits.Length(); ++i) x.a.push_back(N::B(t.bits[i])); n.put("bits", x); } n.put("by", arr(t.by, I)); n.put("db", arr(t.db, I)); n.put("fix", arr(t.fix, I)); n.put("us", arr(t.us, I)); n.put("fl", arr(t.fl, [](float x) { return N::D(x); })); n.put("ub", arr(t.ub, I));
  n.put("var", arr(t.var, [](const VAR& v) { N x = N::O(); x.put("t", N::I(v.tag())); x.put("o", v.is<Inner>() ? of(v.get<Inner>()) : v.is<double>() ? N::D(v.get<double>()) : N()); return x; }));
  { N x = N::O(); std::map<std::string, int> m; for(auto&& [k, v] : const_cast<HM&>(t.map)) m[k] = v; for(auto& e : m) x.put(e.first.c_str(), N::I(e.second)); n.put("map", x); } n.put("il", arr(t.il, I)); n.put("sl", arr(t.sl, I)); n.put("cl", arr(t.cl, I)); return n; }
static const char* const pieces[] = { "a", "word", "\"", "\n", "\xC3\xA9", " ", "{", "]", "N", "S", "\xff", "0" };
static std::string text(sim::Rng& r) { std::string o; int n = r.chance(1, 12) ? (int)r.range(60, 150) : r.chance(1, 150) ? (int)r.range(150, 700) : r.chance(1, 1500) ? (int)r.range(15000, 40000) : (int)r.below(6); for(int i = 0; i < n; ++i) { if(r.chance(1, 16)) o.push_back(0); else o += pieces[r.below(12)]; } return o; }
static int64_t inum(sim::Rng& r) { static const int64_t E[] = { 0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1, INT64_MAX, INT64_MIN, 4294967295ll }; return r.chance(1, 2) ? E[r.below(22)] : (int64_t)(r.next() >> r.below(64)) * (r.chance(1, 2) ? 1 : -1); }
static double dnum(sim::Rng& r) { switch(r.below(4)) { case 0: return (double)r.range(-1000, 1000); case 1: return (double)r.range(-100000, 100000) / 64; case 2: return (double)r.next() * 1e-300; default: return -(double)r.next() * 1e280; } }
static void fill(T& o, sim::Rng& r) { Str x;
  o.en = r.chance(1, 2) ? EN_A : EN_B; o.a = inum(r); o.b = (uint16_t)inum(r); o.g = (uint32_t)inum(r); o.c = dnum(r); o.f = (float)r.range(-100000, 100000) / 8; o.s.assign(text(r)); o.s2 = text(r); o.t = r.chance(1, 2); o.u = r.chance(1, 2); auto n = [&]() { return (int)r.below(r.chance(1, 12) ? 300 : 5); };
  for(int k = n(); k--;) o.v.push_back((int)inum(r)); for(int k = (int)r.below(5); k--;) { x.assign(text(r)); o.d.Add(x); } for(auto& y : o.arr) y = (int)inum(r); x.assign(text(r)); o.tup = std::make_tuple((short)inum(r), x, dnum(r)); o.in.x = (int)inum(r); o.in.n.assign(text(r)); for(int k = (int)r.below(4); k--;) { Inner i; i.x = (int)inum(r); i.n.assign(text(r)); o.list.Add(i); }
  o.i8 = (int8_t)inum(r); o.ch = (char)inum(r); o.sh = (short)inum(r); o.u64 = r.chance(1, 3) ? ~0ull - r.below(9) : (uint64_t)inum(r); for(int j = (int)r.below(4); j--;) { o.vv.push_back({}); for(int k = (int)r.below(4); k--;) o.vv.back().push_back((int)inum(r)); } { bool same = r.chance(1, 3), b = r.chance(1, 2); for(int k = n(); k--;) o.bits.Add(same ? b : r.chance(1, 2)); }
  for(int k = n(); k--;) o.by.push_back((uint8_t)r.next()); for(int k = n(); k--;) o.db.Add((uint8_t)r.next()); for(auto& y : o.fix) y = (uint8_t)r.next(); for(int k = n(); k--;) o.us.Add((uint16_t)inum(r)); for(int k = n(); k--;) o.fl.push_back((float)r.range(-9999, 9999) / 4); for(int k = n(); k--;) o.ub.push_back(r.chance(1, 4) ? ~0ull - r.below(9) : (uint64_t)inum(r));
  for(int k = (int)r.below(4); k--;) { if(r.chance(1, 2)) { Inner i; i.x = (int)inum(r); i.n.assign(text(r)); o.var.push_back(VAR(i)); } else o.var.push_back(VAR(dnum(r))); } for(int k = (int)r.below(5); k--;) { x.assign("k" + std::to_string(r.below(20))); o.map.Insert(x, (int)inum(r)); } for(int k = n(); k--;) o.il.Add(inum(r)); for(int k = n(); k--;) o.sl.Add((short)inum(r)); for(int k = n(); k--;) o.cl.push_back((char)inum(r)); }
static N of(const UBJSONTuple& t) { N n; switch(t.Type) { case UBJSONTuple::TYPE_TRUE: return N::B(true); case UBJSONTuple::TYPE_FALSE: return N::B(false); case UBJSONTuple::TYPE_INT8: return N::I(t.Int8); case UBJSONTuple::TYPE_UINT8: return N::I(t.UInt8); case UBJSONTuple::TYPE_INT16: return N::I(t.Int16); case UBJSONTuple::TYPE_INT32: return N::I(t.Int32); case UBJSONTuple::TYPE_INT64: return N::I(t.Int64); case UBJSONTuple::TYPE_FLOAT: return N::D(t.Float); case UBJSONTuple::TYPE_DOUBLE: return N::D(t.Double); case UBJSONTuple::TYPE_CHAR: return N::S(std::string(1, t.Int8)); case UBJSONTuple::TYPE_STRING: return N::S(std::string(t.String, (size_t)t.Length)); case UBJSONTuple::TYPE_BIGNUM: { __int128 v = 0; for(int64_t i = 0; i < t.Length; ++i) v = v * 10 + (t.String[i] - '0'); return N::I(v); }
  case UBJSONTuple::TYPE_ARRAY: return arr(t.Array, [](const UBJSONTuple& x) { return of(x); }); case UBJSONTuple::TYPE_OBJECT: n = N::O(); for(auto& p : t.Object) n.put(p.first.c_str(), of(p.second)); return n; default: return n; } }
static void shape(N& n, sim::Rng& r, bool unk) { // members in another order, members nobody knows, too many elements for a fixed array
  if(unk) { N x = r.chance(1, 2) ? N::A() : N::O(); for(int k = (int)r.below(4); k--;) if(x.k == N::ARR) x.a.push_back(r.chance(1, 2) ? N::I(inum(r)) : N::S(text(r))); else x.put(("m" + std::to_string(k)).c_str(), r.chance(1, 2) ? N() : N::D(dnum(r))); n.put("unknown", x); n.put("zz", N::S(text(r))); n.put("arrx", N::B(true)); sim::probe(9); if(r.chance(1, 2)) for(auto& p : n.o) { if(p.first == "fix" || p.first == "arr") { p.second.a.push_back(N::I(r.below(100))); p.second.a.push_back(N::I(r.below(100))); sim::probe(12); } if(p.first == "in" || p.first == "list") { if(p.second.k == N::OBJ) p.second.put("q", N::A()); else for(auto& e : p.second.a) e.put("q", N::I(5)); } } }
  if(r.chance(1, 2)) { for(size_t i = n.o.size(); i > 1; --i) std::swap(n.o[i - 1], n.o[(size_t)r.below(i)]); sim::probe(10); } }
static std::string hex(const std::string& s) { std::string o; char b[8]; for(unsigned char c : s) if(c >= 32 && c < 127) o += (char)c; else { snprintf(b, 8, "\\x%02x", c); o += b; } return o.size() > 600 ? o.substr(0, 600) + "..." : o; }
static Serializer<UBJSONEngine>* one; // a serializer that is used again and again
template<class F> static void with(F f) { if(one) { sim::probe(22); f(*one); } else { Serializer<UBJSONEngine> s; f(s); } }
template<class X> static std::string write(const X& v, FSink& k) { std::ostream os(&k); with([&](Serializer<UBJSONEngine>& s) { s.Serialize(v, os); }); if(k.failed) SIM_CHECK(!os.good(), "state", "the sink failed and the stream still claims to be good"); else SIM_CHECK(os.good(), "state", "the stream failed without a failure of the sink"); return k.got; }
void harness_generate(sim::Rng& r, sim::Plan& p) { p.p[0] = (int64_t)r.below(2); p.p[2] = r.range(1, 8); p.p[3] = pickw(r, { 6, 2, 2 }); p.p[4] = (int64_t)r.below(1 << 30); p.p[5] = r.chance(1, 4); p.p[6] = r.chance(1, 3); p.p[7] = r.chance(1, 2); p.add(0, 0); }
void harness_execute(const sim::Plan& p) {
  sim::set_limits(20000000, 40000000); sim::Rng r((uint64_t)p.p[4]); sim::seq(); sim::seq(); std::string at;
  one = r.chance(1, 2) ? new Serializer<UBJSONEngine> : 0; if(one && r.chance(1, 2)) { // it was used before, perhaps without success
    T* o = new T; fill(*o, r); FSink* k = new FSink; std::string od = write(*o, *k); delete k; delete o; FSource* e = new FSource; e->data = od.substr(0, (size_t)r.below(od.size() + 1)); std::istream ei(e); T* g = new T; try { one->Parse(*g, ei); } catch(const std::exception&) {} delete g; delete e; }
  T* t = new T; fill(*t, r); N want = of(*t); std::string doc; std::map<std::string, size_t> done;
  if(p.p[0]) { sim::probe(1); N n = want; shape(n, r, p.p[6] != 0); Enc e(r.next()); e.val(n); doc = e.o; done = e.done; Dec d(doc); N back = d.val(); SIM_CHECK(!d.bad && same(n, back, at), "harness", "the independent writer and reader disagree at %s", at.c_str()); }
  else { sim::probe(0); FSink* k = new FSink; doc = write(*t, *k); delete k; Dec d(doc); N back = d.val(); SIM_CHECK(!d.bad, "format", "the document that was written is not UBJSON after byte %zu: %s", d.p, hex(doc).c_str()); SIM_CHECK(same(want, back, at), "format", "%s in the document that was written is not the value of the object: %s", at.c_str(), hex(doc).c_str()); SIM_CHECK(d.p == doc.size(), "format", "bytes after the end of the document");
    if(p.p[5]) { sim::enable(sim::F_WRITE_ERR); FSink* fs = new FSink; fs->den = 60; write(*t, *fs); if(fs->failed) sim::probe(2); SIM_CHECK(fs->failed ? doc.compare(0, fs->got.size(), fs->got) == 0 : fs->got == doc, "output", "the failing sink holds something that was not written"); delete fs; } }
  for(unsigned char c : doc) sim::mix(c);
  std::string tail = r.chance(1, 3) ? "" : "next"; bool cut = p.p[3] != 0; FSource* so = new FSource; so->data = doc + tail; so->chunk = (size_t)p.p[2] * (size_t)p.p[2]; if(so->chunk > 60) so->chunk = 60; so->r = sim::Rng(r.next()); if(cut) { so->end = (size_t)r.below(doc.size()); so->err = p.p[3] == 2; sim::note_fault(sim::F_TRUNC); sim::probe(so->err ? 4 : 3); }
  uint64_t seed2 = r.next();
  { std::istream in(so); T* g = new T; bool thrown = false; std::string why; try { with([&](Serializer<UBJSONEngine>& s) { s.Parse(*g, in); }); } catch(const std::exception& e) { thrown = true; why = e.what(); }
    N got = of(*g);
    if(!cut) { SIM_CHECK(!thrown, "value", "reading a complete document threw \"%s\": %s", why.c_str(), hex(doc).c_str()); SIM_CHECK(same(want, got, at), "value", "%s came back changed from %s", at.c_str(), hex(doc).c_str()); SIM_CHECK(so->consumed() == doc.size() && in.good() + (tail.empty() ? 1 : 0), "position", "reading a document of %zu bytes took %zu", doc.size(), so->consumed()); sim::probe(20); }
    else { SIM_CHECK(thrown || !in.good(), "state", "the document was cut after %zu of %zu bytes and nothing shows it", so->end, doc.size()); T* zero = new T; N none = of(*zero); delete zero; if(p.p[0]) for(auto& m : want.o) { const N* x = 0; const N* z = 0; for(auto& q : got.o) if(q.first == m.first) x = &q.second; for(auto& q : none.o) if(q.first == m.first) z = &q.second; size_t e = done[m.first]; if(e <= so->end) SIM_CHECK(same(m.second, *x, at), "cut", "member %s had arrived when the document was cut after %zu bytes and is not what it said: %s", m.first.c_str(), so->end, hex(doc).c_str()); else if(m.second.k != N::ARR && m.second.k != N::OBJ) SIM_CHECK(same(*z, *x, at), "invented", "member %s had not arrived completely when the document was cut after %zu bytes and was changed: %s", m.first.c_str(), so->end, hex(doc).c_str()); } }
    delete g; }
  if(p.p[7]) { // without a type, and written again
    FSource* s2 = new FSource; s2->data = doc + tail; s2->chunk = so->chunk; s2->end = so->end; s2->err = so->err; s2->r = sim::Rng(seed2); std::istream in(s2); UBJSONTuple* v = new UBJSONTuple; bool thrown = false; sim::probe(16); try { with([&](Serializer<UBJSONEngine>& s) { s.Parse(*v, in); }); } catch(const std::exception&) { thrown = true; }
    Dec d(doc); N full = d.val(); if(!cut) { SIM_CHECK(!thrown, "untyped", "reading a complete document threw: %s", hex(doc).c_str()); N got = of(*v); SIM_CHECK(same(full, got, at), "untyped", "%s read as UBJSONTuple is not what the document says: %s", at.c_str(), hex(doc).c_str()); SIM_CHECK(s2->consumed() == doc.size(), "position", "reading a document of %zu bytes took %zu", doc.size(), s2->consumed());
      { UBJSONTuple c(*v); UBJSONTuple m(std::move(c)); FSink k; std::string again = write(m, k); Dec d2(again); N back = d2.val(); SIM_CHECK(!d2.bad && d2.p == again.size() && same(full, back, at), "untyped", "%s written from a UBJSONTuple is not what was read: %s", at.c_str(), hex(again).c_str()); sim::probe(17); }
      if(seed2 & 1) { FSource s3; s3.data = doc; std::istream in3(&s3); Serializer<UBJSONEngine> s; s.Parse(*v, in3); N g2 = of(*v); SIM_CHECK(same(full, g2, at), "untyped", "%s read a second time into the same UBJSONTuple is not what the document says", at.c_str()); sim::probe(18); } }
    else SIM_CHECK(thrown || !in.good(), "state", "the document was cut after %zu of %zu bytes and nothing shows it", s2->end, doc.size());
    delete v; delete s2; }
  if(one) { one->out = 0; delete one; one = 0; } delete t; delete so; // its destructor flushes the last stream, which is gone here
}
