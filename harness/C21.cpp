// C21: JSON: what is written is what is read back, however bytes are delivered; cut or failing streams end the read.
#include "iofault.h"
#include "bss-util/JSON.h"
#include "bss-util/Hash.h"
#include <sstream>
#include <iomanip>
using namespace hx; using namespace bss;
extern "C" {
  const char* const harness_probes[] = { "pretty", "nested_3_deep", "foreign_text", "sink_failed", "source_cut", "source_error", "typed_object", "unknown_member_skipped", "members_reordered", "number_as_string", "unicode_escape", "key_with_escape", "null_value", "exponent", "read_after_document", "mangled_document", 0 };
  const char* const harness_real = "JSONEngine, Serializer, JSONValue/Variant, DynArray, Str, Trie, OutputUnicode, real iostream layer";
  const char* const harness_stub = "stream buffers below (failing sink, chunked, cut or failing source)";
}
enum { OPENA, OPENO, CLOSE, STR, NUM, INT, BOOL, NUL };
struct M { int t; std::string s; double d = 0; int64_t i = 0; bool b = false; std::vector<M> a; std::vector<std::string> k; M(int t_ = NUL) : t(t_) {} };
static const char* const pieces[] = { "a", "key", "\"", "\\", "/", "\n", "\t", "\xC3\xA9", "\xE2\x82\xAC", " ", "{", "}", "[", "]", ",", ":", "\b", "\f", "\r", "\xF0\x9F\x98\x80", "\x01", "true", "0", "\\u", "'" };
static std::string text(uint64_t s, bool key) { sim::Rng r(s); std::string o; int n = !key && r.chance(1, 60) ? (int)r.range(60, 600) : (int)r.below(key ? 4 : 7); for(int i = 0; i < n; ++i) { o += pieces[r.chance(1, 2) ? r.below(2) : r.below(25)]; if(r.chance(1, 40) && !key) o.push_back('\0'); } return o; }
static double num(uint64_t s) { sim::Rng r(s); switch(r.below(7)) { case 0: return (double)r.range(-1000, 1000); case 1: return (double)r.range(-100000, 100000) / 64.0; case 2: return (double)(r.next() >> 11) * 1e-9; case 3: return -(double)r.next() * 1e280; case 4: return (double)r.next() * 1e-300; case 5: return 1e20; default: return (double)r.next(); } }
static int64_t inum(uint64_t s) { sim::Rng r(s); switch(r.below(4)) { case 0: return INT64_MIN; case 1: return INT64_MAX; case 2: return r.range(-300, 300); default: return (int64_t)r.next(); } }
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = pickw(r, { 3, 3, 4 }); p.p[1] = (int64_t)r.below(3); p.p[2] = r.range(1, 12); p.p[3] = pickw(r, { 5, 2, 2, 2 }); p.p[4] = (int64_t)r.below(1 << 30); p.p[5] = r.chance(1, 5); p.p[6] = r.range(0, 4);
  bool deep = r.chance(1, 12); p.p[7] = deep ? r.range(6, 60) : 5; int n = deep ? (int)r.range(20, 100) : (int)r.range(1, 24);
  for(int i = 0; i < n; ++i) p.add(0, deep && r.chance(1, 2) ? (int)r.below(2) : (int)pickw(r, { 3, 3, 4, 4, 3, 3, 2, 1 }), (int64_t)r.below(1ull << 40), (int64_t)r.below(1ull << 40));
}
static M build(const sim::Plan& p) { // the tree the operations describe; the root is an object or an array
  M root(p.p[4] & 1 ? OPENA : OPENO); std::vector<M*> st; st.push_back(&root); std::vector<std::vector<int>> path; std::vector<int> cur; // rebuild pointers through paths: vectors grow
  auto at = [&]() { M* m = &root; for(int i : cur) m = &m->a[(size_t)i]; return m; };
  for(auto& o : p.ops) {
    if(o.kind == CLOSE) { if(!cur.empty()) cur.pop_back(); continue; }
    M* m = at(); std::string k;
    if(m->t == OPENO) { k = text((uint64_t)o.b, true); for(auto& x : m->k) if(x == k) { k = "k" + std::to_string(m->k.size()) + "_" + std::to_string(o.b % 97); break; } for(auto& x : m->k) if(x == k) { k = ""; } bool dup = false; for(auto& x : m->k) dup |= x == k; if(dup) continue; }
    M c(o.kind); switch(o.kind) { case STR: c.s = text((uint64_t)o.a, false); break; case NUM: c.d = num((uint64_t)o.a); break; case INT: c.i = inum((uint64_t)o.a); break; case BOOL: c.b = o.a & 1; break; }
    if(m->t == OPENO) m->k.push_back(k); m->a.push_back(c);
    if(o.kind == OPENA || o.kind == OPENO) { if(cur.size() < (size_t)p.p[7]) cur.push_back((int)m->a.size() - 1); if(cur.size() >= 3) sim::probe(1); }
  }
  return root;
}
static JSONValue conv(const M& m) {
  JSONValue v;
  switch(m.t) {
  case OPENA: { JSONValue::JSONArray a; for(auto& x : m.a) a.Add(conv(x)); v = a; break; }
  case OPENO: { JSONValue::JSONObject a; for(size_t i = 0; i < m.a.size(); ++i) a.Add(std::pair<Str, JSONValue>(Str(m.k[i].c_str()), conv(m.a[i]))); v = a; break; }
  case STR: { Str s; s.assign(m.s); v = s; break; }
  case NUM: v = m.d; break; case INT: v = m.i; break; case BOOL: v = m.b; break;
  }
  return v;
}
static std::string esc(const std::string& s) { std::string o; char b[8]; for(unsigned char c : s) if(c >= 32 && c < 127) o += (char)c; else { snprintf(b, 8, "\\x%02x", c); o += b; } return o.size() > 120 ? o.substr(0, 120) + "..." : o; }
static void bad(const char* w, const std::string& path, const std::string& doc) { sim::fail("value", "%s at %s of the document %s", w, path.c_str(), esc(doc).c_str()); }
// exact: every value equal. Otherwise the document was cut: everything but the last value on the path to the cut is equal.
static void same(const JSONValue& v, const M& m, bool exact, const std::string& path, const std::string& doc) {
  bool num = v.is<double>() || v.is<int64_t>();
  if(!exact && v.is<Str>()) { std::string s = v.get<Str>(); if(s.size() >= 3 && (s[s.size() - 3] & 0xff) == 0xed && (s[s.size() - 2] & 0xf0) == 0xa0) s.resize(s.size() - 3); /* first half of a surrogate pair */ if(m.t == STR ? m.s.compare(0, s.size(), s) != 0 : s.find('\xff') != std::string::npos || s.size() > 5) bad(("cut-off value came back as the string " + esc(s)).c_str(), path, doc); return; }
  switch(m.t) {
  case OPENA: { if(!v.is<JSONValue::JSONArray>()) { if(exact || v.tag() != (decltype(v.tag()))-1) bad("not an array", path, doc); return; } auto& a = v.get<JSONValue::JSONArray>(); if(exact ? a.Length() != m.a.size() : a.Length() > m.a.size() + 1) bad(("array of " + std::to_string(a.Length()) + " instead of " + std::to_string(m.a.size()) + " elements").c_str(), path, doc);
    for(size_t i = 0; i < a.Length() && i < m.a.size(); ++i) same(a[i], m.a[i], exact || i + 1 < a.Length(), path + "[" + std::to_string(i) + "]", doc); break; }
  case OPENO: { if(!v.is<JSONValue::JSONObject>()) { if(exact || v.tag() != (decltype(v.tag()))-1) bad("not an object", path, doc); return; } auto& a = v.get<JSONValue::JSONObject>(); if(exact ? a.Length() != m.a.size() : a.Length() > m.a.size()) bad(("object of " + std::to_string(a.Length()) + " instead of " + std::to_string(m.a.size()) + " members").c_str(), path, doc);
    for(size_t i = 0; i < a.Length(); ++i) { bool ex = exact || i + 1 < a.Length(); if(ex && m.k[i] != (const std::string&)a[i].first) bad(("member named " + esc(a[i].first) + " instead of " + esc(m.k[i])).c_str(), path, doc); same(a[i].second, m.a[i], ex, path + "." + esc(m.k[i]), doc); } break; }
  case STR: if(exact && (!v.is<Str>() || (const std::string&)v.get<Str>() != m.s)) bad("wrong string", path, doc); break;
  case NUM: if(exact && (!num || (v.is<double>() ? v.get<double>() : (double)v.get<int64_t>()) != m.d)) bad("wrong number", path, doc); break;
  case INT: if(exact && (!v.is<int64_t>() || v.get<int64_t>() != m.i)) bad("wrong integer", path, doc); break;
  case BOOL: if(exact && (!v.is<bool>() || v.get<bool>() != m.b)) bad("wrong boolean", path, doc); break;
  case NUL: if(exact && v.tag() != (decltype(v.tag()))-1) bad("null is not empty", path, doc); break;
  }
}
// An independent writer with random layout and escapes.
struct Foreign {
  sim::Rng r; std::string o; explicit Foreign(uint64_t s) : r(s) {}
  void ws() { while(r.chance(1, 3)) o += " \n\t\r"[r.below(4)]; }
  void str(const std::string& s, bool key = false) { o += '"'; for(size_t i = 0; i < s.size(); ++i) { unsigned char c = (unsigned char)s[i]; char b[8];
      if(c == '"' || c == '\\') { o += '\\'; o += (char)c; if(key) sim::probe(11); }
      else if(c == '\n' && r.chance(1, 2)) o += "\\n"; else if(c == '\t' && r.chance(1, 2)) o += "\\t"; else if(c == '\b') o += "\\b"; else if(c == '\f') o += "\\f"; else if(c == '\r') o += "\\r"; else if(c == '/' && r.chance(1, 2)) o += "\\/";
      else if(c == 0xC3 && r.chance(1, 2)) { o += r.chance(1, 2) ? "\\u00e9" : "\\u00E9"; ++i; sim::probe(10); }
      else if(c == 0xE2 && r.chance(1, 2)) { o += "\\u20aC"; i += 2; sim::probe(10); }
      else if(c == 0xF0 && r.chance(1, 2)) { o += "\\ud83d\\uDE00"; i += 3; sim::probe(10); }
      else if(c < 0x80 && c && r.chance(1, 12)) { snprintf(b, 8, "\\u%04x", c); o += b; }
      else o += (char)c; } o += '"'; }
  void dbl(double d) { char b[64]; if(r.chance(1, 2)) { snprintf(b, 64, r.chance(1, 2) ? "%.17e" : "%.17E", d); sim::probe(13); } else snprintf(b, 64, "%.17g", d); o += b; }
  void val(const M& m) {
    switch(m.t) {
    case OPENA: o += '['; ws(); for(size_t i = 0; i < m.a.size(); ++i) { if(i) { o += ','; ws(); } val(m.a[i]); ws(); } o += ']'; break;
    case OPENO: o += '{'; ws(); for(size_t i = 0; i < m.a.size(); ++i) { if(i) { o += ','; ws(); } str(m.k[i], true); ws(); o += ':'; ws(); val(m.a[i]); ws(); } o += '}'; break;
    case STR: str(m.s); break; case NUM: dbl(m.d); break; case INT: o += std::to_string(m.i); break; case BOOL: o += m.b ? "true" : "false"; break; case NUL: o += "null"; sim::probe(12); break;
    }
  }
};
struct Inner { int x = 0; Str n; std::vector<bool> unused; bool operator==(const Inner& o) const { return x == o.x && n == o.n; } template<typename E> void Serialize(Serializer<E>& s, const char*) { s.template EvaluateType<Inner>(GenPair("x", x), GenPair("name", n)); } };
struct T {
  int64_t a = 0; uint16_t b = 0; double c = 0; float f = 0; Str s; bool t = false, u = false; std::vector<int> v; DynArray<Str, size_t, ARRAY_SAFE> d; std::array<int, 3> arr = { { 0, 0, 0 } }; std::tuple<short, Str, double> tup; Inner in; DynArray<Inner, uint32_t, ARRAY_SAFE> list; int8_t i8 = 0; uint8_t u8 = 0; uint64_t u64 = 0; float fix[2] = { 0, 0 }; std::vector<std::vector<int>> vv; std::vector<bool> skip;
  template<typename E> void Serialize(Serializer<E>& z, const char*) { z.template EvaluateType<T>(GenPair("a", a), GenPair("b", b), GenPair("c", c), GenPair("f", f), GenPair("str", s), GenPair("t", t), GenPair("u", u), GenPair("v", v), GenPair("d", d), GenPair("arr", arr), GenPair("tup", tup), GenPair("in", in), GenPair("list", list), GenPair("i8", i8), GenPair("u8", u8), GenPair("u64", u64), GenPair("fix", fix), GenPair("vv", vv)); }
};
static void fill(T& o, sim::Rng& r) {
  o.a = inum(r.next()); o.b = (uint16_t)r.next(); o.c = num(r.next()); o.f = (float)r.range(-100000, 100000) / 8; o.s.assign(text(r.next(), false)); o.t = r.chance(1, 2); o.u = r.chance(1, 2);
  for(int n = r.chance(1, 30) ? (int)r.range(20, 300) : (int)r.below(4); n--;) o.v.push_back((int)r.next()); for(int n = (int)r.below(4); n--;) { Str x; x.assign(text(r.next(), false)); o.d.Add(x); } for(auto& x : o.arr) x = (int)r.next();
  Str ts; ts.assign(text(r.next(), false)); o.tup = std::make_tuple((short)r.next(), ts, num(r.next())); o.in.x = (int)r.next(); o.in.n.assign(text(r.next(), false));
  for(int n = (int)r.below(3); n--;) { Inner i; i.x = (int)r.next(); i.n.assign(text(r.next(), false)); o.list.Add(i); } o.i8 = (int8_t)r.next(); o.u8 = (uint8_t)r.next(); o.u64 = r.next(); o.fix[0] = (float)r.range(-99, 99); o.fix[1] = (float)r.range(-99, 99) / 4; for(int n = (int)r.below(3); n--;) { o.vv.push_back(std::vector<int>()); for(int k = (int)r.below(3); k--;) o.vv.back().push_back((int)r.next()); }
}
static const char* differs(const T& x, const T& y) {
#define D(f) if(!(x.f == y.f)) return #f
  D(a); D(b); D(c); D(f); D(s); D(t); D(u); D(v); D(arr); D(tup); D(in); D(i8); D(u8); D(u64); D(fix[0]); D(fix[1]); D(vv); D(d.Length()); D(list.Length());
  for(size_t i = 0; i < x.d.Length(); ++i) D(d[i]); for(uint32_t i = 0; i < x.list.Length(); ++i) D(list[i]); return 0;
}
static std::string foreign_typed(const T& o, sim::Rng& r, const sim::Plan& p) {
  std::vector<std::string> mem; uint64_t fs = r.next(); bool asstr = r.chance(1, 3);
  auto add = [&](const char* k, std::function<void(Foreign&)> f) { Foreign w(fs++); w.str(k); w.ws(); w.o += ':'; w.ws(); f(w); w.ws(); mem.push_back(w.o); };
  auto integer = [&](const char* k, const std::string& s) { add(k, [&](Foreign& w) { if(asstr && w.r.chance(1, 2)) { w.o += '"' + s + '"'; sim::probe(9); } else w.o += s; }); };
  integer("a", std::to_string(o.a)); integer("b", std::to_string(o.b)); add("c", [&](Foreign& w) { w.dbl(o.c); }); add("f", [&](Foreign& w) { w.dbl(o.f); }); add("str", [&](Foreign& w) { w.str(o.s); }); add("t", [&](Foreign& w) { w.o += o.t ? "true" : "false"; }); add("u", [&](Foreign& w) { w.o += o.u ? (w.r.chance(1, 3) ? "1" : "true") : (w.r.chance(1, 3) ? "0" : "false"); });
  auto list = [](Foreign& w, size_t n, std::function<void(size_t)> f) { w.o += '['; w.ws(); for(size_t i = 0; i < n; ++i) { if(i) { w.o += ','; w.ws(); } f(i); w.ws(); } w.o += ']'; };
  auto inner = [&](Foreign& w, const Inner& in) { bool sw = w.r.chance(1, 2); w.o += '{'; for(int k = 0; k < 2; ++k) { if(k) w.o += ','; w.ws(); if((k == 0) != sw) { w.o += "\"x\""; w.ws(); w.o += ':'; w.ws(); w.o += std::to_string(in.x); } else { w.o += "\"name\":"; w.ws(); w.str(in.n); } w.ws(); } w.o += '}'; };
  add("v", [&](Foreign& w) { list(w, o.v.size(), [&](size_t i) { w.o += std::to_string(o.v[i]); }); }); add("d", [&](Foreign& w) { list(w, o.d.Length(), [&](size_t i) { w.str(o.d[i]); }); });
  add("arr", [&](Foreign& w) { size_t extra = w.r.chance(1, 3); list(w, 3 + extra, [&](size_t i) { w.o += i < 3 ? std::to_string(o.arr[i]) : "77"; }); });
  add("tup", [&](Foreign& w) { list(w, 3, [&](size_t i) { if(i == 0) w.o += std::to_string(std::get<0>(o.tup)); else if(i == 1) w.str(std::get<1>(o.tup)); else w.dbl(std::get<2>(o.tup)); }); }); add("in", [&](Foreign& w) { inner(w, o.in); }); add("list", [&](Foreign& w) { list(w, o.list.Length(), [&](size_t i) { inner(w, o.list[(uint32_t)i]); }); });
  integer("i8", std::to_string((int)o.i8)); integer("u8", std::to_string((int)o.u8)); integer("u64", std::to_string(o.u64)); add("fix", [&](Foreign& w) { list(w, 2, [&](size_t i) { w.dbl(o.fix[i]); }); }); add("vv", [&](Foreign& w) { list(w, o.vv.size(), [&](size_t j) { list(w, o.vv[j].size(), [&](size_t i) { w.o += std::to_string(o.vv[j][i]); }); }); });
  if(r.chance(1, 2)) { M u = build(p); for(int n = (int)r.range(1, 2); n--;) add(n ? "zzz" : "unknown", [&](Foreign& w) { w.val(u); }); sim::probe(7); }
  if(r.chance(1, 2)) { for(size_t i = mem.size(); i > 1; --i) std::swap(mem[i - 1], mem[(size_t)r.below(i)]); sim::probe(8); }
  Foreign w(r.next()); w.ws(); w.o += '{'; for(size_t i = 0; i < mem.size(); ++i) { if(i) w.o += ','; w.ws(); w.o += mem[i]; } w.o += '}'; return w.o;
}
template<class V> static std::string write(const V& v, const sim::Plan& p, size_t pretty, FSink& sk) { std::ostream os(&sk); os << std::setprecision(17); WriteJSON<V>(v, os, pretty); if(sk.failed) SIM_CHECK(!os.good(), "state", "the sink failed and the stream still claims to be good"); else SIM_CHECK(os.good(), "state", "the stream failed without a failure of the sink"); return sk.got; }
void harness_execute(const sim::Plan& p) {
  sim::set_limits(20000000, 40000000); sim::Rng r((uint64_t)p.p[4]); size_t pretty = p.p[1] == 1; if(pretty) sim::probe(0);
  for(auto& o : p.ops) { sim::seq(); sim::mix((uint64_t)o.kind * 31 + (uint64_t)o.a); }
  M* m = new M(build(p)); JSONValue* v = 0; T* t = 0; std::string doc;
  if(p.p[0] == 2) { t = new T; fill(*t, r); sim::probe(6); } else v = new JSONValue(conv(*m));
  if(p.p[0] == 1 || (p.p[0] == 2 && p.p[1] == 2)) { sim::probe(2); if(t) doc = foreign_typed(*t, r, p); else { Foreign w(r.next()); w.ws(); w.val(*m); doc = w.o; } }
  else {
    FSink* sk = new FSink; doc = t ? write(*t, p, pretty, *sk) : write(*v, p, pretty, *sk); delete sk;
    if(p.p[5] && doc.size()) { sim::enable(sim::F_WRITE_ERR); FSink* fs = new FSink; fs->den = 60; if(t) write(*t, p, pretty, *fs); else write(*v, p, pretty, *fs); if(fs->failed) sim::probe(3); SIM_CHECK(fs->failed ? doc.compare(0, fs->got.size(), fs->got) == 0 : fs->got == doc, "output", "the failing sink holds something that was not written"); delete fs; }
  }
  sim::logf("document %s", esc(doc).c_str()); for(unsigned char c : doc) sim::mix(c);
  FSource* so = new FSource; so->data = doc; bool tail = p.p[3] == 0 && r.chance(1, 3); if(tail) so->data += " trailer"; so->chunk = (size_t)p.p[2] * (size_t)p.p[2]; if(so->chunk > 60) so->chunk = 60; so->r = sim::Rng(r.next());
  bool mangled = p.p[3] == 3; if(mangled && doc.size()) { for(int n = (int)r.range(1, 4); n--;) { sim::note_fault(sim::F_FLIP); size_t at = (size_t)r.below(so->data.size()); switch(r.below(3)) { case 0: so->data[at] = (char)r.below(256); break; case 1: so->data.erase(at, 1 + (size_t)r.below(3)); break; default: so->data.insert(at, 1, "{}[],:\"\\0-"[r.below(10)]); } if(so->data.empty()) so->data = "["; } sim::probe(15); }
  bool cut = p.p[3] == 1 || p.p[3] == 2; if(cut) { so->end = (size_t)r.below(doc.size()); so->err = p.p[3] == 2; if(!so->err) sim::note_fault(sim::F_TRUNC); sim::probe(so->err ? 5 : 4); }
  std::istream in(so); JSONValue* got = 0; T* gt = 0;
  if(t) { gt = new T; gt->t = !t->t; gt->u = !t->u; gt->a = 77; gt->b = 9; gt->i8 = 3; gt->u64 = 5; gt->f = 2; ParseJSON<T>(*gt, in); } else { got = new JSONValue(); ParseJSON<JSONValue>(*got, in); }
  if(mangled) ; /* any outcome, but it ends and touches only its own memory */
  else if(!cut) {
    if(t) { const char* w = differs(*gt, *t); SIM_CHECK(!w, "value", "member %s of the object came back changed from the document %s", w, doc.substr(0, 1500).c_str()); } else same(*got, *m, true, "root", doc);
    if(tail) { std::string w; in.clear(in.rdstate() & ~std::ios::eofbit); in >> w; sim::probe(14); SIM_CHECK(w == "trailer", "consumed", "reading the document consumed more or less than the document: next is '%s'", w.c_str()); }
  } else { if(!t) same(*got, *m, false, "root", doc); if(so->err && so->hit) SIM_CHECK(!in.good(), "state", "the source failed and the stream still claims to be good"); }
  delete got; delete gt; delete v; delete t; delete m; delete so;
}
