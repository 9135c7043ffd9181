// C26: TOML: a serializable object written as TOML reads back unchanged, however bytes are delivered; documents written elsewhere give what they say; failures end the load and are visible.
#include "iofault.h"
#include "bss-util/TOML.h"
#include <sstream>
#include <iomanip>
#include <fstream>
using namespace hx; using namespace bss;
extern "C" {
  const char* const harness_probes[] = { "written_by_library", "foreign_text", "sink_failed", "source_cut", "source_error", "literal_string", "multiline_string", "unicode_escape", "inline_table", "table_section", "table_array", "unknown_member", "comments", "mangled_document", "multiline_array", "date_with_zone", "members_reordered", "crlf", "quoted_number", "error_as_exception", "untyped", 0 };
  const char* const harness_real = "TOMLEngine, Serializer, DynArray, Str, real iostream layer";
  const char* const harness_stub = "streams below (chunked, cut, failing, damaged sources; failing sinks)";
}
static const char* const pieces[] = { "a", "word", "\"", "\\", "/", "\n", "\t", "\xC3\xA9", "\xE2\x82\xAC", " ", "{", "}", "[", "]", ",", "=", "\b", "\f", "\r", "\xF0\x9F\x98\x80", "#", "true", "0", "'", "." };
static std::string text(uint64_t s) { sim::Rng r(s); std::string o; int n = r.chance(1, 60) ? (int)r.range(60, 600) : (int)r.below(7); for(int i = 0; i < n; ++i) o += pieces[r.chance(1, 2) ? r.below(2) : r.below(25)]; return o; }
static double num(uint64_t s) { sim::Rng r(s); switch(r.below(6)) { case 0: return (double)r.range(-1000, 1000); case 1: return (double)r.range(-100000, 100000) / 64.0; case 2: return (double)(r.next() >> 11) * 1e-9; case 3: return -(double)r.next() * 1e280; case 4: return (double)r.next() * 1e-300; default: return (double)r.next(); } }
static int64_t inum(uint64_t s) { sim::Rng r(s); switch(r.below(4)) { case 0: return INT64_MIN; case 1: return INT64_MAX; case 2: return r.range(-300, 300); default: return (int64_t)r.next(); } }
static std::string esc(const std::string& s) { std::string o; char b[8]; for(unsigned char c : s) if(c >= 32 && c < 127) o += (char)c; else { snprintf(b, 8, "\\x%02x", c); o += b; } return o.size() > 900 ? o.substr(0, 900) + "..." : o; }
typedef std::chrono::system_clock::time_point TP;
struct Inner { int x = 0; Str n; bool operator==(const Inner& o) const { return x == o.x && n == o.n; } template<typename E> void Serialize(Serializer<E>& s, const char*) { s.template EvaluateType<Inner>(GenPair("x", x), GenPair("name", n)); } };
struct Mid { int64_t k = 0; Inner deep; std::vector<int> w; bool operator==(const Mid& o) const { return k == o.k && deep == o.deep && w == o.w; } template<typename E> void Serialize(Serializer<E>& s, const char*) { s.template EvaluateType<Mid>(GenPair("k", k), GenPair("deep", deep), GenPair("w", w)); } };
struct T {
  int64_t a = 0; uint16_t b = 0; double c = 0; float f = 0; Str s; bool t = false, u = false; std::vector<int> v; DynArray<Str, size_t, ARRAY_SAFE> d; std::array<int, 3> arr = { { 0, 0, 0 } }; std::tuple<short, Str, double> tup; Inner in; DynArray<Inner, uint32_t, ARRAY_SAFE> list; int8_t i8 = 0; uint64_t u64 = 0; std::vector<std::vector<int>> vv; Mid mid; TP date;
  template<typename E> void Serialize(Serializer<E>& z, const char*) { z.template EvaluateType<T>(GenPair("a", a), GenPair("b", b), GenPair("c", c), GenPair("f", f), GenPair("str", s), GenPair("t", t), GenPair("u", u), GenPair("v", v), GenPair("d", d), GenPair("arr", arr), GenPair("tup", tup), GenPair("in", in), GenPair("list", list), GenPair("i8", i8), GenPair("u64", u64), GenPair("vv", vv), GenPair("mid", mid), GenPair("date", date)); }
};
static void fill(T& o, sim::Rng& r) {
  o.a = inum(r.next()); o.b = (uint16_t)r.next(); o.c = num(r.next()); o.f = (float)r.range(-100000, 100000) / 8; o.s.assign(text(r.next())); o.t = r.chance(1, 2); o.u = r.chance(1, 2);
  for(int n = r.chance(1, 30) ? (int)r.range(20, 300) : (int)r.below(4); n--;) o.v.push_back((int)r.next()); for(int n = (int)r.below(4); n--;) { Str x; x.assign(text(r.next())); o.d.Add(x); } for(auto& x : o.arr) x = (int)r.next();
  Str ts; ts.assign(text(r.next())); o.tup = std::make_tuple((short)r.next(), ts, num(r.next())); o.in.x = (int)r.next(); o.in.n.assign(text(r.next()));
  for(int n = (int)r.below(4); n--;) { Inner i; i.x = (int)r.next(); i.n.assign(text(r.next())); o.list.Add(i); } o.i8 = (int8_t)r.next(); o.u64 = r.next(); for(int n = (int)r.below(3); n--;) { o.vv.push_back(std::vector<int>()); for(int k = (int)r.below(3); k--;) o.vv.back().push_back((int)r.next()); }
  o.mid.k = inum(r.next()); o.mid.deep.x = (int)r.next(); o.mid.deep.n.assign(text(r.next())); for(int n = (int)r.below(3); n--;) o.mid.w.push_back((int)r.next());
  o.date = TP(std::chrono::seconds(r.range(-2000000000ll, 4000000000ll)));
}
static const char* differs(const T& x, const T& y, const char* only = 0) {
#define D(f, k) if((!only || !strcmp(only, k)) && !(x.f == y.f)) return #f
  D(a, "a"); D(b, "b"); D(c, "c"); D(f, "f"); D(s, "str"); D(t, "t"); D(u, "u"); D(v, "v"); D(arr, "arr"); D(tup, "tup"); D(i8, "i8"); D(u64, "u64"); D(vv, "vv"); D(date, "date"); D(d.Length(), "d"); D(list.Length(), "list"); D(in, "[in]"); D(mid, "[mid]");
  if(!only || !strcmp(only, "d")) for(size_t i = 0; i < x.d.Length(); ++i) D(d[i], "d"); if(!only || !strcmp(only, "list")) for(uint32_t i = 0; i < x.list.Length(); ++i) D(list[i], "list"); return 0;
}
// The same document read without a type
typedef TOMLValue V; typedef V::TOMLTable Tab; typedef V::TOMLArray Arr;
static V* key(V* t, const char* k) { return t && t->is<Tab>() ? t->get<Tab>()[Str(k)] : 0; }
static bool isnum(const V* v, double d) { if(!v) return false; if(v->is<int64_t>()) return (double)v->get<int64_t>() == d; return v->is<double>() && v->get<double>() == d; }
static bool isint(const V* v, int64_t i) { if(i > (1ll << 53) || i < -(1ll << 53)) return isnum(v, (double)i); return v && v->is<int64_t>() && v->get<int64_t>() == i; }
static bool isstr(const V* v, const Str& s) { return v && v->is<Str>() && v->get<Str>() == s; }
static bool isbool(const V* v, bool b) { return v && v->is<bool>() && v->get<bool>() == b; }
template<class C, class F> static bool isarr(V* v, const C& c, size_t n, F f) { if(!v) return false; if(!v->is<Arr>()) return false; Arr& a = v->get<Arr>(); if(a.Length() != n) return false; for(size_t i = 0; i < n; ++i) if(!f(&a[i], i)) return false; return true; }
static bool isinner(V* v, const Inner& i) { return isint(key(v, "x"), i.x) && isstr(key(v, "name"), i.n); }
static const char* domdiff(V* v, const T& t) {
#define Q(k, e) { V* m = key(v, k); (void)m; if(!(e)) return k; }
  Q("a", isint(m, t.a)); Q("b", isint(m, t.b)); Q("c", isnum(m, t.c)); Q("f", isnum(m, (double)t.f)); Q("str", isstr(m, t.s)); Q("t", isbool(m, t.t)); Q("u", isbool(m, t.u)); Q("v", isarr(m, t.v, t.v.size(), [&](V* x, size_t i) { return isint(x, t.v[i]); })); Q("d", isarr(m, t.d, t.d.Length(), [&](V* x, size_t i) { return isstr(x, t.d[i]); }));
  Q("arr", isarr(m, t.arr, 3, [&](V* x, size_t i) { return isint(x, t.arr[i]); })); Q("tup", isarr(m, t.arr, 3, [&](V* x, size_t i) { return i == 0 ? isint(x, std::get<0>(t.tup)) : i == 1 ? isstr(x, std::get<1>(t.tup)) : isnum(x, std::get<2>(t.tup)); })); Q("in", isinner(m, t.in)); Q("i8", isint(m, t.i8)); Q("u64", isnum(m, (double)t.u64)); Q("mid", isint(key(m, "k"), t.mid.k) && isinner(key(m, "deep"), t.mid.deep) && isarr(key(m, "w"), t.mid.w, t.mid.w.size(), [&](V* x, size_t i) { return isint(x, t.mid.w[i]); }));
  Q("list", isarr(m, t.list, t.list.Length(), [&](V* x, size_t i) { return isinner(x, t.list[(uint32_t)i]); })); Q("vv", isarr(m, t.vv, t.vv.size(), [&](V* x, size_t j) { return isarr(x, t.vv, t.vv[j].size(), [&](V* y, size_t i) { return isint(y, t.vv[j][i]); }); })); return 0;
}
// An independent writer of the same object with random layout
struct Foreign {
  bool quoted = true; sim::Rng r; std::string o; const char* nl; explicit Foreign(uint64_t s) : r(s) { nl = r.chance(1, 4) ? "\r\n" : "\n"; if(nl[1]) sim::probe(17); }
  void sp() { while(r.chance(1, 3)) o += " \t"[r.below(2)]; }
  void noise() { while(r.chance(1, 6)) { static const char* const N[] = { "# comment", "", "  ", "# [in]", "\t# a = 5", "#" }; o += N[r.below(6)]; o += nl; sim::probe(12); } }
  void eol() { if(r.chance(1, 6)) { o += " # note, [x] \"y\""; sim::probe(12); } o += nl; noise(); }
  void str(const std::string& s) {
    bool ctl = s.find_first_of("\n\r\b\f") != std::string::npos; int how = (int)r.below(4);
    if(how == 1 && !ctl && s.find('\'') == std::string::npos) { o += "'" + s + "'"; sim::probe(5); return; }
    if(how == 2 && s.find("'") == std::string::npos && s.find_first_of("\r\b\f") == std::string::npos) { o += "'''"; if(r.chance(1, 2) || (s.size() && s[0] == '\n')) o += '\n'; o += s + "'''"; sim::probe(6); return; }
    bool multi = how == 3; o += multi ? "\"\"\"" : "\""; if(multi) { sim::probe(6); if(r.chance(1, 2)) o += '\n'; else if(s.size() && s[0] == '\n') o += '\n'; }
    for(size_t i = 0; i < s.size(); ++i) { unsigned char c = (unsigned char)s[i]; char b[16];
      if(multi && r.chance(1, 10)) { o += "\\\n"; sp(); if(c == ' ' || c == '\t') { snprintf(b, 16, "\\u%04x", c); o += b; continue; } }
      if(c == '"' && multi && r.chance(1, 2) && i + 1 < s.size() && s[i + 1] != '"' && (!i || s[i - 1] != '"')) { o += '"'; continue; }
      if(c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if(c == '\n') { if(multi && r.chance(1, 2)) o += '\n'; else o += "\\n"; } else if(c == '\t' && r.chance(1, 2)) o += "\\t"; else if(c == '\b') o += "\\b"; else if(c == '\f') o += "\\f"; else if(c == '\r') o += "\\r";
      else if(c == 0xC3 && r.chance(1, 2)) { o += r.chance(1, 2) ? "\\u00e9" : "\\U000000E9"; ++i; sim::probe(7); } else if(c == 0xE2 && r.chance(1, 2)) { o += "\\u20aC"; i += 2; sim::probe(7); } else if(c == 0xF0 && r.chance(1, 2)) { o += "\\U0001F600"; i += 3; sim::probe(7); }
      else o += (char)c; }
    o += multi ? "\"\"\"" : "\"";
  }
  void integer(const std::string& s) { if(quoted && r.chance(1, 8)) { o += '"' + s + '"'; sim::probe(18); return; } if(s[0] != '-' && r.chance(1, 6)) o += '+'; o += s; }
  void dbl(double d) { char b[64]; snprintf(b, 64, r.chance(1, 2) ? "%.17g" : r.chance(1, 2) ? "%.17e" : "%.17E", d); o += b; }
  void asp() { if(r.chance(1, 8)) { o += nl; sim::probe(14); } sp(); if(r.chance(1, 12)) { o += "# in, [an] array"; o += nl; sim::probe(14); } }
  void list(size_t n, std::function<void(size_t)> f, bool open = true) { o += '['; if(open) asp(); for(size_t i = 0; i < n; ++i) { if(i) { o += ','; if(open) asp(); } f(i); sp(); } if(n && open && r.chance(1, 6)) o += ','; o += ']'; }
  void kv(const char* k, std::function<void()> f, bool line = true) { if(line) sp(); if(r.chance(1, 8)) { o += r.chance(1, 2) ? std::string("\"") + k + "\"" : std::string("'") + k + "'"; } else o += k; sp(); o += '='; sp(); f(); if(line) { sp(); eol(); } }
  void inner(const Inner& i, bool line) { bool sw = r.chance(1, 2); for(int k = 0; k < 2; ++k) { if(k && !line) { o += ','; sp(); } if((k == 0) != sw) kv("x", [&]() { integer(std::to_string(i.x)); }, line); else kv("name", [&]() { if(line) str(i.n); else { std::string t = i.n; plain(t); } }, line); } }
  void plain(const std::string& s) { int h = 0; for(unsigned char c : s) h |= c < 32; if(!h && r.chance(1, 3) && s.find('\'') == std::string::npos) { o += "'" + s + "'"; sim::probe(5); return; } o += '"'; for(unsigned char c : s) switch(c) { case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\n': o += "\\n"; break; case '\t': o += "\\t"; break; case '\r': o += "\\r"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; default: o += (char)c; } o += '"'; }
  void tab(std::function<void()> f) { o += '{'; sp(); f(); sp(); o += '}'; sim::probe(8); }
  void date(TP t) { long z = r.chance(1, 2) ? 0 : (long)r.range(-720, 720); time_t s = std::chrono::system_clock::to_time_t(t) + z * 60; struct tm q; gmtime_r(&s, &q); char b[64]; strftime(b, 64, "%Y-%m-%dT%H:%M:%S", &q); o += b; if(!z && r.chance(1, 2)) { o += 'Z'; } else { snprintf(b, 64, "%c%02ld:%02ld", z < 0 ? '-' : '+', labs(z) / 60, labs(z) % 60); o += b; if(z) sim::probe(15); } }
  void doc(const T& t, uint64_t unk) {
    std::vector<std::function<void()>> m; bool inl = r.chance(1, 2), midl = r.chance(1, 2), lst = r.chance(1, 2) || !t.list.Length();
    auto num = [&](const char* k, std::string s) { m.push_back([this, k, s]() { kv(k, [&]() { integer(s); }); }); };
    num("a", std::to_string(t.a)); num("b", std::to_string(t.b)); num("i8", std::to_string((int)t.i8)); num("u64", std::to_string(t.u64)); m.push_back([&]() { kv("c", [&]() { dbl(t.c); }); }); m.push_back([&]() { kv("f", [&]() { dbl(t.f); }); }); m.push_back([&]() { kv("str", [&]() { str(t.s); }); });
    m.push_back([&]() { kv("t", [&]() { o += t.t ? "true" : "false"; }); }); m.push_back([&]() { kv("u", [&]() { o += t.u ? "true" : "false"; }); }); m.push_back([&]() { kv("v", [&]() { list(t.v.size(), [&](size_t i) { integer(std::to_string(t.v[i])); }); }); }); m.push_back([&]() { kv("d", [&]() { list(t.d.Length(), [&](size_t i) { str(t.d[i]); }); }); });
    m.push_back([&]() { kv("arr", [&]() { list(3, [&](size_t i) { integer(std::to_string(t.arr[i])); }); }); }); m.push_back([&]() { kv("vv", [&]() { list(t.vv.size(), [&](size_t j) { list(t.vv[j].size(), [&](size_t i) { integer(std::to_string(t.vv[j][i])); }); }); }); });
    m.push_back([&]() { kv("tup", [&]() { list(3, [&](size_t i) { if(i == 0) integer(std::to_string(std::get<0>(t.tup))); else if(i == 1) str(std::get<1>(t.tup)); else dbl(std::get<2>(t.tup)); }); }); }); m.push_back([&]() { kv("date", [&]() { date(t.date); }); });
    if(inl) m.push_back([&]() { kv("in", [&]() { tab([&]() { inner(t.in, false); }); }); }); if(midl) m.push_back([&]() { kv("mid", [&]() { tab([&]() { kv("k", [&]() { integer(std::to_string(t.mid.k)); }, false); o += ", "; kv("deep", [&]() { tab([&]() { inner(t.mid.deep, false); }); }, false); o += ", "; kv("w", [&]() { list(t.mid.w.size(), [&](size_t i) { integer(std::to_string(t.mid.w[i])); }, false); }, false); }); }); });
    if(lst) m.push_back([&]() { kv("list", [&]() { list(t.list.Length(), [&](size_t i) { tab([&]() { inner(t.list[(uint32_t)i], false); }); }); }); });
    if(unk) { m.push_back([&]() { kv("zzz", [&]() { integer("5"); }); }); m.push_back([&]() { kv("unknown", [&]() { if(unk & 1) plain("x = y"); else list(2, [&](size_t i) { integer(std::to_string(i)); }, false); }); }); sim::probe(11); }
    if(r.chance(1, 2)) { for(size_t i = m.size(); i > 1; --i) std::swap(m[i - 1], m[(size_t)r.below(i)]); sim::probe(16); }
    noise(); for(auto& f : m) f();
    std::vector<std::function<void()>> q; auto head = [this](const char* h) { o += h; eol(); sim::probe(9); };
    if(!inl) q.push_back([&]() { head("[in]"); inner(t.in, true); });
    if(!midl) q.push_back([&]() { head("[mid]"); kv("k", [&]() { integer(std::to_string(t.mid.k)); }); kv("w", [&]() { list(t.mid.w.size(), [&](size_t i) { integer(std::to_string(t.mid.w[i])); }); }); if(r.chance(1, 2)) { head("[mid.deep]"); inner(t.mid.deep, true); } else kv("deep", [&]() { tab([&]() { inner(t.mid.deep, false); }); }); });
    if(!lst) q.push_back([&]() { for(uint32_t i = 0; i < t.list.Length(); ++i) { o += "[[list]]"; eol(); sim::probe(10); inner(t.list[i], true); } });
    if(unk & 2) q.push_back([&]() { head("[other]"); kv("a", [&]() { integer("1"); }); kv("x", [&]() { plain("y"); }); });
    for(size_t i = q.size(); i > 1; --i) std::swap(q[i - 1], q[(size_t)r.below(i)]); for(auto& f : q) f();
  }
};
static std::string write(const T& v, FSink& sk) { std::ostream os(&sk); os << std::setprecision(17); WriteTOML<T>(v, os); if(sk.failed) SIM_CHECK(!os.good(), "state", "the sink failed and the stream still claims to be good"); else SIM_CHECK(os.good(), "state", "the stream failed without a failure of the sink"); return sk.got; }
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = (int64_t)r.below(2); p.p[2] = r.range(1, 8); p.p[3] = pickw(r, { 6, 2, 2, 3 }); p.p[4] = (int64_t)r.below(1 << 30); p.p[5] = r.chance(1, 5); p.p[6] = r.chance(1, 2) ? (int64_t)r.range(1, 3) : 0; p.p[7] = r.chance(1, 2);
  p.add(0, 0);
}
void harness_execute(const sim::Plan& p) {
  sim::set_limits(20000000, 40000000); sim::Rng r((uint64_t)p.p[4]); sim::seq(); sim::seq();
  T* t = new T; fill(*t, r); std::string doc;
  if(p.p[0]) { sim::probe(1); Foreign w(r.next()); w.quoted = !p.p[7]; w.doc(*t, (uint64_t)p.p[6]); doc = w.o; }
  else { sim::probe(0); FSink* sk = new FSink; doc = write(*t, *sk); delete sk;
    if(p.p[5]) { sim::enable(sim::F_WRITE_ERR); FSink* fs = new FSink; fs->den = 60; write(*t, *fs); if(fs->failed) sim::probe(2); SIM_CHECK(fs->failed ? doc.compare(0, fs->got.size(), fs->got) == 0 : fs->got == doc, "output", "the failing sink holds something that was not written"); delete fs; } }
  sim::logf("document %s", doc.c_str()); for(unsigned char c : doc) sim::mix(c);
  FSource* so = new FSource; so->data = doc; so->chunk = (size_t)p.p[2] * (size_t)p.p[2]; if(so->chunk > 60) so->chunk = 60; so->r = sim::Rng(r.next());
  bool mangled = p.p[3] == 3; if(mangled) { for(int n = (int)r.range(1, 4); n--;) { sim::note_fault(sim::F_FLIP); size_t at = (size_t)r.below(so->data.size()); switch(r.below(3)) { case 0: so->data[at] = (char)r.below(256); break; case 1: so->data.erase(at, 1 + (size_t)r.below(3)); break; default: so->data.insert(at, 1, "{}[],=\"\\0-'#."[r.below(13)]); } if(so->data.empty()) so->data = "["; } sim::probe(13); sim::logf("mangled %s", so->data.c_str()); }
  bool cut = p.p[3] == 1 || p.p[3] == 2; if(cut) { so->end = (size_t)r.below(doc.size()); so->err = p.p[3] == 2; if(!so->err) sim::note_fault(sim::F_TRUNC); sim::probe(so->err ? 4 : 3); }
  std::istream in(so); T* gt = new T; if(!cut) { gt->t = !t->t; gt->u = !t->u; gt->a = 77; gt->b = 9; gt->i8 = 3; gt->u64 = 5; gt->f = 2; }
  bool thrown = false; try { ParseTOML<T>(*gt, in); } catch(const std::exception&) { if(!so->err || !so->hit) throw; thrown = true; sim::probe(19); } // dates are read through iterators of the buffer, whose read errors arrive as exceptions
  if(mangled) ; /* any outcome, but it ends and touches only its own memory */
  else if(!cut) { const char* w = differs(*gt, *t); SIM_CHECK(!w, "value", "member %s of the object came back changed from the document %s", w, esc(doc).c_str()); }
  else {
    if(!p.p[0]) { std::string sec; size_t at = 0; // every line of a document of the library that was delivered completely counts
      for(size_t e; (e = doc.find('\n', at)) != std::string::npos && e < so->end; at = e + 1) { std::string l = doc.substr(at, e - at); if(l.empty()) continue; if(l[0] == '[') { if(sec.size() && sec != "[mid.deep]") { const char* w = sec == "[mid]" ? 0 : differs(*gt, *t, sec.c_str()); SIM_CHECK(!w, "cut", "member %s was delivered completely and came back changed from %s", w, esc(doc).c_str()); } sec = l; continue; } size_t k = l.find(" = "); if(k == std::string::npos || sec.size()) continue; const char* w = differs(*gt, *t, l.substr(0, k).c_str()); SIM_CHECK(!w, "cut", "member %s was delivered completely and came back changed; %zu of %zu bytes of %s", w, so->end, doc.size(), esc(doc).c_str()); } }
    auto odd = [](const Str& s) { for(unsigned char c : (const std::string&)s) if(c == 0xff) return true; return false; };
    SIM_CHECK(!odd(gt->s) && !odd(gt->in.n) && !odd(gt->mid.deep.n) && !odd(std::get<1>(gt->tup)), "invented", "a string contains a character that was never in the document %s", esc(doc.substr(0, so->end)).c_str()); for(auto& x : gt->d) SIM_CHECK(!odd(x), "invented", "a string contains a character that was never in the document"); for(auto& x : gt->list) SIM_CHECK(!odd(x.n), "invented", "a string contains a character that was never in the document");
    if(so->err && so->hit) SIM_CHECK(thrown || !in.good(), "state", "the source failed and the stream still claims to be good"); }
  if(p.p[7]) { FSource* s2 = new FSource; s2->data = so->data; s2->chunk = so->chunk; s2->end = so->end; s2->r = sim::Rng(r.next()); std::istream in2(s2); V* v = new V; ParseTOML<V>(*v, in2); sim::probe(20); if(!mangled && !cut) { const char* w = domdiff(v, *t); SIM_CHECK(!w, "untyped", "member %s read as TOMLValue differs from the document %s", w, esc(doc).c_str()); if(r.chance(1, 2)) { V* c = new V((const V&)*v); delete v; v = c; w = domdiff(v, *t); SIM_CHECK(!w, "untyped_copy", "member %s of a copy of the TOMLValue differs from the document %s", w, esc(doc).c_str()); } } delete v; delete s2; }
  delete gt; delete t; delete so;
}
