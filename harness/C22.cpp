// C22: XML: what is written is what is read back, however bytes are delivered; cut, failing or damaged streams end the read.
#include "iofault.h"
#include "bss-util/XML.h"
#include <sstream>
#include <iomanip>
using namespace hx; using namespace bss;
extern "C" {
  const char* const harness_probes[] = { "pretty", "nested_3_deep", "foreign_text", "sink_failed", "source_cut", "source_error", "typed_object", "mangled_document", "repeated_names", "prolog", "comment", "entity", "attribute_with_specials", "copied_or_moved", "edited", "value_set", "spelled_differently", "node_cleared", "serializer_reused", 0 };
  const char* const harness_real = "XMLFile, XMLNode, XMLValue, XMLEngine, Serializer, DynArray, Hash, Str, real iostream layer";
  const char* const harness_stub = "stream buffers below (failing sink, chunked, cut or failing source)";
}
enum { OPEN, CLOSE, ATTR, TEXT };
struct M { std::string name, text; std::vector<std::pair<std::string, std::string>> at; std::vector<M> kid; };
static const char* const names[] = { "a", "b", "node", "x-y", "ns:q", "n_1", "nod" };
static const char* const pieces[] = { "a", "word", "\"", "&", "<", ">", "'", " ", "\n", "\xC3\xA9", "\xE2\x82\xAC", "12", "=", "/", "\\", "&lt;", "-->", "\t", "]]", "?>", "#", ";", "\xF0\x9F\x98\x80" };
static std::string number(sim::Rng& r) { char b[80]; uint64_t v = r.below(1ull << 62) >> r.below(63); switch(r.below(7)) { case 0: snprintf(b, 80, "%llu", (unsigned long long)v); break; case 1: snprintf(b, 80, "-%llu", (unsigned long long)v); break; case 2: snprintf(b, 80, "0x%llx", (unsigned long long)v); break;
  case 3: { std::string o; for(; v; v >>= 1) o.insert(o.begin(), (char)('0' + (v & 1))); return "0b" + (o.empty() ? "0" : o); } case 4: snprintf(b, 80, "%.3f", (double)(int64_t)(v >> 40) / 7 - 3); break; case 5: return "true"; default: return "false"; } return b; }
static std::string text(uint64_t s) { sim::Rng r(s); if(r.chance(1, 5)) return number(r); std::string o; int n = r.chance(1, 60) ? (int)r.range(60, 600) : (int)r.below(7); for(int i = 0; i < n; ++i) o += pieces[r.chance(1, 2) ? r.below(2) : r.below(23)]; return o; }
static std::string trim(const std::string& s) { size_t a = 0, b = s.size(); while(a < b && isspace((unsigned char)s[a])) ++a; while(b > a && isspace((unsigned char)s[b - 1])) --b; return s.substr(a, b - a); }
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = pickw(r, { 4, 4, 3 }); p.p[1] = (int64_t)r.below(2); p.p[2] = r.range(1, 8); p.p[3] = pickw(r, { 5, 2, 2, 2 }); p.p[4] = (int64_t)r.below(1 << 30); p.p[5] = r.chance(1, 5);
  bool deep = r.chance(1, 12); p.p[6] = deep ? r.range(6, 60) : 5; int n = deep ? (int)r.range(20, 100) : (int)r.range(1, 22); for(int i = 0; i < n; ++i) p.add(0, deep && r.chance(2, 3) ? OPEN : (int)pickw(r, { 5, 4, 4, 4 }), (int64_t)r.below(1ull << 40), (int64_t)r.below(7));
}
static M build(const sim::Plan& p) {
  M root; std::vector<int> cur; auto at = [&]() { M* m = &root; for(int i : cur) m = &m->kid[(size_t)i]; return m; };
  for(auto& o : p.ops) { M* m = at();
    switch(o.kind) {
    case OPEN: { M k; k.name = names[o.b]; for(auto& x : m->kid) if(x.name == k.name) sim::probe(8); m->kid.push_back(k); if(cur.size() < (size_t)p.p[6]) cur.push_back((int)m->kid.size() - 1); if(cur.size() >= 3) sim::probe(1); break; }
    case CLOSE: if(!cur.empty()) cur.pop_back(); break;
    case ATTR: { if(cur.empty()) break; std::string n = names[o.b]; bool dup = false; for(auto& x : m->at) dup |= x.first == n; if(!dup) { m->at.push_back(std::make_pair(n, text((uint64_t)o.a))); if(m->at.back().second.find_first_of("<>&\"'") != std::string::npos) sim::probe(12); } break; }
    case TEXT: if(!cur.empty()) { std::string t = text((uint64_t)o.a); m->text = trim(t).empty() ? "" : t; } break;
    } }
  if(root.kid.empty()) { M k; k.name = "a"; root.kid.push_back(k); }
  return root;
}
static void conv(const M& m, XMLNode* n) { for(auto& a : m.at) n->AddAttribute(a.first.c_str())->String = a.second.c_str(); if(!m.text.empty()) n->SetValue(m.text.c_str()); for(auto& k : m.kid) conv(k, n->AddNode(k.name.c_str())); }
static std::string esc(const std::string& s) { std::string o; char b[8]; for(unsigned char c : s) if(c >= 32 && c < 127) o += (char)c; else { snprintf(b, 8, "\\x%02x", c); o += b; } return o.size() > 700 ? o.substr(0, 700) + "..." : o; }
static void bad(const std::string& w, const std::string& path, const std::string& doc) { sim::fail("value", "%s at %s of the document %s", w.c_str(), path.c_str(), esc(doc).c_str()); }
// What a text says as a number. A text "true" is 1.
static int64_t integer(const std::string& s) { if(s == "true") return 1; if(s.compare(0, 2, "0b") == 0) { uint64_t v = 0; for(size_t i = 2; i < s.size() && (s[i] == '0' || s[i] == '1'); ++i) v = v * 2 + (uint64_t)(s[i] - '0'); return (int64_t)v; } if(s.compare(0, 2, "0x") == 0) return (int64_t)strtoull(s.c_str(), 0, 16); return s[0] == '-' ? strtoll(s.c_str(), 0, 10) : (int64_t)strtoull(s.c_str(), 0, 10); }
static void number(const XMLValue& v, const std::string& s, const std::string& what, const std::string& path, const std::string& doc) { if(s.empty() || !(isdigit((unsigned char)s[0]) || (s[0] == '-' && isdigit((unsigned char)s[1])) || s == "true" || s == "false")) return;
  int64_t n = integer(s); if(v.Integer != n || (int64_t)v != n || (bool)v != (n != 0) || (int)v != (int)n) bad(what + " " + esc(s) + " is the number " + std::to_string(v.Integer), path, doc); if(isdigit((unsigned char)s.back()) && s[1] != 'x' && s[1] != 'b' && (v.Float != atof(s.c_str()) || (float)v != (float)atof(s.c_str()))) bad(what + " " + esc(s) + " is the number " + std::to_string(v.Float), path, doc); }
// Text of a node that has children may carry layout around it. A node that was not closed before the cut has free text.
static void same(const XMLNode& v, const M& m, bool exact, bool root, const std::string& path, const std::string& doc, bool nums = true) {
  if(!root && m.name != v.GetName()) bad("node named " + esc(v.GetName()) + " instead of " + m.name, path, doc);
  size_t nn = v.GetNodes(); if(!exact && nn && !strncmp(v.GetNode(nn - 1)->GetName(), "!--", 3)) --nn; // a comment the cut left open
  if(exact ? nn != m.kid.size() : nn > m.kid.size()) bad(std::to_string(v.GetNodes()) + " nodes instead of " + std::to_string(m.kid.size()), path, doc);
  if((!root || exact) && v.GetAttributes() != m.at.size()) bad(std::to_string(v.GetAttributes()) + " attributes instead of " + std::to_string(m.at.size()), path, doc);
  if(!root || exact) for(size_t i = 0; i < m.at.size(); ++i) { const XMLValue* a = v.GetAttribute(m.at[i].first.c_str()); if(!a || m.at[i].first != (const std::string&)v.GetAttribute(i)->Name) bad("attribute " + m.at[i].first + " is not there", path, doc); if(m.at[i].second != (const std::string&)a->String) bad("attribute " + m.at[i].first + " is " + esc(a->String) + " instead of " + esc(m.at[i].second), path, doc); if(nums) number(*a, m.at[i].second, "attribute", path, doc); }
  if(exact && !root) { std::string t = v.GetValue().String; if(m.kid.empty() && !m.text.empty() ? t != m.text : trim(t) != trim(m.text)) bad("text is " + esc(t) + " instead of " + esc(m.text), path, doc); if(m.kid.empty()) number(v.GetValue(), m.text, "text", path, doc); }
  if(!exact && v.GetValue().String.find('\xff') != std::string::npos) bad("text contains a character that was never in the document", path, doc);
  for(size_t i = 0; i < nn; ++i) { if(exact) { const XMLNode* l = v.GetNode(v.GetNode(i)->GetName()); if(!l || strcmp(l->GetName(), v.GetNode(i)->GetName())) bad("node cannot be found by its name", path, doc); } same(*v.GetNode(i), m.kid[i], exact || i + 1 < v.GetNodes(), false, path + "/" + m.kid[i].name, doc, nums); }
}
struct Foreign { // an independent writer with random layout
  sim::Rng r; std::string o; explicit Foreign(uint64_t s) : r(s) {}
  void ws(bool must = false) { if(must) o += ' '; while(r.chance(1, 4)) o += " \n\t\r"[r.below(4)]; }
  void str(const std::string& s) { for(size_t i = 0; i < s.size(); ++i) { unsigned char c = (unsigned char)s[i]; char b[16];
      if(c == '&' || c == '<' || c == '>' || c == '"' || c == '\'') { sim::probe(11); if(r.chance(1, 3)) { snprintf(b, 16, r.chance(1, 2) ? "&#%d;" : "&#x%x;", c); o += b; } else o += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : "&apos;"; }
      else if(c == 0xE2 && r.chance(1, 2)) { o += r.chance(1, 2) ? "&#8364;" : "&#x20AC;"; i += 2; } else if(c == 0xF0 && r.chance(1, 2)) { o += "&#x1F600;"; i += 3; }
      else o += (char)c; } }
  void comment() { if(r.chance(1, 5)) { static const char* const c[] = { "", "x", " <a> & ", "- x", "x-> ", "<!-x", "</a>" }; o += "<!--"; o += c[r.below(7)]; o += "-->"; sim::probe(10); } }
  void node(const M& m) {
    o += '<'; o += m.name; for(auto& a : m.at) { ws(true); o += a.first; if(r.chance(1, 4)) ws(); o += '='; if(r.chance(1, 4)) ws(); o += '"'; str(a.second); o += '"'; } ws();
    if(m.kid.empty() && m.text.empty() && r.chance(1, 2)) { o += "/>"; return; }
    o += '>'; str(m.text); if(!m.kid.empty()) { ws(); for(auto& k : m.kid) { comment(); node(k); ws(); } } else if(!m.text.empty() || r.chance(1, 2)) comment();
    o += "</"; o += m.name; if(r.chance(1, 5)) ws(); o += '>';
  }
  void doc(const M& m) { ws(); if(!m.at.empty()) { o += "<?xml"; for(auto& a : m.at) { ws(true); o += a.first; o += "=\""; str(a.second); o += '"'; } if(r.chance(1, 3)) o += ' '; o += "?>"; sim::probe(9); } ws(); comment(); for(auto& k : m.kid) { node(k); ws(); comment(); } }
};
struct Inner { int x = 0; Str n; bool operator==(const Inner& o) const { return x == o.x && n == o.n; } template<typename E> void Serialize(Serializer<E>& s, const char*) { s.template EvaluateType<Inner>(GenPair("x", x), GenPair("name", n)); } };
struct T {
  int64_t a = 0; uint16_t b = 0; double c = 0; float f = 0; Str s; bool t = false, u = false; std::vector<int> v; DynArray<Str, size_t, ARRAY_SAFE> d; std::array<int, 3> arr = { { 0, 0, 0 } }; Inner in; DynArray<Inner, uint32_t, ARRAY_SAFE> list; int8_t i8 = 0; uint64_t u64 = 0; double fix[2] = { 0, 0 };
  template<typename E> void Serialize(Serializer<E>& z, const char*) { z.template EvaluateType<T>(GenPair("a", a), GenPair("b", b), GenPair("c", c), GenPair("f", f), GenPair("str", s), GenPair("t", t), GenPair("u", u), GenPair("v", v), GenPair("d", d), GenPair("arr", arr), GenPair("in", in), GenPair("list", list), GenPair("i8", i8), GenPair("u64", u64), GenPair("fix", fix)); }
};
static std::string word(sim::Rng& r) { std::string t = text(r.next()); return trim(t).empty() ? "w" : t; }
static void fill(T& o, sim::Rng& r) {
  o.a = (int64_t)r.next(); o.b = (uint16_t)r.next(); o.c = (double)r.range(-10000000, 10000000) / 1024; o.f = (float)r.range(-100000, 100000) / 8; o.s.assign(text(r.next())); o.t = r.chance(1, 2); o.u = r.chance(1, 2);
  for(int n = r.chance(1, 30) ? (int)r.range(20, 300) : (int)r.below(4); n--;) o.v.push_back((int)r.next()); for(int n = (int)r.below(4); n--;) { Str x; x.assign(word(r)); o.d.Add(x); } for(auto& x : o.arr) x = (int)r.next();
  o.in.x = (int)r.next(); o.in.n.assign(text(r.next())); for(int n = (int)r.below(3); n--;) { Inner i; i.x = (int)r.next(); i.n.assign(text(r.next())); o.list.Add(i); } o.i8 = (int8_t)r.next(); o.u64 = r.next(); o.fix[0] = (double)r.next() * 1e-5; o.fix[1] = (double)r.range(-99, 99) / 4;
}
static const char* differs(const T& x, const T& y) {
#define D(f) if(!(x.f == y.f)) return #f
  D(a); D(b); D(c); D(f); D(s); D(t); D(u); D(v); D(arr); D(in); D(i8); D(u64); D(fix[0]); D(fix[1]); D(d.Length()); D(list.Length());
  for(size_t i = 0; i < x.d.Length(); ++i) D(d[i]); for(uint32_t i = 0; i < x.list.Length(); ++i) D(list[i]); return 0;
}
template<class F> static std::string write(FSink& sk, F f) { std::ostream os(&sk); f(os); if(sk.failed) SIM_CHECK(!os.good(), "state", "the sink failed and the stream still claims to be good"); else SIM_CHECK(os.good(), "state", "the stream failed without a failure of the sink"); return sk.got; }
static XMLNode* pick(XMLNode* n, M*& m, sim::Rng& r) { while(!m->kid.empty() && r.chance(2, 3)) { size_t i = (size_t)r.below(m->kid.size()); m = &m->kid[i]; n = n->GetNode(i); SIM_CHECK(n, "edit", "node %zu is not there", i); } return n; }
static size_t count(const M& m) { size_t c = 1; for(auto& k : m.kid) c += count(k); return c; }
static void edits(XMLFile*& f, M& root, sim::Rng& r) { // history of edits in memory
  for(int n = (int)r.range(1, 8); n--;) { M* m = &root; XMLNode* x = pick(f, m, r); size_t k = m->kid.size(), a = m->at.size(); sim::probe(14);
    switch(r.below(10)) {
    case 0: { size_t i = (size_t)r.below(k + 1); bool ok = x->RemoveNode(i); SIM_CHECK(ok == (i < k), "edit", "RemoveNode(%zu) of %zu nodes returned %d", i, k, (int)ok); if(i < k) m->kid.erase(m->kid.begin() + (long)i); break; }
    case 1: { const char* nm = names[r.below(7)]; size_t hit = k; const XMLNode* t = x->GetNode(nm); for(size_t i = 0; i < k; ++i) if(x->GetNode(i) == t) hit = i; bool any = false; for(auto& c : m->kid) any |= c.name == nm; SIM_CHECK(any == (hit < k), "edit", "a node <%s> is %s found by name", nm, any ? "not" : "wrongly"); bool ok = x->RemoveNode(nm); SIM_CHECK(ok == any, "edit", "RemoveNode(%s) returned %d", nm, (int)ok); if(any) m->kid.erase(m->kid.begin() + (long)hit); break; }
    case 2: { size_t i = (size_t)r.below(a + 1); bool ok = x->RemoveAttribute(i); SIM_CHECK(ok == (i < a), "edit", "RemoveAttribute(%zu) of %zu attributes returned %d", i, a, (int)ok); if(i < a) m->at.erase(m->at.begin() + (long)i); break; }
    case 3: { const char* nm = names[r.below(7)]; size_t hit = a; for(size_t i = 0; i < a; ++i) if(m->at[i].first == nm) hit = i; bool ok = x->RemoveAttribute(nm); SIM_CHECK(ok == (hit < a), "edit", "RemoveAttribute(%s) returned %d", nm, (int)ok); if(hit < a) m->at.erase(m->at.begin() + (long)hit); break; }
    case 4: { M* q = &root; XMLNode* y = pick(f, q, r); if(q == &root || count(root) > 60) break; M c = *q; XMLNode* z = x->AddNode(*y); SIM_CHECK(z && z != y, "edit", "AddNode gives no copy"); m->kid.push_back(c); break; }
    case 5: { M* q = &root; XMLNode* y = pick(f, q, r); if(q == &root || count(root) > 60) break; M c = *q; XMLNode one(*y), two(*x); two = one; XMLNode& self = two; two = self; if(r.chance(1, 2)) { XMLNode three(std::move(two)); two = std::move(three); } x->AddNode(two); m->kid.push_back(c); break; }
    case 6: { XMLFile* g = new XMLFile(*f); if(r.chance(1, 2)) { XMLFile* h = new XMLFile(); h->AddNode("a")->AddAttribute("b"); h->AddAttribute("node"); *h = *g; delete g; g = h; } delete f; f = g; break; }
    case 7: if(m != &root) { const char* nm = names[r.below(7)]; std::string v = text(r.next()); XMLValue xv; xv.Name = nm; xv.String = v.c_str(); x->AddAttribute(xv); bool dup = false; for(auto& c : m->at) if(c.first == nm) { c.second = v; dup = true; } if(!dup) m->at.push_back({ nm, v }); } break;
    case 8: if(m != &root && m->kid.empty()) { if(r.chance(1, 3)) { int64_t v = (int64_t)r.next(); x->SetValue(v); m->text = std::to_string(v); } else if(r.chance(1, 2)) { double v = (double)r.range(-100000, 100000) / 16; x->SetValue(v); m->text = std::to_string(v); } else { std::string v = text(r.next()); if(trim(v).empty()) v = ""; x->SetValue(v.c_str()); m->text = v; } sim::probe(15); } break;
    case 9: if(m->text.empty() && r.chance(1, 3)) { x->Clear(); m->kid.clear(); m->at.clear(); sim::probe(17); if(r.chance(1, 2)) { x->AddNode("b"); M c; c.name = "b"; m->kid.push_back(c); } } break;
    }
    same(*f, root, true, true, "edited", "(in memory)", false); }
}
static Serializer<XMLEngine>* one; // a serializer that is used again and again
template<class F> static void with(F f) { if(one) { sim::probe(18); f(*one); } else { Serializer<XMLEngine> e; f(e); } }
struct Mine : XMLFile { void wr(std::ostream& o, bool p) const { Write(o, p); } };
void harness_execute(const sim::Plan& p) {
  sim::set_limits(20000000, 40000000); sim::Rng r((uint64_t)p.p[4]); bool pretty = p.p[1]; if(pretty) sim::probe(0);
  for(auto& o : p.ops) { sim::seq(); sim::mix((uint64_t)o.kind * 31 + (uint64_t)o.a); }
  M* m = new M(build(p)); T* t = 0; std::string doc;
  one = p.p[0] == 2 && r.chance(1, 2) ? new Serializer<XMLEngine> : 0; if(p.p[0] == 2) { t = new T; fill(*t, r); sim::probe(6); }
  if(!t && r.chance(1, 2)) { m->at.push_back({ "version", "1.0" }); if(r.chance(1, 2)) m->at.push_back({ "encoding", "UTF-8" }); }
  if(p.p[0] == 1) { sim::probe(2); Foreign w(r.next()); w.doc(*m); doc = w.o; }
  else {
    XMLFile* f = new XMLFile(); if(!t) { conv(*m, f); if(r.chance(1, 2)) { edits(f, *m, r); } if(m->kid.empty()) { M k; k.name = "a"; m->kid.push_back(k); f->AddNode("a"); } }
    auto wr = [&](std::ostream& os) { if(t) with([&](Serializer<XMLEngine>& e) { e.engine.pretty = pretty; e.Serialize<T>(*t, os, "root"); }); else f->Write(os, pretty); };
    if(!t && r.chance(1, 3)) { sim::probe(13); XMLFile* g = new XMLFile(std::move(*f)); delete f; f = g; if(r.chance(1, 2)) { XMLFile* h = new XMLFile(); *h = std::move(*f); delete f; f = h; } }
    if(one && r.chance(1, 2)) { FSource* e = new FSource; e->data = "text <root a=\"5\" str=\"old\"><v>1</v><in x=\"3\"/>old"; std::istream ei(e); T* old = new T; one->Parse<T>(*old, ei, "root"); delete old; delete e; }
    FSink* sk = new FSink; doc = write(*sk, wr); delete sk;
    if(p.p[5] && doc.size()) { sim::enable(sim::F_WRITE_ERR); FSink* fs = new FSink; fs->den = 60; write(*fs, wr); if(fs->failed) sim::probe(3); SIM_CHECK(fs->failed ? doc.compare(0, fs->got.size(), fs->got) == 0 : fs->got == doc, "output", "the failing sink holds something that was not written"); delete fs; }
    delete f;
  }
  if(t && r.chance(1, 3)) { // the same object as somebody else would spell it
    auto put = [&](const std::string& o, const std::string& n) { size_t i = doc.find(o); if(i != std::string::npos) { doc.replace(i, o.size(), n); sim::probe(16); } };
    put(" t=\"true\"", r.chance(1, 2) ? " t=\"1\"" : " t=\"TRUE\""); put(" t=\"false\"", r.chance(1, 2) ? " t=\"0\"" : " t=\"False\""); put(" u=\"true\"", " u=\"7\"");
    char b[40]; snprintf(b, 40, " u64=\"0x%llx\"", (unsigned long long)t->u64); put(" u64=\"" + std::to_string((int64_t)t->u64) + "\"", b); std::string n; for(unsigned v = t->b; v; v >>= 1) n.insert(n.begin(), (char)('0' + (v & 1))); if(!n.empty()) put(" b=\"" + std::to_string(t->b) + "\"", " b=\"0b" + n + "\"");
  }
  sim::logf("document %s", esc(doc).c_str()); for(unsigned char c : doc) sim::mix(c);
  FSource* so = new FSource; so->data = doc; so->chunk = (size_t)p.p[2] * (size_t)p.p[2]; if(so->chunk > 60) so->chunk = 60; so->r = sim::Rng(r.next());
  if(one && r.chance(1, 2)) { FSource* e = new FSource; e->data = r.chance(1, 2) ? doc.substr(0, (size_t)r.below(doc.size() + 1)) : "text <root a=\"5\" str=\"old\"><v>1</v><in x=\"3\"/>old"; std::istream ei(e); T* old = new T; one->Parse<T>(*old, ei, "root"); delete old; delete e; }
  bool mangled = p.p[3] == 3; if(mangled && doc.size()) { for(int n = (int)r.range(1, 4); n--;) { sim::note_fault(sim::F_FLIP); size_t at = (size_t)r.below(so->data.size()); switch(r.below(3)) { case 0: so->data[at] = (char)r.below(256); break; case 1: so->data.erase(at, 1 + (size_t)r.below(3)); break; default: so->data.insert(at, 1, "<>/&;\"=?!-"[r.below(10)]); } if(so->data.empty()) so->data = "<"; } sim::probe(7); }
  bool cut = p.p[3] == 1 || p.p[3] == 2; if(cut) { so->end = (size_t)r.below(doc.size()); so->err = p.p[3] == 2; if(!so->err) sim::note_fault(sim::F_TRUNC); sim::probe(so->err ? 5 : 4); }
  std::istream in(so); XMLFile* got = 0; T* gt = 0;
  if(t) { gt = new T; gt->t = !t->t; gt->u = !t->u; with([&](Serializer<XMLEngine>& e) { e.Parse<T>(*gt, in, "root"); }); } else got = new XMLFile(in);
  if(mangled) ; /* any outcome, but it ends and touches only its own memory */
  else if(!cut) { if(t) { const char* w = differs(*gt, *t); SIM_CHECK(!w, "value", "member %s of the object came back changed from the document %s", w, esc(doc).c_str()); } else same(*got, *m, true, true, "root", doc); }
  else { if(!t) same(*got, *m, false, true, "root", doc); if(so->err && so->hit) SIM_CHECK(!in.good(), "state", "the source failed and the stream still claims to be good"); }
  delete one; one = 0; delete got; delete gt; delete t; delete m; delete so;
}
