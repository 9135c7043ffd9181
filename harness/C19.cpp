// C19: stream buffers over memory (read-only array, growable array) and the filter stream buffer: no byte lost, invented or reordered; results as the standard stream contract says.
#include "common.h"
#include "bss-util/stream.h"
#include <istream>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "read_only_array", "growable_array", "filter_read", "filter_write", "array_grew", "partial_element", "wrote_after_reading_part", "begin_offset", "write_larger_than_room", "byte_writes_to_the_end_of_room", "upstream_failed", "downstream_failed", "refused_seek", "putback", "moved", 0 };
  const char* const harness_real = "StreamBufArray, StreamBufDynArray, StreamBufFunction, DynArray, real istream/ostream on top";
  const char* const harness_stub = "upstream and downstream streams of the filter (short transfers, premature end, errors)";
}
enum { GET, PEEK, READ, UNGET, PUTBACK, SEEKABS, SEEKCUR, SEEKEND, TELL, AVAIL, GETLINE, IGNORE, WRITE, PUT, FMT, FLUSH, CHECK };
static unsigned char pat(uint64_t i) { return (unsigned char)(i * 131 + (i >> 7) * 17 + 200); }
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = (int64_t)r.below(5); // 0: array, 1,2: growable, 3: filter read, 4: filter write
  p.p[1] = (int64_t)r.below(3); // element size
  p.p[2] = r.chance(1, 5) ? 0 : r.range(0, 40); // initial elements
  p.p[3] = r.chance(1, 4) ? r.range(0, 6) : 0;  // begin offset
  p.p[4] = r.range(1, 24); p.p[5] = r.chance(1, 2); p.p[6] = (int64_t)r.below(1 << 20); p.p[7] = r.range(0, 300); p.p[8] = r.range(2, 12); bool wide = r.chance(1, 30); if(wide) { p.p[2] = r.range(0, 6000); p.p[4] = r.range(1, 5000); p.p[7] = r.range(0, 9000); }
  int n = (int)r.range(1, 40), wb = (int)r.below(3);
  for(int i = 0; i < n; ++i) {
    int k = (int)(p.p[0] == 0 ? pickw(r, { 5, 3, 5, 3, 2, 3, 2, 2, 3, 1, 1, 1, 0, 0, 0, 0, 0 }) : p.p[0] == 3 ? pickw(r, { 4, 2, 6, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0 }) : p.p[0] == 4 ? pickw(r, { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 5, 3, 1, 0 })
      : wb ? pickw(r, { 3, 2, 3, 1, 0, 1, 1, 1, 2, 1, 0, 1, 4, 6, 2, 2, 2 }) : pickw(r, { 1, 1, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 2, 14, 1, 1, 1 }));
    p.add(0, k, (int64_t)r.below(1 << 16), wide && r.chance(1, 4) ? r.range(100, 7000) : r.chance(1, 5) ? r.range(0, 200) : r.range(0, 12));
  }
}
template<class S> static void readop(const sim::Op& o, S& in, std::istream& ref, const char* who) {
  switch(o.kind) {
  case GET: { int a = in.get(), b = ref.get(); SIM_CHECK(a == b, "data", "%s: get() returned %d instead of %d", who, a, b); break; }
  case PEEK: { int a = in.peek(), b = ref.peek(); SIM_CHECK(a == b, "data", "%s: peek() returned %d instead of %d", who, a, b); break; }
  case READ: { std::vector<char> a((size_t)o.b + 1, 'z'), b((size_t)o.b + 1, 'z'); in.read(a.data(), o.b); ref.read(b.data(), o.b); SIM_CHECK(in.gcount() == ref.gcount(), "data", "%s: read(%lld) delivered %lld bytes instead of %lld", who, (long long)o.b, (long long)in.gcount(), (long long)ref.gcount()); SIM_CHECK(a == b, "data", "%s: read(%lld) delivered the wrong bytes", who, (long long)o.b); break; }
  case GETLINE: { char a[64], b[64]; memset(a, 0, sizeof a); memset(b, 0, sizeof b); in.getline(a, 32, (char)200); ref.getline(b, 32, (char)200); SIM_CHECK(!memcmp(a, b, 64) && in.gcount() == ref.gcount(), "data", "%s: getline delivered something else", who); break; }
  case IGNORE: in.ignore(o.b); ref.ignore(o.b); SIM_CHECK(in.gcount() == ref.gcount(), "data", "%s: ignore(%lld) skipped %lld bytes instead of %lld", who, (long long)o.b, (long long)in.gcount(), (long long)ref.gcount()); break;
  case UNGET: in.unget(); ref.unget(); break;
  case AVAIL: { long long a = in.rdbuf()->in_avail(), b = ref.rdbuf()->in_avail(); if(a < 0) a = 0; if(b < 0) b = 0; SIM_CHECK(a == b, "data", "%s: in_avail() is %lld instead of %lld", who, a, b); break; }
  case TELL: { long long a = (long long)in.tellg(), b = (long long)ref.tellg(); SIM_CHECK(a == b, "position", "%s: tellg() is %lld instead of %lld", who, a, b); break; }
  }
  SIM_CHECK(in.rdstate() == ref.rdstate(), "state", "%s: stream state %d instead of %d after operation %d", who, (int)in.rdstate(), (int)ref.rdstate(), o.kind);
}
template<class T> static void array(const sim::Plan& p) {
  sim::probe(0); size_t n = (size_t)p.p[2]; T* src = new T[n ? n : 1]; unsigned char* bytes = (unsigned char*)src; for(size_t i = 0; i < n * sizeof(T); ++i) bytes[i] = pat(i + (uint64_t)p.p[6]);
  typedef bss::StreamBufArray<T> SBA; SBA* buf = new SBA(src, n); std::istream in(buf); std::string all((char*)src, n * sizeof(T)); std::istringstream ref(all);
  for(auto& o : p.ops) {
    sim::seq(); sim::mix((uint64_t)o.kind * 77 + o.b); sim::logf("op %d %lld %lld", o.kind, (long long)o.a, (long long)o.b);
    if(o.a % 3) { in.clear(); ref.clear(); }
    long long pos = ref.good() ? (long long)ref.tellg() : -1;
    if(o.kind == TELL && (o.a & 4)) { sim::probe(14); SBA* nb; if(o.a & 8) nb = new SBA(std::move(*buf)); else { nb = new SBA(src, o.a & 16 ? n / 2 : 0); *nb = std::move(*buf); } in.rdbuf(nb); ref.clear(); SIM_CHECK(buf->sgetc() == EOF, "data", "a stream buffer still delivers bytes after it was moved"); delete buf; buf = nb; }
    switch(o.kind) {
    case PUTBACK: { if(pos <= 0 || !(ref.good())) continue; char c = (o.a & 64) ? (char)all[(size_t)pos - 1] : (char)(all[(size_t)pos - 1] + 1); bool same = c == all[(size_t)pos - 1]; in.putback(c); if(same) ref.putback(c); else ref.setstate(std::ios::badbit); sim::probe(13); SIM_CHECK(in.rdstate() == ref.rdstate(), "state", "putback of the %s byte left state %d instead of %d", same ? "previous" : "wrong", (int)in.rdstate(), (int)ref.rdstate()); break; }
    case SEEKABS: case SEEKCUR: case SEEKEND: { std::ios::seekdir w = o.kind == SEEKABS ? std::ios::beg : o.kind == SEEKCUR ? std::ios::cur : std::ios::end; long long off = (long long)(o.a % 97) - (o.kind == SEEKABS ? 4 : 48); in.clear(); ref.clear(); in.seekg(off, w); ref.seekg(off, w); if(!ref.good()) sim::probe(12);
      SIM_CHECK(in.rdstate() == ref.rdstate(), "state", "seekg(%lld, %d) left state %d instead of %d", off, (int)w, (int)in.rdstate(), (int)ref.rdstate()); in.clear(); ref.clear(); SIM_CHECK(in.tellg() == ref.tellg(), "position", "after seekg(%lld) the position is %lld instead of %lld", off, (long long)in.tellg(), (long long)ref.tellg()); break; }
    default: readop(o, in, ref, "array stream");
    }
  }
  SIM_CHECK(!memcmp(src, all.data(), all.size()), "data", "the source array was modified"); in.rdbuf(0); delete buf; delete[] src;
}
// Growable array: bytes appended come out of the read side in order once complete elements exist; the array ends up holding every complete element.
template<class T> static void growable(const sim::Plan& p) {
  sim::probe(1); typedef bss::DynArray<T> D; size_t n = (size_t)p.p[2], beg = (size_t)p.p[3] < n ? (size_t)p.p[3] : 0; if(beg) sim::probe(7);
  D* arr = new D(); arr->SetLength(n); std::string bytes; for(size_t i = 0; i < n * sizeof(T); ++i) { bytes.push_back((char)pat(i + (uint64_t)p.p[6])); ((char*)arr->begin())[i] = bytes.back(); }
  if(p.p[6] & 1) arr->SetCapacity(n + (size_t)p.p[4]);
  bss::StreamBufDynArray<T>* buf = new bss::StreamBufDynArray<T>(*arr, beg); std::iostream* io = new std::iostream(buf);
  size_t base = beg * sizeof(T), pos = base; bool dirty = false; size_t cap0 = arr->Capacity();
  auto avail = [&]() { return bytes.size() / sizeof(T) * sizeof(T); };
  auto sync = [&]() { io->clear(); io->flush(); SIM_CHECK(io->good(), "state", "flush left state %d", (int)io->rdstate()); dirty = false; };
  for(auto& o : p.ops) {
    sim::seq(); sim::mix((uint64_t)o.kind * 77 + o.b); sim::logf("op %d %lld %lld", o.kind, (long long)o.a, (long long)o.b);
    io->clear(); if(o.kind == AVAIL && dirty) sync();
    if(o.kind == TELL && (o.a & 12) == 12) { sim::probe(14); auto* nb = new bss::StreamBufDynArray<T>(std::move(*buf)); io->rdbuf(nb); delete buf; buf = nb; }
    switch(o.kind) {
    case GET: case PEEK: { int a = o.kind == GET ? io->get() : io->peek(), b = pos < avail() ? (unsigned char)bytes[pos] : EOF; SIM_CHECK(a == b, "data", "%s at byte %zu of %zu returned %d instead of %d", o.kind == GET ? "get" : "peek", pos, bytes.size(), a, b); if(o.kind == GET && b != EOF) ++pos; break; }
    case READ: { std::vector<char> a((size_t)o.b + 1, 0); io->read(a.data(), o.b); size_t want = std::min<size_t>((size_t)o.b, avail() - pos); SIM_CHECK((size_t)io->gcount() == want, "data", "read(%lld) at byte %zu of %zu delivered %lld bytes instead of %zu", (long long)o.b, pos, bytes.size(), (long long)io->gcount(), want); SIM_CHECK(!memcmp(a.data(), bytes.data() + pos, want), "data", "read(%lld) at byte %zu delivered the wrong bytes", (long long)o.b, pos); pos += want; break; }
    case UNGET: if(pos == base) continue; io->unget(); SIM_CHECK(io->good(), "state", "unget failed at byte %zu", pos); --pos; break;
    case SEEKABS: case SEEKCUR: case SEEKEND: { size_t target = base + (size_t)o.a % (avail() - base + 1); long long off = o.kind == SEEKABS ? (long long)(target - base) : o.kind == SEEKCUR ? (long long)target - (long long)pos : (long long)target - (long long)avail();
      io->seekg(off, o.kind == SEEKABS ? std::ios::beg : o.kind == SEEKCUR ? std::ios::cur : std::ios::end); pos = target; SIM_CHECK(io->good(), "state", "seekg failed"); long long t = (long long)io->tellg(); SIM_CHECK(t == (long long)(pos - base), "position", "after a seek to %zu the position is %lld", pos - base, t); break; }
    case IGNORE: { long long off = (long long)(avail() - base) + 1 + (long long)(o.a % 50); if(o.a & 64) off = -1 - (long long)(o.a % 7); io->seekg(off, std::ios::beg); SIM_CHECK(!io->good(), "state", "seekg(%lld) in a stream of %zu bytes succeeded", off, avail() - base); sim::probe(12); break; }
    case TELL: { long long t = (long long)io->tellg(); SIM_CHECK(t == (long long)(pos - base), "position", "tellg() is %lld instead of %zu", t, pos - base); break; }
    case AVAIL: { long long a = io->rdbuf()->in_avail(); if(a < 0) a = 0; SIM_CHECK(a == (long long)(avail() - pos), "data", "in_avail() is %lld instead of %zu", a, avail() - pos); break; }
    case WRITE: { std::string s; for(int64_t i = 0; i < o.b; ++i) s.push_back((char)pat(bytes.size() + i + (uint64_t)p.p[6])); size_t room = arr->Capacity() * sizeof(T) - bytes.size(); if(s.size() > room && room) sim::probe(8); if(pos > base && pos < avail()) sim::probe(6); io->write(s.data(), (std::streamsize)s.size()); SIM_CHECK(io->good(), "state", "write of %zu bytes with room for %zu left state %d", s.size(), room, (int)io->rdstate()); bytes += s; dirty = true; break; }
    case PUT: { char c = (char)pat(bytes.size() + (uint64_t)p.p[6]); if(bytes.size() == arr->Capacity() * sizeof(T)) sim::probe(9); io->put(c); SIM_CHECK(io->good(), "state", "put left state %d", (int)io->rdstate()); bytes.push_back(c); dirty = true; break; }
    case FMT: { *io << (int)o.a << '|' << "text"; bytes += std::to_string((int)o.a) + "|text"; SIM_CHECK(io->good(), "state", "formatted output left state %d", (int)io->rdstate()); dirty = true; break; }
    case FLUSH: case CHECK: sync();
      SIM_CHECK(arr->Length() == bytes.size() / sizeof(T), "length", "after %zu bytes the array has %zu elements of %zu bytes", bytes.size(), (size_t)arr->Length(), sizeof(T)); SIM_CHECK(!memcmp(arr->begin(), bytes.data(), arr->Length() * sizeof(T)), "data", "the array does not hold what was written"); if(bytes.size() % sizeof(T)) sim::probe(5); break;
    }
  }
  sync(); if(arr->Capacity() > cap0) sim::probe(4);
  SIM_CHECK(arr->Length() == bytes.size() / sizeof(T), "length", "at the end, after %zu bytes, the array has %zu elements of %zu bytes", bytes.size(), (size_t)arr->Length(), sizeof(T)); SIM_CHECK(!memcmp(arr->begin(), bytes.data(), arr->Length() * sizeof(T)), "data", "at the end the array does not hold what was written");
  delete io; delete buf; delete arr;
}
// Filter stream buffer with a reversible byte transformation.
struct Up : std::streambuf { // upstream with short transfers, premature end and errors
  std::string data; size_t at = 0; bool faulty = false, failed = false; char one;
  std::streamsize xsgetn(char* s, std::streamsize n) override { sim::NoPreempt np; size_t k = std::min<size_t>((size_t)n, data.size() - at); if(failed) return 0; if(faulty && sim::fault(sim::F_READ_ERR, 1, 12)) { failed = true; k = k / 2; } memcpy(s, data.data() + at, k); at += k; return (std::streamsize)k; }
  int underflow() override { if(failed || at == data.size()) return EOF; return (unsigned char)data[at]; }
  int uflow() override { int c = underflow(); if(c != EOF) ++at; return c; }
};
struct Down : std::streambuf { std::string got; bool faulty = false, failed = false;
  std::streamsize xsputn(const char* s, std::streamsize n) override { sim::NoPreempt np; if(failed) return 0; size_t k = (size_t)n; if(faulty && sim::fault(sim::F_WRITE_ERR, 1, 12)) { failed = true; k = n ? (size_t)sim::faultval(sim::F_WRITE_ERR, 0, n - 1) : 0; } got.append(s, k); return (std::streamsize)k; }
  int overflow(int c) override { char x = (char)c; if(c == EOF) return 0; return xsputn(&x, 1) == 1 ? c : EOF; } };
struct Codec : bss::StreamBufFunction {
  size_t chunk; uint64_t rng;
  Codec(std::istream& i, size_t sz, size_t c, uint64_t seed) : StreamBufFunction(i, sz), chunk(c), rng(seed) {}
  Codec(std::ostream& o, size_t sz, size_t c, uint64_t seed) : StreamBufFunction(o, sz), chunk(c), rng(seed) {}
  size_t next() { rng = rng * 6364136223846793005ull + 1442695040888963407ull; size_t n = 1 + (size_t)(rng >> 33) % chunk; return n < _sz ? n : _sz; }
  void _onread() override { size_t n = next(); _in->read(_ibuf.get(), (std::streamsize)n); size_t g = (size_t)_in->gcount(); for(size_t i = 0; i < g; ++i) _obuf[i] = (char)(_ibuf[i] ^ 0x5a); setg(_obuf.get(), _obuf.get(), _obuf.get() + g); }
  void _onwrite() override { size_t g = (size_t)(pptr() - pbase()); for(size_t i = 0; i < g; ++i) _ibuf[i] = (char)(pbase()[i] ^ 0x5a); if(g) _out->write(_ibuf.get(), (std::streamsize)g); size_t n = _out->good() ? next() : 0; setp(_obuf.get(), _obuf.get() + n); }
  void finish() { _onwrite(); sync(); }
};
static void filter_read(const sim::Plan& p) {
  sim::probe(2); Up* up = new Up; std::string plain; for(int64_t i = 0; i < p.p[7]; ++i) { plain.push_back((char)pat((uint64_t)(i + p.p[6]))); up->data.push_back((char)(plain.back() ^ 0x5a)); }
  up->faulty = p.p[5]; if(p.p[5]) sim::enable(sim::F_READ_ERR);
  std::istream src(up); Codec* c = new Codec(src, (size_t)p.p[8] + 4, (size_t)p.p[4], (uint64_t)p.p[6]); std::istream in(c); size_t pos = 0;
  for(auto& o : p.ops) {
    sim::seq(); sim::mix((uint64_t)o.kind * 77 + o.b); in.clear();
    std::string got; size_t want = 0; bool peek = false;
    switch(o.kind) {
    case GET: { want = 1; int x = in.get(); if(x != EOF) got.push_back((char)x); break; }
    case PEEK: { want = 1; peek = true; int x = in.peek(); if(x != EOF) got.push_back((char)x); break; }
    case READ: { want = (size_t)o.b; std::vector<char> b(want + 1); in.read(b.data(), (std::streamsize)want); got.assign(b.data(), (size_t)in.gcount()); break; }
    case IGNORE: { want = (size_t)o.b; in.ignore(o.b); got = plain.substr(pos, (size_t)in.gcount()); break; }
    default: continue;
    }
    SIM_CHECK(plain.compare(pos, got.size(), got) == 0, "data", "the filter delivered wrong bytes at %zu", pos);
    if(up->failed) { if(got.size() < want) sim::probe(10); SIM_CHECK(pos + got.size() <= plain.size(), "data", "more bytes than the source has"); }
    else SIM_CHECK(got.size() == std::min(want, plain.size() - pos), "short", "a request for %zu bytes at %zu of %zu delivered %zu although the source had not ended", want, pos, plain.size(), got.size());
    if(!peek) pos += got.size();
  }
  delete c; delete up;
}
static void filter_write(const sim::Plan& p) {
  sim::probe(3); Down* dn = new Down; dn->faulty = p.p[5]; if(p.p[5]) sim::enable(sim::F_WRITE_ERR); std::ostream dst(dn); Codec* c = new Codec(dst, (size_t)p.p[8] + 4, (size_t)p.p[4], (uint64_t)p.p[6]); std::ostream out(c); std::string want;
  for(auto& o : p.ops) {
    sim::seq(); sim::mix((uint64_t)o.kind * 77 + o.b); out.clear(); std::string s;
    if(o.kind == WRITE) { for(int64_t i = 0; i < o.b; ++i) s.push_back((char)pat(want.size() + i)); out.write(s.data(), (std::streamsize)s.size()); }
    else if(o.kind == PUT) { s.push_back((char)pat(want.size())); out.put(s[0]); }
    else if(o.kind == FMT) { s = std::to_string((int)o.a) + "|text"; out << (int)o.a << '|' << "text"; }
    else if(o.kind == FLUSH) { out.flush(); }
    if(!dst.good()) { sim::probe(11); std::string dec = dn->got; for(auto& x : dec) x ^= 0x5a; std::string all = want + s; SIM_CHECK(all.compare(0, dec.size(), dec) == 0, "data", "what reached the failed sink is not a prefix of what was written"); delete c; delete dn; return; }
    SIM_CHECK(out.good(), "state", "operation %d of %zu bytes left state %d although the sink works", o.kind, s.size(), (int)out.rdstate());
    want += s;
  }
  c->finish(); std::string dec = dn->got; for(auto& x : dec) x ^= 0x5a;
  if(dst.good()) SIM_CHECK(dec == want, "data", "the sink got %zu bytes of the %zu written, or other ones", dec.size(), want.size());
  delete c; delete dn;
}
void harness_execute(const sim::Plan& p) {
  sim::set_limits(8000000, 20000000);
  switch(p.p[0]) {
  case 0: if(p.p[1] == 0) array<uint8_t>(p); else if(p.p[1] == 1) array<short>(p); else array<int>(p); break;
  case 1: case 2: if(p.p[1] == 0) growable<uint8_t>(p); else if(p.p[1] == 1) growable<short>(p); else growable<int>(p); break;
  case 3: filter_read(p); break;
  case 4: filter_write(p); break;
  }
}
