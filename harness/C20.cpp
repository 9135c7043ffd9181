// C20: BitStream: the bits written are the bits stored and read back, at any widths, over any split; failures of the stream below are visible and damage nothing before them.
#include "common.h"
#include "bss-util/BitStream.h"
#include <sstream>
#include <string>
#include <vector>
using namespace hx;
extern "C" {
  const char* const harness_probes[] = { "unaligned_write", "unaligned_read", "read_at_other_widths", "sink_failed", "source_ended_early", "shared_stream_read_then_write", "explicit_flush", "move_assigned", "read_to_the_last_bit", "bool_values", "serialized_string", "truncated_string", 0 };
  const char* const harness_real = "BitStream, bssSerialize/bssDeserialize, real iostream layer";
  const char* const harness_stub = "stream buffers below (failing writes, premature end, one-byte buffers)";
}
enum { W, R, FLUSH, WBOOL, RBOOL, MOVE, WT, RT, SER };
struct Sink : std::streambuf { std::string got; bool faulty = false, failed = false;
  std::streamsize xsputn(const char* s, std::streamsize n) override { sim::NoPreempt np; for(std::streamsize i = 0; i < n; ++i) if(overflow((unsigned char)s[i]) == EOF) return i; return n; }
  int overflow(int c) override { sim::NoPreempt np; if(c == EOF) return 0; if(failed || (faulty && sim::fault(sim::F_WRITE_ERR, 1, 25))) { failed = true; return EOF; } got.push_back((char)c); return c; } };
struct Source : std::streambuf { std::string data; size_t at = 0; char one; size_t chunk = 1; char buf[16];
  int underflow() override { size_t n = std::min(chunk, data.size() - at); if(!n) return EOF; memcpy(buf, data.data() + at, n); at += n; setg(buf, buf, buf + n); return (unsigned char)buf[0]; } };
struct Rw : std::streambuf { std::string d; size_t r = 0; // one shared stream: appended at the end, read from its own position
  int underflow() override { return r < d.size() ? (unsigned char)d[r] : EOF; }
  int uflow() override { return r < d.size() ? (unsigned char)d[r++] : EOF; }
  int overflow(int c) override { if(c != EOF) d.push_back((char)c); return c == EOF ? 0 : c; } };
static uint64_t val(int64_t s) { uint64_t x = (uint64_t)s * 0x9E3779B97F4A7C15ull + 1; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 32); }
struct Bits { std::vector<bool> b; void put(uint64_t v, int n) { for(int i = 0; i < n; ++i) b.push_back(v >> i & 1); } void pad() { while(b.size() & 7) b.push_back(false); }
  std::string bytes() const { std::string s((b.size() + 7) / 8, 0); for(size_t i = 0; i < b.size(); ++i) if(b[i]) s[i / 8] |= (char)(1 << (i & 7)); return s; } uint64_t get(size_t at, int n) const { uint64_t v = 0; for(int i = 0; i < n; ++i) if(b[at + i]) v |= 1ull << i; return v; } };
void harness_generate(sim::Rng& r, sim::Plan& p) {
  p.p[0] = (int64_t)r.below(3); // 0: write, then read from a source; 1: shared stream; 2: serialized values
  p.p[1] = r.chance(1, 2); p.p[2] = r.range(1, 5); p.p[3] = r.chance(1, 3); p.p[4] = (int64_t)r.below(1 << 20);
  int n = (int)r.range(1, r.chance(1, 40) ? 400 : 40), al = r.chance(1, 3);
  for(int i = 0; i < n; ++i) { int k = (int)(p.p[0] == 0 ? pickw(r, { 8, 0, 1, 3, 0, 1, 3, 0, 0 }) : p.p[0] == 1 ? pickw(r, { 6, 6, 1, 2, 2, 0, 2, 2, 0 }) : SER);
    p.add(0, k, al ? 8 * r.range(1, 8) : r.chance(1, 6) ? r.range(0, 64) : r.range(1, 17), (int64_t)r.below(1ull << 40), (int64_t)r.below(4)); }
}
template<class S> static int writeop(bss::BitStream<S>& bs, Bits& m, const sim::Op& o) { // returns number of bits
  uint64_t v = val(o.b);
  if(o.kind == WBOOL) { bs << (bool)(v & 1); m.put(v & 1, 1); sim::probe(9); return 1; }
  if(o.kind == WT) switch(o.c) { case 0: { uint8_t x = (uint8_t)v; bs << x; m.put(x, 8); return 8; } case 1: { short x = (short)v; bs.Write(x); m.put((uint16_t)x, 16); return 16; } case 2: { float x = (float)(v % 100000); uint32_t u; memcpy(&u, &x, 4); bs << x; m.put(u, 32); return 32; } default: bs << v; m.put(v, 64); return 64; }
  if(m.b.size() & 7) sim::probe(0);
  bs.Write(&v, (int)o.a); m.put(v, (int)o.a); return (int)o.a;
}
template<class S> static void readcheck(bss::BitStream<S>& bs, const Bits& m, size_t& at, int kind, int width, int c, uint64_t junk) {
  if(at & 7) sim::probe(1);
  if(kind == RBOOL) { bool x = junk & 1; bs >> x; SIM_CHECK(x == (bool)m.get(at, 1), "bits", "bit %zu read as a bool is %d instead of %d", at, (int)x, (int)m.get(at, 1)); at += 1; return; }
  if(kind == RT) { uint64_t want = m.get(at, c == 0 ? 8 : c == 1 ? 16 : c == 2 ? 32 : 64), x = 0; if(c == 0) { uint8_t t = (uint8_t)junk; bs >> t; x = t; at += 8; } else if(c == 1) { short t = (short)junk; bs.Read(t); x = (uint16_t)t; at += 16; } else if(c == 2) { float t = 3; bs >> t; uint32_t u; memcpy(&u, &t, 4); x = u; at += 32; } else { uint64_t t = junk; bs >> t; x = t; at += 64; } SIM_CHECK(x == want, "bits", "value of kind %d read as %llx instead of %llx", c, (unsigned long long)x, (unsigned long long)want); return; }
  unsigned char buf[9]; memset(buf, (int)(junk & 255), 9); bs.Read(buf, width); uint64_t x = 0; memcpy(&x, buf, 8); { int whole = (width + 7) / 8 * 8; if(whole < 64) x &= (1ull << whole) - 1; }
  SIM_CHECK(x == m.get(at, width), "bits", "%d bits at %zu read as %llx instead of %llx", width, at, (unsigned long long)x, (unsigned long long)m.get(at, width));
  for(int i = (width + 7) / 8; i < 9; ++i) SIM_CHECK(buf[i] == (unsigned char)(junk & 255), "overrun", "reading %d bits changed byte %d of the destination", width, i);
  at += width;
}
static void separate(const sim::Plan& p) {
  Sink* sk = new Sink; sk->faulty = p.p[1]; if(p.p[1]) sim::enable(sim::F_WRITE_ERR); std::ostream os(sk); Bits m; sim::Rng r((uint64_t)p.p[4]);
  std::vector<int> widths;
  { bss::BitStream<std::ostream>* bs = new bss::BitStream<std::ostream>(os);
    for(auto& o : p.ops) { sim::seq(); sim::mix((uint64_t)(o.kind * 977 + o.a) ^ (uint64_t)o.b << 20); sim::logf("op %d a=%lld b=%lld", o.kind, (long long)o.a, (long long)o.b);
      if(o.kind == FLUSH) { bs->Flush(); size_t b0 = m.b.size(); m.pad(); if(m.b.size() > b0) widths.push_back((int)(m.b.size() - b0)); sim::probe(6); if(!sk->failed) SIM_CHECK(sk->got == m.bytes(), "bits", "after a flush the sink holds %zu bytes instead of %zu, or other ones", sk->got.size(), m.bytes().size()); }
      else if(o.kind == MOVE) { std::ostringstream old; { bss::BitStream<std::ostream>* q = new bss::BitStream<std::ostream>(old); uint8_t t = 5; if(o.a & 1) q->Write(&t, 3); *q = std::move(*bs); delete bs; bs = q; } SIM_CHECK(old.str() == ((o.a & 1) ? std::string(1, (char)5) : std::string()), "bits", "assigning over a bit stream lost its pending bits"); sim::probe(7); }
      else widths.push_back(writeop(*bs, m, o));
    }
    delete bs; m.pad(); }
  std::string want = m.bytes();
  if(sk->failed) { sim::probe(3); SIM_CHECK(want.compare(0, sk->got.size(), sk->got) == 0, "bits", "what the failed sink accepted is not a prefix of what was written"); SIM_CHECK(!os.good(), "state", "the sink failed and the stream still claims to be good"); delete sk; return; }
  SIM_CHECK(sk->got == want, "bits", "the sink holds %zu bytes instead of %zu, or other ones", sk->got.size(), want.size());
  // read back: same widths or others, from a source that may end early
  Source* so = new Source; so->data = want; so->chunk = (size_t)p.p[2]; bool cut = p.p[1] && want.size() && p.p[3]; if(cut) { sim::note_fault(sim::F_TRUNC); so->data.resize((size_t)(p.p[4] % (int64_t)want.size())); }
  std::istream is(so); bss::BitStream<std::istream> in(is); size_t at = 0, have = so->data.size() * 8; bool same = p.p[4] & 1; if(!same) sim::probe(2);
  for(size_t i = 0;; ++i) {
    int w = same ? (i < widths.size() ? widths[i] : 0) : (int)r.range(0, 40); if(same && i >= widths.size()) break; if(!same && (at == m.b.size())) break;
    if(at + w > m.b.size()) w = (int)(m.b.size() - at);
    if(at + w > have) { unsigned char b[9]; in.Read(b, w); SIM_CHECK(!is.good(), "state", "reading %d bits with %zu left reports no failure", w, have - at); sim::probe(4); break; }
    SIM_CHECK(!is.fail(), "state", "the stream failed at bit %zu of %zu", at, have); 
    readcheck(in, m, at, R, w, 0, val((int64_t)i));
  }
  if(at == m.b.size() && !cut && at) { sim::probe(8); SIM_CHECK(!is.fail(), "state", "reading exactly all bits put the stream into a failed state"); }
  delete so; delete sk;
}
static void shared(const sim::Plan& p) {
  Rw* rw = new Rw; std::iostream io(rw); Bits m; size_t at = 0; bss::BitStream<std::iostream>* bs = new bss::BitStream<std::iostream>(io); bool wasread = false;
  for(auto& o : p.ops) { sim::seq(); sim::mix((uint64_t)(o.kind * 977 + o.a) ^ (uint64_t)o.b << 20); sim::logf("op %d a=%lld b=%lld", o.kind, (long long)o.a, (long long)o.b);
    size_t stored = m.b.size() & ~(size_t)7; // whole bytes reach the stream as soon as they are complete
    switch(o.kind) {
    case W: case WBOOL: case WT: if(wasread) sim::probe(5); writeop(*bs, m, o); break;
    case FLUSH: bs->Flush(); m.pad(); sim::probe(6); break;
    case R: case RBOOL: case RT: { int w = o.kind == RBOOL ? 1 : o.kind == RT ? (o.c == 0 ? 8 : o.c == 1 ? 16 : o.c == 2 ? 32 : 64) : (int)o.a; if(at + w > stored) continue; readcheck(*bs, m, at, o.kind, w, (int)o.c, val(o.b)); wasread = true; break; }
    }
    SIM_CHECK(!io.fail(), "state", "the stream below failed after operation %d (%lld bits): bits %zu of %zu read", o.kind, (long long)o.a, at, stored);
    std::string whole = m.bytes().substr(0, m.b.size() / 8); SIM_CHECK(rw->d == whole, "bits", "after operation %d the stream holds %zu bytes instead of %zu, or other ones", o.kind, rw->d.size(), whole.size());
  }
  delete bs; m.pad(); SIM_CHECK(rw->d == m.bytes(), "bits", "at the end the stream holds %zu bytes instead of %zu, or other ones", rw->d.size(), m.bytes().size());
  delete rw;
}
static void serial(const sim::Plan& p) {
  std::stringstream s; std::vector<std::string> strs; std::vector<uint64_t> nums; std::vector<size_t> ends;
  for(auto& o : p.ops) { sim::seq(); sim::mix((uint64_t)o.b); uint64_t v = val(o.b); std::string t((size_t)(o.a % 40), (char)('a' + o.a % 26)); bss::bssSerialize<uint64_t>(v, s); bss::bssSerialize<int16_t>((int16_t)v, s); bss::bssSerialize<const char*>(t.c_str(), s); strs.push_back(t); nums.push_back(v); ends.push_back((size_t)s.tellp()); }
  std::string data = s.str(); Source* so = new Source; so->data = data; so->chunk = (size_t)p.p[2]; if(p.p[1]) { sim::note_fault(sim::F_TRUNC); so->data.resize((size_t)(p.p[4] % (int64_t)(data.size() + 1))); }
  std::istream in(so); sim::probe(10);
  for(size_t i = 0; i < strs.size(); ++i) {
    uint64_t v = 0; int16_t h = 0; std::string t = "before"; bss::bssDeserialize<uint64_t>(v, in); bss::bssDeserialize<int16_t>(h, in); bss::bssDeserialize<std::string>(t, in);
    if(ends[i] <= so->data.size()) { SIM_CHECK(in.good(), "state", "value %zu is complete and the stream failed", i); SIM_CHECK(v == nums[i] && h == (int16_t)nums[i] && t == strs[i], "bits", "value %zu came back changed", i); }
    else { SIM_CHECK(!in.good(), "state", "value %zu is cut off and the stream reports success", i); SIM_CHECK(t.size() <= 64, "bits", "a cut-off string came back with %zu bytes", t.size()); sim::probe(11); break; }
  }
  delete so;
}
void harness_execute(const sim::Plan& p) { sim::set_limits(8000000, 20000000); if(p.p[0] == 0) separate(p); else if(p.p[0] == 1) shared(p); else serial(p); }
