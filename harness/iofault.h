// Stream buffers with injected faults, shared by the serializer harnesses.
#ifndef VERIF_IOFAULT_H
#define VERIF_IOFAULT_H
#include "common.h"
#include <streambuf>
#include <string>
#include <stdexcept>
namespace hx {
  // Accepts bytes; once a write fault fired nothing more is accepted.
  struct FSink : std::streambuf {
    std::string got; unsigned den = 0; bool failed = false; size_t cap = ~(size_t)0;
    std::streamsize xsputn(const char* s, std::streamsize n) override { sim::NoPreempt np; for(std::streamsize i = 0; i < n; ++i) if(overflow((unsigned char)s[i]) == EOF) return i; return n; }
    int overflow(int c) override { sim::NoPreempt np; if(c == EOF) return 0; if(failed || (got.size() >= cap) || (den && sim::fault(sim::F_WRITE_ERR, 1, den))) { failed = true; return EOF; } got.push_back((char)c); return c; }
    int sync() override { return failed ? -1 : 0; }
  };
  // Delivers data in chunks of 1..chunk bytes; ends at `end`, where it either reports end of file or throws (badbit).
  struct FSource : std::streambuf {
    std::string data; size_t at = 0, chunk = 16, end = ~(size_t)0; bool err = false, hit = false; char buf[64]; sim::Rng r{ 7 }; unsigned calls = 0;
    int underflow() override {
      sim::NoPreempt np; if(++calls > 100000) sim::fail("no-progress", "the reader asked %u times for data beyond the end", calls);
      size_t lim = end < data.size() ? end : data.size();
      if(at >= lim) { hit = true; if(err) { sim::note_fault(sim::F_READ_ERR); throw std::runtime_error("injected read error"); } return EOF; }
      calls = 0; size_t n = 1 + (size_t)r.below(chunk); if(n > 60) n = 60; if(n > lim - at) n = lim - at; memcpy(buf + 4, data.data() + at, n); at += n; setg(buf + 4, buf + 4, buf + 4 + n); return (unsigned char)buf[4];
    }
    std::streampos seekpos(std::streampos p, std::ios_base::openmode) override { sim::NoPreempt np; size_t lim = end < data.size() ? end : data.size(); if((std::streamoff)p < 0 || (size_t)(std::streamoff)p > lim) return std::streampos(std::streamoff(-1)); at = (size_t)(std::streamoff)p; setg(buf, buf, buf); return p; }
    std::streampos seekoff(std::streamoff o, std::ios_base::seekdir d, std::ios_base::openmode m) override { sim::NoPreempt np; if(d == std::ios_base::cur && o == 0) return std::streampos((std::streamoff)consumed()); size_t lim = end < data.size() ? end : data.size(); return seekpos(std::streampos((d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (std::streamoff)consumed() : (std::streamoff)lim) + o), m); }
    // number of bytes the reader has consumed
    size_t consumed() const { return at - (size_t)(egptr() - gptr()); }
  };
}
#endif
