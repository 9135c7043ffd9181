// Simulated disk behind fopen (fopencookie) and, for std::fstream, behind fopen/write/read/close as libstdc++ calls them.
#include "rt.h"
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
using namespace rt;
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); }
struct SFile { char path[200]; char* data; size_t len, cap; bool exists; };
struct Cookie { SFile* f; size_t pos; bool r, w, app, bad; bool used; int fd; FILE* fp; };
static SFile files[64]; static int nfiles;
static Cookie cookies[64];
static bool dfaults; static unsigned dden = 8; static sim::IoStats st;
static size_t quota = ~(size_t)0; static int openfiles;
namespace rt { void disk_reset() { nfiles = 0; memset(cookies, 0, sizeof cookies); dfaults = false; dden = 8; memset(&st, 0, sizeof st); quota = ~(size_t)0; openfiles = 0; } }
static SFile* lookup(const char* p, bool create) {
  for(int i = 0; i < nfiles; ++i) if(!strcmp(files[i].path, p)) return &files[i];
  if(!create) return 0;
  if(nfiles >= 64 || strlen(p) >= 200) return 0;
  SFile* f = &files[nfiles++]; memset(f, 0, sizeof *f); strcpy(f->path, p); return f;
}
static void setlen(SFile* f, size_t n) {
  if(n > f->cap) { f->cap = n * 2 + 64; f->data = (char*)__libc_realloc(f->data, f->cap); }
  if(n > f->len) memset(f->data + f->len, 0, n - f->len);
  f->len = n;
}
static bool hit(sim::FaultKind k) { return dfaults && cur && sim::fault(k, 1, dden); }
static ssize_t dread(Cookie* k, char* b, size_t n) {
  ++st.reads;
  if(!k->r) { errno = EBADF; return -1; }
  if(k->bad || hit(sim::F_READ_ERR)) { ++st.read_errs; errno = EIO; return -1; }
  size_t left = k->pos < k->f->len ? k->f->len - k->pos : 0; if(n > left) n = left;
  if(n > 1 && hit(sim::F_SHORT_READ)) { n = (size_t)sim::faultval(sim::F_SHORT_READ, 1, (int64_t)n - 1); ++st.short_reads; }
  memcpy(b, k->f->data + k->pos, n); k->pos += n; st.bytes_read += n; return (ssize_t)n;
}
static ssize_t dwrite(Cookie* k, const char* b, size_t n) {
  ++st.writes;
  if(!k->w) { errno = EBADF; return -1; }
  size_t full = n;
  if(hit(sim::F_WRITE_ERR)) { ++st.write_errs; errno = EIO; return -1; }
  if(n > 0 && hit(sim::F_SHORT_WRITE)) { n = (size_t)sim::faultval(sim::F_SHORT_WRITE, 0, (int64_t)n - 1); ++st.write_errs; }
  if(k->app) k->pos = k->f->len;
  if(k->pos + n > quota) { n = k->pos < quota ? quota - k->pos : 0; ++st.write_errs; }
  if(k->pos + n > k->f->len) setlen(k->f, k->pos + n);
  memcpy(k->f->data + k->pos, b, n); k->pos += n; st.bytes_written += n;
  if(n < full) { errno = ENOSPC; if(!n) return -1; }
  return (ssize_t)n;
}
static ssize_t c_read(void* c, char* b, size_t n) { return dread((Cookie*)c, b, n); }
static ssize_t c_write(void* c, const char* b, size_t n) { ssize_t r = dwrite((Cookie*)c, b, n); return r < 0 ? 0 : r; }
static int c_seek(void* c, off64_t* o, int wh) { Cookie* k = (Cookie*)c; int64_t p = wh == SEEK_SET ? *o : wh == SEEK_CUR ? (int64_t)k->pos + *o : (int64_t)k->f->len + *o; if(p < 0) { errno = EINVAL; return -1; } k->pos = (size_t)p; *o = p; return 0; }
static int dclose(Cookie* k) { ++st.closes; k->used = false; --openfiles; if(k->w && hit(sim::F_CLOSE_ERR)) { ++st.close_errs; errno = EIO; return -1; } return 0; }
static int c_close(void* c) { return dclose((Cookie*)c); }
static Cookie* dopen(const char* path, const char* mode) {
  ++st.opens;
  if(hit(sim::F_OPEN_ERR)) { ++st.open_errs; errno = EACCES; return 0; }
  bool plus = strchr(mode, '+') != 0; SFile* f = lookup(path, false);
  if(mode[0] == 'r' && (!f || !f->exists)) { errno = ENOENT; return 0; }
  f = lookup(path, true); if(!f) { errno = ENAMETOOLONG; return 0; }
  Cookie* k = 0; for(auto& c : cookies) if(!c.used) { k = &c; break; }
  if(!k) { errno = EMFILE; return 0; }
  memset(k, 0, sizeof *k); k->used = true; k->f = f; f->exists = true; ++openfiles;
  k->r = mode[0] == 'r' || plus; k->w = mode[0] != 'r' || plus; k->app = mode[0] == 'a';
  if(mode[0] == 'w') f->len = 0;
  k->fd = 100000 + (int)(k - cookies);
  return k;
}
namespace sim {
  void disk_put(const char* p, const void* d, size_t n) { SFile* f = lookup(p, true); f->exists = true; f->len = 0; setlen(f, n); memcpy(f->data, d, n); }
  bool disk_get(const char* p, std::vector<char>& out) { SFile* f = lookup(p, false); if(!f || !f->exists) return false; out.assign(f->data, f->data + f->len); return true; }
  bool disk_exists(const char* p) { SFile* f = lookup(p, false); return f && f->exists; }
  void disk_faults(bool on) { dfaults = on; }
  void disk_rates(unsigned d) { dden = d; }
  void disk_quota(size_t n) { quota = n; }
  int disk_open_files() { return openfiles; }
  const IoStats& iostats() { return st; }
}
extern "C" {
  static FILE* sim_open(const char* path, const char* mode) {
    if((uint64_t)path < 4096) sim::fail("memory", "fopen of a null path");
    Cookie* k = dopen(path, mode); if(!k) return 0;
    cookie_io_functions_t io = { c_read, c_write, c_seek, c_close };
    FILE* fp = fopencookie(k, mode, io);
    if(!fp) { k->used = false; --openfiles; errno = ENOMEM; return 0; }
    k->fp = fp; return fp;
  }
  FILE* __sim_fopen(const char* path, const char* mode) { return sim_open(path, mode); }
  FILE* __sim_fopen64(const char* path, const char* mode) { return sim_open(path, mode); }
  // libstdc++'s basic_file: fopen64() then fileno()+write()/read()/lseek64()/fclose(); resolved here because
  // the executable's symbols come first.
  FILE* fopen64(const char* path, const char* mode) {
    if(cur) return sim_open(path, mode);
    static FILE* (*real)(const char*, const char*); if(!real) real = (FILE * (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen64");
    return real(path, mode);
  }
  FILE* fopen(const char* path, const char* mode) {
    if(cur) return sim_open(path, mode);
    static FILE* (*real)(const char*, const char*); if(!real) real = (FILE * (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen");
    return real(path, mode);
  }
  int fileno(FILE* fp) { for(auto& c : cookies) if(c.used && c.fp == fp) return c.fd; return fp->_fileno; }
  static Cookie* byfd(int fd) { if(fd < 100000 || fd >= 100064) return 0; Cookie* k = &cookies[fd - 100000]; return k->used ? k : 0; }
  ssize_t write(int fd, const void* b, size_t n) { if(fd >= 100000) { Cookie* k = byfd(fd); if(!k) { errno = EBADF; return -1; } return dwrite(k, (const char*)b, n); } return syscall(SYS_write, fd, b, n); }
  ssize_t read(int fd, void* b, size_t n) { if(fd >= 100000) { Cookie* k = byfd(fd); if(!k) { errno = EBADF; return -1; } return dread(k, (char*)b, n); } return syscall(SYS_read, fd, b, n); }
  ssize_t writev(int fd, const struct iovec* v, int c) {
    if(fd < 100000) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for(int i = 0; i < c; ++i) { if(!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if(r < 0) return t ? t : -1; t += r; if((size_t)r < v[i].iov_len) break; }
    return t;
  }
  off64_t lseek64(int fd, off64_t o, int wh) __THROW { if(fd >= 100000) { Cookie* k = byfd(fd); if(!k) { errno = EBADF; return -1; } off64_t p = o; return c_seek(k, &p, wh) ? -1 : p; } return syscall(SYS_lseek, fd, o, wh); }
  off_t lseek(int fd, off_t o, int wh) __THROW { if(fd >= 100000) { Cookie* k = byfd(fd); if(!k) { errno = EBADF; return -1; } off64_t p = o; return c_seek(k, &p, wh) ? -1 : p; } return syscall(SYS_lseek, fd, o, wh); }
}
