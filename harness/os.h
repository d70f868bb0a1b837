// Model of the operating system's file interface as the library uses it (POSIX): files are byte arrays, streams are
// buffered, pages are small, every mapping gets a new address and covers exactly the pages the file has, and any call
// may fail or transfer less than requested (at most os::faults times, decided by the solver).
// In the engine the library's calls reach the __wrap_ functions directly, natively via the linker's --wrap.
#pragma once
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include "vs.h"
#ifndef OS_PAGE
#define OS_PAGE 16
#endif
#ifndef OS_CAP
#define OS_CAP 4096
#endif
namespace os {
inline int faults = 0;           // how many more calls may fail
inline bool faulty = false;      // a call failed
inline long open_files = 0, mappings = 0;
inline bool bad_unmap = false;
struct inode {
  unsigned char data[OS_CAP];
  unsigned long size;
  bool exists;
};
struct stream {
  inode* ino;
  unsigned long pos;      // position of the stream, including what is buffered
  unsigned long pending;  // number of bytes before pos which did not reach the file yet
  bool rd, wr, open, err, eof;
  unsigned char* buf;  // content of the buffered bytes
};
struct mapping {
  unsigned char* addr;
  inode* ino;
  unsigned long len, cover;  // requested length, accessible bytes
  bool wr, live;
};
constexpr int NI = 3, NS = 6, NM = 10;
inline inode inodes[NI];
inline stream streams[NS];
inline mapping maps[NM];

inline bool fail(char const* what) {
  if (faults == 0) return false;
  if (!vs::flip(what)) return false;
  --faults;
  faulty = true;
  return true;
}
inline inode* lookup(char const* path) { return &inodes[path[0] == 'b' ? 1 : path[0] == 'c' ? 2 : 0]; }
inline unsigned long up(unsigned long n) { return (n + OS_PAGE - 1) / OS_PAGE * OS_PAGE; }
inline unsigned long umin(unsigned long a, unsigned long b) { return a < b ? a : b; }
// what is stored through shared mappings is what the file contains
inline void pull(inode* i) {
  for (auto& m : maps)
    if (m.live && m.wr && m.ino == i && i->size) memcpy(i->data, m.addr, umin(m.cover, i->size));
}
inline void push(inode* i) {
  for (auto& m : maps)
    if (m.live && m.ino == i && i->size) memcpy(m.addr, i->data, umin(m.cover, i->size));
}
inline stream* str(FILE* f) {
  for (auto& s : streams)
    if (reinterpret_cast<FILE*>(&s) == f) {
      vs_assert(s.open, "stream used after it was closed");
      return &s;
    }
  vs_assert(false, "not an open stream");
  return nullptr;
}
inline bool flush(stream* s) {
  if (s->pending == 0) return true;
  auto const n = s->pending;
  s->pending = 0;
  if (fail("write-fails")) { s->err = true; errno = ENOSPC; return false; }
  auto const from = s->pos - n;
  vs_assert(s->pos <= OS_CAP, "modelled file too small");
  pull(s->ino);
  if (from > s->ino->size) memset(s->ino->data + s->ino->size, 0, from - s->ino->size);
  memcpy(s->ino->data + from, s->buf, n);
  if (s->pos > s->ino->size) s->ino->size = s->pos;
  push(s->ino);
  return true;
}
inline stream* byfd(int fd) {
  vs_assert(fd >= 100 && fd < 100 + NS && streams[fd - 100].open, "bad file descriptor");
  return &streams[fd - 100];
}
// file content as another process sees it
inline unsigned long size(char const* p) { return lookup(p)->size; }
inline unsigned char const* content(char const* p) { auto* i = lookup(p); pull(i); return i->data; }
inline void create(char const* p, void const* d, unsigned long n) {
  auto* i = lookup(p);
  i->exists = true;
  i->size = n;
  if (n) memcpy(i->data, d, n);
}
inline void done() {
  vs_assert(open_files == 0, "every opened file is closed");
  vs_assert(mappings == 0 && !bad_unmap, "every mapping is released completely");
}
}  // namespace os

extern "C" {
FILE* __wrap_fopen(char const* path, char const* mode) {
  auto* i = os::lookup(path);
  bool const w = mode[0] == 'w', r = mode[0] == 'r', a = mode[0] == 'a', plus = mode[1] == '+' || (mode[1] && mode[2] == '+');
  vs_assert(w || r || a, "valid fopen mode");
  if (os::fail("fopen-fails") || (r && !i->exists)) { errno = ENOENT; return nullptr; }
  i->exists = true;
  if (w) i->size = 0;
  for (auto& s : os::streams)
    if (!s.open) {
      auto* b = s.buf ? s.buf : static_cast<unsigned char*>(malloc(OS_CAP));
      s = os::stream{i, a ? i->size : 0, 0, r || plus, w || a || plus, true, false, false, b};
      ++os::open_files;
      return reinterpret_cast<FILE*>(&s);
    }
  vs_assert(false, "too many open files");
  return nullptr;
}
int __wrap_fflush(FILE* f) {
  if (!f) { bool ok = true; for (auto& s : os::streams) if (s.open) ok = os::flush(&s) && ok; return ok ? 0 : EOF; }
  return os::flush(os::str(f)) ? 0 : EOF;
}
int __wrap_fclose(FILE* f) {
  auto* s = os::str(f);
  bool const ok = os::flush(s);
  s->open = false;
  --os::open_files;
  return ok ? 0 : EOF;
}
unsigned long __wrap_fwrite(void const* p, unsigned long sz, unsigned long cnt, FILE* f) {
  auto* s = os::str(f);
  unsigned long const n = sz * cnt;
  if (n == 0) return 0;
  if (!s->wr) { s->err = true; errno = EBADF; return 0; }
  vs_assert(s->pending + n <= OS_CAP, "modelled file too small");
  if (os::fail("fwrite-short")) {
    unsigned long const k = vs::pick(2, "short-count") ? n / 2 : 0;
    memcpy(s->buf + s->pending, p, k);
    s->pending += k;
    s->pos += k;
    s->err = true;
    return k / sz;
  }
  memcpy(s->buf + s->pending, p, n);
  s->pending += n;
  s->pos += n;
  return cnt;
}
unsigned long __wrap_fread(void* p, unsigned long sz, unsigned long cnt, FILE* f) {
  auto* s = os::str(f);
  vs_assert(s->pending == 0, "no read directly after a write without flush or seek");
  unsigned long n = sz * cnt;
  if (n == 0) return 0;
  if (!s->rd) { s->err = true; errno = EBADF; return 0; }
  os::pull(s->ino);
  unsigned long const have = s->pos < s->ino->size ? s->ino->size - s->pos : 0;
  if (n > have) { n = have; s->eof = true; }
  if (n && os::fail("fread-short")) { n = vs::pick(2, "short-count") ? n / 2 : 0; s->err = true; }
  if (n) memcpy(p, s->ino->data + s->pos, n);
  s->pos += n;
  return n / sz;
}
int __wrap_fseek(FILE* f, long off, int whence) {
  auto* s = os::str(f);
  if (!os::flush(s)) return -1;
  if (os::fail("fseek-fails")) { errno = EIO; return -1; }
  long const base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<long>(s->pos) : static_cast<long>(s->ino->size);
  if (base + off < 0) { errno = EINVAL; return -1; }
  s->pos = static_cast<unsigned long>(base + off);
  s->eof = false;
  return 0;
}
int __wrap_fseeko(FILE* f, long off, int whence) { return __wrap_fseek(f, off, whence); }
void __wrap_rewind(FILE* f) { if (__wrap_fseek(f, 0, SEEK_SET) == 0) os::str(f)->err = false; }
long __wrap_ftell(FILE* f) { return static_cast<long>(os::str(f)->pos); }
long __wrap_ftello(FILE* f) { return static_cast<long>(os::str(f)->pos); }
int __wrap_ferror(FILE* f) { return os::str(f)->err; }
int __wrap_feof(FILE* f) { return os::str(f)->eof; }
void __wrap_clearerr(FILE* f) { auto* s = os::str(f); s->err = s->eof = false; }
int __wrap_fileno(FILE* f) { return 100 + static_cast<int>(os::str(f) - os::streams); }
int __wrap_fsync(int fd) { os::byfd(fd); if (os::fail("fsync-fails")) { errno = EIO; return -1; } return 0; }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_fstat(int fd, struct stat* st) {
  auto* s = os::byfd(fd);
  if (os::fail("fstat-fails")) { errno = EIO; return -1; }
  memset(st, 0, sizeof(*st));
  st->st_size = static_cast<off_t>(s->ino->size);
  st->st_mode = S_IFREG | 0644;
  return 0;
}
int __wrap_ftruncate(int fd, off_t len) {
  auto* s = os::byfd(fd);
  if (!s->wr) { errno = EINVAL; return -1; }
  if (os::fail("ftruncate-fails")) { errno = ENOSPC; return -1; }
  if (len < 0) { errno = EINVAL; return -1; }
  auto const n = static_cast<unsigned long>(len);
  if (n >= 1UL << 40U) { errno = EFBIG; return -1; }
  vs_assert(n <= OS_CAP, "modelled file too small");
  os::pull(s->ino);
  if (n > s->ino->size) memset(s->ino->data + s->ino->size, 0, n - s->ino->size);
  s->ino->size = n;
  for (auto& m : os::maps)  // what is cut off is gone
    if (m.live && m.ino == s->ino && m.cover > n) memset(m.addr + n, 0, m.cover - n);
  return 0;
}
int __wrap_posix_fallocate(int fd, off_t off, off_t len) {
  auto* s = os::byfd(fd);
  if (static_cast<unsigned long>(off + len) <= s->ino->size) return 0;
  return __wrap_ftruncate(fd, off + len) == 0 ? 0 : ENOSPC;
}
void* __wrap_mmap(void*, unsigned long len, int prot, int flags, int fd, off_t off) {
  auto* s = os::byfd(fd);
  if (len == 0 || off != 0) { errno = EINVAL; return MAP_FAILED; }
  bool const w = (prot & PROT_WRITE) != 0;
  if (!s->rd || (w && (flags & MAP_SHARED) && !s->wr)) { errno = EACCES; return MAP_FAILED; }
  if (os::fail("mmap-fails")) { errno = ENOMEM; return MAP_FAILED; }
  os::pull(s->ino);
  for (auto& m : os::maps)
    if (!m.live) {
      auto const cover = os::umin(os::up(len), os::up(s->ino->size));
      auto* p = static_cast<unsigned char*>(malloc(cover));
      if (cover > s->ino->size) memset(p + s->ino->size, 0, cover - s->ino->size);
      if (s->ino->size) memcpy(p, s->ino->data, os::umin(cover, s->ino->size));
      m = os::mapping{p, s->ino, len, cover, w && (flags & MAP_SHARED), true};
      ++os::mappings;
      return p;
    }
  vs_assert(false, "too many mappings");
  return MAP_FAILED;
}
int __wrap_msync(void* p, unsigned long len, int) {
  for (auto& m : os::maps)
    if (m.live && m.addr == p) {
      if (os::up(len) > os::up(m.len)) { errno = ENOMEM; return -1; }
      if (os::fail("msync-fails")) { errno = EIO; return -1; }
      os::pull(m.ino);
      return 0;
    }
  errno = ENOMEM;
  return -1;
}
int __wrap_munmap(void* p, unsigned long len) {
  for (auto& m : os::maps)
    if (m.live && m.addr == p) {
      if (len == 0) { errno = EINVAL; return -1; }
      vs_assert(os::up(len) <= os::up(m.len), "no pages of other mappings unmapped");
      if (os::up(len) < os::up(m.len)) os::bad_unmap = true;  // the rest stays mapped
      os::pull(m.ino);
      m.live = false;
      --os::mappings;
      free(m.addr);
      return 0;
    }
  vs_assert(false, "unmapped something that was not mapped");
  return -1;
}
void* __wrap_mremap(void* p, unsigned long old, unsigned long len, int) {
  for (auto& m : os::maps)
    if (m.live && m.addr == p) {
      if (len == 0 || os::up(old) != os::up(m.len)) { errno = EINVAL; return MAP_FAILED; }
      if (os::fail("mmap-fails")) { errno = ENOMEM; return MAP_FAILED; }
      auto* i = m.ino;
      os::pull(i);
      auto const cover = os::umin(os::up(len), os::up(i->size));
      auto* q = static_cast<unsigned char*>(malloc(cover));
      if (cover > i->size) memset(q + i->size, 0, cover - i->size);
      if (i->size) memcpy(q, i->data, os::umin(cover, i->size));
      free(p);
      m.addr = q;
      m.len = len;
      m.cover = cover;
      return q;
    }
  errno = EINVAL;
  return MAP_FAILED;
}
int __wrap_madvise(void*, unsigned long, int) { return 0; }
}
