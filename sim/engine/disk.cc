// The disk seen by the simulated nodes: real files below the run's scratch
// directory, with system calls that fail the way disks do.
#include "engine.h"
#include <cerrno>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <set>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace sim;

namespace {
int g_on = 0, g_failed = 0;
uint64_t g_full_until[64], g_ops[64];       // per node: the disk is full or broken for some operations
bool regular(int fd) { struct stat s; return fd > 2 and syscall(SYS_fstat, fd, &s) == 0 and S_ISREG(s.st_mode); }
bool on(int bit) { return g_cur >= 0 and (g_on & bit) and enabled(VF_DISK); }
// what happens to a transfer of n bytes: how many go through, or the error
enum { kAll, kShort, kError };
int fate(bool writing, size_t n, size_t& k, int& err) {
  auto& o = g_ops[g_cur];
  o++;
  double r = rate(VF_DISK);
  int harm = writing ? VDISK_WRITE : VDISK_READ;
  if (on(harm)) {
    bool bad = g_full_until[g_cur] > o;
    if (not bad and chance(VF_DISK, 0.02 + 0.25 * r * r)) {
      bad = true;
      // for this operation only, for a while or for good
      auto d = pick(VF_DISK, 4);
      g_full_until[g_cur] = d == 0 ? o : d == 1 ? o + 1 + pick(VF_DISK, 6) : ~0ull;
      // some of it may go through before the error
      if (pick(VF_DISK, 2) and n > 1) { k = 1 + pick(VF_DISK, n - 1); g_failed++; ev("disk-partial", (uint64_t)writing, n, k); return kShort; }
    }
    if (bad) {
      g_failed++;
      err = writing ? (pick(VF_DISK, 2) ? ENOSPC : EIO) : EIO;
      ev("disk-error", (uint64_t)writing, n, (uint64_t)err);
      return kError;
    }
  }
  if (on(VDISK_SLOW)) {
    if (chance(VF_DISK, 0.3 * r)) { err = EINTR; ev("disk-eintr"); return kError; }
    if (n > 1 and chance(VF_DISK, 0.5 * r)) { k = 1 + pick(VF_DISK, n - 1); ev("disk-short", (uint64_t)writing, n, k); return kShort; }
  }
  return kAll;
}
bool openFails(char const* path, bool writing) {
  (void)path;
  if (g_cur < 0 or not on(VDISK_OPEN)) return false;
  if (not chance(VF_DISK, 0.05 + 0.4 * rate(VF_DISK))) return false;
  g_failed++;
  ev("disk-open", (uint64_t)writing);
  errno = writing ? (pick(VF_DISK, 2) ? ENOSPC : EACCES) : EACCES;
  return true;
}
} // namespace
namespace sim { void diskInit() {} }

namespace {
uint64_t g_crash_left = 0;
// one more disk operation; true if the job dies in it
bool dies() { return g_cur >= 0 and g_crash_left and --g_crash_left == 0; }
} // namespace

extern "C" {
void vsim_disk_faults(int bits) { g_on = bits; }
int vsim_disk_fault_count(void) { return g_failed; }

void vsim_crash_at(uint64_t ops) { g_crash_left = (((vsim_fault_mask() >> VF_CRASH) & 1) and ops) ? ops : 0; }

ssize_t write(int fd, void const* p, size_t n) {
  if (g_crash_left and g_cur >= 0 and n and regular(fd) and dies()) {
    // some of it is on the disk, or nothing, or all
    auto k = (size_t)(mix(g_cfg.seed, 0xC4A5) % (n + 1));
    if (k) (void)syscall(SYS_write, fd, p, k);
    crashNow();
  }
  if (g_on and g_cur >= 0 and n and regular(fd)) {
    size_t k = n; int err = 0;
    switch (fate(true, n, k, err)) { case kError: errno = err; return -1; case kShort: n = k; break; default: break; }
  }
  return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, struct iovec const* v, int c) {
  size_t n = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  if (g_on and g_cur >= 0 and n and regular(fd)) {
    size_t k = n; int err = 0;
    switch (fate(true, n, k, err)) {
      case kError: errno = err; return -1;
      case kShort: {
        struct iovec w[8];
        int m = 0;
        for (int i = 0; i < c and k and m < 8; i++) { w[m] = v[i]; if (w[m].iov_len > k) w[m].iov_len = k; k -= w[m].iov_len; m++; }
        return syscall(SYS_writev, fd, w, m);
      }
      default: break;
    }
  }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t read(int fd, void* p, size_t n) {
  if (g_on and g_cur >= 0 and n and regular(fd)) {
    size_t k = n; int err = 0;
    switch (fate(false, n, k, err)) { case kError: errno = err; return -1; case kShort: n = k; break; default: break; }
  }
  return syscall(SYS_read, fd, p, n);
}
FILE* fopen64(char const* path, char const* mode) {
  using F = FILE* (*)(char const*, char const*);
  static F real = (F)dlsym(RTLD_NEXT, "fopen64");
  if (g_on and openFails(path, mode[0] != 'r')) return nullptr;
  return real(path, mode);
}
FILE* fopen(char const* path, char const* mode) { return fopen64(path, mode); }
int mkdir(char const* path, mode_t m) {
  if (g_crash_left and g_cur >= 0 and dies()) crashNow();
  if (g_on and openFails(path, true)) return -1;
  return (int)syscall(SYS_mkdir, path, m);
}
int remove(char const* path) {
  if (g_crash_left and g_cur >= 0 and dies()) crashNow();
  return (int)syscall(SYS_unlink, path);
}

// The files of the serialisation library: what it does is to open, transfer
// everything and close, and to report any error.
int vsim_disk_write_file(char const* path, void const* data, unsigned long len) {
  if (g_crash_left and g_cur >= 0 and dies()) crashNow();
  if (g_on and openFails(path, true)) return -1;
  int fd = (int)syscall(SYS_open, path, O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd < 0) return -1;
  auto p = static_cast<char const*>(data);
  int rc = 0;
  for (size_t off = 0; off < len; ) {
    auto k = write(fd, p + off, std::min<size_t>(len - off, 4096));
    if (k < 0 and errno == EINTR) continue;
    if (k <= 0) { rc = -1; break; }
    off += (size_t)k;
    vsim_yield();
  }
  syscall(SYS_close, fd);
  return rc;
}
void* vsim_disk_read_file(char const* path, unsigned long* len) {
  if (g_on and openFails(path, false)) return nullptr;
  int fd = (int)syscall(SYS_open, path, O_RDONLY);
  if (fd < 0) return nullptr;
  struct stat s;
  syscall(SYS_fstat, fd, &s);
  auto n = (size_t)s.st_size;
  auto b = static_cast<char*>(std::malloc(n + 1));
  for (size_t off = 0; off < n; ) {
    auto k = read(fd, b + off, n - off);
    if (k < 0 and errno == EINTR) continue;
    if (k <= 0) { std::free(b); syscall(SYS_close, fd); return nullptr; }
    off += (size_t)k;
  }
  syscall(SYS_close, fd);
  *len = n;
  return b;
}
}
