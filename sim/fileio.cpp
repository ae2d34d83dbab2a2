#include "fileio.h"
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

IoPlan io;
// counters survive in the parent when a subprocess dies
struct IoStat { char path[240]; int64_t bytes; int reads; };
struct IoShared { IoStat f[96]; int n; int64_t written; int writes; bool failed; };
static IoShared *g = nullptr;
static IoShared &sh() {
  if (!g) { g = (IoShared *)mmap(nullptr, sizeof(IoShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (g == MAP_FAILED) abort(); }
  return *g;
}
static IoStat &stat_of(const std::string &p) {
  for (int i = 0; i < sh().n; ++i) if (p == sh().f[i].path) return sh().f[i];
  if (sh().n == 96) abort();
  IoStat &s = sh().f[sh().n++]; snprintf(s.path, sizeof s.path, "%s", p.c_str()); s.bytes = 0; s.reads = 0; return s;
}
void io_reset(const IoPlan &p) { io = p; memset(&sh(), 0, sizeof(IoShared)); }
int64_t io_delivered(const std::string &p) { return stat_of(p).bytes; }
int io_reads(const std::string &p) { return stat_of(p).reads; }
int64_t io_written() { return sh().written; }
int io_writes() { return sh().writes; }
bool io_failed() { return sh().failed; }

static bool path_of(int fd, std::string &out) {
  char l[64], b[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, b, sizeof b - 1);
  if (n <= 0) return false;
  b[n] = 0; std::string s = scratch();
  if (strncmp(b, s.c_str(), s.size()) || b[s.size()] != '/') return false;
  out = b; return true;
}
static bool interrupted() {
  if (io.eintr && chance(io.eintr, 100)) { fault("eintr"); return true; }
  return false;
}
static ssize_t raw_write_all(int fd, const char *p, size_t n) {
  size_t off = 0;
  while (off < n) { ssize_t r = ::syscall(SYS_write, fd, p + off, n - off); if (r <= 0) return off ? (ssize_t)off : r; off += r; }
  return n;
}
static ssize_t sim_read(int fd, void *buf, size_t n) {
  std::string p;
  if (!io.on || !path_of(fd, p)) return ::syscall(SYS_read, fd, buf, n);
  auto &st = stat_of(p);
  if (interrupted()) { errno = EINTR; return -1; }
  ++st.reads;
  if (io.read_fail_at && p == io.read_fail && st.reads >= io.read_fail_at) { fault("read_error"); sh().failed = true; errno = EIO; return -1; }
  size_t k = n;
  if (io.short_read && n > 1 && chance(io.short_read, 100)) { k = 1 + draw((uint32_t)std::min<size_t>(n, 64)); fault("short_read"); }
  ssize_t r = ::syscall(SYS_read, fd, buf, std::min(k, n));
  if (r > 0) st.bytes += r;
  return r;
}
static ssize_t sim_write(int fd, const char *b, size_t n, const std::string &) {
  if (interrupted()) { errno = EINTR; return -1; }
  ++sh().writes;
  if (io.write_fail_at && sh().writes >= io.write_fail_at && (!io.write_fail_len || sh().writes < io.write_fail_at + io.write_fail_len)) { fault("write_error"); sh().failed = true; errno = EIO; return -1; }
  size_t k = n;
  if (io.short_write && n > 1 && chance(io.short_write, 100)) { k = 1 + draw((uint32_t)(n - 1)); fault("short_write"); }
  if (io.disk_bytes >= 0) {
    if (io.disk_bytes == 0 && n) { fault("disk_full"); sh().failed = true; errno = ENOSPC; return -1; }
    k = std::min<size_t>(k, io.disk_bytes);
  }
  if (io.crash_at >= 0 && sh().written + (int64_t)k >= io.crash_at) {
    raw_write_all(fd, b, io.crash_at - sh().written); fault("crash_at_write"); _exit(Crash_Code);
  }
  ssize_t r = raw_write_all(fd, b, k);
  if (r > 0) { sh().written += r; if (io.disk_bytes >= 0) io.disk_bytes -= r; }
  return r;
}

int subprocess(const std::function<int()> &fn, std::string *out) {
  std::string of = scratch() + ".stdout";
  pid_t pid = fork();
  if (pid < 0) fail("fork-failed", "fork");
  if (!pid) {
    int fd = ::open(of.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    dup2(fd, 1); close(fd);
    set_quiet_death();
    std::cout.clear();
    int rc = fn();
    std::cout.flush(); fflush(stdout);
    _exit(rc & 255);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  die_if_failed();
  if (out) get_file(of, *out);
  unlink(of.c_str());
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

void put_file(const std::string &path, const std::string &data) {
  int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd < 0 || raw_write_all(fd, data.data(), data.size()) != (ssize_t)data.size()) { perror(path.c_str()); abort(); }
  close(fd);
}
bool get_file(const std::string &path, std::string &data) {
  data.clear();
  int fd = ::open(path.c_str(), O_RDONLY); if (fd < 0) return false;
  char b[65536]; ssize_t r;
  while ((r = ::syscall(SYS_read, fd, b, sizeof b)) > 0) data.append(b, r);
  close(fd); return true;
}

}  // namespace sim

extern "C" {
ssize_t read(int fd, void *b, size_t n) { return sim::sim_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
  std::string p;
  if (!sim::io.on || !sim::path_of(fd, p)) return ::syscall(SYS_write, fd, b, n);
  return sim::sim_write(fd, (const char *)b, n, p);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  std::string p;
  if (!sim::io.on || !sim::path_of(fd, p)) return ::syscall(SYS_writev, fd, v, c);
  std::string all;
  for (int i = 0; i < c; ++i) all.append((const char *)v[i].iov_base, v[i].iov_len);
  return sim::sim_write(fd, all.data(), all.size(), p);
}
static FILE *sim_fopen(const char *name, const char *sym, const char *path, const char *mode) {
  char real[4096];
  if (sim::io.on && path && !sim::io.open_fail.empty() && (sim::io.open_fail == path || (realpath(path, real) && sim::io.open_fail == real))) { sim::fault("open_error"); sim::sh().failed = true; errno = EACCES; return nullptr; }
  using F = FILE *(*)(const char *, const char *);
  F f = (F)dlsym(RTLD_NEXT, sym); (void)name;
  return f(path, mode);
}
FILE *fopen(const char *p, const char *m) { return sim_fopen("fopen", "fopen", p, m); }
FILE *fopen64(const char *p, const char *m) { return sim_fopen("fopen64", "fopen64", p, m); }
}
