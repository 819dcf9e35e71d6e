// Disk, shell and allocation seams of the simulated machine.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace sim;

extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); }

namespace {
const int MAXFD = 1024;
struct Last { off_t off = 0; ssize_t len = 0; }; // the last write through a descriptor
struct FdInfo { bool tracked; char name[96]; Last last; };
FdInfo fds[MAXFD];
bool inside = false; // guards against recursion from our own calls

bool mine(const char* p) {
  if (!active || inside || !p || !*p) return false;
  if (p[0] != '/') return true;
  size_t n = strlen(sh->cfg.dir);
  return strncmp(p, sh->cfg.dir, n) == 0 && (p[n] == '/' || p[n] == 0);
}
void track(int fd, const char* p) { if (fd >= 0 && fd < MAXFD) { fds[fd].tracked = true; fds[fd].last = Last(); const char* b = strrchr(p, '/'); (void)b; snprintf(fds[fd].name, sizeof fds[fd].name, "%s", p[0] == '/' ? p + strlen(sh->cfg.dir) + 1 : p); } }
bool tracked(int fd) { return active && !inside && fd >= 0 && fd < MAXFD && fds[fd].tracked; }
const char* knames[] = { "open-r", "open-w", "read", "write", "close", "sync", "trunc", "mkdir", "rename", "unlink", "stat", "system", "popen" };

uint64_t hs(const char* s) { uint64_t h = 1469598103934665603ULL; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL; return h; }

// one tracked operation; returns the fault that applies, if any
Fault* op(int kind, const char* path, size_t len) {
  if (path[0] == '/') { size_t n = strlen(sh->cfg.dir); if (!strncmp(path, sh->cfg.dir, n) && path[n] == '/') path += n + 1; }
  yield_point();
  sh->ioops++; sh->iocount[me][kind]++;
  ev(10 + kind, hs(path), len, 0);
  trace("io %s %s %zu", knames[kind], path, len);
  Fault* hit = nullptr;
  for (int i = 0; i < sh->cfg.nfault; i++) {
    Fault& f = sh->cfg.fault[i];
    if (f.cls != FC_IO || !(f.kinds & (1u << kind)) || (f.rank >= 0 && f.rank != me) || (f.path[0] && !strstr(path, f.path))) continue;
    f.seen++;
    if (f.seen == f.nth || (f.persist && f.seen > f.nth)) { f.fired++; if (!hit) hit = &f; }
  }
  if (hit) {
    trace("fault action %d on %s %s", hit->action, knames[kind], path);
    if (hit->fired == 1) note("fault: %s %s %s on rank %d", hit->action == ACT_ERRNO ? strerrorname_np(hit->err) : hit->action == ACT_SHORT ? "short" : hit->action == ACT_KILL ? "job killed before" : hit->action == ACT_TORN_KILL ? "job killed during" : "job killed after", knames[kind], path, me);
    if (hit->action == ACT_KILL) stop_job(O_KILLED, 0);
  }
  return hit;
}
void after(Fault* f) { if (f && (f->action == ACT_KILL_AFTER || f->action == ACT_TORN_KILL)) stop_job(O_KILLED, 0); }

template <class F> F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

ssize_t put(int fd, const void* b, size_t n, Last& l) {
  ssize_t r = syscall(SYS_write, fd, b, n);
  if (r > 0) { l.len = r; l.off = syscall(SYS_lseek, fd, 0, SEEK_CUR) - r; }
  return r;
}
// a close that fails has lost the last thing written through the descriptor
void lose(int fd, const Last& l) {
  struct stat s;
  if (l.len <= 0 || syscall(SYS_fstat, fd, &s)) return;
  if (l.off + l.len == s.st_size) { syscall(SYS_ftruncate, fd, l.off); return; }
  std::string z(l.len, 0);
  syscall(SYS_pwrite64, fd, z.data(), z.size(), l.off);
}

ssize_t do_write(int fd, const void* b, size_t n, const char* name, Last& l) {
  Fault* f = op(IO_WRITE, name, n);
  if (!f) return put(fd, b, n, l);
  if (f->action == ACT_ERRNO) { errno = f->err; return -1; }
  if (f->action == ACT_SHORT || f->action == ACT_TORN_KILL) {
    size_t k = n > 1 ? n / 2 : n;
    ssize_t r = k ? put(fd, b, k, l) : 0;
    after(f);
    return r;
  }
  ssize_t r = put(fd, b, n, l);
  after(f);
  return r;
}
ssize_t do_read(int fd, void* b, size_t n, const char* name) {
  Fault* f = op(IO_READ, name, n);
  if (f && f->action == ACT_ERRNO) { errno = f->err; return -1; }
  if (f && f->action == ACT_SHORT && n > 1) { sh->short_reads++; return syscall(SYS_read, fd, b, n / 2); }
  ssize_t r = syscall(SYS_read, fd, b, n);
  after(f);
  return r;
}

struct Cookie { int fd; std::string name; Last last; };
ssize_t ck_read(void* c, char* b, size_t n) { Cookie* k = (Cookie*)c; return do_read(k->fd, b, n, k->name.c_str()); }
ssize_t ck_write(void* c, const char* b, size_t n) {
  Cookie* k = (Cookie*)c;
  // stdio retries after a short count; a failing call makes the stream fail
  size_t done = 0;
  while (done < n) { ssize_t r = do_write(k->fd, b + done, n - done, k->name.c_str(), k->last); if (r < 0) return done ? (ssize_t)done : 0; if (r == 0) break; done += r; }
  return done;
}
int ck_seek(void* c, off64_t* o, int w) { off_t r = syscall(SYS_lseek, ((Cookie*)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
int ck_close(void* c) {
  Cookie* k = (Cookie*)c;
  Fault* f = active ? op(IO_CLOSE, k->name.c_str(), 0) : nullptr;
  if (f && f->action == ACT_ERRNO) lose(k->fd, k->last);
  int r = syscall(SYS_close, k->fd);
  if (f && f->action == ACT_ERRNO) { errno = f->err; r = -1; }
  after(f);
  delete k;
  return r;
}

bool wants_fd(void* ra) {
  Dl_info i;
  return dladdr(ra, &i) && i.dli_fname && (strstr(i.dli_fname, "libstdc++") || strstr(i.dli_fname, "netcdf") || strstr(i.dli_fname, "hdf5"));
}

FILE* sim_fopen(const char* path, const char* mode, void* ra) {
  typedef FILE* (*fn)(const char*, const char*);
  static fn real = next<fn>("fopen64");
  if (!mine(path)) return real(path, mode);
  bool w = strpbrk(mode, "wa+") != nullptr;
  Fault* f = op(w ? IO_OPEN_W : IO_OPEN_R, path, 0);
  if (f && f->action == ACT_ERRNO) { errno = f->err; return nullptr; }
  if (wants_fd(ra)) {
    FILE* r = real(path, mode);
    if (r) track(fileno(r), path);
    after(f);
    return r;
  }
  int fl = 0;
  bool plus = strchr(mode, '+') != nullptr;
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  int fd = syscall(SYS_openat, AT_FDCWD, path, fl | O_CLOEXEC, 0666);
  if (fd < 0) return nullptr;
  after(f);
  Cookie* k = new Cookie{ fd, path, Last() };
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  FILE* r = fopencookie(k, mode, io);
  if (!r) { int e = errno; syscall(SYS_close, fd); delete k; errno = e; }
  return r;
}

int sim_open(const char* path, int flags, mode_t m) {
  if (!mine(path)) return syscall(SYS_openat, AT_FDCWD, path, flags, m);
  Fault* f = op((flags & O_ACCMODE) == O_RDONLY ? IO_OPEN_R : IO_OPEN_W, path, 0);
  if (f && f->action == ACT_ERRNO) { errno = f->err; return -1; }
  int fd = syscall(SYS_openat, AT_FDCWD, path, flags, m);
  if (fd >= 0) track(fd, path);
  after(f);
  return fd;
}

bool alloc_fault(int cls, long& count) {
  count++;
  if (!sh->cfg.nfault) return false;
  for (int i = 0; i < sh->cfg.nfault; i++) {
    Fault& f = sh->cfg.fault[i];
    if (f.cls != cls || (f.rank >= 0 && f.rank != me)) continue;
    f.seen++;
    if (f.seen == f.nth || (f.persist && f.seen > f.nth)) { f.fired++; if (f.fired == 1) note("fault: allocation %ld failed on rank %d", f.seen, me); return true; }
  }
  return false;
}
} // namespace

namespace sim {
void mpi_fault_point() {
  for (int i = 0; i < sh->cfg.nfault; i++) {
    Fault& f = sh->cfg.fault[i];
    if (f.cls != FC_MPI || (f.rank >= 0 && f.rank != me)) continue;
    f.seen++;
    if (f.seen == f.nth) { f.fired++; note("fault: job killed at message call %ld of rank %d", f.seen, me); stop_job(O_KILLED, 0); }
  }
}
}

extern "C" {
FILE* fopen(const char* p, const char* m) { return sim_fopen(p, m, __builtin_return_address(0)); }
FILE* fopen64(const char* p, const char* m) { return sim_fopen(p, m, __builtin_return_address(0)); }
int fclose(FILE* f) {
  typedef int (*fn)(FILE*);
  static fn real = next<fn>("fclose");
  int fd = active && f ? fileno(f) : -1;
  if (!tracked(fd)) return real(f);
  Fault* x = op(IO_CLOSE, fds[fd].name, 0);
  fds[fd].tracked = false;
  if (x && x->action == ACT_ERRNO) { fflush(f); lose(fd, fds[fd].last); }
  int r = real(f);
  after(x);
  if (x && x->action == ACT_ERRNO) { errno = x->err; return -1; }
  return r;
}
int open(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return sim_open(p, fl, m); }
int open64(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return sim_open(p, fl, m); }
int creat(const char* p, mode_t m) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* p, mode_t m) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t write(int fd, const void* b, size_t n) { return tracked(fd) ? do_write(fd, b, n, fds[fd].name, fds[fd].last) : syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, fds[fd].name, fds[fd].last); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
ssize_t read(int fd, void* b, size_t n) { return tracked(fd) ? do_read(fd, b, n, fds[fd].name) : syscall(SYS_read, fd, b, n); }
int close(int fd) {
  if (!tracked(fd)) return syscall(SYS_close, fd);
  Fault* x = op(IO_CLOSE, fds[fd].name, 0);
  fds[fd].tracked = false;
  if (x && x->action == ACT_ERRNO) lose(fd, fds[fd].last);
  int r = syscall(SYS_close, fd);
  after(x);
  if (x && x->action == ACT_ERRNO) { errno = x->err; return -1; }
  return r;
}
int fsync(int fd) { if (!tracked(fd)) return syscall(SYS_fsync, fd); Fault* x = op(IO_SYNC, fds[fd].name, 0); if (x && x->action == ACT_ERRNO) { errno = x->err; return -1; } after(x); return 0; }
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t o) noexcept { if (!tracked(fd)) return syscall(SYS_ftruncate, fd, o); Fault* x = op(IO_TRUNC, fds[fd].name, o); if (x && x->action == ACT_ERRNO) { errno = x->err; return -1; } int r = syscall(SYS_ftruncate, fd, o); after(x); return r; }
int ftruncate64(int fd, off_t o) noexcept { return ftruncate(fd, o); }
int mkdir(const char* p, mode_t m) noexcept { if (!mine(p)) return syscall(SYS_mkdir, p, m); Fault* x = op(IO_MKDIR, p, 0); if (x && x->action == ACT_ERRNO) { errno = x->err; return -1; } int r = syscall(SYS_mkdir, p, m); after(x); return r; }
int rename(const char* a, const char* b) noexcept { if (!mine(a)) return syscall(SYS_rename, a, b); Fault* x = op(IO_RENAME, b, 0); if (x && x->action == ACT_ERRNO) { errno = x->err; return -1; } int r = syscall(SYS_rename, a, b); after(x); return r; }
int unlink(const char* p) noexcept { if (!mine(p)) return syscall(SYS_unlink, p); Fault* x = op(IO_UNLINK, p, 0); if (x && x->action == ACT_ERRNO) { errno = x->err; return -1; } int r = syscall(SYS_unlink, p); after(x); return r; }
int rmdir(const char* p) noexcept { if (!mine(p)) return syscall(SYS_rmdir, p); Fault* x = op(IO_UNLINK, p, 0); if (x && x->action == ACT_ERRNO) { errno = x->err; return -1; } int r = syscall(SYS_rmdir, p); after(x); return r; }
int remove(const char* p) noexcept { struct stat s; if (syscall(SYS_newfstatat, AT_FDCWD, p, &s, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(s.st_mode)) return rmdir(p); return unlink(p); }
int system(const char* c) {
  typedef int (*fn)(const char*);
  static fn real = next<fn>("system");
  if (!active || inside) return real(c);
  Fault* x = op(IO_SYSTEM, c ? c : "", 0);
  if (x && x->action == ACT_ERRNO) return 1 << 8;
  inside = true; int r = real(c); inside = false;
  after(x);
  return r;
}
FILE* popen(const char* c, const char* m) {
  typedef FILE* (*fn)(const char*, const char*);
  static fn real = next<fn>("popen");
  if (!active || inside) return real(c, m);
  Fault* x = op(IO_POPEN, c, 0);
  if (x && x->action == ACT_ERRNO) { errno = x->err; return nullptr; }
  inside = true; FILE* r = real(c, m); inside = false;
  after(x);
  return r;
}
void* malloc(size_t n) { if (active && alloc_fault(FC_MALLOC, sh->malloccount[me])) { errno = ENOMEM; return nullptr; } return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { if (active && alloc_fault(FC_MALLOC, sh->malloccount[me])) { errno = ENOMEM; return nullptr; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { if (active && alloc_fault(FC_MALLOC, sh->malloccount[me])) { errno = ENOMEM; return nullptr; } return __libc_realloc(p, n); }
}

void* operator new(size_t n) {
  if (active && alloc_fault(FC_NEW, sh->newcount[me])) throw std::bad_alloc();
  void* p = __libc_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return ::operator new(n); }
