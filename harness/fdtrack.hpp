// Interposed libc file functions (defined in the executable, so every caller,
// including static and shared libraries, comes here). Used to count what the
// library does to descriptors and to inject faults (EINTR, short transfers,
// errors) at chosen calls. Forwards with raw system calls.
#ifndef VERIF_FDTRACK_HPP
#define VERIF_FDTRACK_HPP
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <mutex>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace fdt {

struct Fault { std::string fn; int skip; int err; long cap; };   // err != 0: fail; else cap the byte count
struct State {
  std::atomic<bool> on{false};
  std::mutex m;
  std::vector<Fault> faults;       // consumed in order, per function name
  std::vector<std::string> calls;  // names of calls made while on
  int bad_close = 0;               // close() of a descriptor that is not open
  int closes = 0, opens = 0;
  int injected = 0;
  std::vector<int> closed;         // descriptors released, in order
  std::vector<int> failed;         // injected errors (except interruptions), in order
  std::vector<std::string> failed_fn;
  int interrupted = 0;             // injected interruptions
};
inline State& st() { static State* s = new State; return *s; }

// returns true if a fault applies; err or cap filled
inline bool fault(const char* fn, int& err, long& cap)
{
  State& s = st();
  err = 0; cap = -1;
  if (!s.on) return false;
  std::lock_guard<std::mutex> l(s.m);
  s.calls.push_back(fn);
  for (std::size_t i = 0; i < s.faults.size(); ++i) {
    if (s.faults[i].fn != fn) continue;
    if (s.faults[i].skip-- > 0) return false;
    err = s.faults[i].err; cap = s.faults[i].cap;
    s.faults.erase(s.faults.begin() + i);
    ++s.injected;
    if (err == EINTR) ++s.interrupted;
    else if (err) { s.failed.push_back(err); s.failed_fn.push_back(fn); }
    return true;
  }
  return false;
}

// canonical names: open close read(=all reads) write(=all writes) lseek fstat ftruncate fchmod futimens dup
inline std::size_t capped(const struct iovec* v, int n, long cap, std::vector<struct iovec>& out)
{
  std::size_t tot = 0;
  for (int i = 0; i < n; ++i) {
    struct iovec x = v[i];
    if (cap >= 0 && tot + x.iov_len > (std::size_t)cap) x.iov_len = cap - tot;
    tot += x.iov_len;
    out.push_back(x);
  }
  return tot;
}
// called before every transfer
inline void (*&before_io())() { static void (*f)() = nullptr; return f; }
inline void pre()
{
  if (st().on && before_io()) before_io()();
}
// called after every transfer, before its result is returned
inline void (*&after_io())() { static void (*f)() = nullptr; return f; }
inline long ret(long r)
{
  int e = errno;
  if (st().on && after_io()) after_io()();
  errno = e;
  return r;
}

}

extern "C" {
#define FDT_OPEN_BODY(dirfd) \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
  int e; long c; \
  if (fdt::fault("open", e, c) && e) { errno = e; return -1; } \
  long r = ::syscall(SYS_openat, dirfd, path, flags, mode); \
  if (r >= 0 && fdt::st().on) ++fdt::st().opens; \
  return (int)r;
int open(const char* path, int flags, ...) { FDT_OPEN_BODY(AT_FDCWD) }
int open64(const char* path, int flags, ...) { FDT_OPEN_BODY(AT_FDCWD) }
int openat(int dirfd, const char* path, int flags, ...) { FDT_OPEN_BODY(dirfd) }
int openat64(int dirfd, const char* path, int flags, ...) { FDT_OPEN_BODY(dirfd) }

int close(int fd)
{
  int e; long c;
  bool f = fdt::fault("close", e, c);
  if (fdt::st().on) ++fdt::st().closes;
  long r = ::syscall(SYS_close, fd);      // an injected error still releases the descriptor, as Linux does
  if (r == 0 && fdt::st().on) fdt::st().closed.push_back(fd);
  if (r < 0) { if (fdt::st().on && errno == EBADF) ++fdt::st().bad_close; return -1; }
  if (f && e) { errno = e; return -1; }
  return 0;
}

#define FDT_V(name, kind, sysno, ...) \
  int e; long c; \
  fdt::pre(); \
  if (fdt::fault(kind, e, c)) { \
    if (e) { errno = e; return -1; } \
    std::vector<struct iovec> o; fdt::capped(v, n, c, o); \
    return fdt::ret(::syscall(sysno, fd, o.data(), (long)o.size(), ##__VA_ARGS__)); \
  } \
  return fdt::ret(::syscall(sysno, fd, v, (long)n, ##__VA_ARGS__));
ssize_t readv(int fd, const struct iovec* v, int n) { FDT_V(readv, "read", SYS_readv) }
ssize_t writev(int fd, const struct iovec* v, int n) { FDT_V(writev, "write", SYS_writev) }
ssize_t preadv(int fd, const struct iovec* v, int n, off_t off) { FDT_V(preadv, "read", SYS_preadv, (long)off, 0L) }
ssize_t preadv64(int fd, const struct iovec* v, int n, off_t off) { FDT_V(preadv, "read", SYS_preadv, (long)off, 0L) }
ssize_t pwritev(int fd, const struct iovec* v, int n, off_t off) { FDT_V(pwritev, "write", SYS_pwritev, (long)off, 0L) }
ssize_t pwritev64(int fd, const struct iovec* v, int n, off_t off) { FDT_V(pwritev, "write", SYS_pwritev, (long)off, 0L) }

#define FDT_S(kind, sysno, ...) \
  int e; long c; \
  fdt::pre(); \
  if (fdt::fault(kind, e, c)) { if (e) { errno = e; return -1; } if (c >= 0 && (std::size_t)c < n) n = c; } \
  return fdt::ret(::syscall(sysno, fd, p, n, ##__VA_ARGS__));
ssize_t read(int fd, void* p, size_t n) { FDT_S("read", SYS_read) }
ssize_t write(int fd, const void* p, size_t n) { FDT_S("write", SYS_write) }
ssize_t pread(int fd, void* p, size_t n, off_t off) { FDT_S("read", SYS_pread64, (long)off) }
ssize_t pread64(int fd, void* p, size_t n, off_t off) { FDT_S("read", SYS_pread64, (long)off) }
ssize_t pwrite(int fd, const void* p, size_t n, off_t off) { FDT_S("write", SYS_pwrite64, (long)off) }
ssize_t pwrite64(int fd, const void* p, size_t n, off_t off) { FDT_S("write", SYS_pwrite64, (long)off) }

#define FDT_P(kind) int e; long c; if (fdt::fault(kind, e, c) && e) { errno = e; return -1; }
off_t lseek(int fd, off_t off, int wh) noexcept { FDT_P("lseek") return ::syscall(SYS_lseek, fd, off, (long)wh); }
off_t lseek64(int fd, off_t off, int wh) noexcept { FDT_P("lseek") return ::syscall(SYS_lseek, fd, off, (long)wh); }
int ftruncate(int fd, off_t n) noexcept { FDT_P("ftruncate") return (int)::syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) noexcept { FDT_P("ftruncate") return (int)::syscall(SYS_ftruncate, fd, n); }
int fstat(int fd, struct stat* s) noexcept { FDT_P("fstat") return (int)::syscall(SYS_fstat, fd, s); }
int fstat64(int fd, struct stat64* s) noexcept { FDT_P("fstat") return (int)::syscall(SYS_fstat, fd, s); }
int fchmod(int fd, mode_t m) noexcept { FDT_P("fchmod") return (int)::syscall(SYS_fchmod, fd, m); }
int futimens(int fd, const struct timespec ts[2]) noexcept { FDT_P("futimens") return (int)::syscall(SYS_utimensat, fd, nullptr, ts, 0); }
int dup(int fd) noexcept { FDT_P("dup") return (int)::syscall(SYS_dup, fd); }
int fchmodat(int d, const char* p, mode_t m, int fl) noexcept { FDT_P("fchmod") return (int)::syscall(SYS_fchmodat, d, p, m); }
int utimensat(int d, const char* p, const struct timespec ts[2], int fl) noexcept { FDT_P("futimens") return (int)::syscall(SYS_utimensat, d, p, ts, fl); }
int fcntl(int fd, int cmd, ...)
{
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { FDT_P("dup") }
  return (int)::syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { FDT_P("dup") }
  return (int)::syscall(SYS_fcntl, fd, cmd, arg);
}
int dup2(int fd, int to) noexcept { FDT_P("dup") return (int)::syscall(SYS_dup2, fd, to); }
int dup3(int fd, int to, int fl) noexcept { FDT_P("dup") return (int)::syscall(SYS_dup3, fd, to, fl); }
}
#endif
