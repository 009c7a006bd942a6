// Counts what the program holds: blocks of memory, descriptors, threads.
// (Included once per program: it replaces the global allocation functions.)
#ifndef VERIF_LEDGER_HPP
#define VERIF_LEDGER_HPP
#include <atomic>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <new>
#include <sys/syscall.h>
#include <unistd.h>

namespace ledger {
inline std::atomic<long>& blocks() { static std::atomic<long> n(0); return n; }
inline void* get(std::size_t n, std::size_t align)
{
  void* p = align ? ::aligned_alloc(align, (n + align - 1) / align * align) : ::malloc(n ? n : 1);
  if (p) ++blocks();
  return p;
}
inline void put(void* p) { if (p) { --blocks(); ::free(p); } }

struct Held { long mem; int fds, threads; };
inline int threads()
{
  int n = 0;
  if (DIR* d = ::opendir("/proc/self/task")) {
    while (dirent* e = ::readdir(d)) if (e->d_name[0] != '.') ++n;
    ::closedir(d);
  }
  return n;
}
// expect: a thread that has been joined may be visible for another moment
inline Held held(int expect = 0)
{
  Held h{blocks(), 0, threads()};
  for (int i = 0; expect && h.threads > expect && i < 400; ++i) { ::usleep(5000); h.threads = threads(); }
  h.mem = blocks();
  for (int fd = 0; fd < 1024; ++fd) if (::syscall(SYS_fcntl, fd, F_GETFD) >= 0) ++h.fds;
  return h;
}
}

void* operator new(std::size_t n) { if (void* p = ledger::get(n, 0)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { if (void* p = ledger::get(n, 0)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return ledger::get(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return ledger::get(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { if (void* p = ledger::get(n, (std::size_t)a)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n, std::align_val_t a) { if (void* p = ledger::get(n, (std::size_t)a)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { ledger::put(p); }
void operator delete[](void* p) noexcept { ledger::put(p); }
void operator delete(void* p, std::size_t) noexcept { ledger::put(p); }
void operator delete[](void* p, std::size_t) noexcept { ledger::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { ledger::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { ledger::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { ledger::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { ledger::put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { ledger::put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { ledger::put(p); }
#endif
