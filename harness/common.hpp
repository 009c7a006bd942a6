// Shared by every harness: script reading and trace writing.
//
// usage: harness SCRIPTS TRACE [args]
// SCRIPTS: "S <n>" / one operation per line, space separated tokens / "E".
// TRACE:   {"BEGIN":n}, one JSON object per observed step, {"END":n}.
// Every line is written with one write(2) before the next step, so that a
// crash loses nothing that happened before it.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#ifdef LEDGER
#include "ledger.hpp"
#endif

namespace vh {

typedef std::vector<std::string> Op;

inline int& trace_fd() { static int fd = -1; return fd; }

inline void raw_write(const std::string& s)
{
  const char* p = s.data();
  std::size_t n = s.size();
  while (n) {
    long r = ::syscall(SYS_write, trace_fd(), p, n);
    if (r <= 0) _exit(97);
    p += r; n -= r;
  }
}

inline std::string quote(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

class Ev
{
public:
  explicit Ev(const std::string& op) { s_ = "{\"op\":" + quote(op); }
  Ev& num(const char* k, long long v)
  {
    // TLC integers are 32-bit
    if (v > 2000000000LL) v = 2000000000LL;
    if (v < -2000000000LL) v = -2000000000LL;
    s_ += ","; s_ += quote(k); s_ += ":" + std::to_string(v); return *this;
  }
  Ev& boolean(const char* k, bool v) { s_ += ","; s_ += quote(k); s_ += v ? ":true" : ":false"; return *this; }
  Ev& str(const char* k, const std::string& v) { s_ += ","; s_ += quote(k); s_ += ":" + quote(v); return *this; }
  template <class C> Ev& arr(const char* k, const C& v)
  {
    s_ += ","; s_ += quote(k); s_ += ":[";
    bool first = true;
    for (auto x : v) { if (!first) s_ += ","; first = false; s_ += std::to_string((long long)x); }
    s_ += "]"; return *this;
  }
  Ev& strs(const char* k, const std::vector<std::string>& v)
  {
    s_ += ","; s_ += quote(k); s_ += ":[";
    bool first = true;
    for (auto& x : v) { if (!first) s_ += ","; first = false; s_ += quote(x); }
    s_ += "]"; return *this;
  }
  Ev& raw(const char* k, const std::string& json) { s_ += ","; s_ += quote(k); s_ += ":" + json; return *this; }
  std::string json() const { return s_ + "}"; }
  void emit() const { raw_write(s_ + "}\n"); }
private:
  std::string s_;
};

[[noreturn]] inline void fatal(const std::string& m)
{
  raw_write("{\"FATAL\":" + quote(m) + "}\n");
  _exit(98);
}

// what no library doing its job can bring about: ends the script like a crash does, so that the
// script is run again alone and, if it happens again, is a violation
[[noreturn]] inline void broken(const std::string& m)
{
  std::fprintf(stderr, "%s\n", m.c_str());
  std::fflush(stderr);
  _exit(97);
}

inline std::vector<int> ints(const std::string& t)
{
  std::vector<int> r;
  if (t == "-") return r;
  std::stringstream ss(t);
  std::string x;
  while (std::getline(ss, x, ',')) r.push_back(std::atoi(x.c_str()));
  return r;
}
inline std::vector<uint8_t> bytes(const std::string& t)
{
  std::vector<uint8_t> r;
  for (int i : ints(t)) r.push_back((uint8_t)i);
  return r;
}
inline long long num(const std::string& t) { return std::atoll(t.c_str()); }

inline void arm(int secs)
{
  struct itimerval it;
  std::memset(&it, 0, sizeof it);
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_REAL, &it, nullptr);
}

// what the program holds at this point of a behaviour
inline void mark()
{
#ifdef LEDGER
  const ledger::Held h = ledger::held();
  Ev("ledger_mark").num("mem", h.mem).num("fds", h.fds).num("threads", h.threads).emit();
#endif
}

// 0 is a descriptor like any other: in every other behaviour it is free, so
// that the library gets it for something. In some behaviours the numbers below
// CROWD are all taken.
enum { CROWD = 300 };
inline unsigned& script_id() { static unsigned id = 0; return id; }
inline int& fd_end() { static int n = 200; return n; }       // descriptors under test are below
class FreeZero
{
public:
  void now()
  {
    if (crowd_.empty() && script_id() / 7 % 8 == 0) {
      int null = (int)::syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY | O_CLOEXEC);
      for (int fd = 0; fd < CROWD; ++fd)
        if (::syscall(SYS_fcntl, fd, F_GETFD) < 0 && ::syscall(SYS_dup3, null, fd, O_CLOEXEC) == fd) crowd_.push_back(fd);
      crowd_.push_back(null);
      fd_end() = CROWD + 200;
    }
    if (done_ || script_id() / 7 % 2 == 0) return;
    done_ = true;
    ::syscall(SYS_close, 0);
  }
  ~FreeZero()
  {
    for (int fd : crowd_) ::syscall(SYS_close, fd);
    fd_end() = 200;
    if (done_ && ::syscall(SYS_fcntl, 0, F_GETFD) < 0) ::syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY);
  }
private:
  bool done_ = false;
  std::vector<int> crowd_;
};

inline int run_main(int argc, char** argv, const std::function<void(const std::vector<Op>&)>& run)
{
  if (argc < 3) return 99;
  trace_fd() = ::open(argv[2], O_WRONLY | O_APPEND | O_CLOEXEC);
  if (trace_fd() < 0) return 99;
  // keep the trace descriptor out of the way of descriptors under test
  int hi = ::fcntl(trace_fd(), F_DUPFD_CLOEXEC, 900);
  if (hi >= 0) { ::close(trace_fd()); trace_fd() = hi; }
  int to = std::getenv("HARNESS_TIMEOUT") ? std::atoi(std::getenv("HARNESS_TIMEOUT")) : 20;
  std::ifstream in(argv[1]);
  std::string line;
  std::vector<Op> ops;
  int id = -1;
  while (std::getline(in, line)) {
    std::stringstream ss(line);
    Op op;
    std::string t;
    while (ss >> t) op.push_back(t);
    if (op.empty()) continue;
    if (op[0] == "S") { id = std::atoi(op[1].c_str()); ops.clear(); script_id() = 0; }
    else if (op[0] == "E") {
      raw_write("{\"BEGIN\":" + std::to_string(id) + "}\n");
      arm(to);
#ifdef LEDGER
      // once unseen, for what is only made once
      int fd = trace_fd();
      trace_fd() = (int)::syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY | O_CLOEXEC);
      run(ops);
      ::syscall(SYS_close, trace_fd());
      trace_fd() = fd;
      const ledger::Held was = ledger::held();
      Ev("ledger_before").num("mem", was.mem).num("fds", was.fds).num("threads", was.threads).emit();
#endif
      run(ops);
#ifdef LEDGER
      const ledger::Held now = ledger::held(was.threads);
      Ev("ledger_after").num("mem", now.mem).num("fds", now.fds).num("threads", now.threads).emit();
#endif
      arm(0);
      raw_write("{\"END\":" + std::to_string(id) + "}\n");
    }
    else {
      ops.push_back(op);
      for (char c : line) script_id() = script_id() * 31 + (unsigned char)c;
    }
  }
  return 0;
}

}
#endif
