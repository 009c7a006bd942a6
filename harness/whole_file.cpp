// read_file and write_file (F06).
#include "common.hpp"
#include "fdtrack.hpp"
#include "netns.hpp"
#include <algorithm>
#include <csignal>
#include "asioext/asioext.hpp"
#include "asioext/file_handle.hpp"
#include "asioext/linear_buffer.hpp"
#include "asioext/read_file.hpp"
#include "asioext/write_file.hpp"
using namespace vh;
using asioext::error_code;

static std::string dir;
static std::string err_name(const error_code& ec)
{
  if (!ec) return "ok";
  if (ec == net::error::eof) return "eof";
  if (ec == net::error::message_size) return "message_size";
  if (ec.category() == net::error::get_system_category() || ec.category() == asioext::generic_category())
    if (const char* n = strerrorname_np(ec.value())) return n;
  return std::string(ec.category().name()) + ":" + std::to_string(ec.value());
}
template <class F, class G>
static std::string call(char v, const F& with_ec, const G& throwing)
{
  try {
    if (v != 't') {
      error_code ec;
      if (v == 's') ec = error_code(EXDEV, net::error::get_system_category());
      with_ec(ec);
      return err_name(ec);
    }
    throwing();
    return "ok";
  }
  catch (const SysErr& e) { return v == 't' && e.code() ? err_name(e.code()) : "throws without an error"; }
  catch (const std::bad_alloc&) { return "bad_alloc"; }
  catch (const std::length_error&) { return "length_error"; }
  catch (const std::exception& e) { return "another exception"; }
}
static unsigned char byte_of(int k, long i) { return (unsigned char)(1 + (i * 7 + (i >> 8) * 31 + (i >> 16) * 13 + k * 41) % 251); }
static std::vector<unsigned char> stream(int k, long from, long n)
{
  std::vector<unsigned char> r(n);
  for (long i = 0; i < n; ++i) r[i] = byte_of(k, from + i);
  return r;
}
// which piece of which stream this is
static std::string ident(const void* p, std::size_t n, const std::vector<long>& froms)
{
  if (n == 0) return "[0,0,0]";
  const unsigned char* c = (const unsigned char*)p;
  for (long from : froms)
    for (int k = 1; k <= 5; ++k) {
      std::size_t i = 0;
      while (i < n && c[i] == byte_of(k, from + i)) ++i;
      if (i == n) return "[" + std::to_string(k) + "," + std::to_string(from) + "," + std::to_string(n) + "]";
    }
  return "[9,0," + std::to_string(n) + "]";
}
static std::string fname(int f) { return dir + "/f" + std::to_string(f); }
static int rawopen(const std::string& p, int flags, int mode = 0644) { return ::syscall(SYS_openat, AT_FDCWD, p.c_str(), flags | O_CLOEXEC, mode); }
static std::string file_json(int f)
{
  struct stat st;
  if (::lstat(fname(f).c_str(), &st) != 0) return "[-1,0,0]";
  if (S_ISDIR(st.st_mode)) return "[-2,0,0]";
  int fd = rawopen(fname(f), O_RDONLY);
  std::vector<unsigned char> b(st.st_size);
  std::size_t n = 0;
  for (long r; n < b.size() && (r = ::syscall(SYS_read, fd, b.data() + n, b.size() - n)) > 0;) n += r;
  ::syscall(SYS_close, fd);
  return ident(b.data(), n, {0});
}
static std::vector<int> open_fds()
{
  std::vector<int> r;
  for (int fd = 0; fd < fd_end(); ++fd)
    if (::syscall(SYS_fcntl, fd, F_GETFD, 0L) >= 0) r.push_back(fd);
  return r;
}

// a container that holds at most a given number of bytes, or refuses to grow
struct Picky
{
  typedef unsigned char value_type; typedef uint32_t size_type;
  typedef unsigned char* iterator; typedef const unsigned char* const_iterator;
  typedef unsigned char& reference; typedef const unsigned char& const_reference; typedef std::ptrdiff_t difference_type;
  std::vector<unsigned char> v;
  std::size_t max = 0;
  bool grows = true;
  unsigned char* data() { return v.data(); }
  size_type size() const { return v.size(); }
  size_type max_size() const { return max; }
  void resize(std::size_t n) { if (!grows && n) throw std::bad_alloc(); if (n > max) throw std::length_error("picky"); v.resize(n); }
  void clear() { v.clear(); }
  unsigned char& operator[](std::size_t i) { return v[i]; }
  bool empty() const { return v.empty(); }
};
// sizes of 16 bits, but no limit of its own
struct Short : Picky { typedef uint16_t size_type; std::size_t max_size() const { return (std::size_t)1 << 40; } size_type size() const { return v.size(); } void resize(std::size_t n) { v.resize((uint16_t)n); } };

struct Call
{
  std::vector<int> before;
  Call() : before(open_fds())
  {
    auto& s = fdt::st();
    s.closed.clear(); s.bad_close = 0; s.injected = 0; s.failed.clear(); s.failed_fn.clear(); s.interrupted = 0; s.calls.clear();
    s.on = true;
  }
  void done(Ev& e)
  {
    auto& s = fdt::st();
    s.on = false;
    std::vector<std::string> f;
    for (int x : s.failed) f.push_back(strerrorname_np(x));
    e.strs("injerr", f).strs("injfn", s.failed_fn).num("intr", s.interrupted).num("badclose", s.bad_close);
    e.num("left", (long)open_fds().size() - (long)before.size());
  }
};

template <class C> static std::string do_raw(char how, const std::string& p, asioext::file_handle h, C& c, char v)
{
  if (how == 'h') return call(v, [&](error_code& ec) { asioext::read_file(h, c, ec); }, [&] { asioext::read_file(h, c); });
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
  if (how == 'b') { boost::filesystem::path q(p); return call(v, [&](error_code& ec) { asioext::read_file(q, c, ec); }, [&] { asioext::read_file(q, c); }); }
#endif
  return call(v, [&](error_code& ec) { asioext::read_file(p.c_str(), c, ec); }, [&] { asioext::read_file(p.c_str(), c); });
}

static int tab_errno(const std::string& n)
{
  for (int i = 1; i < 134; ++i) if (const char* s = strerrorname_np(i)) if (n == s) return i;
  if (n[0] == '#') return std::atoi(n.c_str() + 1);
  fatal("errno " + n);
}

static void run(const std::vector<Op>& ops)
{
  vh::FreeZero zero;
  zero.now();
  static int serial = 0;
  dir = std::string(std::getenv("HARNESS_DIR")) + "/w" + std::to_string(serial++);
  ::mkdir(dir.c_str(), 0755);
  for (const Op& op : ops) {
    const std::string& o = op[0];
    auto N = [&](int i) { return (long)num(op.at(i)); };
    Ev e(o);
    if (o == "fault") {     // fn skip err|cap value
      fdt::Fault f{op[1], (int)N(2), 0, -1};
      if (op[3] == "cap") f.cap = N(4); else f.err = tab_errno(op[3]);
      for (int k = op[3] == "cap" ? 1 : op.size() > 4 ? N(4) : 1; k > 0; --k) fdt::st().faults.push_back(f);
      continue;
    }
    int f = N(1);
    std::string p = fname(f), res;
    e.num("f", f);
    if (o == "file") {           // f k from n
      ::unlink(p.c_str()); ::rmdir(p.c_str());
      if (N(2) == -2) ::mkdir(p.c_str(), 0755);
      else if (N(2) >= 0) {
        auto d = stream(N(2), N(3), N(4));
        int fd = rawopen(p, O_WRONLY | O_CREAT);
        (void)::syscall(SYS_write, fd, d.data(), d.size());
        ::syscall(SYS_close, fd);
      }
    }
    else if (o == "rraw") {      // f how from container max grows prefill v
      char how = op[2][0], cont = op[4][0], v = op[8][0];
      long from = N(3), max = N(5), pre = N(7);
      bool grows = N(6);
      asioext::file_handle h;
      if (how == 'h') { h = asioext::file_handle(rawopen(p, O_RDWR)); ::syscall(SYS_lseek, h.native_handle(), from, (long)SEEK_SET); }
      auto old = stream(5, 3, pre);
      std::vector<long> froms{0, from};
      std::string got;
      auto take = [&](auto& c) {
        c.resize(pre);
        if (pre) std::copy(old.begin(), old.end(), c.data());
        Call t;
        res = do_raw(how, p, h, c, v);
        t.done(e);
        got = ident(c.data(), c.size(), froms);
      };
      if (cont == 'v') { std::vector<char> c; take(c); }
      else if (cont == 'u') { std::vector<uint8_t> c; take(c); }
      else if (cont == 's') { std::string c; take(c); }
      else if (cont == 'l') { asioext::linear_buffer c; take(c); }
      else if (cont == 'm') { asioext::linear_buffer c(0, max); take(c); }
      else if (cont == 'h') { Short c; c.max = (std::size_t)-1; take(c); }
      else { Picky c; c.max = std::max(max, pre); c.resize(pre); c.max = max; c.grows = grows;
             if (pre) std::copy(old.begin(), old.end(), c.data());
             Call t; res = do_raw(how, p, h, c, v); t.done(e); got = ident(c.data(), c.v.size(), froms); }
      long at = h.is_open() ? ::syscall(SYS_lseek, h.native_handle(), 0L, (long)SEEK_CUR) : 0;
      if (h.is_open()) ::syscall(SYS_close, h.native_handle());
      e.boolean("path", how != 'h').num("from", from).num("max", cont == 'm' || cont == 'p' ? max : cont == 'h' ? 65535 : 2000000000).boolean("grows", grows);
      e.raw("got", got).str("err", res).num("at", at);
    }
    else if (o == "rbuf") {      // f how from sizes v
      char how = op[2][0], v = op[5][0];
      long from = N(3);
      std::vector<int> sz = ints(op[4]);
      long tot = 0;
      for (int x : sz) tot += x;
      asioext::file_handle h;
      if (how == 'h') { h = asioext::file_handle(rawopen(p, O_RDWR)); ::syscall(SYS_lseek, h.native_handle(), from, (long)SEEK_SET); }
      std::vector<unsigned char> mem(tot + 16, 0xEE);
      std::vector<net::mutable_buffer> bufs;
      long q = 8;
      for (int x : sz) { bufs.push_back(net::buffer(&mem[q], x)); q += x; }
      Call t;
      if (how == 'h') res = call(v, [&](error_code& ec) { asioext::read_file(h, bufs, ec); }, [&] { asioext::read_file(h, bufs); });
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
      else if (how == 'b') { boost::filesystem::path bp(p); res = call(v, [&](error_code& ec) { asioext::read_file(bp, bufs, ec); }, [&] { asioext::read_file(bp, bufs); }); }
#endif
      else res = call(v, [&](error_code& ec) { asioext::read_file(p.c_str(), bufs, ec); }, [&] { asioext::read_file(p.c_str(), bufs); });
      t.done(e);
      long at = h.is_open() ? ::syscall(SYS_lseek, h.native_handle(), 0L, (long)SEEK_CUR) : 0;
      if (h.is_open()) ::syscall(SYS_close, h.native_handle());
      bool over = false;
      for (int i = 0; i < 8; ++i) over = over || mem[i] != 0xEE || mem[mem.size() - 1 - i] != 0xEE;
      e.boolean("path", how != 'h').num("from", from).num("tot", tot).raw("got", ident(&mem[8], tot, {from})).str("err", res).num("at", at).boolean("over", over);
    }
    else if (o == "write") {     // f how k sizes v
      char how = op[2][0], v = op[5][0];
      int k = N(3);
      std::vector<int> sz = ints(op[4]);
      long tot = 0;
      for (int x : sz) tot += x;
      auto mem = stream(k, 0, tot);
      std::vector<net::const_buffer> bufs;
      long q = 0;
      for (int x : sz) { bufs.push_back(net::const_buffer(mem.data() + q, x)); q += x; }
      Call t;
      if (how == '1') { auto b = net::buffer(mem); res = call(v, [&](error_code& ec) { asioext::write_file(p.c_str(), b, ec); }, [&] { asioext::write_file(p.c_str(), b); }); }
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
      else if (how == 'b') { boost::filesystem::path bp(p); res = call(v, [&](error_code& ec) { asioext::write_file(bp, bufs, ec); }, [&] { asioext::write_file(bp, bufs); }); }
#endif
      else res = call(v, [&](error_code& ec) { asioext::write_file(p.c_str(), bufs, ec); }, [&] { asioext::write_file(p.c_str(), bufs); });
      t.done(e);
      e.raw("q", tot ? "[" + std::to_string(k) + ",0," + std::to_string(tot) + "]" : "[0,0,0]").str("err", res);
    }
    else fatal("op " + o);
    fdt::st().faults.clear();
    e.raw("files", "[" + file_json(1) + "," + file_json(2) + "]");
    e.emit();
  }
  for (int f = 1; f <= 2; ++f) { ::unlink(fname(f).c_str()); ::rmdir(fname(f).c_str()); }
}

int main(int argc, char** argv) { return run_main(argc, argv, run); }
