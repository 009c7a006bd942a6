// Synchronous files: F01 (transfers), F02 (open), F03 (ownership), F04 (errors), F05 (permissions, times).
#include "common.hpp"
#include "fdtrack.hpp"
#include "netns.hpp"
#include <algorithm>
#include <csignal>
#include <dirent.h>
#include <optional>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include "asioext/asioext.hpp"
#include "asioext/file.hpp"
#include "asioext/open.hpp"
#include "asioext/duplicate.hpp"
#include "asioext/standard_streams.hpp"
#include "asioext/unique_file_handle.hpp"
#include "asioext/thread_pool_file_service.hpp"
using namespace vh;
typedef asioext::file_handle FH;
using asioext::unique_file_handle;
using asioext::error_code;

static std::string dir;
static std::string err_name(const error_code& ec)
{
  if (!ec) return "ok";
  if (ec == net::error::eof) return "eof";
  if (ec == net::error::already_open) return "already_open";
  if (ec.category() == net::error::get_system_category() || ec.category() == asioext::generic_category())
    if (const char* n = strerrorname_np(ec.value())) return n;
  return std::string(ec.category().name()) + ":" + std::to_string(ec.value());
}

// One way to call: v = c (error_code, clean) s (error_code, already set) t (throwing)
template <class F, class G>
static std::string call(char v, const F& with_ec, const G& throwing)
{
  errno = ERANGE;              // left behind by something else
  if (v != 't') {
    error_code ec;
    if (v == 's') ec = error_code(EXDEV, net::error::get_system_category());
    with_ec(ec);
    return err_name(ec);
  }
  try { throwing(); return "ok"; }
  catch (const SysErr& e) { return e.code() ? err_name(e.code()) : "throws without an error"; }
  catch (const std::exception& e) { return "another exception"; }
}

struct Slot {
  char kind = '-';                       // u unique_file_handle, h file_handle, b basic_file, - nothing
  std::optional<unique_file_handle> u;
  FH h;
  std::unique_ptr<asioext::file> b;
  int native() { return kind == 'u' ? u->get().native_handle() : kind == 'b' ? (int)b->native_handle() : kind == 'h' ? h.native_handle() : -1; }
};
static Slot slots[10];
static std::unique_ptr<net::io_context> ctx;

template <class F> static auto with(Slot& s, const F& f)
{
  if (s.kind == 'u') return f(*s.u);
  if (s.kind == 'b') return f(*s.b);
  return f(s.h);
}
// a file can be given its context or an executor of it
static unsigned nmade = 0;
template <class... A> static asioext::file* made(A&&... a)
{
  if (nmade++ % 2) return new asioext::file(asioext::file::executor_type(ctx->get_executor()), std::forward<A>(a)...);
  return new asioext::file(*ctx, std::forward<A>(a)...);
}
static void clear_slot(Slot& s) { s.u.reset(); s.b.reset(); s.h.clear(); s.kind = '-'; }
static void put(Slot& s, char kind, int fd)
{
  clear_slot(s);
  s.kind = kind;
  if (kind == 'u') s.u.emplace(FH::native_handle_type(fd));
  else if (kind == 'b') { s.b.reset(made(FH(fd))); }
  else s.h = FH(fd);
}
static int rawopen(const std::string& p, int flags, int mode = 0644) { return ::syscall(SYS_openat, AT_FDCWD, p.c_str(), flags | O_CLOEXEC, mode); }

// --- positions: g * 2^32 + d
static int64_t abs_pos(long g, long d) { return (int64_t)((uint64_t)g << 32) + d; }
static std::string pos_json(uint64_t v)
{
  int64_t g = (int64_t)((v + (1ull << 31)) >> 32);
  int64_t d = (int64_t)(v - ((uint64_t)g << 32));
  if (g > 2000000000) g = 2000000000;
  return "[" + std::to_string(g) + "," + std::to_string(d) + "]";
}
static std::string file_name(int f) { return dir + "/f" + std::to_string(f); }
static bool window = false;       // files of up to 8 MiB are looked at as a whole
static std::string file_json(int f)
{
  int fd = rawopen(file_name(f), O_RDONLY | O_NOATIME);
  if (fd < 0) return "{\"sz\":[-1,0],\"data\":[]}";
  struct stat st;
  ::syscall(SYS_fstat, fd, &st);
  std::string r = "{\"sz\":" + pos_json(st.st_size) + ",\"data\":[";
  bool first = true;
  for (long g = 0; g <= 300; ++g) {
    int64_t from = std::max<int64_t>(0, abs_pos(g, -256));
    if (from >= st.st_size) break;
    static unsigned char b[8 << 20];
    long n = ::syscall(SYS_pread64, fd, b, g == 0 && window ? sizeof b : 1024, (long)from);
    for (long i = 0; i < n; ++i)
      if (b[i]) {
        if (!first) r += ",";
        first = false;
        r += "[" + std::to_string(g) + "," + std::to_string((long)(from + i - (int64_t)(g << 32))) + "," + std::to_string((int)b[i]) + "]";
      }
  }
  ::syscall(SYS_close, fd);
  return r + "]}";
}
static void files_snapshot(Ev& e, int nf, int ns)
{
  std::string s = "[";
  for (int f = 1; f <= nf; ++f) s += (f > 1 ? "," : "") + file_json(f);
  e.raw("files", s + "]");
  s = "[";
  for (int i = 1; i <= ns; ++i) {
    long p = slots[i].native() >= 0 ? ::syscall(SYS_lseek, slots[i].native(), 0L, (long)SEEK_CUR) : -1;
    s += (i > 1 ? "," : "") + (p < 0 ? std::string("[-1,0]") : pos_json(p));
  }
  e.raw("at", s + "]");
}

struct Call {      // what one library call did to the system
  explicit Call()
  {
    fdt::st().closed.clear(); fdt::st().bad_close = 0; fdt::st().injected = 0;
    fdt::st().calls.clear(); fdt::st().failed.clear(); fdt::st().interrupted = 0;
    fdt::st().on = true;
  }
  void done(Ev& e)
  {
    fdt::st().on = false;
    e.arr("closed", fdt::st().closed);
    e.num("badclose", fdt::st().bad_close);
    e.num("inj", fdt::st().injected);
    std::vector<std::string> f;
    for (int x : fdt::st().failed) f.push_back(strerrorname_np(x));
    e.strs("injerr", f);
    e.num("intr", fdt::st().interrupted);
  }
};

static int tab_errno(const std::string& n)
{
  for (int i = 1; i < 134; ++i) if (const char* s = strerrorname_np(i)) if (n == s) return i;
  if (n[0] == '#') return std::atoi(n.c_str() + 1);
  fatal("errno " + n);
}

// --- times: [day, second of the day, nanosecond]
static std::string tj(int64_t s, int64_t ns)
{
  int64_t d = s / 86400, r = s % 86400;
  if (r < 0) { r += 86400; --d; }
  return "[" + std::to_string((long)std::max<int64_t>(-1000000000, std::min<int64_t>(1000000000, d))) + "," + std::to_string(r) + "," + std::to_string(ns) + "]";
}
static std::string tms(const struct timespec& t) { return tj(t.tv_sec, t.tv_nsec); }
static asioext::file_time_type ft(long d, long s, long ns)
{
  // the most negative time can't be put together from its whole seconds
  int64_t secs = (int64_t)d * 86400 + s;
  int64_t c = secs < 0 && ns ? (secs + 1) * 1000000000 - (1000000000 - ns) : secs * 1000000000 + ns;
  return asioext::file_time_type(asioext::file_clock::duration(c));
}
static std::string ftj(asioext::file_time_type t)
{
  int64_t c = t.time_since_epoch().count();
  int64_t s = c / 1000000000, n = c % 1000000000;
  if (n < 0) { n += 1000000000; --s; }
  return tj(s, n);
}

// a little file system for F02: names under dir
static std::string path_of(const std::string& n)
{
  if (n == "nodir") return dir + "/missing/x";
  if (n == "notdir") return dir + "/plain/x";
  if (n == "empty") return "";
  if (n == "long") return dir + "/" + std::string(300, 'x');
  return dir + "/n_" + n;
}
static std::string content_tag(const std::string& p)
{
  int fd = rawopen(p, O_RDONLY | O_NOATIME);
  char b[64];
  long n = ::syscall(SYS_read, fd, b, sizeof b);
  ::syscall(SYS_close, fd);
  return n < 0 ? "?" : n == 0 ? "none" : std::string(b, b + n);
}
static std::string names_json(const std::vector<std::string>& names)
{
  std::string r = "{";
  for (std::size_t i = 0; i < names.size(); ++i) {
    struct stat st;
    std::string p = path_of(names[i]), v;
    if (::lstat(p.c_str(), &st) != 0) v = "{\"k\":\"absent\",\"c\":\"none\",\"m\":0}";
    else if (S_ISLNK(st.st_mode)) {
      char b[256]; long n = ::readlink(p.c_str(), b, sizeof b);
      std::string t(b, b + n);
      v = "{\"k\":\"link\",\"c\":" + quote(t.substr(t.rfind("n_") + 2)) + ",\"m\":0}";
    }
    else v = std::string("{\"k\":") + (S_ISDIR(st.st_mode) ? "\"dir\"" : S_ISREG(st.st_mode) ? "\"file\"" : "\"other\"") +
             ",\"c\":" + quote(S_ISREG(st.st_mode) ? content_tag(p) : "none") + ",\"m\":" + std::to_string(S_ISDIR(st.st_mode) ? 0 : (int)(st.st_mode & 07777)) + "}";
    r += (i ? "," : "") + quote(names[i]) + ":" + v;
  }
  return r + "}";
}

static std::vector<int> open_fds()
{
  std::vector<int> r;
  for (int fd = 0; fd < fd_end(); ++fd)
    if (::syscall(SYS_fcntl, fd, F_GETFD, 0L) >= 0) r.push_back(fd);
  return r;
}

static std::vector<int> base_fds;
static void table_snapshot(Ev& e, int ns)
{
  std::vector<int> t;
  for (int fd : open_fds())
    if (!std::count(base_fds.begin(), base_fds.end(), fd)) t.push_back(fd);
  e.arr("tab", t);
  std::vector<int> own;
  std::vector<std::string> kinds;
  for (int i = 1; i <= ns; ++i) { own.push_back(slots[i].native()); kinds.push_back(std::string(1, slots[i].kind)); }
  e.arr("own", own);
  e.strs("kinds", kinds);
  std::string op = "[";
  for (int i = 1; i <= ns; ++i) {
    Slot& s = slots[i];
    bool o = s.kind == 'u' ? s.u->is_open() : s.kind == 'b' ? s.b->is_open() : s.h.is_open();
    op += (i > 1 ? "," : "") + std::string(o ? "true" : "false");
  }
  e.raw("isopen", op + "]");
}

static void meta_snapshot(Ev& e)
{
  int fd = rawopen(file_name(1), O_RDONLY | O_NOATIME);
  struct stat st;
  ::syscall(SYS_fstat, fd, &st);
  unsigned char b[64];
  long n = ::syscall(SYS_pread64, fd, b, sizeof b, 0L);
  ::syscall(SYS_close, fd);
  e.num("mode", st.st_mode & 07777).raw("atime", tms(st.st_atim)).raw("mtime", tms(st.st_mtim)).num("size", st.st_size);
  e.arr("content", std::vector<int>(b, b + std::max(0L, n)));
  std::vector<int> pos;
  for (int i = 1; i <= 3; ++i) pos.push_back(slots[i].native() >= 0 ? (int)::syscall(SYS_lseek, slots[i].native(), 0L, (long)SEEK_CUR) : -1);
  e.arr("pos", pos);
}

// everything a failed call must leave alone, as one string; and the access times
static std::vector<int> aux_fds;
static void errors_snapshot(Ev& e, int ns)
{
  std::string r, a;
  for (const char* n : {"/f1", "/d1"}) {
    struct stat st;
    std::memset(&st, 0, sizeof st);
    ::lstat((dir + n).c_str(), &st);
    r += std::to_string((long)st.st_size) + "," + std::to_string(st.st_mode) + "," + std::to_string(st.st_mtim.tv_sec) + "." + std::to_string(st.st_mtim.tv_nsec) + ";";
    a += std::to_string(st.st_atim.tv_sec) + "." + std::to_string(st.st_atim.tv_nsec) + ";";
  }
  uint32_t h = 2166136261u;
  int fd = rawopen(file_name(1), O_RDONLY | O_NOATIME);
  unsigned char b[4096];
  for (long n; fd >= 0 && (n = ::syscall(SYS_read, fd, b, sizeof b)) > 0;) for (long i = 0; i < n; ++i) h = (h ^ b[i]) * 16777619u;
  if (fd >= 0) ::syscall(SYS_close, fd);
  r += std::to_string(h) + ";";
  int entries = 0;
  if (DIR* d = ::opendir(dir.c_str())) { while (::readdir(d)) ++entries; ::closedir(d); }
  r += std::to_string(entries);
  std::string op = "[";
  for (int i = 1; i <= ns; ++i) {
    Slot& s = slots[i];
    bool o = s.kind == 'u' ? s.u->is_open() : s.kind == 'b' ? s.b->is_open() : s.kind == 'h' && s.h.is_open();
    op += (i > 1 ? "," : "") + std::string(o ? "true" : "false");
    long p = s.native() >= 0 ? ::syscall(SYS_lseek, s.native(), 0L, (long)SEEK_CUR) : -1;
    r += ";" + std::to_string(p);
  }
  e.str("snap", r).str("at", a).raw("isopen", op + "]");
}

static void run(const std::vector<Op>& ops)
{
  static int serial = 0;
  dir = std::string(std::getenv("HARNESS_DIR")) + "/s" + std::to_string(serial++);
  ::mkdir(dir.c_str(), 0755);
  ::umask(022);
  ctx.reset(new net::io_context);
  nmade = 0;
  window = false;
  { asioext::file warm(*ctx); }
  int nf = 2, ns = 4, mode = 0;          // mode: 1 files, 2 names, 3 table, 4 metadata
  std::vector<std::string> names;
  FreeZero zero;
  zero.now();
  base_fds = open_fds();
  int extra = 0;
  for (const Op& op : ops) {
    const std::string& o = op[0];
    Ev e(o.compare(0, 3, "big") == 0 ? o.substr(3) : o);
    auto S = [&](int i) -> Slot& { return slots[std::atoi(op.at(i).c_str())]; };
    auto N = [&](int i) { return (long)num(op.at(i)); };
    if (o == "mode") { mode = N(1); continue; }
    if (o == "names") { names.assign(op.begin() + 1, op.end()); continue; }
    if (o == "fault") {     // fn skip err|cap value : at the next library call
      fdt::Fault f{op[1], (int)N(2), 0, -1};
      if (op[3] == "cap") f.cap = N(4); else f.err = tab_errno(op[3]);
      for (int k = op[3] == "cap" ? 1 : op.size() > 4 ? N(4) : 1; k > 0; --k) fdt::st().faults.push_back(f);
      continue;
    }
    std::string res;
    // ---------------- F04
    if (o == "obj") {            // slot kind cls
      const std::string& k = op[2];
      int fd = -1, p[2];
      if (k == "rw" || k == "ro" || k == "wo") fd = rawopen(file_name(1), (k == "rw" ? O_RDWR : k == "ro" ? O_RDONLY : O_WRONLY) | O_CREAT);
      else if (k == "dir") { ::mkdir((dir + "/d1").c_str(), 0755); fd = rawopen(dir + "/d1", O_RDONLY | O_DIRECTORY); }
      else if (k == "full") fd = rawopen("/dev/full", O_RDWR);
      else if (k != "closed") {
        (void)::syscall(SYS_pipe2, p, O_NONBLOCK | O_CLOEXEC);
        fd = p[k == "rpipe" ? 0 : 1];
        int other = p[k == "rpipe" ? 1 : 0];
        if (k == "bpipe") ::syscall(SYS_close, other); else aux_fds.push_back(other);
      }
      if (k == "closed") { clear_slot(S(1)); S(1).kind = op[3][0]; if (op[3] == "u") S(1).u.emplace(); else if (op[3] == "b") S(1).b.reset(made()); }
      else put(S(1), op[3][0], fd);
      e.num("s", N(1)).str("kind", k).str("cls", op[3]);
    }
    else if (o == "fopen") {     // slot path v
      const std::string& k = op[2];
      char v = op[3][0];
      std::string p = k == "good" ? dir + "/g" + std::to_string(extra++) : k == "missing" ? dir + "/missing" : k == "below" ? dir + "/plain/x" : k == "empty" ? "" :
                      k == "dir" ? dir : k == "exists" ? dir + "/plain" : k == "long" ? dir + "/" + std::string(300, 'x') : dir + "/never";
      using asioext::open_flags;
      auto fl = open_flags::access_read_write |
                (k == "missing" || k == "dir" || k == "empty" ? open_flags::open_existing : k == "exists" ? open_flags::create_new :
                 k == "contradictory" ? open_flags::create_new | open_flags::open_existing : open_flags::create_always);
      Slot& s = S(1);
      Call c;
      if (s.kind == 'b') res = call(v, [&](error_code& ec) { s.b->open(p.c_str(), fl, ec); }, [&] { s.b->open(p.c_str(), fl); });
      else res = call(v, [&](error_code& ec) { s.u.emplace(asioext::open(p.c_str(), fl, ec)); }, [&] { s.u.emplace(asioext::open(p.c_str(), fl)); });
      if (!s.u && s.kind == 'u') s.u.emplace();
      c.done(e);
      e.num("s", N(1)).str("path", k).str("err", res);
    }
    else if (o == "cancel") {    // slot v
      Call c;
      res = call(op[2][0], [&](error_code& ec) { S(1).b->cancel(ec); }, [&] { S(1).b->cancel(); });
      c.done(e);
      e.num("s", N(1)).str("err", res);
    }
    // ---------------- F01
    else if (o == "open") {          // slot file access kind, by the system directly
      int fl = op[3] == "rw" ? O_RDWR : op[3] == "r" ? O_RDONLY : O_WRONLY;
      int fd = rawopen(file_name(N(2)), fl | O_CREAT);
      put(S(1), op[4][0], fd);
      e.num("s", N(1)).num("f", N(2)).str("acc", op[3]);
    }
    else if (o == "drop") {
      Slot& s = S(1);
      if (s.kind == 'h') ::syscall(SYS_close, s.h.native_handle());
      clear_slot(s);
      e.num("s", N(1));
    }
    else if (o == "dup") {      // slot from v
      Slot& s = S(1);
      clear_slot(s);
      s.kind = 'u';
      FH from(S(2).native());
      Call c;
      res = call(op[3][0], [&](error_code& ec) { s.u.emplace(asioext::duplicate(from, ec)); },
                 [&] { s.u.emplace(asioext::duplicate(from)); });
      c.done(e);
      if (!s.u) s.u.emplace();
      if (!s.u->is_open() && mode == 1) clear_slot(s);
      e.num("s", N(1)).num("from", N(2)).str("err", res).boolean("isopen", s.u && s.u->is_open());
      e.boolean("cloexec", s.native() < 0 || (::syscall(SYS_fcntl, s.native(), F_GETFD, 0L) & FD_CLOEXEC));
    }
    else if (o == "read" || o == "readat") {     // slot [g d] sizes v
      bool at = o == "readat";
      int a = at ? 4 : 2;
      std::vector<int> sz = ints(op[a]);
      char v = op[a + 1][0];
      std::size_t tot = 0;
      for (int x : sz) tot += x;
      std::vector<uint8_t> mem(tot + 16, 0xEE);
      std::vector<net::mutable_buffer> bufs;
      std::size_t p = 8;
      for (int x : sz) { bufs.push_back(net::buffer(&mem[p], x)); p += x; }
      uint64_t off = at ? (uint64_t)abs_pos(N(2), N(3)) : 0;
      std::size_t n = 0;
      Call c;
      res = with(S(1), [&](auto& f) {
        return call(v, [&](error_code& ec) { n = at ? f.read_some_at(off, bufs, ec) : f.read_some(bufs, ec); },
                    [&] { n = at ? f.read_some_at(off, bufs) : f.read_some(bufs); });
      });
      c.done(e);
      bool over = false;
      for (int i = 0; i < 8; ++i) over = over || mem[i] != 0xEE || mem[mem.size() - 1 - i] != 0xEE;
      e.num("s", N(1)).num("tot", tot).num("n", n).str("err", res).boolean("over", over);
      e.arr("buf", std::vector<int>(mem.begin() + 8, mem.end() - 8));
      if (at) e.raw("off", "[" + op[2] + "," + op[3] + "]");
    }
    else if (o == "window") { window = true; continue; }
    else if (o == "lread" || o == "lreadat" || o == "lwrite" || o == "lwriteat") {   // slot [g d] sizes places bytes v
      // long transfers; of the data only the bytes other than zero are named
      const bool at = o.size() > 6, rd = o[1] == 'r';
      const int a = at ? 4 : 2;
      std::vector<int> sz = ints(op[a]), where = ints(op[a + 1]), what = ints(op[a + 2]);
      const char v = op[a + 3][0];
      std::size_t tot = 0;
      for (int x : sz) tot += x;
      std::vector<uint8_t> mem(tot + 16, rd ? 0xEE : 0);
      if (!rd) for (std::size_t i = 0; i < where.size(); ++i) mem[8 + where[i]] = (uint8_t)what[i];
      std::vector<net::mutable_buffer> mb;
      std::size_t p = 8;
      for (int x : sz) { mb.push_back(net::buffer(&mem[p], x)); p += x; }
      std::vector<net::const_buffer> cb(mb.begin(), mb.end());
      uint64_t off = at ? (uint64_t)abs_pos(N(2), N(3)) : 0;
      std::size_t n = 0;
      Call c;
      res = with(S(1), [&](auto& f) {
        return call(v,
          [&](error_code& ec) { n = rd ? (at ? f.read_some_at(off, mb, ec) : f.read_some(mb, ec))
                                       : (at ? f.write_some_at(off, cb, ec) : f.write_some(cb, ec)); },
          [&] { n = rd ? (at ? f.read_some_at(off, mb) : f.read_some(mb)) : (at ? f.write_some_at(off, cb) : f.write_some(cb)); });
      });
      c.done(e);
      e.num("s", N(1)).num("n", n).str("err", res).num("tot", tot);
      std::string nz = "[";
      bool clean = true;
      for (std::size_t i = 0; i < mem.size(); ++i) {
        if (rd && (i < 8 || i - 8 >= n)) { clean = clean && mem[i] == 0xEE; continue; }
        if (mem[i]) nz += (nz.size() > 1 ? ",[" : "[") + std::to_string((long)i - 8) + "," + std::to_string((int)mem[i]) + "]";
      }
      e.raw("nz", nz + "]").boolean("clean", clean);
      if (at) e.raw("off", "[" + op[2] + "," + op[3] + "]");
    }
    else if (o == "bigread" || o == "bigreadat" || o == "bigwrite" || o == "bigwriteat") {   // slot [g d] bytes v
      // one buffer (behind an empty one) of a multiple of 2^32 bytes, of which the system only ever takes the first few
      const bool at = o.size() > 8 && o.substr(o.size() - 2) == "at", rd = o[3] == 'r';
      const std::size_t len = (std::size_t)1 << 32;
      static uint8_t* const mem = (uint8_t*)::mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (mem == MAP_FAILED) fatal("mmap");
      const int a = at ? 4 : 2;
      std::vector<uint8_t> d = bytes(op[a]);
      const char v = op[a + 1][0];
      const int tot = (int)d.size();
      if (rd) std::fill(d.begin(), d.end(), 0xEE);
      std::fill(mem, mem + 256, 0xEE);
      std::copy(d.begin(), d.end(), mem);
      for (int i = 0; i < 20; ++i) fdt::st().faults.push_back({rd ? "read" : "write", 0, 0, tot});
      std::vector<net::mutable_buffer> mb;
      if (tot % 2) mb.push_back(net::mutable_buffer(mem, 0));
      mb.push_back(net::mutable_buffer(mem, len));
      std::vector<net::const_buffer> cb(mb.begin(), mb.end());
      const bool one = mb.size() == 1 && v == 't';      // a single buffer, not a vector of one
      uint64_t off = at ? (uint64_t)abs_pos(N(2), N(3)) : 0;
      std::size_t n = 0;
      Call c;
      res = with(S(1), [&](auto& f) {
        return call(v,
          [&](error_code& ec) { n = rd ? (at ? f.read_some_at(off, mb, ec) : f.read_some(mb, ec))
                                       : (at ? f.write_some_at(off, cb, ec) : f.write_some(cb, ec)); },
          [&] { n = one ? (rd ? (at ? f.read_some_at(off, mb[0]) : f.read_some(mb[0])) : (at ? f.write_some_at(off, cb[0]) : f.write_some(cb[0])))
                        : (rd ? (at ? f.read_some_at(off, mb) : f.read_some(mb)) : (at ? f.write_some_at(off, cb) : f.write_some(cb))); });
      });
      c.done(e);
      fdt::st().faults.clear();
      bool over = false;
      for (int i = tot; i < 256; ++i) over = over || mem[i] != 0xEE;
      e.num("s", N(1)).num("n", n).str("err", res);
      if (rd) e.num("tot", tot).boolean("over", over).arr("buf", std::vector<int>(mem, mem + tot));
      else e.arr("data", std::vector<int>(d.begin(), d.end()));
      if (at) e.raw("off", "[" + op[2] + "," + op[3] + "]");
    }
    else if (o == "write" || o == "writeat") {   // slot [g d] bytes sizes v
      bool at = o == "writeat";
      int a = at ? 4 : 2;
      std::vector<uint8_t> mem = bytes(op[a]);
      std::vector<int> sz = ints(op[a + 1]);
      char v = op[a + 2][0];
      std::vector<net::const_buffer> bufs;
      std::size_t p = 0;
      for (int x : sz) { bufs.push_back(net::const_buffer(mem.data() + p, x)); p += x; }
      uint64_t off = at ? (uint64_t)abs_pos(N(2), N(3)) : 0;
      std::size_t n = 0;
      Call c;
      res = with(S(1), [&](auto& f) {
        return call(v, [&](error_code& ec) { n = at ? f.write_some_at(off, bufs, ec) : f.write_some(bufs, ec); },
                    [&] { n = at ? f.write_some_at(off, bufs) : f.write_some(bufs); });
      });
      c.done(e);
      e.num("s", N(1)).num("n", n).str("err", res).arr("data", std::vector<int>(mem.begin(), mem.end()));
      if (at) e.raw("off", "[" + op[2] + "," + op[3] + "]");
    }
    else if (o == "seek") {      // slot origin g d v
      static const std::map<std::string, asioext::seek_origin> om = {{"begin", asioext::seek_origin::from_begin},
        {"current", asioext::seek_origin::from_current}, {"end", asioext::seek_origin::from_end}};
      uint64_t r = 0;
      Call c;
      res = with(S(1), [&](auto& f) {
        return call(op[5][0], [&](error_code& ec) { r = f.seek(om.at(op[2]), abs_pos(N(3), N(4)), ec); },
                    [&] { r = f.seek(om.at(op[2]), abs_pos(N(3), N(4))); });
      });
      c.done(e);
      e.num("s", N(1)).str("org", op[2]).raw("off", "[" + op[3] + "," + op[4] + "]").raw("ret", pos_json(r)).str("err", res);
    }
    else if (o == "pos" || o == "size") {        // slot v
      uint64_t r = 0;
      Call c;
      res = with(S(1), [&](auto& f) {
        return call(op[2][0], [&](error_code& ec) { r = o == "pos" ? f.position(ec) : f.size(ec); },
                    [&] { r = o == "pos" ? f.position() : f.size(); });
      });
      c.done(e);
      e.num("s", N(1)).raw("ret", pos_json(r)).str("err", res);
    }
    else if (o == "trunc") {     // slot g d v
      Call c;
      res = with(S(1), [&](auto& f) {
        return call(op[4][0], [&](error_code& ec) { f.truncate((uint64_t)abs_pos(N(2), N(3)), ec); },
                    [&] { f.truncate((uint64_t)abs_pos(N(2), N(3))); });
      });
      c.done(e);
      e.num("s", N(1)).raw("to", "[" + op[2] + "," + op[3] + "]").str("err", res);
    }
    // ---------------- F03
    else if (o == "rawfd") {     // slot: a plain handle to a fresh descriptor nobody owns
      std::string n = dir + "/x" + std::to_string(extra++);
      put(S(1), 'h', rawopen(n, O_RDWR | O_CREAT));
      e.num("s", N(1));
    }
    else if (o == "new") { Call c; clear_slot(S(1)); if (op[2] == "u") { S(1).u.emplace(); } else S(1).h.clear(); S(1).kind = op[2][0]; c.done(e); e.num("s", N(1)).str("k", op[2]); }
    else if (o == "own") {       // slot from: construct a unique handle from a plain one; how = h or native
      Call c;
      S(1).kind = 'u';
      if (op[3] == "n") S(1).u.emplace(FH::native_handle_type(S(2).h.native_handle())); else S(1).u.emplace(S(2).h);
      c.done(e);
      e.num("s", N(1)).num("from", N(2));
    }
    else if (o == "uopen") {     // slot v: construct from open(); the slot holds no object
      std::string n = dir + "/x" + std::to_string(extra++);
      Slot& s = S(1);
      Call c;
      auto fl = asioext::open_flags::access_read_write | asioext::open_flags::create_always;
      s.kind = 'u';
      res = call(op[2][0], [&](error_code& ec) { s.u.emplace(asioext::open(n.c_str(), fl, ec)); }, [&] { s.u.emplace(asioext::open(n.c_str(), fl)); });
      c.done(e);
      if (!s.u) s.kind = '-';
      e.num("s", N(1)).str("err", res);
    }
    else if (o == "del") { Call c; clear_slot(S(1)); c.done(e); e.num("s", N(1)); }
    else if (o == "mctor") { Call c; S(1).u.emplace(std::move(*S(2).u)); S(1).kind = 'u'; c.done(e); e.num("s", N(1)).num("from", N(2)); }
    else if (o == "massign") {
      Call c;
      try { unique_file_handle& t = *S(2).u; *S(1).u = std::move(t); res = "ok"; }
      catch (const SysErr& x) { res = err_name(x.code()); }
      c.done(e);
      e.num("s", N(1)).num("from", N(2)).str("err", res);
    }
    else if (o == "oassign") {   // slot v: the usual "u = open(...)"
      std::string n = dir + "/x" + std::to_string(extra++);
      auto fl = asioext::open_flags::access_read_write | asioext::open_flags::create_always;
      std::string ores = "ok";
      Call c;
      try { error_code ec; auto r = asioext::open(n.c_str(), fl, ec); ores = err_name(ec); *S(1).u = std::move(r); res = "ok"; }
      catch (const SysErr& x) { res = err_name(x.code()); }
      c.done(e);
      e.num("s", N(1)).str("err", res).str("open", ores);
    }
    else if (o == "close") {     // slot v
      Call c;
      res = with(S(1), [&](auto& f) { return call(op[2][0], [&](error_code& ec) { f.close(ec); }, [&] { f.close(); }); });
      c.done(e);
      e.num("s", N(1)).str("err", res);
    }
    else if (o == "clear") { Call c; S(1).h.clear(); c.done(e); e.num("s", N(1)); }
    else if (o == "get") { Call c; S(1).h = S(2).u->get(); c.done(e); S(1).kind = 'h'; e.num("s", N(1)).num("from", N(2)); }
    else if (o == "hcopy") { Call c; { FH t(S(2).h); S(1).h = t; } c.done(e); S(1).kind = 'h'; e.num("s", N(1)).num("from", N(2)); }
    else if (o == "release") { Call c; S(1).h = S(2).u->release(); c.done(e); S(1).kind = 'h'; e.num("s", N(1)).num("from", N(2)); }
    else if (o == "reset") {     // unique from plain v
      FH h = S(2).h;
      Call c;
      res = call(op[3][0], [&](error_code& ec) { S(1).u->reset(h, ec); }, [&] { S(1).u->reset(h); });
      c.done(e);
      e.num("s", N(1)).num("from", N(2)).str("err", res);
    }
    else if (o == "udup") {      // slot from v, the slot holds no object
      Slot& s = S(1);
      FH from(S(2).native());
      Call c;
      res = call(op[3][0], [&](error_code& ec) { s.u.emplace(asioext::duplicate(from, ec)); }, [&] { s.u.emplace(asioext::duplicate(from)); });
      c.done(e);
      s.kind = s.u ? 'u' : '-';
      e.num("s", N(1)).num("from", N(2)).str("err", res).boolean("made", (bool)s.u);
    }
    // ---------------- F05
    else if (o == "setperm") {   // slot perms opt v
      auto p = (asioext::file_perms)N(2);
      static const std::map<std::string, asioext::file_perm_options> om = {{"replace", asioext::file_perm_options::replace},
        {"add", asioext::file_perm_options::add}, {"remove", asioext::file_perm_options::remove}};
      Call c;
      res = with(S(1), [&](auto& f) {
        if (op[3] == "default")
          return call(op[4][0], [&](error_code& ec) { f.permissions(p, ec); }, [&] { f.permissions(p); });
        return call(op[4][0], [&](error_code& ec) { f.permissions(p, om.at(op[3]), ec); }, [&] { f.permissions(p, om.at(op[3])); });
      });
      c.done(e);
      e.num("s", N(1)).num("perms", N(2)).str("opt", op[3]).str("err", res);
    }
    else if (o == "getperm") {   // slot v
      asioext::file_perms p = asioext::file_perms::none;
      Call c;
      res = with(S(1), [&](auto& f) { return call(op[2][0], [&](error_code& ec) { p = f.permissions(ec); }, [&] { p = f.permissions(); }); });
      c.done(e);
      e.num("s", N(1)).num("ret", (int)p).str("err", res);
    }
    else if (o == "settimes") {  // slot ad as ans md ms mns c v     (0 0 0: omitted)
      asioext::file_times t;
      t.atime = ft(N(2), N(3), N(4)); t.mtime = ft(N(5), N(6), N(7)); t.ctime = ft(N(8), 0, 0);
      Call c;
      res = with(S(1), [&](auto& f) { return call(op[9][0], [&](error_code& ec) { f.times(t, ec); }, [&] { f.times(t); }); });
      c.done(e);
      e.num("s", N(1)).raw("a", "[" + op[2] + "," + op[3] + "," + op[4] + "]").raw("m", "[" + op[5] + "," + op[6] + "," + op[7] + "]").str("err", res);
    }
    else if (o == "gettimes") {  // slot v
      asioext::file_times t;
      Call c;
      res = with(S(1), [&](auto& f) { return call(op[2][0], [&](error_code& ec) { t = f.times(ec); }, [&] { t = f.times(); }); });
      c.done(e);
      e.num("s", N(1)).raw("a", ftj(t.atime)).raw("m", ftj(t.mtime)).raw("c", ftj(t.ctime)).str("err", res);
      // equal means that all three are
      asioext::file_times t2 = t, d[3] = {t, t, t};
      typedef asioext::file_time_type::duration tick;
      auto other = [](asioext::file_time_type x) { return x.time_since_epoch().count() > 0 ? x - tick(1) : x + tick(1); };
      d[0].ctime = other(t.ctime); d[1].atime = other(t.atime); d[2].mtime = other(t.mtime);
      bool eq = t == t2 && !(t != t2);
      for (auto& x : d) eq = eq && !(t == x) && t != x;
      e.boolean("eq", eq);
    }
    else if (o == "attrs") {     // slot get|replace|add|remove|default value v
      asioext::file_attrs a = asioext::file_attrs::none;
      auto w = (asioext::file_attrs)N(3);
      static const std::map<std::string, asioext::file_attr_options> om = {{"replace", asioext::file_attr_options::replace},
        {"add", asioext::file_attr_options::add}, {"remove", asioext::file_attr_options::remove}};
      Call c;
      res = with(S(1), [&](auto& f) {
        if (op[2] == "get") return call(op[4][0], [&](error_code& ec) { a = f.attributes(ec); }, [&] { a = f.attributes(); });
        if (op[2] == "default") return call(op[4][0], [&](error_code& ec) { f.attributes(w, ec); }, [&] { f.attributes(w); });
        return call(op[4][0], [&](error_code& ec) { f.attributes(w, om.at(op[2]), ec); }, [&] { f.attributes(w, om.at(op[2])); });
      });
      c.done(e);
      e.num("s", N(1)).num("ret", (int)a).str("err", res).str("how", op[2]);
    }
    else if (o == "rawtimes") {  // ad as ans md ms mns: by the system directly; may be far beyond what fits
      struct timespec ts[2] = {{(time_t)(N(1) * 86400 + N(2)), N(3)}, {(time_t)(N(4) * 86400 + N(5)), N(6)}};
      int fd = rawopen(file_name(1), O_WRONLY);
      ::syscall(SYS_utimensat, fd, nullptr, ts, 0);
      ::syscall(SYS_close, fd);
    }
    else if (o == "mkf1") {      // mode: the file, with ten bytes in it
      int fd = rawopen(file_name(1), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      (void)::syscall(SYS_write, fd, "0123456789", 10);
      ::syscall(SYS_fchmod, fd, (int)N(1));
      ::syscall(SYS_close, fd);
    }
    else if (o == "std") {       // which v
      int n = -2;
      res = call(op[2][0], [&](error_code& ec) { n = (op[1] == "in" ? asioext::get_stdin(ec) : op[1] == "out" ? asioext::get_stdout(ec) : asioext::get_stderr(ec)).native_handle(); },
                 [&] { n = (op[1] == "in" ? asioext::get_stdin() : op[1] == "out" ? asioext::get_stdout() : asioext::get_stderr()).native_handle(); });
      e.str("which", op[1]).num("ret", n).str("err", res);
    }
    // ---------------- F02
    else if (o == "mk") {        // name kind [content|target] [mode]
      std::string p = path_of(op[1]);
      if (op[2] == "file") {
        int fd = rawopen(p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (op[3] != "none") (void)::syscall(SYS_write, fd, op[3].data(), op[3].size());
        ::syscall(SYS_fchmod, fd, (int)N(4));
        ::syscall(SYS_close, fd);
      }
      else if (op[2] == "dir") ::mkdir(p.c_str(), 0755);
      else if (op[2] == "link") (void)::symlink(path_of(op[3]).c_str(), p.c_str());
      e.str("name", op[1]);
    }
    else if (o == "rm") { ::unlink(path_of(op[1]).c_str()); ::rmdir(path_of(op[1]).c_str()); e.str("name", op[1]); }
    else if (o == "plain") { int fd = rawopen(dir + "/plain", O_WRONLY | O_CREAT); ::syscall(SYS_close, fd); continue; }
    else if (o == "lopen") {     // name flags perms umask via v
      std::string p = path_of(op[1]);
      auto fl = (asioext::open_flags)N(2);
      auto pm = (asioext::file_perms)N(3);
      bool defperm = N(3) == 0666 && (N(2) & 1);
      asioext::open_args args = N(2) < 0 ? asioext::open_args() : defperm ? asioext::open_args(fl) : asioext::open_args(fl, pm);
      ::umask((mode_t)N(4));
      const std::string& via = op[5];
      char v = op[6][0];
      unique_file_handle u;
      std::unique_ptr<asioext::file> b;
      int fd = -1;
      Call c;
      if (via == "open") res = call(v, [&](error_code& ec) { u = asioext::open(p.c_str(), args, ec); }, [&] { u = asioext::open(p.c_str(), args); });
      else if (via == "ctor") res = call(v, [&](error_code& ec) { b.reset(made(p.c_str(), args, ec)); }, [&] { b.reset(made(p.c_str(), args)); });
      else if (via == "member") { b.reset(made()); res = call(v, [&](error_code& ec) { b->open(p.c_str(), args, ec); }, [&] { b->open(p.c_str(), args); }); }
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
      else if (via == "popen") { boost::filesystem::path q(p); res = call(v, [&](error_code& ec) { u = asioext::open(q, args, ec); }, [&] { u = asioext::open(q, args); }); }
      else if (via == "pctor") { boost::filesystem::path q(p); res = call(v, [&](error_code& ec) { b.reset(made(q, args, ec)); }, [&] { b.reset(made(q, args)); }); }
      else if (via == "pmember") { boost::filesystem::path q(p); b.reset(made()); res = call(v, [&](error_code& ec) { b->open(q, args, ec); }, [&] { b->open(q, args); }); }
#endif
      else fatal("via " + via);
      fdt::st().on = false;
      ::umask(022);
      fd = u.is_open() ? u.get().native_handle() : b && b->is_open() ? (int)b->native_handle() : -1;
      e.str("name", op[1]).num("flags", N(2)).num("perms", N(3)).num("umask", N(4)).str("err", res).num("inj", fdt::st().injected);
      e.boolean("isopen", fd >= 0).boolean("valid", N(2) >= 0 && asioext::is_valid(fl)).boolean("argsvalid", args.is_valid());
      int acc = fd >= 0 ? ::syscall(SYS_fcntl, fd, F_GETFL, 0L) : 0;
      bool rd = false, wr = false, xp = acc & O_PATH;
      if (fd >= 0 && !xp) { rd = (acc & O_ACCMODE) != O_WRONLY; wr = (acc & O_ACCMODE) != O_RDONLY; }
      e.boolean("rd", rd).boolean("wr", wr).boolean("cloexec", fd < 0 || (::syscall(SYS_fcntl, fd, F_GETFD, 0L) & FD_CLOEXEC));
      bool dupok = true;     // a duplicate has the same access and is not for child processes either
      if (fd >= 0) {
        error_code dec;
        unique_file_handle d = asioext::duplicate(FH(fd), dec);
        int df = d.is_open() ? d.get().native_handle() : -1;
        dupok = df >= 0 && !dec && (::syscall(SYS_fcntl, df, F_GETFD, 0L) & FD_CLOEXEC) && ::syscall(SYS_fcntl, df, F_GETFL, 0L) == acc;
      }
      e.boolean("dupok", dupok);
      e.boolean("app", fd >= 0 && (acc & O_APPEND));
      e.num("pos", fd >= 0 && !xp ? (long)::syscall(SYS_lseek, fd, 0L, (long)SEEK_CUR) : 0);
      int left = 0;
      for (int f : open_fds()) if (f != fd && !std::count(base_fds.begin(), base_fds.end(), f)) ++left;
      e.num("left", left);
    }
    else fatal("op " + o);
    fdt::st().faults.clear();
    if (mode == 1) files_snapshot(e, nf, ns);
    if (mode == 2) e.raw("fs", names_json(names));
    if (mode == 3) table_snapshot(e, 6);
    if (mode == 4) meta_snapshot(e);
    if (mode == 5) errors_snapshot(e, ns);
    e.emit();
  }
  for (Slot& s : slots) clear_slot(s);
  for (int fd : aux_fds) ::syscall(SYS_close, fd);
  aux_fds.clear();
  ctx.reset();
  for (int fd : open_fds())
    if (!std::count(base_fds.begin(), base_fds.end(), fd)) ::syscall(SYS_close, fd);
  for (int f = 0; f < 8; ++f) ::unlink(file_name(f).c_str());
}

int main(int argc, char** argv) { ::signal(SIGPIPE, SIG_IGN); return run_main(argc, argv, run); }
