// Drives asioext::file / thread_pool_file_service deterministically: every
// service has one pool thread that is held by gates, so that the script decides
// when the next pending operation runs, when handlers are delivered and what
// happens in between.
#include <sys/resource.h>
#include <csignal>
#include <array>
#include <list>
#include "common.hpp"
#include "blocks.hpp"
#include "fdtrack.hpp"
#include "netns.hpp"
#include <asioext/file.hpp>
#include <asioext/open.hpp>
#include <asioext/unique_file_handle.hpp>
#include <condition_variable>
#include <mutex>
#include <optional>
#include <set>
#include <thread>

using asioext::error_code;

static thread_local int cur_tag = 0;     // executor the running function was submitted through
static thread_local int cur_ctx = 0;     // context being polled by this thread
static thread_local bool is_main = false;
static bool in_init = false;

// An executor that forwards to an io_context and marks what runs through it.
template <class Inner>
struct tag_executor
{
  Inner in;
  int tag;
  tag_executor(const Inner& i, int t) noexcept : in(i), tag(t) {}
  template <class F> void execute(F f) const
  {
    int t = tag;
    in.execute([f = std::move(f), t]() mutable {
      int old = cur_tag; cur_tag = t;
      f();
      cur_tag = old;
    });
  }
  bool operator==(const tag_executor& o) const noexcept { return in == o.in && tag == o.tag; }
  bool operator!=(const tag_executor& o) const noexcept { return !(*this == o); }
  template <class P> auto query(const P& p) const noexcept -> decltype(net::query(std::declval<const Inner&>(), p)) { return net::query(in, p); }
  template <class P> auto require(const P& p) const noexcept
    -> tag_executor<std::decay_t<decltype(net::require(std::declval<const Inner&>(), p))>>
  { return {net::require(in, p), tag}; }
  template <class P> auto prefer(const P& p) const noexcept
    -> tag_executor<std::decay_t<decltype(net::prefer(std::declval<const Inner&>(), p))>>
  { return {net::prefer(in, p), tag}; }
};

// The executor type of the files under test: which tag a file gets is decided
// by next_tag when it is constructed from its context.
static int next_tag = 0;
struct file_executor : tag_executor<net::io_context::executor_type>
{
  typedef tag_executor<net::io_context::executor_type> base;
  std::shared_ptr<int> life = std::make_shared<int>(0);      // has to be destroyed as often as it is made
  file_executor(const net::io_context::executor_type& e) noexcept : base(e, next_tag) {}
};
#ifdef PLAIN_EXECUTOR
typedef asioext::file File;
#else
typedef asioext::basic_file<asioext::thread_pool_file_service, file_executor> File;
#endif

struct Gate
{
  std::mutex m;
  std::condition_variable cv;
  int total = 0, reached = 0, released = 0;
  bool hold = false, held = false;     // stop the pool thread inside its next transfer
  bool before = false;                 // ... right before it is made
};
static thread_local Gate* my_gate = nullptr;
static void stop_here(bool before)
{
  Gate* g = my_gate;
  if (!g) return;
  std::unique_lock<std::mutex> l(g->m);
  if (!g->hold || g->before != before) return;
  g->held = true;
  g->cv.notify_all();
  g->cv.wait(l, [&] { return !g->hold; });
  g->held = false;
}
static void after_transfer() { stop_here(false); }
static void before_transfer() { stop_here(true); }

struct Ctx;
class sentinel : public net::io_context::service
{
public:
  static net::io_context::id id;
  explicit sentinel(net::io_context& c) : net::io_context::service(c) {}
  std::function<void()> f;
private:
  void shutdown() override { if (f) f(); }
};
net::io_context::id sentinel::id;

struct Ctx
{
  std::unique_ptr<net::io_context> io;
  asioext::thread_pool_file_service* svc = nullptr;
  std::shared_ptr<Gate> gate = std::make_shared<Gate>();
  std::thread helper;

  explicit Ctx(int nthreads)
  {
    io.reset(new net::io_context);
    if (nthreads == 1) svc = &net::use_service<asioext::thread_pool_file_service>(*io);   // what a file does: one thread
    else { svc = new asioext::thread_pool_file_service(*io, nthreads); net::add_service(*io, svc); }
    sentinel* s = new sentinel(*io);
    net::add_service(*io, s);
    // the context is going away: let the pool thread go shortly after
    s->f = [this] {
      if (helper.joinable()) return;
      helper = std::thread([g = gate] {
        usleep(4000);
        std::lock_guard<std::mutex> l(g->m);
        g->released = 1 << 30;
        g->hold = false;
        g->cv.notify_all();
      });
    };
    add_gate();
    wait_gate(1);
  }
  void add_gate()
  {
    int k;
    { std::lock_guard<std::mutex> l(gate->m); k = ++gate->total; }
    net::post(svc->get_thread_pool(), [g = gate, k] {
      std::unique_lock<std::mutex> l(g->m);
      g->reached = k;
      my_gate = g.get();
      g->cv.notify_all();
      g->cv.wait(l, [&] { return g->released >= k; });
    });
  }
  void wait_gate(int k)
  {
    std::unique_lock<std::mutex> l(gate->m);
    gate->cv.wait(l, [&] { return gate->reached >= k; });
  }
  void step()
  {
    int k;
    {
      std::lock_guard<std::mutex> l(gate->m);
      if (gate->reached == gate->total) return;
      k = gate->reached;
      gate->released = k;
      gate->cv.notify_all();
    }
    wait_gate(k + 1);
  }
  // lets the next operation make its transfer, but not return from it; or get to it, but not make it
  bool begin(bool before)
  {
    std::unique_lock<std::mutex> l(gate->m);
    if (gate->reached == gate->total) return false;
    int k = gate->reached;
    gate->hold = true;
    gate->before = before;
    gate->released = k;
    gate->cv.notify_all();
    gate->cv.wait(l, [&] { return gate->held || gate->reached > k; });
    if (!gate->held) gate->hold = false;
    return gate->held;
  }
  void end()
  {
    std::unique_lock<std::mutex> l(gate->m);
    if (!gate->held) return;
    int k = gate->reached;
    gate->hold = false;
    gate->cv.notify_all();
    gate->cv.wait(l, [&] { return gate->reached > k; });
  }
  ~Ctx()
  {
    io.reset();
    if (helper.joinable()) helper.join();
  }
};

static std::mutex log_m;
static std::vector<std::string> log_hs;
static std::vector<int> log_dels;

static std::string ecname(const error_code& ec)
{
  if (!ec) return "ok";
  if (ec == net::error::operation_aborted) return "aborted";
  if (ec == net::error::eof) return "eof";
  if (ec == net::error::bad_descriptor) return "badf";
  if (ec == net::error::already_open) return "already_open";
  if (ec == error_code(ENOENT, net::error::get_system_category())) return "noent";
  if (ec == error_code(EIO, net::error::get_system_category())) return "io";
  if (ec == error_code(EINTR, net::error::get_system_category())) return "intr";
  if (ec == error_code(EFBIG, net::error::get_system_category())) return "fbig";
  return "other:" + std::to_string(ec.value());
}

struct Rec
{
  int h = 0;
  std::vector<uint8_t> buf;
  std::vector<int> sizes;
  std::shared_ptr<File> file;
  std::shared_ptr<net::steady_timer> timer;
  ~Rec()
  {
    file.reset();
    timer.reset();
    std::lock_guard<std::mutex> l(log_m);
    log_dels.push_back(h);
  }
  template <class B> std::vector<B> bufs()
  {
    std::vector<B> r;
    std::size_t o = 0;
    for (int n : sizes) { r.push_back(B(buf.data() + o, n * blk::K)); o += n * blk::K; }
    return r;
  }
};

struct H
{
  std::shared_ptr<Rec> rec;
  explicit H(std::shared_ptr<Rec> r) : rec(std::move(r)) {}
  H(H&&) = default;
  H(const H&) = delete;
  void operator()(error_code ec, std::size_t n)
  {
    vh::Ev e("h");
    e.num("h", rec->h).str("ec", ecname(ec)).num("n", blk::units(n)).arr("buf", blk::values(rec->buf.data(), rec->buf.size()))
     .num("ctx", cur_ctx).num("tag", cur_tag).boolean("init", is_main && in_init);
    std::lock_guard<std::mutex> l(log_m);
    log_hs.push_back(e.json());
  }
};

static const char* const paths[] = {"missing", "A", "B", "C", "D"};
static const int NP = 4;
enum { NSLOT = 3, NCTX = 2 };

static std::vector<int> content(const char* p)
{
  std::vector<uint8_t> r;
  int fd = (int)::syscall(SYS_openat, AT_FDCWD, p, O_RDONLY);
  static uint8_t b[1 << 16];
  long n;
  while (fd >= 0 && (n = ::syscall(SYS_read, fd, b, sizeof b)) > 0) r.insert(r.end(), b, b + n);
  if (fd >= 0) ::syscall(SYS_close, fd);
  return blk::values(r.data(), r.size());
}

static void put(const char* p, const std::string& s)
{
  int fd = (int)::syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CREAT | O_TRUNC, 0644);
  auto x = blk::expand(s);
  ::syscall(SYS_write, fd, x.data(), x.size());
  ::syscall(SYS_close, fd);
}

struct World
{
  std::optional<File> slot[NSLOT + 1];
  std::unique_ptr<Ctx> ctx[NCTX + 1];
  int nh = 0, decoy = -1;
  unsigned npath = 0, nmade = 0;
  struct stat ino[NP + 1];

  World()
  {
    for (int p = 1; p <= NP; ++p) {
      put(paths[p], p == 4 ? "DD" : p == 1 ? "abc" : p == 2 ? "wxyz" : "");
      ::syscall(SYS_newfstatat, AT_FDCWD, paths[p], &ino[p], 0);
    }
  }

  net::any_io_executor ex(int c, int t)
  {
    auto e = ctx[c]->io->get_executor();
    if (t == 0) return e;
    return tag_executor<decltype(e)>(e, t);
  }

  void state(vh::Ev& e)
  {
    std::string sl = "[";
    for (int s = 1; s <= NSLOT; ++s) {
      if (s > 1) sl += ",";
      int fd = -2;      // no object
      if (slot[s]) {
        fd = slot[s]->native_handle();
        if (slot[s]->is_open() != (fd >= 0)) fd = -3;
        if (fd < 0 && fd > -3) fd = -1;
      }
      sl += std::to_string(fd);
    }
    e.raw("slots", sl + "]");
    // the executor each file reports: the context it belongs to and its mark
    std::string ex = "[";
    for (int s = 1; s <= NSLOT; ++s) {
      if (s > 1) ex += ",";
      int c = 0, t = 0;
      if (slot[s]) {
        auto x = slot[s]->lowest_layer().get_executor();
        for (int i = 1; i <= NCTX; ++i)
          if (ctx[i] && &net::query(x, net::execution::context) == ctx[i]->io.get()) c = i;
#ifndef PLAIN_EXECUTOR
        t = x.tag;
#endif
      }
      ex += "[" + std::to_string(c) + "," + std::to_string(t) + "]";
    }
    e.raw("exs", ex + "]");
    std::string f = "[";
    std::string dec = decoy < 0 ? "none" : "lost";
    for (int fd = 0; fd < vh::fd_end(); ++fd) {
      struct stat st;
      if (::syscall(SYS_fstat, fd, &st) != 0) continue;
      for (int p = 1; p <= NP; ++p) {
        if (st.st_dev != ino[p].st_dev || st.st_ino != ino[p].st_ino) continue;
        long pos = ::syscall(SYS_lseek, fd, 0L, (long)SEEK_CUR);
        if (p == 4) {
          if (fd == decoy && pos == 0) dec = "ok";
          continue;
        }
        if (f.size() > 1) f += ",";
        f += "[" + std::to_string(fd) + "," + std::to_string(p) + "," + std::to_string(pos % (long)blk::K ? -1 : pos / (long)blk::K) + "]";
      }
    }
    e.raw("fds", f + "]");
    if (content("D") != std::vector<int>{'D', 'D'}) dec = "damaged";
    e.str("decoy", dec);
    std::string d = "[";
    for (int p = 1; p <= 3; ++p) {
      if (p > 1) d += ",";
      d += "[";
      bool first = true;
      for (int b : content(paths[p])) { if (!first) d += ","; first = false; d += std::to_string(b); }
      d += "]";
    }
    e.raw("disk", d + "]");
    std::vector<std::string> hs;
    std::vector<int> dels;
    { std::lock_guard<std::mutex> l(log_m); hs.swap(log_hs); dels.swap(log_dels); }
    std::string hh = "[";
    for (std::size_t i = 0; i < hs.size(); ++i) hh += (i ? "," : "") + hs[i];
    e.raw("hs", hh + "]");
    std::sort(dels.begin(), dels.end());
    e.arr("dels", dels);
    e.num("badclose", fdt::st().bad_close);
  }
};

template <class F> static std::string guarded(F f)
{
  error_code ec(77, net::error::get_system_category());   // stale on purpose
  try {
    f(ec);
  } catch (const SysErr& e) {
    return "throw:" + ecname(e.code());
  }
  return ecname(ec);
}

// a file can be given its context or an executor of it
template <class S, class C, class... A> static void made_on(S& slot, C& io, unsigned& n, A&&... a)
{
  typedef std::decay_t<decltype(slot->lowest_layer().get_executor())> X;
  if (n++ % 2 == 0) slot.emplace(X(io.get_executor()), std::forward<A>(a)...);
  else slot.emplace(io, std::forward<A>(a)...);
}

// every way a file name can be given, one after the other
template <class F> static void named(const char* name, unsigned& n, F f)
{
#if defined(ASIOEXT_HAS_BOOST_FILESYSTEM)
  if (n++ % 2) { f(boost::filesystem::path(name)); return; }
#endif
  f(name);
}

static void run(const std::vector<vh::Op>& ops)
{
  is_main = true;
  // no file gets longer than this: writing beyond is an error and leaves the file alone
  std::signal(SIGXFSZ, SIG_IGN);
  struct rlimit lim;
  ::getrlimit(RLIMIT_FSIZE, &lim);
  if (lim.rlim_cur > (1u << 29)) { lim.rlim_cur = 1u << 29; ::setrlimit(RLIMIT_FSIZE, &lim); }
  fdt::after_io() = after_transfer;
  fdt::before_io() = before_transfer;
  { std::lock_guard<std::mutex> l(log_m); log_hs.clear(); log_dels.clear(); }
  fdt::st().bad_close = 0;
  fdt::st().on = true;
  {
    vh::FreeZero zero;
    blk::K = ops.empty() || ops[0][0] != "blocks" ? 1 : vh::num(ops[0][1]);
    blk::table();
    World w;
    for (const vh::Op& op : ops) {
      if (op[0] == "blocks") continue;
      if (op[0] == "mark") { vh::mark(); continue; }
      vh::Ev e(op[0]);
      auto I = [&](std::size_t i) { return (int)vh::num(op.at(i)); };
      const std::string& o = op[0];
      // throwing overloads leave the marker of guarded() in place: success
      auto norm = [](std::string r) { return r == "other:77" ? std::string("ok") : r; };
      if (o == "ctx") {
        for (int c = 1; c <= I(1); ++c) w.ctx[c].reset(new Ctx(1));
        zero.now();
        e.num("n", I(1));
      } else if (o == "new") {
        int s = I(1), c = I(2), x = next_tag = I(3);
        made_on(w.slot[s], *w.ctx[c]->io, w.nmade);
        e.num("s", s).num("c", c).num("x", x);
      } else if (o == "nat") {
        int s = I(1), c = I(2), x = next_tag = I(3), p = I(4), k = I(5);
        int fd = (int)::syscall(SYS_openat, AT_FDCWD, paths[p], O_RDWR | O_CLOEXEC);
        if (k == 0) made_on(w.slot[s], *w.ctx[c]->io, w.nmade, fd);
        else made_on(w.slot[s], *w.ctx[c]->io, w.nmade, asioext::file_handle(fd));
        e.num("s", s).num("c", c).num("x", x).num("p", p).num("fd", fd);
      } else if (o == "ctor") {
        int s = I(1), c = I(2), x = next_tag = I(3), p = I(4), t = I(5);
        asioext::open_args a(asioext::open_flags::access_read | asioext::open_flags::access_write |
                             asioext::open_flags::open_existing);
        std::string r = guarded([&](error_code& ec) {
          named(paths[p], w.npath, [&](const auto& f) {
            if (t) made_on(w.slot[s], *w.ctx[c]->io, w.nmade, f, a);
            else made_on(w.slot[s], *w.ctx[c]->io, w.nmade, f, a, ec);
          });
        });
        e.num("s", s).num("c", c).num("x", x).num("p", p).str("r", t ? norm(r) : r).boolean("thr", t);
      } else if (o == "open") {
        int s = I(1), p = I(2), t = I(3);
        asioext::open_args a(asioext::open_flags::access_read | asioext::open_flags::access_write |
                             asioext::open_flags::open_existing);
        std::string r = guarded([&](error_code& ec) {
          named(paths[p], w.npath, [&](const auto& f) { if (t) w.slot[s]->open(f, a); else w.slot[s]->open(f, a, ec); });
        });
        e.num("s", s).num("p", p).str("r", t ? norm(r) : r).boolean("thr", t);
      } else if (o == "close" || o == "cancel") {
        int s = I(1), t = I(2);
        std::string r = guarded([&](error_code& ec) {
          if (o == "close") { if (t) w.slot[s]->close(); else w.slot[s]->close(ec); }
          else for (int n = op.size() > 3 ? I(3) : 1; n > 0; --n) { if (t) w.slot[s]->cancel(); else w.slot[s]->cancel(ec); }
        });
        e.num("s", s).str("r", t ? norm(r) : r).boolean("thr", t);
      } else if (o == "mc") {
        w.slot[I(2)].emplace(std::move(*w.slot[I(1)]));
        e.num("s", I(1)).num("t", I(2));
      } else if (o == "ma") {
        *w.slot[I(2)] = std::move(*w.slot[I(1)]);
        e.num("s", I(1)).num("t", I(2));
      } else if (o == "del") {
        w.slot[I(1)].reset();
        e.num("s", I(1));
      } else if (o == "rd" || o == "wr") {
        // rd s off sizes hc ht own | wr s off data sizes hc ht own
        int s = I(1), off = I(2);
        bool wr = o == "wr";
        auto rec = std::make_shared<Rec>();
        rec->h = ++w.nh;
        std::vector<int> data;
        std::size_t i = 3;
        if (wr) data = vh::ints(op.at(i++));
        rec->sizes = vh::ints(op.at(i++));
        int hc = I(i), ht = I(i + 1), own = I(i + 2);
        std::size_t tot = 0;
        for (int n : rec->sizes) tot += n;
        rec->buf = blk::expand(wr ? std::vector<int>(data.begin(), data.begin() + tot) : std::vector<int>(tot, 0xEE));
        if (own == 1) rec->timer.reset(new net::steady_timer(*w.ctx[hc ? hc : I(i + 3)]->io));
        File* f = &*w.slot[s];
        if (own == 2) {
          rec->file.reset(new File(std::move(*w.slot[s])));
          w.slot[s].reset();
          f = rec->file.get();
        }
        int svc = I(i + 3);     // the context whose pool gets the operation (known to the script)
        e.num("h", rec->h).num("s", s).num("off", off).arr("data", data).arr("sizes", rec->sizes)
         .num("hc", hc).num("ht", ht).num("own", own);
        // places far beyond the end are given as 1000000 and up
        static const uint64_t far[] = {0, 1ull << 32, 1ull << 31, 1ull << 33, 1ull << 40, 1ull << 48};
        const uint64_t at = off < 0 ? 0 : far[off / 1000000] + off % 1000000 * blk::K;
        auto mb = rec->bufs<net::mutable_buffer>();
        auto cb = rec->bufs<net::const_buffer>();
        const int kind = rec->h % 2 ? 0 : mb.size() == 1 ? 1 : mb.size() == 2 ? 2 : 3;
        auto start = [&](auto&& h) {
          auto rd = [&](const auto& b) { if (off < 0) f->async_read_some(b, std::move(h)); else f->async_read_some_at(at, b, std::move(h)); };
          auto wt = [&](const auto& b) { if (off < 0) f->async_write_some(b, std::move(h)); else f->async_write_some_at(at, b, std::move(h)); };
          in_init = true;
          if (kind == 1) { if (wr) wt(cb[0]); else rd(mb[0]); }
          else if (kind == 2) {
            if (wr) wt(std::array<net::const_buffer, 2>{{cb[0], cb[1]}}); else rd(std::array<net::mutable_buffer, 2>{{mb[0], mb[1]}});
          } else if (kind == 3) {
            if (wr) wt(std::list<net::const_buffer>(cb.begin(), cb.end())); else rd(std::list<net::mutable_buffer>(mb.begin(), mb.end()));
          } else { if (wr) wt(cb); else rd(mb); }
          in_init = false;
        };
        if (hc) {
          auto b = net::bind_executor(w.ex(hc, ht), H(std::move(rec)));
          start(std::move(b));
        } else {
          H h(std::move(rec));
          start(std::move(h));
        }
        w.ctx[svc]->add_gate();
      } else if (o == "step") {
        std::string f = "none";
        if (op.size() > 2) {
          f = op[2];
          int k = I(3);
          std::lock_guard<std::mutex> l(fdt::st().m);
          fdt::st().faults.clear();
          for (const char* fn : {"read", "write"})
            fdt::st().faults.push_back({fn, 0, f == "err" ? EIO : f == "intr" ? EINTR : 0, f == "cap" ? k * (long)blk::K : -1});
          e.num("k", k);
        } else e.num("k", 0);
        w.ctx[I(1)]->step();
        { std::lock_guard<std::mutex> l(fdt::st().m); fdt::st().faults.clear(); }
        e.num("c", I(1)).str("f", f);
      } else if (o == "begin" || o == "commit") {
        e.num("c", I(1)).boolean("held", w.ctx[I(1)]->begin(o == "commit"));
      } else if (o == "end") {
        w.ctx[I(1)]->end();
        e.num("c", I(1));
      } else if (o == "poll") {
        Ctx& c = *w.ctx[I(1)];
        cur_ctx = I(1);
        c.io->restart();
        c.io->poll();
        cur_ctx = 0;
        e.num("c", I(1)).boolean("busy", !c.io->stopped());
      } else if (o == "steal") {
        w.decoy = (int)::syscall(SYS_openat, AT_FDCWD, "D", O_RDWR | O_CLOEXEC);
      } else if (o == "drop") {
        w.ctx[I(1)].reset();
        e.num("c", I(1));
      } else vh::fatal("unknown op " + o);
      w.state(e);
      e.emit();
    }
    if (w.decoy >= 0) ::syscall(SYS_close, w.decoy);
    for (auto& s : w.slot) s.reset();
    for (auto& c : w.ctx) c.reset();
  }
  fdt::st().on = false;
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
