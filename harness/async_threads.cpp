// Several threads use files of two file services at once: each thread has its
// own files, handlers run on several threads per context, the pools have
// several threads. Threads log into buffers of their own, stamped from one
// relaxed counter, so that logging does not order them.
#include "common.hpp"
#include "netns.hpp"
#include <asioext/file.hpp>
#include <asioext/open.hpp>
#include <asioext/unique_file_handle.hpp>
#include <algorithm>
#include <atomic>
#include <barrier>
#include <deque>
#include <dirent.h>
#include <mutex>
#include <optional>
#include <thread>

using asioext::error_code;
typedef asioext::file File;

static std::atomic<int> bad_close{0};
extern "C" int close(int fd)
{
  long r = ::syscall(SYS_close, fd);
  if (r < 0 && errno == EBADF) bad_close.fetch_add(1, std::memory_order_relaxed);
  return (int)r;
}

// --- log
struct Entry
{
  long seq;
  const char* op;
  int t = 0, s = 0, c = 0, d = 0;
  long o = -1, from = -1;          // operations by the stamp of their start
  bool w = false, takes = false, inside = false;
  long n = 0, want = 0;
  std::string ec, data;
};
struct Log { std::deque<Entry> e; };
static std::atomic<long> seq{1};
static std::mutex logs_m;
static std::deque<Log>* logs = new std::deque<Log>;
static thread_local Log* my_log = nullptr;
static long stamp() { return seq.fetch_add(1, std::memory_order_relaxed); }
static Log& log_here()
{
  if (!my_log) { std::lock_guard<std::mutex> l(logs_m); logs->emplace_back(); my_log = &logs->back(); }
  return *my_log;
}
static Entry& add(const char* op, int t = 0, int s = 0)
{
  Log& l = log_here();
  l.e.emplace_back();
  Entry& e = l.e.back();
  e.op = op; e.t = t; e.s = s; e.seq = stamp();
  return e;
}

static thread_local int my_ctx = 0;
static thread_local int in_init = 0;

static const char* ecname(const error_code& ec)
{
  if (!ec) return "ok";
  if (ec == net::error::operation_aborted) return "aborted";
  if (ec == net::error::eof) return "eof";
  if (ec == net::error::bad_descriptor) return "badf";
  return "other";
}
static unsigned char content(long i) { return (unsigned char)((i * 7 + i / 251) % 251); }
static unsigned char mark(long o, int i) { return (unsigned char)(1 + (o * 31 + i * 17) % 254); }

struct Ctx
{
  std::unique_ptr<net::io_context> io;
  std::optional<net::executor_work_guard<net::io_context::executor_type>> work;
  std::vector<std::thread> run;
};
static const long region = 8192;      // writes go behind this offset, each to a place of its own
static std::vector<std::string> paths;

struct Held { std::unique_ptr<File> f; std::shared_ptr<std::atomic<int>> pend; int p = 0; };

// --- handlers
struct Common
{
  long o;
  bool w; int n; int p;
  std::shared_ptr<std::vector<unsigned char>> buf;
  std::shared_ptr<std::atomic<int>> pend;
  Held own; int chain = 0; long pos = 0;
};
struct Handler
{
  std::unique_ptr<Common> c;
  bool called = false;
  explicit Handler(std::unique_ptr<Common> x) : c(std::move(x)) {}
  Handler(Handler&& h) : c(std::move(h.c)), called(h.called) {}
  ~Handler()
  {
    if (!c) return;
    if (!called) add("drop").o = c->o;
    if (c->own.f) add("endfile").o = c->o;
    c->own.f.reset();
    c->pend->fetch_sub(1, std::memory_order_release);
  }
  void operator()(const error_code& ec, std::size_t n);
};

template <class Fn> static void initiate(Fn fn) { ++in_init; fn(); --in_init; }

void Handler::operator()(const error_code& ec, std::size_t n)
{
  Entry& e = add("call");
  called = true;
  e.o = c->o; e.c = my_ctx; e.inside = in_init > 0;
  e.ec = ecname(ec); e.n = (long)n; e.want = c->n;
  bool done = true, untouched = true;
  for (int i = 0; i < c->n; ++i) {
    unsigned char b = (*c->buf)[i];
    if (c->w) { if (b != mark(c->o, i)) done = untouched = false; }
    else {
      if (b != content(c->pos + i)) done = false;
      if (b != 0xee) untouched = false;
    }
  }
  // (a read of nothing, or an untouched write buffer, counts as either)
  e.data = done && e.ec == "ok" ? "done" : untouched ? "untouched" : done ? "done" : "mixed";
  if (c->own.f && c->chain > 0 && e.ec == "ok") {
    Entry& s = add("next");
    std::unique_ptr<Common> x(new Common);
    s.o = s.seq; s.from = c->o;
    x->o = s.seq; x->w = false; x->n = c->n; x->p = c->p; x->pos = c->pos + c->n; x->chain = c->chain - 1;
    x->buf = std::make_shared<std::vector<unsigned char>>(c->n, 0xee);
    x->pend = c->pend;
    x->pend->fetch_add(1, std::memory_order_relaxed);
    x->own = std::move(c->own);
    File* f = x->own.f.get();
    auto b = x->buf;
    int k = x->n;
    Handler h(std::move(x));
    initiate([&] { f->async_read_some(net::buffer(b->data(), k), std::move(h)); });
  }
}
template <class Ex> struct Bound : Handler
{
  typedef Ex executor_type;
  Ex ex;
  Bound(Handler&& h, const Ex& e) : Handler(std::move(h)), ex(e) {}
  executor_type get_executor() const noexcept { return ex; }
};

struct Write { long o; int p; long off; int n; };

static int count_fds()
{
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}

static void run(const std::vector<vh::Op>& ops)
{
  my_log = nullptr;
  logs->clear();
  seq = 1; bad_close = 0;
  const vh::Op& cfg = ops[0];       // cfg pool runners mode threads
  int npool = vh::num(cfg[1]), nrun = vh::num(cfg[2]), nthr = vh::num(cfg[4]);
  bool stop = cfg[3] == "stop";
  paths.clear();
  std::string base = std::string(std::getenv("HARNESS_DIR")) + "/";
  for (int p = 1; p <= 3; ++p) {
    paths.push_back(base + "f" + std::to_string(p));
    int fd = ::open(paths.back().c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    std::string s;
    for (long i = 0; i < region; ++i) s += (char)content(i);
    if (::write(fd, s.data(), s.size()) != (long)s.size()) vh::broken("write");
    ::close(fd);
  }
  int fds0 = count_fds();
  std::vector<std::vector<Write>> writes(nthr + 1);
  std::atomic<long> place{0};
  {
    Ctx ctx[3];
    for (int c = 1; c <= 2; ++c) {
      ctx[c].io.reset(new net::io_context);
      net::add_service(*ctx[c].io, new asioext::thread_pool_file_service(*ctx[c].io, npool));
      ctx[c].work.emplace(net::make_work_guard(*ctx[c].io));
      for (int r = 0; r < nrun; ++r)
        ctx[c].run.emplace_back([&ctx, c] { my_ctx = c; ctx[c].io->run(); my_ctx = 0; });
    }
    std::vector<std::vector<Held>> slot(nthr + 1);
    for (auto& s : slot) s.resize(5);
    std::barrier start(nthr);
    auto worker = [&](int t) {
      start.arrive_and_wait();
      std::vector<Held>& S = slot[t];
      auto wait = [&](int s) {
        while (S[s].pend && S[s].pend->load(std::memory_order_acquire)) std::this_thread::yield();
      };
      for (std::size_t k = 1; k < ops.size(); ++k) {
        const vh::Op& op = ops[k];
        if (vh::num(op[0]) != t) continue;
        const std::string& w = op[1];
        int s = vh::num(op[2]);
        long a = op.size() > 3 ? vh::num(op[3]) : 0, b = op.size() > 4 ? vh::num(op[4]) : 0;
        error_code ec;
        auto flags = asioext::open_flags::access_read_write | asioext::open_flags::open_existing;
        if (w == "new" || w == "ctor") {
          Entry& e = add(w.c_str() == std::string("new") ? "new" : "ctor", t, s);
          e.c = a;
          S[s].pend = std::make_shared<std::atomic<int>>(0);
          if (w == "new") S[s].f.reset(new File(*ctx[a].io));
          else { S[s].p = b % 3; S[s].f.reset(new File(*ctx[a].io, paths[b % 3].c_str(), flags, ec)); }
          e.ec = ecname(ec);
        } else if (w == "open") {
          Entry& e = add("open", t, s);
          S[s].p = a % 3;
          S[s].f->open(paths[a % 3].c_str(), flags, ec);
          e.ec = ecname(ec);
        } else if (w == "rd" || w == "wr" || w == "take") {
          int hc = a, n = b, p = S[s].p;
          if (w == "take") wait(s);
          Entry& e = add("start", t, s);
          e.o = e.seq; e.w = w == "wr"; e.d = hc; e.takes = w == "take";
          std::unique_ptr<Common> x(new Common);
          x->o = e.seq; x->w = e.w; x->n = n; x->p = p;
          x->buf = std::make_shared<std::vector<unsigned char>>(n, 0xee);
          x->pend = S[s].pend;
          x->pend->fetch_add(1, std::memory_order_relaxed);
          long off = 0;
          if (x->w) {
            off = region + 64 * place.fetch_add(1, std::memory_order_relaxed);
            for (int i = 0; i < n; ++i) (*x->buf)[i] = mark(x->o, i);
            writes[t].push_back({x->o, p, off, n});
          } else
            x->pos = off = w == "take" ? 0 : (x->o * 37) % (region - 64);
          auto buf = x->buf;
          bool wr = x->w;
          File* f = S[s].f.get();
          if (w == "take") { x->chain = hc; hc = 0; e.d = 0; x->own = std::move(S[s]); S[s] = Held(); f = x->own.f.get(); f->seek(asioext::seek_origin::from_begin, 0, ec); }
          Handler h(std::move(x));
          auto go = [&](auto&& hh) {
            initiate([&] {
              if (wr) f->async_write_some_at(off, net::buffer(buf->data(), n), std::move(hh));
              else if (w == "take") f->async_read_some(net::buffer(buf->data(), n), std::move(hh));
              else f->async_read_some_at(off, net::buffer(buf->data(), n), std::move(hh));
            });
          };
          if (hc) go(Bound<net::io_context::executor_type>(std::move(h), ctx[hc].io->get_executor()));
          else go(std::move(h));
        } else if (w == "cancel") {
          Entry& e = add("cancel", t, s);
          S[s].f->cancel(ec); e.ec = ecname(ec);
        } else if (w == "close") {
          wait(s);
          Entry& e = add("close", t, s);
          S[s].f->close(ec); e.ec = ecname(ec);
          if (e.ec == "badf") e.ec = "ok";          // it was closed already
        } else if (w == "del") {
          wait(s);
          add("del", t, s);
          S[s].f.reset(); S[s].pend.reset();
        } else if (w == "mc") {
          add("mc", t, s).d = a;
          S[a].f.reset(new File(std::move(*S[s].f)));
          S[a].pend = S[s].pend; S[a].p = S[s].p;
          S[s].pend = std::make_shared<std::atomic<int>>(0);
        } else if (w == "ma") {
          wait(a);
          add("ma", t, s).d = a;
          *S[a].f = std::move(*S[s].f);
          S[a].pend = S[s].pend; S[a].p = S[s].p;
          S[s].pend = std::make_shared<std::atomic<int>>(0);
        } else if (w == "wait") wait(s);
        else vh::fatal("op " + w);
      }
    };
    std::vector<std::thread> th;
    for (int t = 1; t <= nthr; ++t) th.emplace_back(worker, t);
    for (auto& t : th) t.join();
    if (stop) {
      add("stop");
      for (int c = 1; c <= 2; ++c) ctx[c].io->stop();
      for (int c = 1; c <= 2; ++c) for (auto& r : ctx[c].run) r.join();
    } else {
      // a context may be kept busy by files of the other one: the guards go together
      for (int c = 1; c <= 2; ++c) ctx[c].work.reset();
      for (int c = 1; c <= 2; ++c) for (auto& r : ctx[c].run) r.join();
      add("drained");
      // a pool thread may still be leaving post() on the other context, which is about to go
      for (int c = 1; c <= 2; ++c) net::use_service<asioext::thread_pool_file_service>(*ctx[c].io).get_thread_pool().join();
    }
    for (int t = 1; t <= nthr; ++t)
      for (int s = 1; s < 5; ++s)
        if (slot[t][s].f) { add("del", t, s); slot[t][s].f.reset(); slot[t][s].pend.reset(); }
    for (int c = 1; c <= 2; ++c) { ctx[c].work.reset(); ctx[c].io.reset(); }
    add("gone");
  }
  int leaked = count_fds() - fds0;
  std::vector<Entry*> all;
  for (auto& l : *logs) for (auto& e : l.e) all.push_back(&e);
  std::sort(all.begin(), all.end(), [](Entry* a, Entry* b) { return a->seq < b->seq; });
  std::map<long, int> id;
  for (Entry* e : all) if (!std::strcmp(e->op, "start") || !std::strcmp(e->op, "next")) { int k = id.size() + 1; id[e->o] = k; }
  for (Entry* e : all) {
    vh::Ev ev(e->op);
    std::string o = e->op;
    if (o == "start") ev.num("o", id[e->o]).num("t", e->t).num("s", e->s).boolean("w", e->w).num("hc", e->d).boolean("takes", e->takes);
    else if (o == "next") ev.num("o", id[e->o]).num("from", id.count(e->from) ? id[e->from] : 0);
    else if (o == "call") ev.num("o", id[e->o]).num("c", e->c).boolean("inside", e->inside).str("ec", e->ec).num("n", e->n).num("want", e->want).str("data", e->data);
    else if (o == "drop" || o == "endfile") ev.num("o", id[e->o]);
    else if (o == "mc" || o == "ma") ev.num("t", e->t).num("s", e->s).num("d", e->d);
    else if (e->t) { ev.num("t", e->t).num("s", e->s); if (e->c) ev.num("c", e->c); if (!e->ec.empty()) ev.str("r", e->ec); }
    ev.emit();
  }
  std::vector<int> written(id.size(), -1);
  for (auto& ws : writes) for (auto& w : ws) {
    std::vector<unsigned char> b(w.n, 0);
    int fd = ::open(paths[w.p].c_str(), O_RDONLY);
    long r = ::pread(fd, b.data(), w.n, w.off);
    ::close(fd);
    int full = 0, none = 0;
    for (int i = 0; i < w.n; ++i) { full += i < r && b[i] == mark(w.o, i); none += b[i] == 0; }
    written[id[w.o] - 1] = full == w.n ? 1 : none == w.n ? 0 : 2;
  }
  vh::Ev("end").arr("written", written).num("badclose", bad_close).num("leaked", leaked).emit();
  my_log = nullptr;
  logs->clear();
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
