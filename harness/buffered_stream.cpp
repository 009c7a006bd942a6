// Drives a buffered_stream over a next layer whose every transfer is decided by the script.
#include "common.hpp"
#include "blocks.hpp"
#include "netns.hpp"
#include <asioext/experimental/buffered_stream.hpp>
#include <asioext/bind_handler.hpp>
#include <deque>
#include <optional>

typedef asioext::error_code EC;
struct Plan { std::size_t n; std::string err; };
struct Done { int id, ctx; std::size_t n; std::string err; bool inl; };

static std::string name(const EC& e)
{
  if (!e) return "ok";
  if (e == net::error::already_started) return "already_started";
  if (e == net::error::operation_aborted) return "operation_aborted";
  if (e == net::error::bad_descriptor) return "bad_descriptor";
  if (e == net::error::eof) return "eof";
  if (e == net::error::connection_reset) return "connection_reset";
  if (e == net::error::try_again) return "try_again";
  if (e == net::error::interrupted) return "interrupted";
  if (e == net::error::broken_pipe) return "broken_pipe";
  return "other:" + e.message();
}
static EC code(const std::string& s)
{
  if (s == "ok") return EC();
  if (s == "eof") return net::error::eof;
  if (s == "connection_reset") return net::error::connection_reset;
  if (s == "try_again") return net::error::try_again;
  if (s == "interrupted") return net::error::interrupted;
  if (s == "broken_pipe") return net::error::broken_pipe;
  if (s == "already_started") return net::error::already_started;
  vh::fatal("error " + s);
}

struct G
{
  std::map<int, net::cancellation_signal> sig;      // of each operation
  net::io_context io[3];
  std::vector<int> sink;            // accepted since the last step
  int produced = 0, appended = 0, cur = 0, handlers = 0;
  std::deque<Plan> plan;
  std::string seen;                 // error the next layer reported last
  bool calling = false;
  std::vector<Done> done;
  std::vector<std::string> bad;
};
static G* g;

// the next layer
struct Next
{
  typedef Next lowest_layer_type;
  typedef net::io_context::executor_type executor_type;
  executor_type ex;
  bool closed = false;
  struct Pend { bool on = false; std::vector<net::mutable_buffer> in; std::vector<net::const_buffer> out; std::function<void(EC, std::size_t)> h; } w, r;

  explicit Next(net::io_context& c) : ex(c.get_executor()) {}
  lowest_layer_type& lowest_layer() { return *this; }
  const lowest_layer_type& lowest_layer() const { return *this; }
  executor_type get_executor() noexcept { return ex; }

  Plan next_plan()
  {
    if (g->plan.empty()) return Plan{1u << 20, "ok"};
    Plan p = g->plan.front();
    g->plan.pop_front();
    return p;
  }
  template <class B> std::size_t accept(const B& b, std::size_t max)
  {
    std::size_t n = 0;
    for (auto it = net::buffer_sequence_begin(b); it != net::buffer_sequence_end(b); ++it) {
      net::const_buffer c(*it);
      // whole blocks only
      std::size_t k = std::min<std::size_t>(c.size() / blk::K, max - n);
      if (c.size() && !k) g->bad.push_back("half a block");
      for (int x : blk::values((const uint8_t*)c.data(), k * blk::K)) g->sink.push_back(x);
      n += k;
    }
    return n * blk::K;
  }
  template <class B> std::size_t produce(const B& b, std::size_t max)
  {
    std::size_t n = 0;
    for (auto it = net::buffer_sequence_begin(b); it != net::buffer_sequence_end(b); ++it) {
      net::mutable_buffer c(*it);
      std::size_t k = std::min<std::size_t>(c.size() / blk::K, max - n);
      if (c.size() && !k) g->bad.push_back("room for half a block");
      for (std::size_t i = 0; i < k; ++i) blk::fill((uint8_t*)c.data() + i * blk::K, (int)(g->produced++ % 241));
      n += k;
    }
    return n * blk::K;
  }
  template <class B> std::size_t write_some(const B& b, EC& ec)
  {
    if (closed) { ec = net::error::bad_descriptor; g->seen = name(ec); return 0; }
    Plan p = next_plan();
    ec = code(p.err);
    if (ec) { g->seen = p.err; return 0; }
    return accept(b, std::max<std::size_t>(1, p.n));
  }
  template <class B> std::size_t read_some(const B& b, EC& ec)
  {
    if (closed) { ec = net::error::bad_descriptor; g->seen = name(ec); return 0; }
    if (net::buffer_size(b) == 0) { ec = EC(); return 0; }
    Plan p = next_plan();
    ec = code(p.err);
    if (ec) { g->seen = p.err; return 0; }
    return produce(b, std::max<std::size_t>(1, p.n));
  }
  template <class H> std::function<void(EC, std::size_t)> keep(H&& h)
  {
    typedef typename std::decay<H>::type HH;
    auto hex = net::get_associated_executor(h, ex);
    auto work = net::make_work_guard(hex);
    auto work2 = net::make_work_guard(ex);
    net::cancellation_slot slot = net::get_associated_cancellation_slot(h);
    auto sh = std::make_shared<HH>(std::move(h));
    return [sh, hex, work, work2, slot] (EC ec, std::size_t n) mutable {
      slot.clear();
      net::post(hex, asioext::bind_handler(std::move(*sh), ec, n));
    };
  }
  template <class B, class H> auto async_write_some(const B& b, H&& h)
  {
    return net::async_initiate<H, void(EC, std::size_t)>([this] (auto&& hh, const B& bb) {
      if (w.on) g->bad.push_back("two writes at a time");
      std::vector<net::const_buffer> v;
      for (auto it = net::buffer_sequence_begin(bb); it != net::buffer_sequence_end(bb); ++it) v.push_back(*it);
      net::cancellation_slot slot = net::get_associated_cancellation_slot(hh);
      auto f = keep(std::move(hh));
      if (closed) f(net::error::bad_descriptor, 0);
      else if (net::buffer_size(v) == 0) f(EC(), 0);
      else {
        w.on = true; w.out = v; w.h = f;
        if (slot.is_connected()) slot.assign([this] (net::cancellation_type) { abort(w); });
      }
    }, h, b);
  }
  template <class B, class H> auto async_read_some(const B& b, H&& h)
  {
    return net::async_initiate<H, void(EC, std::size_t)>([this] (auto&& hh, const B& bb) {
      if (r.on) g->bad.push_back("two reads at a time");
      std::vector<net::mutable_buffer> v;
      for (auto it = net::buffer_sequence_begin(bb); it != net::buffer_sequence_end(bb); ++it) v.push_back(*it);
      net::cancellation_slot slot = net::get_associated_cancellation_slot(hh);
      auto f = keep(std::move(hh));
      if (closed) f(net::error::bad_descriptor, 0);
      else if (net::buffer_size(v) == 0) f(EC(), 0);
      else {
        r.on = true; r.in = v; r.h = f;
        if (slot.is_connected()) slot.assign([this] (net::cancellation_type) { abort(r); });
      }
    }, h, b);
  }
  void close() { EC ec; close(ec); }
  void close(EC& ec)
  {
    ec = EC();
    closed = true;
    abort(w);
    abort(r);
  }
  void abort(Pend& p)
  {
    if (!p.on) return;
    p.on = false;
    auto f = std::move(p.h);
    p.h = nullptr;
    f(net::error::operation_aborted, 0);
  }
};

template <int E> struct H
{
  int id;
  std::unique_ptr<int> own;
  typedef net::cancellation_slot cancellation_slot_type;
  cancellation_slot_type get_cancellation_slot() const noexcept { return g->sig[id].slot(); }
  H(int i) : id(i), own(new int(i)) {}
  H(H&& o) noexcept : id(o.id), own(std::move(o.own)) {}
  typedef net::io_context::executor_type executor_type;
  executor_type get_executor() const noexcept { return g->io[2].get_executor(); }
  void operator()(EC ec, std::size_t n)
  {
    if (!own) g->bad.push_back("moved-from handler invoked");
    g->done.push_back(Done{id, g->cur, n, name(ec), g->calling});
  }
};
template <> struct H<0>
{
  int id;
  std::unique_ptr<int> own;
  typedef net::cancellation_slot cancellation_slot_type;
  cancellation_slot_type get_cancellation_slot() const noexcept { return g->sig[id].slot(); }
  H(int i) : id(i), own(new int(i)) {}
  H(H&& o) noexcept : id(o.id), own(std::move(o.own)) {}
  void operator()(EC ec, std::size_t n)
  {
    if (!own) g->bad.push_back("moved-from handler invoked");
    g->done.push_back(Done{id, g->cur, n, name(ec), g->calling});
  }
};

typedef asioext::buffered_stream<Next&> S;

template <class B> static std::vector<int> content(const B& b) { return blk::values(b.data(), b.size()); }

static void run(const std::vector<vh::Op>& ops)
{
  G gg;
  g = &gg;
  Next next(gg.io[1]);
  std::unique_ptr<S> s;
  blk::K = 1;
  for (auto& op : ops) {
    if (op[0] == "blocks") { blk::K = vh::num(op[1]); continue; }
    vh::Ev e(op[0]);
    auto n = [&](std::size_t i) { return (std::size_t)vh::num(op.at(i)); };
    gg.sink.clear(); gg.done.clear(); gg.bad.clear(); gg.plan.clear(); gg.seen = "ok";
    std::string r = "ok";
    auto plans = [&](std::size_t from) {
      for (std::size_t i = from; i < op.size(); ++i)
        if (op[i] != "-") gg.plan.push_back(std::isdigit((unsigned char)op[i][0]) ? Plan{n(i), "ok"} : Plan{0, op[i]});
    };
    auto result = [&](EC& ec, std::size_t k) {
      e.raw("ret", "{\"n\":" + std::to_string(blk::units(k)) + ",\"err\":" + vh::quote(name(ec)) + "}").str("seen", gg.seen);
    };
    if (op[0] == "new") {
      // 0: no limit
      std::size_t mw = n(1), mr = n(2);
      auto lim = [](std::size_t x) { return x ? x * blk::K : (std::numeric_limits<std::size_t>::max)(); };
      if (op.at(3) == "a") s.reset(new S(next, std::allocator<uint8_t>(), lim(mw), lim(mr)));
      else s.reset(new S(next, lim(mw), lim(mr)));
      e.num("mw", mw).num("mr", mr);
    }
    if (!s) vh::fatal("no stream");
    gg.calling = true;
    if (op[0] == "new") {}
    else if (op[0] == "append") {
      std::vector<uint8_t> b;
      for (std::size_t i = 0; i < n(1); ++i) b.push_back((uint8_t)((gg.appended + i) % 251));
      auto x = blk::expand(b);
      try { s->write_buffer().append(x.data(), x.size()); gg.appended += b.size(); }
      catch (const std::length_error&) { r = "length_error"; }
      e.num("n", b.size()).str("r", r);
    }
    else if (op[0] == "flush") {
      plans(2);
      std::size_t k = 0;
      EC ec = op.at(1) == "stale" ? EC(net::error::connection_refused) : EC();
      if (op.at(1) == "throw") {
        try { k = s->flush(); }
        catch (const SysErr& x) { ec = x.code(); k = gg.sink.size() * blk::K; }
      }
      else k = s->flush(ec);
      result(ec, k);
    }
    else if (op[0] == "fill") {
      plans(2);
      if (gg.handlers & 2) { gg.calling = false; continue; }
      std::size_t k = 0;
      EC ec = op.at(1) == "stale" ? EC(net::error::connection_refused) : EC();
      if (op.at(1) == "throw") {
        try { k = s->fill(); }
        catch (const SysErr& x) { ec = x.code(); }
      }
      else k = s->fill(ec);
      result(ec, k);
    }
    else if (op[0] == "aflush") {
      int id = n(1);
      e.num("id", id);
      gg.sig[id];
      if (n(2)) s->async_flush(H<1>(id)); else s->async_flush(H<0>(id));
      e.num("ex", n(2) ? 2 : 1);
    }
    else if (op[0] == "afill") {
      if (gg.handlers & 2) { gg.calling = false; continue; }
      gg.handlers |= 2;
      int id = n(1);
      e.num("id", id);
      gg.sig[id];
      if (n(2)) s->async_fill(H<1>(id)); else s->async_fill(H<0>(id));
      e.num("ex", n(2) ? 2 : 1);
    }
    else if (op[0] == "fstep" || op[0] == "rstep") {
      Next::Pend& p = op[0] == "fstep" ? next.w : next.r;
      if (!p.on) { gg.calling = false; continue; }
      EC ec;
      std::size_t k = 0;
      if (std::isdigit((unsigned char)op[1][0]))
        k = op[0] == "fstep" ? next.accept(p.out, std::max<std::size_t>(1, n(1))) : next.produce(p.in, std::max<std::size_t>(1, n(1)));
      else ec = code(op[1]);
      p.on = false;
      auto f = std::move(p.h);
      p.h = nullptr;
      f(ec, k);
      e.num("n", blk::units(k)).str("err", name(ec));
    }
    else if (op[0] == "cancel") {
      // through the cancellation slot of one operation's handler
      bool won = next.w.on, ron = next.r.on;
      int id = n(1);
      auto it = gg.sig.find(id);
      if (it == gg.sig.end()) { gg.calling = false; continue; }
      it->second.emit(net::cancellation_type::terminal);
      e.num("id", id).boolean("won", won).boolean("ron", ron).boolean("whit", won && !next.w.on).boolean("rhit", ron && !next.r.on);
    }
    else if (op[0] == "consume") {
      std::size_t k = n(1);
      if ((gg.handlers & 2) || k * blk::K > s->read_buffer().size()) { gg.calling = false; continue; }
      if (k) s->read_buffer().erase(0, k * blk::K);
      e.num("n", k);
    }
    else if (op[0] == "close") {
      if (op.at(1) == "ec") { EC ec = net::error::connection_refused; s->close(ec); r = name(ec); }
      else s->close();
      e.str("r", r);
    }
    else if (op[0] == "reopen") {
      if (!next.closed || s->flush_pending() || (gg.handlers & 2)) { gg.calling = false; continue; }
      next.closed = false;
    }
    else if (op[0] == "poll") {
      gg.calling = false;
      bool more = true;
      while (more) {
        more = false;
        for (int c = 1; c <= 2; ++c) {
          gg.cur = c;
          gg.io[c].restart();
          if (gg.io[c].poll()) more = true;
        }
      }
      gg.cur = 0;
    }
    else vh::fatal("op " + op[0]);
    gg.calling = false;
    std::string ds = "[";
    for (auto& d : gg.done) {
      ds += (ds.size() > 1 ? "," : "") + ("{\"id\":" + std::to_string(d.id) + ",\"n\":" + std::to_string(blk::units(d.n)) + ",\"err\":" +
            vh::quote(d.err) + ",\"ctx\":" + std::to_string(d.ctx) + ",\"inl\":" + (d.inl ? "true" : "false") + "}");
      if (d.id >= 1000) gg.handlers &= ~2;
    }
    bool filling = gg.handlers & 2;
    e.arr("out", gg.sink).arr("wb", content(s->write_buffer())).arr("rb", filling ? std::vector<int>() : content(s->read_buffer()))
     .boolean("can", s->can_flush()).boolean("pend", s->flush_pending()).raw("done", ds + "]").strs("bad", gg.bad).emit();
  }
  // let go of whatever is pending before the stream goes away
  if (s) {
    next.close();
    for (int k = 0; k < 4; ++k) for (int c = 1; c <= 2; ++c) { gg.io[c].restart(); gg.io[c].poll(); }
  }
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
