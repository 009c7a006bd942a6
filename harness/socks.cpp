// Drives the SOCKS client operations over a stream whose every transfer is decided by the script.
#include "common.hpp"
#include "netns.hpp"
#include <asioext/socks/client.hpp>
#include <asioext/socks/error.hpp>
#include <asioext/bind_handler.hpp>
#include <deque>
#include <optional>

typedef asioext::error_code EC;
namespace socks = asioext::socks;

static std::string name(const EC& e)
{
  if (!e) return "ok";
  if (e == net::error::operation_aborted) return "operation_aborted";
  if (e == net::error::eof) return "eof";
  if (e == net::error::connection_reset) return "connection_reset";
  if (e == net::error::broken_pipe) return "broken_pipe";
  if (e == net::error::invalid_argument) return "invalid_argument";
  if (e == net::error::no_permission) return "no_permission";
  if (e == net::error::network_unreachable) return "network_unreachable";
  if (e == net::error::host_unreachable) return "host_unreachable";
  if (e == net::error::connection_refused) return "connection_refused";
  if (e == net::error::timed_out) return "timed_out";
  if (e == net::error::address_family_not_supported) return "address_family_not_supported";
  if (e == socks::error::invalid_version) return "invalid_version";
  if (e == socks::error::no_acceptable_auth_method) return "no_acceptable_auth_method";
  if (e == socks::error::invalid_auth_version) return "invalid_auth_version";
  if (e == socks::error::login_failed) return "login_failed";
  if (e == socks::error::command_not_supported) return "command_not_supported";
  if (e == socks::error::identd_not_reachable) return "identd_not_reachable";
  if (e == socks::error::generic) return "generic";
  return "other:" + e.message();
}
static EC code(const std::string& s)
{
  if (s == "eof") return net::error::eof;
  if (s == "connection_reset") return net::error::connection_reset;
  if (s == "broken_pipe") return net::error::broken_pipe;
  vh::fatal("error " + s);
}

struct G
{
  net::io_context io;
  std::deque<uint8_t> in;
  bool calling = false, pending = false, failed = false;
  int bad = 0, times = 0;
};
static G* g;

struct Stream
{
  typedef Stream lowest_layer_type;
  typedef net::io_context::executor_type executor_type;
  executor_type ex;
  struct Pend { bool on = false; std::vector<net::mutable_buffer> in; std::vector<net::const_buffer> out; std::function<void(EC, std::size_t)> h; } w, r;
  explicit Stream(net::io_context& c) : ex(c.get_executor()) {}
  lowest_layer_type& lowest_layer() { return *this; }
  executor_type get_executor() noexcept { return ex; }
  template <class H> std::function<void(EC, std::size_t)> keep(H&& h)
  {
    typedef typename std::decay<H>::type HH;
    auto hex = net::get_associated_executor(h, ex);
    auto sh = std::make_shared<HH>(std::move(h));
    return [sh, hex] (EC ec, std::size_t n) { net::post(hex, asioext::bind_handler(std::move(*sh), ec, n)); };
  }
  template <class B, class H> auto async_write_some(const B& b, H&& h)
  {
    return net::async_initiate<H, void(EC, std::size_t)>([this] (auto&& hh, const B& bb) {
      if (w.on || r.on) ++g->bad;
      std::vector<net::const_buffer> v;
      for (auto it = net::buffer_sequence_begin(bb); it != net::buffer_sequence_end(bb); ++it) v.push_back(*it);
      auto f = keep(std::move(hh));
      if (net::buffer_size(v) == 0) f(EC(), 0);
      else { w.on = true; w.out = v; w.h = f; }
    }, h, b);
  }
  template <class B, class H> auto async_read_some(const B& b, H&& h)
  {
    return net::async_initiate<H, void(EC, std::size_t)>([this] (auto&& hh, const B& bb) {
      if (w.on || r.on) ++g->bad;
      std::vector<net::mutable_buffer> v;
      for (auto it = net::buffer_sequence_begin(bb); it != net::buffer_sequence_end(bb); ++it) v.push_back(*it);
      auto f = keep(std::move(hh));
      if (net::buffer_size(v) == 0) f(EC(), 0);
      else { r.on = true; r.in = v; r.h = f; }
    }, h, b);
  }
  bool push(std::size_t max)             // the stream takes up to max of the offered bytes
  {
    if (!w.on) return false;
    std::vector<int> b;
    for (auto& c : w.out) for (std::size_t i = 0; i < c.size() && b.size() < max; ++i) b.push_back(((const uint8_t*)c.data())[i]);
    w.on = false;
    vh::Ev("w").arr("b", b).emit();
    auto h = std::move(w.h);
    h(EC(), b.size());
    return true;
  }
  bool pull(std::size_t max)             // the peer's next bytes arrive
  {
    if (!r.on || g->in.empty()) return false;
    std::vector<int> b;
    for (auto& c : r.in) for (std::size_t i = 0; i < c.size() && b.size() < max && !g->in.empty(); ++i) {
      ((uint8_t*)c.data())[i] = g->in.front();
      b.push_back(g->in.front());
      g->in.pop_front();
    }
    r.on = false;
    vh::Ev("r").arr("b", b).emit();
    auto h = std::move(r.h);
    h(EC(), b.size());
    return true;
  }
  bool fail(Pend& p, const std::string& e)
  {
    if (!p.on) return false;
    p.on = false;
    vh::Ev("fail").str("e", e).emit();
    auto h = std::move(p.h);
    h(code(e), 0);
    return true;
  }
};

// what the protocols' numbers are called in the library
static const std::pair<int, socks::command> commands[] = {
  {1, socks::command::connect}, {2, socks::command::bind}, {3, socks::command::bind_udp}};
static const std::pair<int, socks::auth_method> methods[] = {
  {0, socks::auth_method::none}, {1, socks::auth_method::gssapi}, {2, socks::auth_method::username_password},
  {255, socks::auth_method::no_acceptable}};
template <class T, std::size_t N> static T called(const std::pair<int, T> (&names)[N], int n)
{
  for (auto& x : names) if (x.first == n) return x.second;
  return (T)(uint8_t)n;
}
template <class T, std::size_t N> static int number(const std::pair<int, T> (&names)[N], T v)
{
  for (auto& x : names) if (x.second == v) return x.first;
  return (int)(uint8_t)v;
}

struct Finish
{
  std::shared_ptr<int> tag = std::make_shared<int>(0);
  void fin(const EC& e, int m)
  {
    g->pending = false;
    g->failed = g->failed || e;
    ++*tag;
    vh::Ev("done").str("e", name(e)).num("m", m).boolean("inl", g->calling).num("times", *tag).emit();
  }
  void operator()(const EC& e) { fin(e, 255); }
  void operator()(const EC& e, socks::auth_method m) { fin(e, number(methods, m)); }
};

static std::string str(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }
static net::ip::tcp::endpoint endpoint(const std::vector<uint8_t>& a, int port)
{
  if (a.size() == 4) { net::ip::address_v4::bytes_type b; std::copy(a.begin(), a.end(), b.begin()); return net::ip::tcp::endpoint(net::ip::address_v4(b), (unsigned short)port); }
  net::ip::address_v6::bytes_type b; std::copy(a.begin(), a.end(), b.begin());
  return net::ip::tcp::endpoint(net::ip::address_v6(b), (unsigned short)port);
}

template <class Buf>
static void start(Stream& s, const vh::Op& o, Buf&& buf)
{
  const std::string k = o[1];
  const socks::command cmd = called(commands, (int)vh::num(o[2]));
  const auto addr = vh::bytes(o[3]);
  const int port = (int)vh::num(o[4]);
  // the strings do not outlive the initiating call
  const std::string host = str(vh::bytes(o[5])), user = str(vh::bytes(o[6])), pass = str(vh::bytes(o[7]));
  std::vector<socks::auth_method> m;
  for (int x : vh::ints(o[8])) m.push_back(called(methods, x));
  vh::Ev("start").str("k", k).num("cmd", vh::num(o[2])).arr("addr", addr).num("port", port).arr("host", vh::ints(o[5])).arr("user", vh::ints(o[6])).arr("pass", vh::ints(o[7])).arr("meths", vh::ints(o[8])).emit();
  g->pending = g->calling = true;
  if (k == "v4e") socks::async_execute(s, cmd, endpoint(addr, port), user, std::move(buf), Finish());
  else if (k == "v4h") socks::async_execute(s, cmd, host, (uint16_t)port, user, std::move(buf), Finish());
  else if (k == "greet") socks::async_greet(s, m.data(), m.size(), std::move(buf), Finish());
  else if (k == "login") socks::async_login(s, user, pass, std::move(buf), Finish());
  else if (k == "v5e") socks::async_execute(s, cmd, endpoint(addr, port), std::move(buf), Finish());
  else if (k == "v5h") socks::async_execute(s, cmd, host, (uint16_t)port, std::move(buf), Finish());
  else vh::fatal("op " + k);
  g->calling = false;
}

static void go() { g->io.restart(); g->io.poll(); }

static void run(const std::vector<vh::Op>& ops)
{
  G gg; g = &gg;
  asioext::linear_buffer lin;
  std::deque<std::vector<char>> vecs;
  {
    Stream s(gg.io);
    auto finish = [&] {
      do go(); while (gg.pending && (s.push(1u << 20) || s.pull(1u << 20)));
      go();
    };
    for (auto& o : ops) {
      if (o[0] == "start") {
        if (gg.pending) finish();
        if (gg.pending) break;
        if (o.size() > 9 && o[9] == "1") { vecs.emplace_back(); start(s, o, net::dynamic_buffer(vecs.back())); }
        else { if (gg.failed) { lin.clear(); gg.failed = false; } start(s, o, asioext::dynamic_buffer(lin)); }
      } else if (o[0] == "peer") {
        auto b = vh::ints(o[1]);
        for (int x : b) gg.in.push_back((uint8_t)x);
        vh::Ev("peer").arr("b", b).emit();
      } else if (o[0] == "w") s.push((std::size_t)vh::num(o[1]));
      else if (o[0] == "r") s.pull((std::size_t)vh::num(o[1]));
      else if (o[0] == "wf") s.fail(s.w, o[1]);
      else if (o[0] == "rf") s.fail(s.r, o[1]);
      else if (o[0] == "done") finish();
      else vh::fatal("op " + o[0]);
      go();
    }
    finish();
    vh::Ev("end").boolean("pending", gg.pending).num("bad", gg.bad).arr("b", gg.in).emit();
    s.w.h = nullptr; s.r.h = nullptr;
  }
  g = &gg;
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
