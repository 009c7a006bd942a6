// What one translation unit sees of the library's error codes. Included by two of them.
#include <asioext/error.hpp>
#include <asioext/socks/error.hpp>
#include <asioext/socks/client.hpp>
#include <asioext/linear_buffer.hpp>
#include <asioext/url_view.hpp>
#include "common.hpp"
#include "netns.hpp"
#include <deque>
#include <thread>

typedef asioext::error_code EC;
using asioext::url_error;
typedef asioext::socks::error socks_error;

struct Unit
{
  EC (*make)(const std::string& cat, int v, const std::string& how);
  int (*same_as)(const EC& e, const std::string& cat, int v);
  const asioext::error_category& (*category)(const std::string& cat);
  EC (*parse)(const std::string& url, bool throwing);
  EC (*socks)(const std::string& what, int reply, int version);
  void (*raise)(const EC& e);
};
extern const Unit unit_a, unit_b;

namespace {

#define EACH_URL(X) X(url_error, none) X(url_error, invalid_character) X(url_error, missing_host) X(url_error, port_overflow)
#define EACH_SOCKS(X) X(socks_error, none) X(socks_error, invalid_version) X(socks_error, no_acceptable_auth_method) \
  X(socks_error, invalid_auth_version) X(socks_error, login_failed) X(socks_error, command_not_supported) X(socks_error, identd_not_reachable) X(socks_error, generic)
#define ONE(T, N) T::N,
const url_error urls[] = {EACH_URL(ONE)};
const socks_error sockss[] = {EACH_SOCKS(ONE)};
// made before main()
const EC early_url[] = {EACH_URL(ONE)};
const EC early_socks[] = {EACH_SOCKS(ONE)};

const asioext::error_category& category(const std::string& cat)
{
  if (cat == "url") return asioext::url_error_category();
  if (cat == "socks") return asioext::socks::get_error_category();
  if (cat == "system") return asioext::system_category();
  if (cat == "generic") return asioext::generic_category();
  if (cat == "misc") return net::error::get_misc_category();
  vh::fatal("category " + cat);
  std::abort();
}

EC make(const std::string& cat, int v, const std::string& how)
{
  const bool url = cat == "url";
  if (how == "number") return EC(v, category(cat));
  if (how == "early") return url ? early_url[v] : early_socks[v];
  if (how == "enum") { if (url) return urls[v]; return sockss[v]; }
  if (how == "function") return url ? make_error_code(urls[v]) : make_error_code(sockss[v]);
  if (how == "assign") { EC e(5, asioext::system_category()); if (url) e = urls[v]; else e = sockss[v]; return e; }
  if (how == "set") { EC e; e.assign(v, category(cat)); return e; }
  if (how == "thread") { EC e, f; std::thread t([&] { e = make(cat, v, "enum"); }), u([&] { f = make(cat, v, "function"); }); t.join(); u.join(); if (e != f) return EC(99, asioext::generic_category()); return e; }
  vh::fatal("how " + how);
  std::abort();
}

int same_as(const EC& e, const std::string& cat, int v)
{
  const bool r = cat == "url" ? e == urls[v] : e == sockss[v];
  const bool s = cat == "url" ? urls[v] == e : sockss[v] == e;
  const bool d = cat == "url" ? e != urls[v] : e != sockss[v];
  return r != s || r == d ? 2 : r;                  // 2: == and != contradict each other
}

EC parse(const std::string& url, bool throwing)
{
  EC ec(7, asioext::system_category());
  if (!throwing) { asioext::url_view u(url, ec); return ec; }
  try { asioext::url_view u(url); return EC(); }
  catch (const SysErr& x) { return x.code(); }
}

struct CannedStream
{
  typedef CannedStream lowest_layer_type;
  typedef net::io_context::executor_type executor_type;
  net::io_context& io;
  std::deque<uint8_t> in;
  lowest_layer_type& lowest_layer() { return *this; }
  executor_type get_executor() noexcept { return io.get_executor(); }
  template <class B, class H> auto async_write_some(const B& b, H&& h)
  {
    return net::async_initiate<H, void(EC, std::size_t)>([this] (auto&& hh, std::size_t n) {
      net::post(io, [hh = std::move(hh), n] () mutable { hh(EC(), n); });
    }, h, net::buffer_size(b));
  }
  template <class B, class H> auto async_read_some(const B& b, H&& h)
  {
    return net::async_initiate<H, void(EC, std::size_t)>([this] (auto&& hh, const B& bb) {
      std::size_t n = 0;
      for (auto it = net::buffer_sequence_begin(bb); it != net::buffer_sequence_end(bb); ++it) {
        net::mutable_buffer c(*it);
        for (std::size_t i = 0; i < c.size() && !in.empty(); ++i, ++n) { ((uint8_t*)c.data())[i] = in.front(); in.pop_front(); }
      }
      net::post(io, [hh = std::move(hh), n] () mutable { hh(n ? EC() : EC(net::error::eof), n); });
    }, h, b);
  }
};

EC socks(const std::string& what, int reply, int version)
{
  namespace s = asioext::socks;
  net::io_context io;
  CannedStream st{io, {}};
  asioext::linear_buffer b;
  EC r(99, asioext::generic_category());
  const uint8_t rep = (uint8_t)reply, ver = (uint8_t)version;
  auto done = [&] (EC e, auto&&...) { r = e; };
  s::auth_method m[] = {(s::auth_method)0, (s::auth_method)2};
  if (what == "greet") { st.in = {ver, rep}; s::async_greet(st, m, 2, asioext::dynamic_buffer(b), done); }
  else if (what == "login") { st.in = {ver, rep}; s::async_login(st, "u", "p", asioext::dynamic_buffer(b), done); }
  else if (what == "v4") { st.in = {ver, rep, 0, 0, 0, 0, 0, 0}; s::async_execute(st, s::command::connect, net::ip::tcp::endpoint(net::ip::address_v4(1), 80), "u", asioext::dynamic_buffer(b), done); }
  else { st.in = {ver, rep, 0, 1, 0, 0, 0, 0, 0, 0}; s::async_execute(st, s::command::connect, net::ip::tcp::endpoint(net::ip::address_v4(1), 80), asioext::dynamic_buffer(b), done); }
  io.run();
  return r;
}

void raise(const EC& e) { throw SysErr(e); }

}
