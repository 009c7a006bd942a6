// Starts the library's asynchronous operations with completion tokens of every kind: some run the operation at
// once, some hand out an operation that is launched (or thrown away) later. The objects the arguments referred to
// are changed and destroyed in between.
#include "common.hpp"
#include "netns.hpp"
#include <asioext/file.hpp>
#include <asioext/connect.hpp>
#include <asioext/experimental/buffered_stream.hpp>
#include <asioext/linear_buffer.hpp>
#include <asioext/socks/client.hpp>
#include <asioext/socks/error.hpp>
#include <any>
#include <chrono>
#include <deque>
#include <optional>
#include <thread>
#include <sys/stat.h>

typedef asioext::error_code EC;
typedef net::ip::tcp tcp;
namespace socks = asioext::socks;

static std::string name(const EC& e)
{
  if (!e) return "ok";
  if (e == net::error::eof) return "eof";
  if (e == net::error::operation_aborted) return "operation_aborted";
  if (e == net::error::connection_refused) return "connection_refused";
  if (e == socks::error::generic) return "generic";
  if (e == socks::error::login_failed) return "login_failed";
  if (e == socks::error::no_acceptable_auth_method) return "no_acceptable_auth_method";
  return "other:" + e.message();
}

struct Res { int times = 0, where = 0; long long n = 0; std::string ec = "none"; bool inl = false; };

struct G
{
  net::io_context io[3];
  int cur = 0;
  bool calling = false;
  std::vector<int> wire;
  std::deque<uint8_t> in;
  unsigned short port[4] = {0, 0, 0, 0};
};
static G* g;
static thread_local int here = 0;
static thread_local bool main_thread = false;

struct Stream
{
  typedef Stream lowest_layer_type;
  typedef net::io_context::executor_type executor_type;
  executor_type ex;
  explicit Stream(net::io_context& c) : ex(c.get_executor()) {}
  lowest_layer_type& lowest_layer() { return *this; }
  executor_type get_executor() noexcept { return ex; }
  void close() {}
  void close(EC& ec) { ec = EC(); }
  template <class H> void later(H&& h, EC ec, std::size_t n)
  {
    auto hex = net::get_associated_executor(h, ex);
    net::post(hex, [h = std::move(h), ec, n, work = net::make_work_guard(ex)] () mutable { h(ec, n); });
  }
  template <class B, class H> auto async_write_some(const B& b, H&& h)
  {
    return net::async_initiate<H, void(EC, std::size_t)>([this] (auto&& hh, const B& bb) {
      std::size_t n = 0;
      for (auto it = net::buffer_sequence_begin(bb); it != net::buffer_sequence_end(bb); ++it) {
        net::const_buffer c(*it);
        for (std::size_t i = 0; i < c.size() && n < 5; ++i, ++n) g->wire.push_back(((const uint8_t*)c.data())[i]);
      }
      later(std::move(hh), EC(), n);
    }, h, b);
  }
  template <class B, class H> auto async_read_some(const B& b, H&& h)
  {
    return net::async_initiate<H, void(EC, std::size_t)>([this] (auto&& hh, const B& bb) {
      std::size_t n = 0;
      for (auto it = net::buffer_sequence_begin(bb); it != net::buffer_sequence_end(bb); ++it) {
        net::mutable_buffer c(*it);
        for (std::size_t i = 0; i < c.size() && n < 7 && !g->in.empty(); ++i, ++n) { ((uint8_t*)c.data())[i] = g->in.front(); g->in.pop_front(); }
      }
      later(std::move(hh), n == 0 && net::buffer_size(bb) ? EC(net::error::eof) : EC(), n);
    }, h, b);
  }
};
typedef asioext::buffered_stream<Stream&> Buffered;

static long long value(std::size_t n) { return (long long)n; }
static long long value(socks::auth_method m) { return (int)(uint8_t)m; }
static long long value(const tcp::endpoint& e)
{
  for (int i = 1; i <= 3; ++i) if (e == tcp::endpoint(net::ip::address_v4::loopback(), g->port[i])) return i;
  return e == tcp::endpoint() ? 0 : -1;
}

struct Fin
{
  std::shared_ptr<Res> r;
  explicit Fin(std::shared_ptr<Res> x) : r(std::move(x)) {}
  void call(const EC& e, long long n) { ++r->times; r->where = here; r->ec = name(e); r->n = n; r->inl = r->inl || (main_thread && g->calling); }
  void operator()(const EC& e) { call(e, 0); }
  template <class V> void operator()(const EC& e, const V& v) { call(e, value(v)); }
  template <class V> void operator()(const std::tuple<EC, V>& t) { call(std::get<0>(t), value(std::get<1>(t))); }
};

// Where the arguments of an operation live until they are spoiled.
struct Args
{
  std::vector<uint8_t> mem, other;                      // the buffers' memory stays
  std::unique_ptr<std::vector<net::mutable_buffer>> mb;
  std::unique_ptr<std::vector<net::const_buffer>> cb;
  std::unique_ptr<uint64_t> off;
  std::unique_ptr<std::string> host, service, user, pass;
  std::unique_ptr<tcp::endpoint> ep;
  std::unique_ptr<std::vector<socks::auth_method>> meths;
  asioext::linear_buffer lin;
  std::unique_ptr<tcp::socket> sock;
  std::unique_ptr<tcp::resolver> res;
  std::deque<uint8_t> reply;
  std::string k;
  bool was_open = false;

  void change()
  {
    if (mb) for (auto& b : *mb) b = net::mutable_buffer(other.data(), std::min(b.size(), other.size()) / 2);
    if (cb) for (auto& b : *cb) b = net::const_buffer(other.data(), std::min(b.size(), other.size()));
    if (off) *off = 1;
    for (auto* s : {&host, &user, &pass}) if (*s) (*s)->assign((*s)->size(), '7');
    if (service) { std::string p = std::to_string(g->port[3]); service->assign(service->size() - std::min(service->size(), p.size()), '0'); *service += p; }
    if (ep) *ep = tcp::endpoint(net::ip::address_v4::loopback(), 7);
    if (meths) for (auto& m : *meths) m = (socks::auth_method)0x77;
  }
  void free() { mb.reset(); cb.reset(); off.reset(); host.reset(); service.reset(); user.reset(); pass.reset(); ep.reset(); meths.reset(); }
};

// A token that hands out the operation instead of starting it. (asio::deferred cannot be used where the return type
// of the initiating function is spelled out as async_result::return_type.)
struct lazy_t {};
template <class Sig> struct lazy_op
{
  std::function<void(Fin)> plain, plain_again;
  std::function<void(net::executor_binder<Fin, net::io_context::executor_type>)> bound, bound_again;
};
template <class Sig> struct lazy_result
{
  typedef lazy_op<Sig> return_type;
  typedef Fin completion_handler_type;
  template <class Init, class Tok, class... A> static return_type initiate(Init&& i, Tok&&, A&&... a)
  {
    typedef std::tuple<std::decay_t<Init>, std::tuple<std::decay_t<A>...>> T;
    auto p = std::make_shared<std::optional<T>>(std::in_place, std::forward<Init>(i), std::tuple<std::decay_t<A>...>(std::forward<A>(a)...));
    auto once = [p](auto h) {
      std::apply([&](auto&&... x) { std::move(std::get<0>(**p))(std::move(h), std::move(x)...); }, std::move(std::get<1>(**p)));
    };
    return_type r;
    r.plain = once;
    r.bound = once;
    if constexpr (std::is_copy_constructible_v<T> && (std::is_copy_constructible_v<std::decay_t<A>> && ...)) {
      auto again = [p](auto h) {
        T c(**p);
        std::apply([&](auto&&... x) { std::move(std::get<0>(c))(std::move(h), std::move(x)...); }, std::move(std::get<1>(c)));
      };
      r.plain_again = again;
      r.bound_again = again;
    }
    return r;
  }
};
#if defined(ASIOEXT_USE_BOOST_ASIO)
namespace boost { namespace asio {
template <class Sig> struct async_result<lazy_t, Sig> : lazy_result<Sig> {};
}}
#else
namespace asio {
template <class Sig> struct async_result<lazy_t, Sig> : lazy_result<Sig> {};
}
#endif

struct Kept
{
  std::shared_ptr<Args> args;
  std::shared_ptr<Res> res;
  std::function<void(int bound, bool keep)> launch;
};

// until both contexts are out of work
static void run_contexts()
{
  for (;;) {
    std::size_t n = 0;
    bool idle = true;
    for (int c = 1; c <= 2; ++c) {
      here = c;
      g->io[c].restart();
      n += g->io[c].poll();
      idle = idle && g->io[c].stopped();
      here = 0;
    }
    if (!n && idle) return;
    if (!n) usleep(50);
  }
}

template <class V> struct sig_of { typedef void type(EC, V); };
template <> struct sig_of<void> { typedef void type(EC); };
template <class V> using SigOf = typename sig_of<V>::type;

struct World
{
  net::io_context& io;
  asioext::file file;
  Stream stream;
  Buffered buf;
  std::deque<tcp::acceptor> acc;
  std::unique_ptr<tcp::acceptor> silent;
  std::map<int, Kept> kept;
  asioext::linear_buffer scratch;       // shared by SOCKS operations that never run at the same time
  std::shared_ptr<Args> last;           // of the operation that ran last

  explicit World(const std::string& init) : io(g->io[1]), file(io), stream(io), buf(stream)
  {
    int fd = ::open("F", O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ::write(fd, init.data(), init.size()) != (long)init.size()) vh::broken("no scratch file");
    ::close(fd);
    file.open("F", asioext::open_flags::access_read | asioext::open_flags::access_write | asioext::open_flags::open_existing);
    for (int i = 1; i <= 2; ++i) {
      acc.emplace_back(io, tcp::endpoint(net::ip::address_v4::loopback(), 0));
      acc.back().non_blocking(true);
      g->port[i] = acc.back().local_endpoint().port();
    }
    silent.reset(new tcp::acceptor(io, tcp::v4()));        // bound, but it does not listen
    silent->bind(tcp::endpoint(net::ip::address_v4::loopback(), 0));
    g->port[3] = silent->local_endpoint().port();
  }

  void state(vh::Ev& e)
  {
    struct stat st;
    ::stat("F", &st);
    std::vector<uint8_t> c(st.st_size);
    int fd = ::open("F", O_RDONLY);
    if (::read(fd, c.data(), c.size()) != (long)c.size()) vh::broken("scratch file");
    ::close(fd);
    e.arr("disk", c).num("pos", ::lseek(file.native_handle(), 0, SEEK_CUR));
    e.arr("wire", g->wire);
    g->wire.clear();
    std::vector<int> hits;
    for (int i = 0; i < 2; ++i) {
      EC ec;
      tcp::socket s(io);
      while (!acc[i].accept(s, ec)) { hits.push_back(i + 1); s = tcp::socket(io); }
    }
    e.arr("acc", hits);
    e.arr("wb", std::vector<int>(buf.write_buffer().data(), buf.write_buffer().data() + buf.write_buffer().size()));
    e.arr("rb", std::vector<int>(buf.read_buffer().data(), buf.read_buffer().data() + buf.read_buffer().size()));
    long long touched = 0;
    for (auto& k : kept) touched += k.second.args->sock && k.second.args->sock->is_open() != k.second.args->was_open;
    e.num("touched", touched);
    e.boolean("fp", buf.flush_pending()).num("scratch", (long long)scratch.size());
  }

  static void result(vh::Ev& e, const Res& r, const Args& a)
  {
    e.raw("res", "{\"times\":" + std::to_string(r.times) + ",\"ec\":" + vh::quote(r.ec) + ",\"n\":" + std::to_string(r.n) +
          ",\"where\":" + std::to_string(r.where) + ",\"inl\":" + (r.inl ? "true" : "false") + "}");
    e.arr("mem", a.k == "rd" || a.k == "rdat" ? a.mem : std::vector<uint8_t>());
  }

  // V: what comes with the error code; void: nothing. init(token) starts the operation.
  template <class V, class Init> void begin(int id, const std::string& tok, std::shared_ptr<Args> a, Init init, vh::Ev& e)
  {
    auto res = std::make_shared<Res>();
    typedef std::conditional_t<std::is_void_v<V>, char, V> VV;
    auto eager = [&] {
      a->change();
      a->free();
      run_contexts();
      result(e, *res, *a);
    };
    g->calling = true;
    g->in = a->reply;
    if (tok == "fn") { init(Fin(res)); g->calling = false; eager(); }
    else if (tok == "bound") { init(net::bind_executor(g->io[2].get_executor(), Fin(res))); g->calling = false; eager(); }
    else if (tok == "future") {
      auto f = init(net::use_future);
      g->calling = false;
      a->change(); a->free();
      run_contexts();
      take(f, *res);
      result(e, *res, *a);
    }
    else if (tok == "detached") { init(net::detached); g->calling = false; eager(); }
    else if (tok == "lazy") {
      auto p = std::make_shared<lazy_op<SigOf<V>>>(init(lazy_t()));
      kept[id] = Kept{a, res, [p, res](int bound, bool again) {
        if (bound) (again ? p->bound_again : p->bound)(net::bind_executor(g->io[2].get_executor(), Fin(res)));
        else (again ? p->plain_again : p->plain)(Fin(res));
      }};
      g->calling = false;
    }
    else if (tok == "deferred") {
      if constexpr (std::is_same_v<V, tcp::endpoint>) {
        auto op = init(net::deferred);
        auto p = std::make_shared<std::optional<decltype(op)>>(std::move(op));
        kept[id] = Kept{a, res, [p, res](int bound, bool) {
          if (bound) std::move(**p)(net::bind_executor(g->io[2].get_executor(), Fin(res)));
          else std::move(**p)(Fin(res));
          p->reset();
        }};
      }
      else vh::fatal("deferred");
      g->calling = false;
    }
    else if (tok == "await") {
      auto op = init(net::use_awaitable);
      typedef decltype(op) A;
      auto p = std::make_shared<std::optional<A>>(std::move(op));
      kept[id] = Kept{a, res, [p, res](int bound, bool) {
        auto fin = [res](std::exception_ptr x, long long v) {
          EC ec;
          try { if (x) std::rethrow_exception(x); } catch (const SysErr& s) { ec = s.code(); }
          Fin f(res);
          f.call(ec, x ? 0 : v);
        };
        auto& io = g->io[bound ? 2 : 1];
        if constexpr (std::is_void_v<V>) net::co_spawn(io, std::move(**p), [fin](std::exception_ptr x) mutable { fin(x, 0); });
        else net::co_spawn(io, std::move(**p), [fin](std::exception_ptr x, VV v) mutable { fin(x, value(v)); });
        p->reset();
      }};
      g->calling = false;
    }
    else vh::fatal("token " + tok);
    g->calling = false;
    last = a;
  }
  template <class T> static void take(std::future<T>& f, Res& r)
  {
    if (f.wait_for(std::chrono::seconds(5)) != std::future_status::ready) return;
    ++r.times;
    r.ec = "ok";
    try { if constexpr (std::is_void_v<T>) f.get(); else r.n = value(f.get()); }
    catch (const SysErr& x) { r.ec = name(x.code()); }
    catch (const std::exception& x) { r.ec = std::string("other:") + x.what(); }
  }

  static std::unique_ptr<std::string> str(const std::string& t)
  {
    auto b = vh::bytes(t);
    return std::unique_ptr<std::string>(new std::string(b.begin(), b.end()));
  }

  void start(const vh::Op& op, vh::Ev& e)
  {
    const int id = (int)vh::num(op.at(1));
    const std::string k = op.at(2), tok = op.at(3);
    auto a = std::make_shared<Args>();
    a->k = k;
    a->other.assign(64, 0x77);
    e.num("id", id).str("tok", tok);
    std::string o = "{\"k\":" + vh::quote(k);
    auto jarr = [&](const char* n, const std::vector<int>& v) {
      o += std::string(",\"") + n + "\":[";
      for (std::size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + std::to_string(v[i]);
      o += "]";
    };
    auto jnum = [&](const char* n, long long v) { o += std::string(",\"") + n + "\":" + std::to_string(v); };
    // start ID K TOK off data sizes | cmd addr port host user pass meths grant | dest flags
    if (k == "rd" || k == "wr" || k == "rdat" || k == "wrat") {
      const int off = (int)vh::num(op.at(4));
      auto data = vh::ints(op.at(5)), sizes = vh::ints(op.at(6));
      std::size_t tot = 0;
      for (int n : sizes) tot += n;
      a->mem.assign(tot, 0xEE);
      if (k[0] == 'w') for (std::size_t i = 0; i < tot; ++i) a->mem[i] = (uint8_t)data.at(i);
      a->off.reset(new uint64_t(off));
      a->mb.reset(new std::vector<net::mutable_buffer>);
      a->cb.reset(new std::vector<net::const_buffer>);
      std::size_t p = 0;
      for (int n : sizes) { a->mb->emplace_back(a->mem.data() + p, n); a->cb->emplace_back(a->mem.data() + p, n); p += n; }
      jnum("off", off); jarr("data", data); jarr("sizes", sizes);
      e.raw("o", o + "}");
      typedef std::size_t N;
      if (k == "rd") begin<N>(id, tok, a, [&](auto&& t) { return file.async_read_some(*a->mb, std::forward<decltype(t)>(t)); }, e);
      else if (k == "wr") begin<N>(id, tok, a, [&](auto&& t) { return file.async_write_some(*a->cb, std::forward<decltype(t)>(t)); }, e);
      else if (k == "rdat") begin<N>(id, tok, a, [&](auto&& t) { return file.async_read_some_at(*a->off, *a->mb, std::forward<decltype(t)>(t)); }, e);
      else begin<N>(id, tok, a, [&](auto&& t) { return file.async_write_some_at(*a->off, *a->cb, std::forward<decltype(t)>(t)); }, e);
    }
    else if (k == "flush" || k == "fill") {
      e.raw("o", o + "}");
      a->reply = fed;
      if (k == "flush") begin<std::size_t>(id, tok, a, [&](auto&& t) { return buf.async_flush(std::forward<decltype(t)>(t)); }, e);
      else { begin<std::size_t>(id, tok, a, [&](auto&& t) { return buf.async_fill(std::forward<decltype(t)>(t)); }, e); }
    }
    else if (k == "conn") {
      const int dest = (int)vh::num(op.at(4)), fl = (int)vh::num(op.at(5));
      std::string p = std::to_string(g->port[dest]);
      a->host.reset(new std::string("127.0.0.1"));
      a->service.reset(new std::string(std::string(fl / 2 % 2 ? 24 - p.size() : 0, '0') + p));
      a->sock.reset(new tcp::socket(io));
      a->res.reset(new tcp::resolver(io));
      if ((a->was_open = fl >= 4)) a->sock->open(tcp::v4());
      jnum("dest", dest);
      e.raw("o", o + "}");
      auto flags = fl % 2 ? tcp::resolver::numeric_host | tcp::resolver::numeric_service : tcp::resolver::flags();
      begin<tcp::endpoint>(id, tok, a, [&](auto&& t) { return asioext::async_connect(*a->sock, *a->res, *a->host, *a->service, flags, std::forward<decltype(t)>(t)); }, e);
    }
    else {
      const auto cmd = (socks::command)vh::num(op.at(4));
      const auto addr = vh::bytes(op.at(5));
      const int port = (int)vh::num(op.at(6)), grant = (int)vh::num(op.at(11));
      a->host = str(op.at(7)); a->user = str(op.at(8)); a->pass = str(op.at(9));
      if (addr.size() == 4) { net::ip::address_v4::bytes_type b; std::copy(addr.begin(), addr.end(), b.begin()); a->ep.reset(new tcp::endpoint(net::ip::address_v4(b), (unsigned short)port)); }
      else { net::ip::address_v6::bytes_type b{}; if (addr.size() == 16) std::copy(addr.begin(), addr.end(), b.begin()); a->ep.reset(new tcp::endpoint(net::ip::address_v6(b), (unsigned short)port)); }
      a->meths.reset(new std::vector<socks::auth_method>);
      for (int x : vh::ints(op.at(10))) a->meths->push_back((socks::auth_method)(uint8_t)x);
      jnum("cmd", vh::num(op.at(4))); jarr("addr", vh::ints(op.at(5))); jnum("port", port);
      jarr("host", vh::ints(op.at(7))); jarr("user", vh::ints(op.at(8))); jarr("pass", vh::ints(op.at(9))); jarr("meths", vh::ints(op.at(10)));
      jnum("grant", grant);
      e.raw("o", o + "}");
      if (k[1] == '4') a->reply = {0, (uint8_t)(grant ? 0x5a : 0x5b), 0, 0, 0, 0, 0, 0};
      else if (k == "greet") a->reply = {5, (uint8_t)(grant ? vh::ints(op.at(10)).at(0) : 255)};
      else if (k == "login") a->reply = {1, (uint8_t)(grant ? 0 : 9)};
      else a->reply = {5, (uint8_t)(grant ? 0 : 5), 0, 1, 1, 2, 3, 4, 5, 6};
      const bool shared = vh::num(op.at(12));
      auto b = [&] { return asioext::dynamic_buffer(shared ? scratch : a->lin); };
      if (k == "v4e") begin<void>(id, tok, a, [&](auto&& t) { return socks::async_execute(stream, cmd, *a->ep, *a->user, b(), std::forward<decltype(t)>(t)); }, e);
      else if (k == "v4h") begin<void>(id, tok, a, [&](auto&& t) { return socks::async_execute(stream, cmd, *a->host, (uint16_t)port, *a->user, b(), std::forward<decltype(t)>(t)); }, e);
      else if (k == "greet") begin<socks::auth_method>(id, tok, a, [&](auto&& t) { return socks::async_greet(stream, a->meths->data(), a->meths->size(), b(), std::forward<decltype(t)>(t)); }, e);
      else if (k == "login") begin<void>(id, tok, a, [&](auto&& t) { return socks::async_login(stream, *a->user, *a->pass, b(), std::forward<decltype(t)>(t)); }, e);
      else if (k == "v5e") begin<void>(id, tok, a, [&](auto&& t) { return socks::async_execute(stream, cmd, *a->ep, b(), std::forward<decltype(t)>(t)); }, e);
      else if (k == "v5h") begin<void>(id, tok, a, [&](auto&& t) { return socks::async_execute(stream, cmd, *a->host, (uint16_t)port, b(), std::forward<decltype(t)>(t)); }, e);
      else vh::fatal("op " + k);
    }
  }
  std::deque<uint8_t> fed;
};

static void run(const std::vector<vh::Op>& ops)
{
  G gg;
  g = &gg;
  main_thread = true;
  std::unique_ptr<World> w;
  for (auto& op : ops) {
    vh::Ev e(op[0]);
    auto I = [&](std::size_t i) { return (int)vh::num(op.at(i)); };
    if (op[0] == "new") {
      auto b = vh::bytes(op.at(1));
      w.reset(new World(std::string(b.begin(), b.end())));
      e.arr("init", b);
    }
    else if (op[0] == "start") w->start(op, e);
    else if (op[0] == "spoil") {
      if (I(2)) w->kept.at(I(1)).args->free(); else w->kept.at(I(1)).args->change();
      e.num("id", I(1));
    }
    else if (op[0] == "drop") {
      Kept k = std::move(w->kept.at(I(1)));
      w->kept.erase(I(1));
      const int before = k.res->times;
      k.launch = nullptr;
      run_contexts();
      e.num("id", I(1)).num("times", k.res->times - before);
    }
    else if (op[0] == "launch") {
      // launch ID bound keep
      Kept& k = w->kept.at(I(1));
      gg.in = k.args->k == "fill" ? w->fed : k.args->reply;
      *k.res = Res();
      if (k.args->k == "rd" || k.args->k == "rdat") std::fill(k.args->mem.begin(), k.args->mem.end(), 0xEE);
      gg.calling = true;
      k.launch(I(2), I(3));
      gg.calling = false;
      run_contexts();
      World::result(e, *k.res, *k.args);
      w->last = k.args;
      e.num("id", I(1)).num("bound", I(2)).boolean("keep", I(3));
      if (!I(3)) w->kept.erase(I(1));
    }
    else if (op[0] == "put") {
      auto b = vh::bytes(op.at(1));
      w->buf.write_buffer().append(b.data(), b.size());
      e.arr("b", b);
    }
    else if (op[0] == "cancel") w->file.cancel();
    else if (op[0] == "reopen") {
      w->file.close();
      w->file.open("F", asioext::open_flags::access_read | asioext::open_flags::access_write | asioext::open_flags::open_existing);
    }
    else if (op[0] == "take") {
      const std::size_t n = std::min<std::size_t>(I(1), w->buf.read_buffer().size());
      w->buf.read_buffer().erase(0, n);
      e.num("n", n);
    }
    else if (op[0] == "feed") {
      auto b = vh::bytes(op.at(1));
      for (auto x : b) w->fed.push_back(x);
      e.arr("b", b);
    }
    else vh::fatal("op " + op[0]);
    // what a fill left
    if (w->last && w->last->k == "fill" && (op[0] == "launch" || (op[0] == "start" && w->last->reply.size()))) {
      w->fed = gg.in;
    }
    w->last.reset();
    w->state(e);
    e.emit();
  }
  w.reset();
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
