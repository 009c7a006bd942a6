// Drives connect and async_connect against listeners whose behaviour the script decides; name resolution,
// socket() and connect() go through this file.
#include "common.hpp"
#include "netns.hpp"
#include <asioext/connect.hpp>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>

typedef asioext::error_code EC;
typedef net::ip::tcp tcp;

static std::string name(const EC& e)
{
  if (!e) return "ok";
  if (e == net::error::operation_aborted) return "operation_aborted";
  if (e == net::error::connection_refused) return "connection_refused";
  if (e == net::error::network_unreachable) return "network_unreachable";
  if (e == net::error::host_unreachable) return "host_unreachable";
  if (e == net::error::address_family_not_supported) return "address_family_not_supported";
  if (e == net::error::not_found) return "not_found";
  if (e == net::error::host_not_found) return "host_not_found";
  if (e == net::error::host_not_found_try_again) return "host_not_found_try_again";
  if (e == net::error::service_not_found) return "service_not_found";
  if (e == net::error::no_recovery) return "no_recovery";
  return "other:" + e.message();
}

struct Point
{
  std::string kind;
  int fd = -1;                    // the listener, or the socket that keeps the port free of listeners
  sockaddr_storage sa;
  socklen_t len = 0;
};
struct World
{
  std::vector<Point> pts;
  std::string rerr;
  bool armed = false;
  int tried = 0;
  std::mutex m;
  std::condition_variable cv;
  bool gate = true;
};
static World* W;

static bool same(const sockaddr* a, const sockaddr* b)
{
  if (a->sa_family != b->sa_family) return false;
  if (a->sa_family == AF_INET) {
    auto x = (const sockaddr_in*)a, y = (const sockaddr_in*)b;
    return x->sin_port == y->sin_port && x->sin_addr.s_addr == y->sin_addr.s_addr;
  }
  auto x = (const sockaddr_in6*)a, y = (const sockaddr_in6*)b;
  return x->sin6_port == y->sin6_port && !std::memcmp(&x->sin6_addr, &y->sin6_addr, 16);
}
static int index_of(const sockaddr* a)
{
  for (std::size_t i = 0; i < W->pts.size(); ++i) if (same(a, (const sockaddr*)&W->pts[i].sa)) return (int)i + 1;
  return 99;
}

extern "C" int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** res)
{
  *res = nullptr;
  if (!W) return EAI_FAIL;
  if (node && !std::strcmp(node, "blocker")) {
    std::unique_lock<std::mutex> l(W->m);
    W->cv.wait(l, [] { return W->gate; });
    return EAI_NONAME;
  }
  vh::Ev("resolve").str("host", node ? node : "").str("service", service ? service : "").num("flags", hints ? hints->ai_flags : -1).emit();
  if (W->rerr == "host_not_found") return EAI_NONAME;
  if (W->rerr == "host_not_found_try_again") return EAI_AGAIN;
  if (W->rerr == "service_not_found") return EAI_SERVICE;
  if (W->rerr == "no_recovery") return EAI_FAIL;
  addrinfo** at = res;
  for (auto& p : W->pts) {
    auto* n = (addrinfo*)std::calloc(1, sizeof(addrinfo) + sizeof(sockaddr_storage));
    n->ai_family = p.sa.ss_family;
    n->ai_socktype = SOCK_STREAM;
    n->ai_protocol = IPPROTO_TCP;
    n->ai_addrlen = p.len;
    n->ai_addr = (sockaddr*)(n + 1);
    std::memcpy(n->ai_addr, &p.sa, p.len);
    *at = n;
    at = &n->ai_next;
  }
  return 0;
}
extern "C" void freeaddrinfo(addrinfo* a) { while (a) { addrinfo* n = a->ai_next; std::free(a); a = n; } }

static void attempt(int i) { ++W->tried; vh::Ev("attempt").num("i", i).emit(); }
extern "C" int socket(int d, int t, int p)
{
  if (W && W->armed && (d == AF_INET || d == AF_INET6)) {
    std::size_t i = W->tried;
    if (i < W->pts.size() && W->pts[i].kind == "no_family") { attempt((int)i + 1); errno = EAFNOSUPPORT; return -1; }
  }
  return (int)::syscall(SYS_socket, d, t, p);
}
extern "C" int connect(int fd, const sockaddr* a, socklen_t n)
{
  if (W && W->armed) {
    int i = index_of(a);
    attempt(i);
    if (i < 99) {
      if (W->pts[i - 1].kind == "net_down") { errno = ENETUNREACH; return -1; }
      if (W->pts[i - 1].kind == "host_down") { errno = EHOSTUNREACH; return -1; }
    }
  }
  return (int)::syscall(SYS_connect, fd, a, n);
}

static bool v6_works()
{
  static int r = -1;
  if (r < 0) {
    int fd = (int)::syscall(SYS_socket, AF_INET6, SOCK_STREAM, 0);
    sockaddr_in6 a; std::memset(&a, 0, sizeof a);
    a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback;
    r = fd >= 0 && ::bind(fd, (sockaddr*)&a, sizeof a) == 0;
    if (fd >= 0) ::close(fd);
  }
  return r;
}
static int bound(bool v6, sockaddr_storage& sa, socklen_t& len)
{
  std::memset(&sa, 0, sizeof sa);
  if (v6 && v6_works()) { auto& a = (sockaddr_in6&)sa; a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; len = sizeof a; }
  else { auto& a = (sockaddr_in&)sa; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); len = sizeof a; }
  int fd = (int)::syscall(SYS_socket, sa.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (fd < 0 || ::bind(fd, (sockaddr*)&sa, len) || ::getsockname(fd, (sockaddr*)&sa, &len)) vh::fatal("bind");
  return fd;
}
static int accept_now(int fd) { return ::accept4(fd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC); }
static bool live(int fd)
{
  char c;
  for (int i = 0; i < 20; ++i) {
    ssize_t r = ::recv(fd, &c, 1, MSG_DONTWAIT | MSG_PEEK);
    if (r >= 0 || (errno != EAGAIN && errno != EWOULDBLOCK)) return false;
    if (i > 2) ::usleep(1000);
  }
  return true;
}
// an endpoint that neither accepts nor refuses: a listener whose queue is full
struct Slow
{
  sockaddr_storage sa; socklen_t len; int fd; std::vector<int> fill; bool works = false;
  Slow()
  {
    fd = bound(false, sa, len);
    ::listen(fd, 0);
    for (int i = 0; i < 4 && !works; ++i) {
      int c = (int)::syscall(SYS_socket, AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
      ::syscall(SYS_connect, c, &sa, len);
      pollfd p{c, POLLOUT, 0};
      if (::poll(&p, 1, 30) == 0) works = true;
      fill.push_back(c);
    }
  }
};
// each has its own address
static Slow& slow(std::size_t i) { static std::deque<Slow> s; while (s.size() <= i) s.emplace_back(); return s[i]; }

struct Run
{
  net::io_context io;
  std::optional<tcp::socket> sock;
  std::optional<tcp::resolver> res, blk;
  tcp::endpoint prior;
  int peer = -1;                  // the far end of the connection the socket had before
  bool pending = false, calling = false, resolved = false, intervened = false, guard = false;
  int times = 0, n = 0;
};

static void finish(Run& r, const EC& e, const tcp::endpoint& ep, bool inl)
{
  W->armed = false;
  int epi = 0, rem = 0;
  if (ep != tcp::endpoint()) epi = index_of(ep.data());
  EC x;
  auto re = r.sock->remote_endpoint(x);
  if (!x && !(r.peer >= 0 && re == r.prior)) rem = index_of(re.data());
  std::vector<int> seen, alive, fds;
  for (std::size_t i = 0; i < W->pts.size(); ++i) {
    auto& p = W->pts[i];
    if (p.kind != "ok") continue;
    for (int fd; (fd = accept_now(p.fd)) >= 0; ) {
      seen.push_back((int)i + 1);
      if (live(fd)) alive.push_back((int)i + 1);
      fds.push_back(fd);
    }
  }
  vh::Ev("done").str("e", name(e)).num("ep", epi).num("remote", rem).arr("seen", seen).arr("alive", alive)
    .num("prior", r.peer >= 0 && live(r.peer) ? 1 : 0).boolean("inl", inl).num("times", r.times).emit();
  for (int fd : fds) ::close(fd);
  r.pending = false;
}
static bool waiting(Run& r)
{
  return r.pending && r.resolved && W->tried > 0 && W->tried <= (int)W->pts.size() && W->pts[W->tried - 1].kind == "slow" && !r.intervened;
}
static void pump(Run& r)
{
  static int most = 9;  // runs this often without anything happening: it never will
  int tried = W->tried, idle = 0;
  while (r.pending && !waiting(r)) {
    if (r.io.stopped()) r.io.restart();
    if (!r.io.run_one_for(std::chrono::milliseconds(500))) {
      if (++idle >= most) { vh::Ev("stuck").emit(); r.pending = false; most = 1; }
    }
    if (W->tried != tried) { tried = W->tried; r.intervened = false; }
  }
}
static void open_gate(Run& r)
{
  { std::lock_guard<std::mutex> l(W->m); W->gate = true; }
  W->cv.notify_all();
  r.resolved = true;
}
static void close_prior(Run& r)
{
  EC x;
  r.sock->close(x);
  if (r.peer >= 0) { ::close(r.peer); r.peer = -1; }
  for (auto& p : W->pts) if (p.kind != "slow" && p.fd >= 0) ::close(p.fd);
  W->pts.clear();
}
static void intervene(Run& r, const std::string& a)
{
  vh::Ev("user").str("a", a).emit();
  EC x;
  r.intervened = true;
  if (a == "cancel") r.sock->cancel(x);
  else if (a == "close") r.sock->close(x);
  else { r.res->cancel(); open_gate(r); }
  pump(r);
}

static void run(const std::vector<vh::Op>& ops)
{
  World w; W = &w;
  {
    Run r;
    r.sock.emplace(r.io);
    r.res.emplace(r.io);
    r.blk.emplace(r.io);
    auto settle = [&] {
      if (!r.pending) return;
      if (!r.resolved) open_gate(r);
      pump(r);
      while (r.pending) intervene(r, "close");
    };
    for (auto& o : ops) {
      if (o[0] == "start") {
        settle();
        close_prior(r);
        ++r.n;
        const std::string form = o[1];
        static const char* K[] = {"ok", "refuse", "net_down", "host_down", "no_family", "slow"};
        std::vector<std::string> plan;
        for (int x : vh::ints(o[2])) {
          Point p;
          p.kind = K[x];
          if (p.kind == "slow" && !slow(plan.size()).works) p.kind = "refuse";
          plan.push_back(p.kind);
          if (p.kind == "slow") { auto& z = slow(plan.size() - 1); p.sa = z.sa; p.len = z.len; }
          else {
            p.fd = bound((r.n + plan.size()) % 2, p.sa, p.len);
            if (p.kind == "ok") { ::listen(p.fd, 8); ::fcntl(p.fd, F_SETFL, O_NONBLOCK); }
          }
          w.pts.push_back(p);
        }
        w.rerr = o[3];
        w.tried = 0;
        // what the socket was used for before
        int held = (int)vh::num(o[4]);
        EC x;
        if (held) {
          sockaddr_storage sa; socklen_t len;
          int l = bound(r.n % 3 == 0, sa, len);
          ::listen(l, 1);
          tcp::endpoint ep;
          std::memcpy(ep.data(), &sa, len); ep.resize(len);
          r.sock->connect(ep, x);
          if (x) vh::broken("prior connection");
          r.prior = ep;
          r.peer = ::accept4(l, nullptr, nullptr, SOCK_CLOEXEC);
          ::close(l);
        } else if (r.n % 3 == 1) r.sock->open(tcp::v4(), x);
        else if (r.n % 3 == 2 && v6_works()) r.sock->open(tcp::v6(), x);
        // names that are no C strings: the view ends before the text does
        static const std::string hosts = "example.test.hostnamesomewhere", services = "httpsmtp4433";
        std::string_view host = std::string_view(hosts).substr(0, (std::size_t)(r.n * 5) % 23), service = std::string_view(services).substr(0, (std::size_t)(r.n * 3) % 11);
        static const tcp::resolver::flags F[] = {tcp::resolver::flags(), tcp::resolver::numeric_service, tcp::resolver::address_configured, tcp::resolver::passive | tcp::resolver::canonical_name};
        auto fl = F[r.n % 4];
        vh::Ev("start").str("form", form).strs("plan", plan).str("rerr", w.rerr).num("held", held).str("host", std::string(host)).str("service", std::string(service)).num("flags", (int)fl).emit();
        r.times = 0; r.intervened = false; r.resolved = false; r.pending = true;
        if (form == "async") {
          { std::lock_guard<std::mutex> l(w.m); w.gate = false; }
          r.blk->async_resolve("blocker", "", [] (const EC&, const tcp::resolver::results_type&) {});
          w.armed = true;
          r.calling = true;
          asioext::async_connect(*r.sock, *r.res, host, service, fl, [&r] (const EC& e, const tcp::endpoint& ep) { ++r.times; finish(r, e, ep, r.calling); });
          r.calling = false;
        } else {
          w.armed = true;
          EC e = net::error::no_buffer_space;
          if (form == "sync") asioext::connect(*r.sock, *r.res, host, service, fl, e);
          else {
            try { asioext::connect(*r.sock, *r.res, host, service, fl); e = EC(); }
            catch (const SysErr& z) { e = z.code(); }
          }
          w.armed = false;
          r.times = 1;
          finish(r, e, tcp::endpoint(), false);
        }
      } else if (o[0] == "resolve") { if (r.pending && !r.resolved) { open_gate(r); pump(r); } }
      else if (o[0] == "rcancel") { if (r.pending && !r.resolved) intervene(r, "rcancel"); }
      else if (o[0] == "cancel" || o[0] == "close") { if (waiting(r)) intervene(r, o[0]); }
      else if (o[0] == "attempt" || o[0] == "done") { if (r.resolved) pump(r); }
      else vh::fatal("op " + o[0]);
    }
    settle();
    close_prior(r);
    r.io.restart();
    r.io.poll();
  }
  W = nullptr;
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
