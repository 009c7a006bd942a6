// Drives composed operations and bound handlers stacked in layers: what they
// expose, when they call what with which arguments, and what keeps running.
#include "common.hpp"
#include "netns.hpp"
#include <asioext/compose.hpp>
#include <asioext/bind_handler.hpp>
#include <deque>

using vh::fatal;
enum { NS = 3, NC = 2, FALLBACK = NC + 1, SIGS = 20 };
struct Layer { char k; std::vector<int> args, work; };
struct Decision { std::string k; std::vector<int> args; };
struct Call { int h; std::vector<int> args; int ctx; std::vector<int> busy; };
struct AnyW;

struct G
{
  std::unique_ptr<net::io_context> io[NC + 2];
  net::cancellation_signal sig[SIGS];
  std::unique_ptr<AnyW> w[NS + 1];
  std::deque<Decision> ds;
  std::vector<Decision> pds;      // of the posted wrapper
  int pto = 0, to = 0, nh = 0, cur = 0, copies = 0;
  bool probe = true;
  std::vector<Call> calls, impls;
  std::vector<int> dels;
  std::map<void*, std::pair<int, std::size_t>> blocks;
  std::vector<std::string> bad;
};
static G* g;

static std::vector<int> busy()
{
  std::vector<int> r;
  if (!g->probe) return r;
  for (int c = 1; c <= NC; ++c) {
    g->io[c]->restart();
    g->io[c]->poll();
    if (!g->io[c]->stopped()) r.push_back(c);
  }
  return r;
}

template <class T> struct LA
{
  typedef T value_type;
  int id;
  explicit LA(int i) : id(i) {}
  template <class V> LA(const LA<V>& o) : id(o.id) {}
  T* allocate(std::size_t n)
  {
    void* p = ::operator new(n * sizeof(T));
    g->blocks[p] = {id, n * sizeof(T)};
    return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t n)
  {
    auto it = g->blocks.find(p);
    if (it == g->blocks.end()) { g->bad.push_back("deallocate of an unknown block"); return; }
    if (it->second.first != id) g->bad.push_back("block returned to another allocator");
    if (it->second.second != n * sizeof(T)) g->bad.push_back("block returned with another size");
    g->blocks.erase(it);
    ::operator delete(p);
  }
  template <class V> bool operator==(const LA<V>& o) const { return id == o.id; }
  template <class V> bool operator!=(const LA<V>& o) const { return id != o.id; }
};
template <> struct LA<void>
{
  typedef void value_type;
  int id;
  LA() : id(-5) {}
  explicit LA(int i) : id(i) {}
  template <class V> LA(const LA<V>& o) : id(o.id) {}
  template <class V> bool operator==(const LA<V>& o) const { return id == o.id; }
  template <class V> bool operator!=(const LA<V>& o) const { return id != o.id; }
};

struct Core
{
  int h;
  bool called = false;
  std::shared_ptr<int> state;
  explicit Core(int i) : h(i), state(new int(i)) {}
  Core(const Core& o) : h(o.h), called(o.called), state(o.state) { if (h) ++g->copies; }
  Core(Core&& o) noexcept : h(o.h), called(o.called), state(std::move(o.state)) { o.h = 0; }
  ~Core() { if (h) g->dels.push_back(h); }
  void call(std::vector<int> a)
  {
    if (!h || !state || *state != h) g->bad.push_back("moved-from handler invoked");
    if (called) g->bad.push_back("handler invoked twice");
    called = true;
    Call c{h, a, g->cur, {}};
    if (!g->cur) c.busy = busy();
    g->calls.push_back(c);
  }
  void operator()() { call({}); }
  void operator()(int a, const std::string& b) { call({a, std::atoi(b.c_str() + 1)}); }
};
struct HP : Core { HP(int h_, int, int) : Core(h_) {} };
struct HE : Core
{
  int ex, al;
  typedef net::io_context::executor_type executor_type;
  typedef LA<void> allocator_type;
  HE(int h_, int e, int a) : Core(h_), ex(e), al(a) {}
  executor_type get_executor() const noexcept { return g->io[ex]->get_executor(); }
  allocator_type get_allocator() const noexcept { return allocator_type(al); }
  typedef net::cancellation_slot cancellation_slot_type;
  cancellation_slot_type get_cancellation_slot() const noexcept { return g->sig[al % SIGS].slot(); }
};

struct AnyW
{
  virtual ~AnyW() {}
  virtual void invoke() = 0;
  virtual int executor() const = 0;
  virtual int allocator() const = 0;
  virtual int slot() const = 0;
  virtual std::unique_ptr<AnyW> moved() = 0;
  virtual void post(int c) = 0;
};
template <class T> struct W : AnyW
{
  T t;
  explicit W(T&& x) : t(std::move(x)) {}
  void invoke() override { t(); }
  int executor() const override
  {
    net::any_io_executor fb = g->io[FALLBACK]->get_executor();
    net::any_io_executor ex = net::get_associated_executor(t, fb);
    for (int i = 1; i <= FALLBACK; ++i)
      if (ex == net::any_io_executor(g->io[i]->get_executor())) return i == FALLBACK ? 0 : i;
    return -1;
  }
  int allocator() const override
  {
    auto a = net::get_associated_allocator(t, LA<void>(99));
    return a.id == 99 ? 0 : a.id;
  }
  int slot() const override
  {
    int one = known(net::get_associated_cancellation_slot(t));
    int two = known(net::get_associated_cancellation_slot(t, g->sig[0].slot()));
    if (one != two) return -2;
    return one;
  }
  // the signal a slot belongs to: 0 for none
  static int known(net::cancellation_slot s)
  {
    if (s == net::cancellation_slot()) return 0;
    for (int i = 0; i < SIGS; ++i) if (s == g->sig[i].slot()) return i;
    return -1;
  }
  std::unique_ptr<AnyW> moved() override { return std::unique_ptr<AnyW>(new W(std::move(t))); }
  void post(int c) override { net::post(g->io[c]->get_executor(), std::move(t)); }
};
template <class T> static std::unique_ptr<AnyW> hold(T&& t)
{
  return std::unique_ptr<AnyW>(new W<typename std::decay<T>::type>(std::move(t)));
}

static std::string text(int k) { return "s" + std::to_string(k); }

struct Impl
{
  std::shared_ptr<int> own = std::make_shared<int>(7);
  template <class Self> void operator()(Self& self) { go(self, {}); }
  template <class Self> void operator()(Self& self, int a, const std::string& b) { go(self, {a, std::atoi(b.c_str() + 1)}); }
  template <class Self> void go(Self& self, std::vector<int> args)
  {
    if (!own || *own != 7) g->bad.push_back("moved-from operation resumed");
    g->impls.push_back(Call{0, args, g->cur, {}});
    if (g->ds.empty()) { g->bad.push_back("operation resumed more often than asked"); return; }
    Decision d = g->ds.front();
    g->ds.pop_front();
    typedef typename std::decay<decltype(self.get_handler())>::type H;
    if (d.k == "again") g->w[g->to] = hold(std::move(self));
    else if (d.k == "complete") {
      if (d.args.empty()) self.complete();
      else if constexpr (std::is_invocable_v<H&, int, const std::string&>) self.complete(d.args[0], text(d.args[1]));
      else fatal("arguments for a nullary wrapper");
    }
    else if (d.k == "bound") {
      if (d.args.empty()) g->w[g->to] = hold(self.complete_to_bound_handler());
      else if constexpr (std::is_invocable_v<H&, int, const std::string&>)
        g->w[g->to] = hold(self.complete_to_bound_handler(d.args[0], text(d.args[1])));
      else fatal("arguments for a nullary wrapper");
    }
  }
};

static net::io_context& io(int c) { return *g->io[c]; }

// wraps f in layers ls[i-1], ..., ls[0]
template <int Depth, class F>
static void wrap(const std::vector<Layer>& ls, std::size_t i, F&& f, bool lv, const std::function<void(std::unique_ptr<AnyW>)>& out)
{
  if (i == 0) {
    if constexpr (Depth != DEPTH) out(hold(std::move(f)));
    return;
  }
  if constexpr (Depth > 0) {
    typedef typename std::decay<F>::type H;
    const Layer& l = ls[i - 1];
    auto next = [&](auto&& x) { wrap<Depth - 1>(ls, i - 1, std::move(x), false, out); };
    auto with = [&](auto&& h) {
      if (l.k == 'b') {
        if (l.args.empty()) {
          if (l.work.empty()) next(asioext::bind_handler(std::forward<decltype(h)>(h)));
          else if (l.work.size() == 1)
            next(asioext::bind_handler(std::forward<decltype(h)>(h), asioext::make_work_tuple(io(l.work[0]).get_executor())));
          else fatal("layer");
        }
        else if constexpr (std::is_invocable_v<H&, int, const std::string&>) {
          int a = l.args[0];
          std::string t = text(l.args[1]);
          if (l.work.empty()) next(asioext::bind_handler(std::forward<decltype(h)>(h), a, t));
          else if (l.work.size() == 2)
            next(asioext::bind_handler(std::forward<decltype(h)>(h),
                 asioext::make_work_tuple(io(l.work[0]).get_executor(), io(l.work[1]).get_executor()), a, std::move(t)));
          else fatal("layer");
        }
        else fatal("layer");
      } else {
        if (l.work.empty()) next(asioext::make_composed_operation(Impl(), std::forward<decltype(h)>(h)));
        else if (l.work.size() == 1) next(asioext::make_composed_operation(Impl(), std::forward<decltype(h)>(h), io(l.work[0])));
        else {
          Impl impl;      // an operation passed as an lvalue is copied
          next(asioext::make_composed_operation(impl, std::forward<decltype(h)>(h), io(l.work[0]).get_executor(), io(l.work[1])));
          if (!impl.own) g->bad.push_back("the operation passed as an lvalue was moved from");
        }
      }
    };
    if (lv) {
      with(f);
      if constexpr (std::is_base_of_v<Core, H>) {
        if (!f.h || !f.state) g->bad.push_back("a handler passed as an lvalue was moved from");
        f.h = 0;
      }
    }
    else with(std::move(f));
  }
  else fatal("too many layers");
}

static std::vector<int> slashed(const std::string& t)
{
  std::vector<int> r;
  if (t == "-") return r;
  std::stringstream ss(t);
  std::string x;
  while (std::getline(ss, x, '/')) r.push_back(std::atoi(x.c_str()));
  return r;
}
static std::vector<std::string> split(const std::string& s, char c)
{
  std::vector<std::string> r;
  std::stringstream ss(s);
  std::string t;
  if (s == "-") return r;
  while (std::getline(ss, t, c)) r.push_back(t);
  return r;
}
static std::string jlist(const std::vector<int>& v)
{
  std::string s = "[";
  for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
static std::vector<Decision> decisions(const std::string& s)
{
  std::vector<Decision> r;
  for (auto& x : split(s, ';')) { auto f = split(x, ':'); r.push_back(Decision{f[0], slashed(f[1])}); }
  return r;
}
static std::string jds(const std::vector<Decision>& v)
{
  std::string s = "[";
  for (auto& d : v) s += (s.size() > 1 ? "," : "") + ("{\"k\":" + vh::quote(d.k) + ",\"args\":" + jlist(d.args) + "}");
  return s + "]";
}
static std::string jcalls(const std::vector<Call>& v)
{
  std::string s = "[";
  for (auto& c : v)
    s += (s.size() > 1 ? "," : "") + ("{\"h\":" + std::to_string(c.h) + ",\"args\":" + jlist(c.args) + ",\"ctx\":" +
         std::to_string(c.ctx) + ",\"busy\":" + jlist(c.busy) + "}");
  return s + "]";
}

static void run(const std::vector<vh::Op>& ops)
{
  G gg;
  g = &gg;
  for (int i = 1; i <= FALLBACK; ++i) gg.io[i].reset(new net::io_context);
  for (auto& op : ops) {
    vh::Ev e(op[0]);
    gg.calls.clear(); gg.impls.clear(); gg.dels.clear(); gg.bad.clear(); gg.copies = 0; gg.ds.clear();
    auto n = [&](std::size_t i) { return (int)vh::num(op.at(i)); };
    std::vector<int> after;            // contexts that stay busy while the called wrapper still exists
    bool kept = false;
    auto slot_free = [&](int s) { return !gg.w[s]; };
    if (op[0] == "make") {
      int s = n(1), ex = n(2), al = n(3);
      bool lv = n(5);
      std::vector<Layer> ls;
      std::string j = "[";
      for (auto& x : split(op[4], ';')) {
        auto f = split(x, ':');
        Layer l{f[0][0], slashed(f[1]), slashed(f[2])};
        ls.push_back(l);
        j += (j.size() > 1 ? "," : "") + (std::string("{\"k\":\"") + l.k + "\",\"args\":" + jlist(l.args) + ",\"work\":" + jlist(l.work) + "}");
      }
      e.num("s", s).num("ex", ex).num("al", al).raw("ls", j + "]").boolean("lv", lv);
      if (!slot_free(s)) continue;
      int h = ++gg.nh;
      auto out = [&](std::unique_ptr<AnyW> x) { gg.w[s] = std::move(x); };
      if (ex) wrap<DEPTH>(ls, ls.size(), HE(h, ex, al), lv, out);
      else wrap<DEPTH>(ls, ls.size(), HP(h, 0, 0), lv, out);
    }
    else if (op[0] == "move") {
      if (slot_free(n(1)) || !slot_free(n(2))) continue;
      auto x = gg.w[n(1)]->moved();
      gg.w[n(1)].reset();
      gg.w[n(2)] = std::move(x);
      e.num("s", n(1)).num("t", n(2));
    }
    else if (op[0] == "del") {
      if (slot_free(n(1))) continue;
      gg.w[n(1)].reset();
      e.num("s", n(1));
    }
    else if (op[0] == "invoke") {
      if (slot_free(n(1)) || (n(2) != n(1) && !slot_free(n(2)))) continue;
      auto ds = decisions(op.at(3));
      gg.ds.assign(ds.begin(), ds.end());
      gg.to = n(2);
      e.num("s", n(1)).num("to", n(2)).raw("ds", jds(ds));
      std::unique_ptr<AnyW> x = std::move(gg.w[n(1)]);
      x->invoke();
      if (!gg.ds.empty()) gg.bad.push_back("operation resumed less often than asked");
      if (gg.calls.size() && gg.probe) { kept = true; after = busy(); }
    }
    else if (op[0] == "post") {
      if (slot_free(n(1)) || !gg.probe || (n(3) != n(1) && !slot_free(n(3)))) continue;
      gg.pds = decisions(op.at(4));
      gg.pto = n(3);
      e.num("s", n(1)).num("c", n(2)).num("to", n(3)).raw("ds", jds(gg.pds));
      gg.w[n(1)]->post(n(2));
      gg.w[n(1)].reset();
      gg.probe = false;
    }
    else if (op[0] == "poll") {
      if (gg.probe || !slot_free(gg.pto)) continue;
      e.num("c", n(1));
      gg.ds.assign(gg.pds.begin(), gg.pds.end());
      gg.to = gg.pto;
      gg.cur = n(1);
      gg.io[n(1)]->restart();
      gg.io[n(1)]->poll();
      gg.cur = 0;
      if (gg.calls.size() || gg.impls.size() || gg.dels.size()) {
        gg.probe = true;
        if (!gg.ds.empty()) gg.bad.push_back("operation resumed less often than asked");
      }
    }
    else fatal("op " + op[0]);
    std::vector<int> b = busy();
    std::string u = "[";
    for (int s = 1; s <= NS; ++s)
      u += (s > 1 ? "," : "") + (gg.w[s] ? "[" + std::to_string(gg.w[s]->executor()) + "," + std::to_string(gg.w[s]->allocator()) + "," +
           std::to_string(gg.w[s]->slot()) + "]" : "[-1,-1,-1]");
    e.raw("u", u + "]").raw("calls", jcalls(gg.calls)).raw("impls", jcalls(gg.impls)).arr("dels", gg.dels)
     .boolean("probed", gg.probe).arr("busy", b).boolean("kept", kept).arr("after", after).num("copies", gg.copies)
     .num("mem", gg.probe ? (int)gg.blocks.size() : 0).strs("bad", gg.bad).emit();
  }
  // a posted wrapper may hold work on any context: none goes away before it ran
  gg.to = 0;
  gg.ds.assign(gg.pds.begin(), gg.pds.end());
  for (int k = 0; k < 3; ++k) { gg.io[1 + k % 2]->restart(); gg.io[1 + k % 2]->poll(); }
  for (auto& x : gg.w) x.reset();
  for (auto& x : gg.io) x.reset();
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
