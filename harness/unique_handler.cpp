// Drives unique_handler with handlers that have ledger-keeping allocators and
// act on the unique_handler objects again when invoked or destroyed.
#include "common.hpp"
#include "netns.hpp"
#include <asioext/unique_handler.hpp>
#include <asioext/exception.hpp>
#include <optional>

typedef asioext::unique_handler<void(int, std::unique_ptr<int>, const std::string&)> U;
enum { NS = 3 };
struct Action { std::string k = "none"; int v = 0, w = 0; };

struct G
{
  std::optional<U> u[NS + 1];
  int nh = 0;
  bool fail = false;
  std::vector<int> calls, dels;
  std::map<void*, std::pair<int, std::size_t>> blocks;   // owner, size
  std::vector<std::string> bad;
  int arg = 0;
  std::string text;
};
static G* g;

template <class T> struct LA
{
  typedef T value_type;
  int id;
  explicit LA(int i) : id(i) {}
  template <class V> LA(const LA<V>& o) : id(o.id) {}
  T* allocate(std::size_t n)
  {
    if (g->fail) { g->fail = false; throw std::bad_alloc(); }
    void* p = ::operator new(n * sizeof(T));
    g->blocks[p] = {id, n * sizeof(T)};
    return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t n)
  {
    auto it = g->blocks.find(p);
    if (it == g->blocks.end()) { g->bad.push_back("deallocate of an unknown block"); return; }
    if (it->second.first != id) g->bad.push_back("block returned to another allocator");
    if (it->second.second != n * sizeof(T)) g->bad.push_back("block returned with another size");
    g->blocks.erase(it);
    ::operator delete(p);
  }
  template <class V> bool operator==(const LA<V>& o) const { return id == o.id; }
  template <class V> bool operator!=(const LA<V>& o) const { return id != o.id; }
};
template <> struct LA<void>
{
  typedef void value_type;
  int id;
  explicit LA(int i) : id(i) {}
  template <class V> LA(const LA<V>& o) : id(o.id) {}
};

struct Boom {};
static void act(const Action& a);

struct Core
{
  int h;              // 0: moved from
  Action a, d;
  bool called = false;
  std::shared_ptr<int> token;      // something to destroy
  Core(int h_, const Action& a_, const Action& d_) : h(h_), a(a_), d(d_), token(new int(h_)) {}
  Core(Core&& o) noexcept : h(o.h), a(o.a), d(o.d), called(o.called), token(std::move(o.token)) { o.h = 0; }
  Core(const Core&) = delete;
  ~Core()
  {
    if (!h) return;
    g->dels.push_back(h);
    if (!called) act(d);
  }
  void operator()(int n, std::unique_ptr<int> p, const std::string& s)
  {
    if (!h) { g->bad.push_back("moved-from handler invoked"); return; }
    if (called) g->bad.push_back("handler invoked twice");
    called = true;
    g->calls.push_back(h);
    if (!token || *token != h) g->bad.push_back("handler state");
    if (n != g->arg || !p || *p != g->arg || s != g->text) g->bad.push_back("arguments");
    for (auto& b : g->blocks)
      if (b.second.first == h) g->bad.push_back("memory not returned before the call");
    if (a.k == "throw") throw Boom();
    act(a);
  }
};
template <int Pad> struct HL : Core
{
  char pad[Pad];
  typedef LA<void> allocator_type;
  int id;
  using Core::Core;
  HL(int h_, const Action& a_, const Action& d_) : Core(h_, a_, d_), id(h_) {}
  HL(HL&& o) noexcept : Core(std::move(o)), id(o.id) {}
  allocator_type get_allocator() const noexcept { return allocator_type(id); }
};
struct HP : Core { using Core::Core; };

template <class F> static void with_handler(int k, const Action& a, const Action& d, F f)
{
  int h = ++g->nh;
  if (k == 0) f(HL<1>(h, a, d));
  else if (k == 1) f(HL<200>(h, a, d));
  else f(HP(h, a, d));
}

static std::string complete(int s)
{
  int n = g->arg = g->arg % 1000 + 7;
  std::string t = g->text = "text " + std::to_string(n);
  std::string r = "ok";
  try {
    g->u[s]->complete(n, std::unique_ptr<int>(new int(n)), t);
  } catch (const asioext::bad_function_call&) {
    r = "bad_function_call";
    g->calls.push_back(-1);
  } catch (const Boom&) {
    r = "throw";
  }
  return r;
}

static void act(const Action& x)
{
  Action a = x;          // the handler may go away
  if (a.k == "none" || a.k == "throw" || !g->u[a.v]) return;
  if (a.k == "set") with_handler(0, Action(), Action(), [&](auto&& h) { *g->u[a.v] = std::move(h); });
  else if (a.k == "reset") g->u[a.v]->reset();
  else if (a.k == "move") { if (g->u[a.w]) *g->u[a.w] = std::move(*g->u[a.v]); }
  else if (a.k == "complete") {
    int arg = g->arg; std::string t = g->text;
    complete(a.v);
    g->arg = arg; g->text = t;
  }
  else if (a.k == "del") g->u[a.v].reset();
}

static Action parse(const std::string& s)
{
  Action a;
  std::stringstream ss(s);
  std::string t;
  std::getline(ss, a.k, ':');
  if (std::getline(ss, t, ':')) a.v = std::atoi(t.c_str());
  if (std::getline(ss, t, ':')) a.w = std::atoi(t.c_str());
  return a;
}
static std::string json(const Action& a)
{
  std::string s = "[" + vh::quote(a.k);
  if (a.v) s += "," + std::to_string(a.v);
  if (a.w) s += "," + std::to_string(a.w);
  return s + "]";
}

static void run(const std::vector<vh::Op>& ops)
{
  G world;
  g = &world;
  for (const vh::Op& op : ops) {
    const std::string& o = op[0];
    int s = (int)vh::num(op.at(1));
    int t = o == "mc" || o == "ma" ? (int)vh::num(op.at(2)) : 0;
    // whether an object exists may depend on what handlers did: a script may guess
    bool exists = !!g->u[s];
    if (exists == (o == "empty" || o == "ctor")) continue;
    if (o == "mc" && g->u[t]) continue;
    if (o == "ma" && !g->u[t]) continue;
    vh::Ev e(o);
    e.num("s", s);
    if (t) e.num("t", t);
    g->calls.clear(); g->dels.clear();
    std::string r = "ok";
    if (o == "empty") g->u[s].emplace();
    else if (o == "ctor" || o == "assign") {
      // ctor s a d fail k lvalue
      Action a = parse(op.at(2)), d = parse(op.at(3));
      bool fail = op.at(4) == "1", lv = op.at(6) == "1";
      int k = (int)vh::num(op.at(5));
      if (fail && k == 2) k = 0;
      e.raw("a", json(a)).raw("d", json(d)).boolean("fail", fail).num("k", k);
      g->fail = fail;
      try {
        with_handler(k, a, d, [&](auto&& h) {
          if (o == "ctor") { if (lv) g->u[s].emplace(h); else g->u[s].emplace(std::move(h)); }
          else { if (lv) *g->u[s] = h; else *g->u[s] = std::move(h); }
        });
      } catch (const std::bad_alloc&) { r = "bad_alloc"; }
      g->fail = false;
    }
    else if (o == "mc") { g->u[vh::num(op.at(2))].emplace(std::move(*g->u[s])); }
    else if (o == "ma") { U& x = *g->u[s]; *g->u[vh::num(op.at(2))] = std::move(x); }
    else if (o == "complete") { r = complete(s); }
    else if (o == "reset") g->u[s]->reset();
    else if (o == "del") g->u[s].reset();
    else vh::fatal("unknown op " + o);
    std::vector<int> u, mem;
    for (int i = 1; i <= NS; ++i) u.push_back(g->u[i] ? (*g->u[i] ? 1 : 0) : -1);
    for (auto& b : g->blocks) mem.push_back(b.second.first);
    e.str("r", r).arr("calls", g->calls).arr("dels", g->dels).arr("u", u).arr("mem", mem).strs("bad", g->bad);
    e.emit();
  }
  for (int again = 1; again;) {
    again = 0;
    for (auto& u : g->u) if (u) { again = 1; u.reset(); }
  }
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
