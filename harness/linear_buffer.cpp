// Drives basic_linear_buffer with scripts of the operations of spec/LinearBuffer.tla
// and records what a user can observe after each of them.
#include "common.hpp"
#include "blocks.hpp"
#include <algorithm>
#include <new>
#include <stdexcept>
#include "netns.hpp"
#include "asioext/linear_buffer.hpp"

using vh::Ev;
using vh::Op;

// Allocation ledger, per allocator identity.
struct Ledger
{
  std::map<void*, std::pair<int, std::size_t>> blocks;
  int bad = 0;
  bool fail = false;
} led;

struct Cookie { int id = 0; };

template <int Kind> // 0: always equal, 1: stateful+propagating, 2: stateful, not propagating
struct Alloc
{
  typedef uint8_t value_type;
  typedef std::integral_constant<bool, Kind != 2> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool, Kind == 0> is_always_equal;
  Alloc() noexcept {}
  explicit Alloc(int i) noexcept : id(Kind == 0 ? 0 : i) {}
  template <class U> struct rebind { typedef Alloc other; };
  uint8_t* allocate(std::size_t n)
  {
    if (led.fail) { led.fail = false; throw std::bad_alloc(); }
    uint8_t* p = static_cast<uint8_t*>(std::malloc(n ? n : 1));
    if (!p) throw std::bad_alloc();
    std::memset(p, 0xEE, n);
    led.blocks[p] = {id, n};
    return p;
  }
  void deallocate(uint8_t* p, std::size_t n) noexcept
  {
    auto it = led.blocks.find(p);
    if (it == led.blocks.end() || it->second.first != id || it->second.second != n) { ++led.bad; if (it == led.blocks.end()) return; }
    led.blocks.erase(it);
    std::memset(p, 0xDD, n);
    std::free(p);
  }
  friend bool operator==(const Alloc& a, const Alloc& b) noexcept { return a.id == b.id; }
  friend bool operator!=(const Alloc& a, const Alloc& b) noexcept { return a.id != b.id; }
  int id = 0;
};

static const long long BIG = 1000000000LL;

template <int Kind>
struct Driver
{
  typedef asioext::basic_linear_buffer<Alloc<Kind>> B;
  std::unique_ptr<B> b[3];
  const uint8_t* ptr[3] = {nullptr, nullptr, nullptr};

  void observe(Ev& e)
  {
    std::string s = "[";
    for (int i = 0; i < 2; ++i) {
      if (i) s += ",";
      if (!b[i]) { s += "{\"live\":false}"; ptr[i] = nullptr; continue; }
      B& x = *b[i];
      const B& cx = x;
      std::vector<int> c = blk::values(x.data(), x.size());
      bool v = x.end() - x.begin() == (std::ptrdiff_t)x.size() && x.empty() == (x.size() == 0);
      v = v && cx.end() - cx.begin() == (std::ptrdiff_t)x.size() && cx.begin() == x.begin() && cx.data() == x.data() && x.data() == x.begin();
      for (std::size_t k = 0; v && k < x.size(); k += 1 + blk::K / 16)
        v = &x[k] == x.data() + k && &cx[k] == x.data() + k;
      auto mb = x.as_buffers();
      auto cb = cx.as_buffers();
      auto ab = net::buffer(x);
      auto acb = net::buffer(cx);
      v = v && mb.size() == x.size() && cb.size() == x.size() && ab.size() == x.size() && acb.size() == x.size();
      v = v && (x.empty() || (mb.data() == x.data() && cb.data() == x.data() && ab.data() == x.data() && acb.data() == x.data()));
      Ev r("s");
      r.boolean("live", true).arr("c", c).num("cap", (long long)std::min<std::size_t>(x.capacity() / blk::K, BIG))
       .num("max", x.max_size() / blk::K >= (std::size_t)BIG ? BIG : blk::units(x.max_size())).boolean("views", v)
       .boolean("mv", ptr[i] != x.data());
      ptr[i] = x.data();
      s += r.json();
    }
    s += "]";
    std::vector<long long> out(3, 0);
    for (auto& x : led.blocks) out[x.second.first] += (long long)(x.second.second / blk::K);
    e.raw("st", s).arr("led", out).num("bad", led.bad);
    e.emit();
  }

  void run(const std::vector<Op>& ops)
  {
    for (auto& op : ops) {
      const std::string& o = op[0];
      if (o == "config") continue;
      Ev e(o);
      e.num("kind", Kind);
      int s = std::atoi(op[1].c_str()) - 1;
      e.num("s", s + 1);
      std::string r = "ok";
      bool fail = false, skip = false;
      auto guarded = [&](auto f) {
        led.fail = fail;
        try { f(); }
        catch (std::length_error&) { r = "length_error"; }
        catch (std::bad_alloc&) { r = "bad_alloc"; }
        catch (std::exception&) { r = "other"; }
        led.fail = false;
      };
      if (o == "new") { // new s alloc
        int a = vh::num(op[2]);
        e.num("a", Kind == 0 ? 0 : a);
        if (b[s]) skip = true;
        else if (a == 0 && s % 2 == 0) b[s].reset(new B());
        else b[s].reset(new B(Alloc<Kind>(a)));
      } else if (o == "newn") { // newn s alloc n max bytes fail
        int a = vh::num(op[2]);
        auto d = vh::bytes(op[3]);
        long long mx = vh::num(op[4]);
        fail = op[5] == "1";
        e.num("a", Kind == 0 ? 0 : a).arr("d", d).num("max", mx).boolean("fail", fail);
        if (b[s]) skip = true;
        else guarded([&] {
          if (a == 0 && s % 2 == 0) b[s].reset(mx >= BIG ? new B(d.size() * blk::K) : new B(d.size() * blk::K, mx * blk::K));
          else b[s].reset(mx >= BIG ? new B(Alloc<Kind>(a), d.size() * blk::K) : new B(Alloc<Kind>(a), d.size() * blk::K, mx * blk::K));
          blk::put(d, b[s]->begin());
        });
      } else if (o == "del") {
        if (!b[s]) skip = true; else b[s].reset();
      } else if (o == "cctor" || o == "mctor") { // s from t
        int t = std::atoi(op[2].c_str()) - 1;
        e.num("t", t + 1);
        fail = op.size() > 3 && op[3] == "1";
        e.boolean("fail", fail);
        if (b[s] || !b[t]) skip = true;
        else guarded([&] { if (o == "cctor") b[s].reset(new B(*b[t])); else b[s].reset(new B(std::move(*b[t]))); });
      } else if (o == "cassign" || o == "massign") {
        int t = std::atoi(op[2].c_str()) - 1;
        e.num("t", t + 1);
        fail = op.size() > 3 && op[3] == "1";
        e.boolean("fail", fail);
        if (!b[s] || !b[t]) skip = true;
        else guarded([&] { if (o == "cassign") *b[s] = *b[t]; else *b[s] = std::move(*b[t]); });
      } else if (!b[s]) {
        skip = true;
      } else if (o == "append") { // s bytes fail
        auto d = vh::bytes(op[2]);
        fail = op[3] == "1";
        e.arr("d", d).boolean("fail", fail);
        auto x = blk::expand(d);
        guarded([&] { b[s]->append(x.data(), x.size()); });
      } else if (o == "insert") { // s pos bytes fail iter
        std::size_t pos = vh::num(op[2]);
        auto d = vh::bytes(op[3]);
        fail = op[4] == "1";
        e.num("pos", pos).arr("d", d).boolean("fail", fail);
        auto x = blk::expand(d);
        pos *= blk::K;
        if (pos > b[s]->size()) skip = true;
        else guarded([&] {
          if (op[5] == "1") b[s]->insert(const_cast<const B&>(*b[s]).begin() + pos, x.data(), x.size());
          else b[s]->insert(pos, x.data(), x.size());
        });
      } else if (o == "erase") { // s first last iter
        std::size_t f = vh::num(op[2]), l = vh::num(op[3]);
        e.num("f", f).num("l", l);
        f *= blk::K; l *= blk::K;
        if (f > l || l > b[s]->size()) skip = true;
        else {
          const B& c = *b[s];
          if (op[4] == "1") { if (l == f + 1 && op.size() > 5) b[s]->erase(c.begin() + f); else b[s]->erase(c.begin() + f, c.begin() + l); }
          else { if (l == f + 1 && op.size() > 5) b[s]->erase(f); else b[s]->erase(f, l); }
        }
      } else if (o == "resize") { // s n fill fail
        std::size_t n = vh::num(op[2]);
        int fill = vh::num(op[3]);
        fail = op[4] == "1";
        e.num("n", n).num("fill", fill).boolean("fail", fail);
        std::size_t old = b[s]->size();
        guarded([&] { b[s]->resize(n * blk::K); for (std::size_t k = old; k + blk::K <= b[s]->size(); k += blk::K) blk::fill(&(*b[s])[k], fill); });
      } else if (o == "reserve") { // s n fail
        std::size_t n = vh::num(op[2]);
        fail = op[3] == "1";
        e.num("n", n).boolean("fail", fail);
        guarded([&] { b[s]->reserve(n * blk::K); });
      } else if (o == "huge") { // s which k: a request of (largest size - k) bytes
        std::size_t n = SIZE_MAX - (std::size_t)vh::num(op[3]);
        int w = vh::num(op[2]);
        e.num("w", w);
        static const uint8_t one[1] = {0};
        if (b[s]->max_size() / blk::K >= (std::size_t)BIG) skip = true;
        else guarded([&] {
          if (w == 0) b[s]->append(one, n);
          else if (w == 1) b[s]->insert(b[s]->size(), one, n);
          else if (w == 2) b[s]->resize(n);
          else if (w == 3) b[s]->reserve(n);
          else b[s]->insert(std::size_t(0), one, n);
        });
      } else if (o == "clear") {
        b[s]->clear();
      } else vh::fatal("unknown op " + o);
      if (skip) continue;
      e.str("r", r);
      observe(e);
    }
    for (auto& x : b) x.reset();
    Ev e("end");
    e.num("kind", Kind);
    observe(e);
  }
};

int main(int argc, char** argv)
{
  return vh::run_main(argc, argv, [](const std::vector<Op>& ops) {
    led = Ledger();
    int k = ops.empty() || ops[0][0] != "config" ? 0 : vh::num(ops[0][1]);
    blk::K = ops.empty() || ops[0][0] != "config" || ops[0].size() < 3 ? 1 : vh::num(ops[0][2]);
    if (k == 0) Driver<0>().run(ops);
    else if (k == 1) Driver<1>().run(ops);
    else Driver<2>().run(ops);
  });
}
