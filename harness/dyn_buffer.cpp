// Drives dynamic_linear_buffer with scripts of the operations of spec/DynBuffer.tla.
#include "common.hpp"
#include "blocks.hpp"
#include <algorithm>
#include <stdexcept>
#include "netns.hpp"
#include "asioext/linear_buffer.hpp"

using vh::Ev;
using vh::Op;
typedef asioext::linear_buffer LB;
typedef decltype(asioext::dynamic_buffer(std::declval<LB&>())) DB;

static const std::size_t BIG = 1000000000;

static std::size_t big(const std::string& t)
{
  long long v = vh::num(t);
  return v < 0 ? SIZE_MAX + 1 + (std::size_t)v : blk::K > 1 && v >= (long long)BIG ? SIZE_MAX : (std::size_t)v * blk::K;  // -1 is the largest value
}
static long long cap(std::size_t n) { return (long long)std::min<std::size_t>(n / blk::K, 2 * BIG); }
static long long clip(std::size_t n)
{
  return n / blk::K >= BIG ? (long long)std::min<std::size_t>(n / blk::K, 2 * BIG) : blk::units(n);
}

struct Driver
{
  std::unique_ptr<LB> lb;
  std::unique_ptr<DB> db;
  bool v1 = true;

  bool inside(const void* p, std::size_t n)
  {
    if (n == 0) return true;
    const uint8_t* b = lb->data();
    const uint8_t* q = static_cast<const uint8_t*>(p);
    return n <= lb->size() && q >= b && q + n <= b + lb->size();
  }

  template <class Buf>
  std::vector<int> content(const Buf& b, bool& in)
  {
    if (!inside(b.data(), b.size())) { in = false; return {}; }
    const uint8_t* p = static_cast<const uint8_t*>(b.data());
    return blk::values(p, b.size());
  }

  void observe(Ev& e)
  {
    bool in = true;
    const DB& c = *db;
    e.num("size", clip(db->size())).num("vmax", std::min<long long>(clip(db->max_size()), BIG)).num("cap", cap(db->capacity()));
    if (v1) {
      auto a = content(db->data(), in);
      auto b = content(c.data(), in);
      e.num("dsize", clip(db->data().size())).num("cdsize", clip(c.data().size())).arr("inp", a).boolean("same", a == b);
    } else {
      auto a = content(db->data(0, db->size()), in);
      auto b = content(c.data(0, db->size()), in);
      e.num("dsize", clip(db->data(0, db->size()).size())).num("cdsize", clip(c.data(0, db->size()).size()))
       .arr("inp", a).boolean("same", a == b);
    }
    e.boolean("in", in).arr("lb", blk::values(lb->data(), lb->size())).num("lbcap", cap(lb->capacity()));
    e.emit();
  }

  void run(const std::vector<Op>& ops)
  {
    for (auto& op : ops) {
      const std::string& o = op[0];
      if (o == "config") continue;
      Ev e(o);
      std::string r = "ok";
      auto guarded = [&](auto f) {
        try { f(); }
        catch (std::length_error&) { r = "length_error"; }
        catch (std::bad_alloc&) { r = "bad_alloc"; }
        catch (std::exception&) { r = "other"; }
      };
      if (o == "buffer") { // buffer bytes max
        auto d = vh::bytes(op[1]);
        std::size_t mx = big(op[2]);
        db.reset();
        lb.reset(new LB(0, mx / blk::K >= BIG ? SIZE_MAX : mx));
        auto x = blk::expand(d);
        lb->append(x.data(), x.size());
        e.arr("d", d).num("max", std::min<long long>(clip(mx), BIG));
        e.emit();
        continue;
      }
      if (!lb) continue;
      if (o == "view") { // view max v1
        std::size_t mx = big(op[1]);
        if (mx < lb->size()) continue;
        v1 = op[2] == "1";
        db.reset();
        if (mx / blk::K >= BIG && op.size() > 3) db.reset(new DB(asioext::dynamic_buffer(*lb)));
        else if (mx / blk::K >= BIG) db.reset(new DB(*lb));
        else db.reset(new DB(*lb, mx));
        e.num("max", std::min<long long>(clip(mx), BIG)).boolean("v1", v1);
      } else if (!db) {
        continue;
      } else if (o == "vmove") {
        DB* n = new DB(std::move(*db));
        db.reset(n);
      } else if (o == "prepare" || o == "prepare_ec") { // bytes to put there
        if (!v1) continue;
        auto d = vh::bytes(op[1]);
        std::size_t n = op.size() > 3 ? big(op[3]) : d.size() * blk::K;
        if (op.size() > 3) d.clear();
        e.arr("d", d).num("n", clip(n)).boolean("huge", op.size() > 3);
        bool in = true;
        std::size_t got = 0;
        if (o == "prepare") {
          guarded([&] {
            auto b = db->prepare(n);
            got = b.size();
            in = inside(b.data(), b.size());
            if (in && b.size() >= d.size() * blk::K) blk::put(d, static_cast<uint8_t*>(b.data()));
          });
        } else {
          asioext::error_code ec;
          if (op[2] == "1") ec = net::error::operation_aborted;
          guarded([&] {
            auto b = db->prepare(n, ec);
            got = b.size();
            if (ec) r = ec == net::error::no_memory ? "no_memory" : "other_error";
            in = inside(b.data(), b.size());
            if (!ec && in && b.size() >= d.size() * blk::K) blk::put(d, static_cast<uint8_t*>(b.data()));
          });
        }
        e.num("got", clip(got)).boolean("win", in);
      } else if (o == "commit") {
        if (!v1) continue;
        e.num("n", clip(big(op[1])));
        if (!prepared) continue;
        db->commit(big(op[1]));
      } else if (o == "consume") {
        e.num("n", clip(big(op[1])));
        db->consume(big(op[1]));
      } else if (o == "grow") {
        if (v1) continue;
        auto d = vh::bytes(op[1]);
        std::size_t n = op.size() > 2 ? big(op[2]) : d.size() * blk::K;
        if (op.size() > 2) d.clear();
        e.arr("d", d).num("n", clip(n)).boolean("huge", op.size() > 2);
        std::size_t old = db->size();
        bool in = true;
        std::size_t got = 0;
        guarded([&] {
          db->grow(n);
          auto b = db->data(old, n);
          got = b.size();
          in = inside(b.data(), b.size());
          if (in && b.size() >= d.size() * blk::K) blk::put(d, static_cast<uint8_t*>(b.data()));
        });
        e.num("got", clip(got)).boolean("win", in);
      } else if (o == "shrink") {
        if (v1) continue;
        e.num("n", clip(big(op[1])));
        db->shrink(big(op[1]));
      } else if (o == "data") { // pos n const
        std::size_t pos = big(op[1]), n = big(op[2]);
        e.num("pos", clip(pos)).num("n", clip(n));
        const DB& c = *db;
        bool in = true;
        std::vector<int> v;
        if (op[3] == "1") { auto b = c.data(pos, n); e.num("got", clip(b.size())); v = content(b, in); }
        else { auto b = db->data(pos, n); e.num("got", clip(b.size())); v = content(b, in); }
        e.arr("v", v).boolean("win", in);
      } else vh::fatal("unknown op " + o);
      if (o == "view" || o == "consume" ) prepared = false;
      if (o == "prepare" || o == "prepare_ec") prepared = r == "ok" || (prepared && o != "view");
      e.str("r", r);
      observe(e);
    }
    db.reset();
    lb.reset();
  }
  bool prepared = false;
};

int main(int argc, char** argv)
{
  return vh::run_main(argc, argv, [](const std::vector<Op>& ops) {
    blk::K = ops.empty() || ops[0][0] != "config" ? 1 : vh::num(ops[0][1]);
    Driver().run(ops);
  });
}
