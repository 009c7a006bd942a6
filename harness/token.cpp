// Drives cancellation_token_source and cancellation_token. With a leading
// "race" the operation runs while one thread per token keeps querying, copying
// and dropping copies of it.
#include "common.hpp"
#include <asioext/cancellation_token.hpp>
#include <atomic>
#include <optional>
#include <thread>

using asioext::cancellation_token;
using asioext::cancellation_token_source;
enum { NS = 3, NT = 4 };

struct Watch
{
  bool seen0 = false, seen1 = false, back = false;
  int last = -1;
};

static void run(const std::vector<vh::Op>& ops)
{
  std::optional<cancellation_token_source> src[NS + 1];
  std::optional<cancellation_token> tok[NT + 1];
  std::vector<cancellation_token> crowd[NT + 1];  // further tokens like tok[t]
  for (const vh::Op& full : ops) {
    if (full[0] == "mark") { vh::mark(); continue; }
    bool race = full[0] == "race";
    vh::Op op(full.begin() + race, full.end());
    const std::string& o = op[0];
    int s = (int)vh::num(op.at(1)), d = op.size() > 2 ? (int)vh::num(op[2]) : 0;
    vh::Ev e(o);
    e.num("s", s).num("d", d);
    std::atomic<int> ready{0};
    std::atomic<bool> stop{false};
    Watch w[NT + 1];
    std::vector<std::thread> th;
    if (race) {
      int n = 0;
      for (int t = 1; t <= NT; ++t) {
        if (!tok[t]) continue;
        ++n;
        th.emplace_back([&, t, mine = cancellation_token(*tok[t])]() {
          cancellation_token a(mine);
          bool was = false, first = true;
          for (;;) {
            bool fin = stop.load();
            bool c = a.cancelled();
            (c ? w[t].seen1 : w[t].seen0) = true;
            if (was && !c) w[t].back = true;
            was = c;
            cancellation_token b(a);
            a = b;
            w[t].last = c;
            if (first) { first = false; ++ready; }
            if (fin) break;
          }
        });
      }
      while (ready.load() < n) std::this_thread::yield();
    }
    if (o == "new") src[s].emplace();
    else if (o == "del") src[s].reset();
    else if (o == "cancel") { for (int64_t n = op.size() > 2 ? vh::num(op[2]) : 1; n > 0; --n) src[s]->cancel(); }
    else if (o == "destroy") src[s]->destroy();
    else if (o == "reset") src[s]->reset();
    else if (o == "mc") src[d].emplace(std::move(*src[s]));
    else if (o == "ma") *src[d] = std::move(*src[s]);
    else if (o == "issue") {
      tok[s].emplace(*src[d]);
      crowd[s].clear();
      for (int64_t n = op.size() > 3 ? vh::num(op[3]) : 0; n > 0; --n) crowd[s].emplace_back(*src[d]);
    }
    else if (o == "tcopy") tok[d].emplace(*tok[s]);
    else if (o == "tassign") { const cancellation_token& x = *tok[s]; *tok[d] = x; if (s != d) crowd[d].clear(); }
    else if (o == "tdel") { tok[s].reset(); crowd[s].clear(); }
    else vh::fatal("unknown op " + o);
    if (race) {
      stop = true;
      for (auto& t : th) t.join();
      std::string a = "[";
      for (int t = 1; t <= NT; ++t)
        a += std::string(t > 1 ? "," : "") + "{\"seen0\":" + (w[t].seen0 ? "true" : "false") + ",\"seen1\":" +
             (w[t].seen1 ? "true" : "false") + ",\"back\":" + (w[t].back ? "true" : "false") +
             ",\"last\":" + std::to_string(w[t].last) + "}";
      e.raw("watch", a + "]");
    }
    std::vector<int> c;
    for (int t = 1; t <= NT; ++t) {
      int v = tok[t] ? (tok[t]->cancelled() ? 1 : 0) : -1;
      for (const cancellation_token& x : crowd[t])
        if (x.cancelled() != (v == 1)) v = 2;
      c.push_back(v);
    }
    e.arr("c", c);
    e.emit();
  }
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
