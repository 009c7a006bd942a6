// Parses URLs held in blocks of exactly their size, with both constructors.
#include "common.hpp"
#include "netns.hpp"
#include <asioext/url_view.hpp>
#include <asioext/error.hpp>

typedef asioext::error_code EC;

static bool alike(const asioext::url_view& t, const asioext::url_view& u)
{
  return t.scheme() == u.scheme() && t.userinfo() == u.userinfo() && t.host() == u.host() && t.port() == u.port() && t.port_value() == u.port_value() &&
         t.path() == u.path() && t.query() == u.query() && t.fragment() == u.fragment() && t.is_valid() == u.is_valid() && bool(t) == bool(u);
}
static bool blank(const asioext::url_view& u)
{
  return !u && !u.is_valid() && u.scheme().empty() && u.userinfo().empty() && u.host().empty() && u.port().empty() && u.port_value() == 0 &&
         u.path().empty() && u.query().empty() && u.fragment().empty();
}

// With a run length R > 1 every 'z' of the URL is R of them; components are folded back.
static std::vector<int> folded(std::string_view c, std::size_t R)
{
  std::vector<int> v;
  for (std::size_t i = 0; i < c.size();) {
    if (R == 1 || c[i] != 'z') { v.push_back((unsigned char)c[i++]); continue; }
    std::size_t j = i;
    while (j < c.size() && c[j] == 'z') ++j;
    for (std::size_t k = 0; k < (j - i) / R; ++k) v.push_back('z');
    if ((j - i) % R) v.push_back(-1);
    i = j;
  }
  return v;
}

static void run(const std::vector<vh::Op>& ops)
{
  for (auto& o : ops) {
    auto b0 = vh::bytes(o[1]);
    const std::size_t R = o.size() > 3 ? vh::num(o[3]) : 1;
    decltype(b0) b;
    for (auto ch : b0) b.insert(b.end(), ch == 'z' ? R : 1, ch);
    std::unique_ptr<char[]> mem(new char[b.size()]);
    std::copy(b.begin(), b.end(), mem.get());
    std::string_view in(mem.get(), b.size());
    EC ec = o.size() > 2 && o[2] == "1" ? EC(asioext::url_error::missing_host) : EC();
    asioext::url_view u(in, ec);
    vh::Ev e("url");
    e.arr("in", b0).boolean("ok", !ec).boolean("valid", u.is_valid());
    bool inside = true, same = true;
    std::vector<std::string_view> c{u.scheme(), u.userinfo(), u.host(), u.path(), u.query(), u.fragment()};
    static const char* names[] = {"scheme", "userinfo", "host", "path", "query", "fragment"};
    for (int i = 0; i < 6; ++i) {
      if (!c[i].empty() && (c[i].data() < in.data() || c[i].data() + c[i].size() > in.data() + in.size())) { inside = false; c[i] = {}; }
      e.arr(names[i], folded(c[i], R));
    }
    e.arr("port", folded(u.port(), R));
    e.num("pv", u.port_value());
    bool bad_category = ec && ec.category() != asioext::url_error_category();
    try {
      asioext::url_view t(in);
      same = !ec && alike(t, u);
    } catch (const SysErr& x) { same = ec && x.code() == ec; }
    e.boolean("inside", inside).boolean("same", same).boolean("badcat", bad_category);
    // a view of nothing, one that takes over another's value, a copy
    asioext::url_view d;
    e.boolean("blank", blank(d));
    d = u;
    asioext::url_view d2(d);
    e.boolean("copied", alike(d, u) && alike(d2, u)).boolean("truth", bool(u));
    e.emit();
  }
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
