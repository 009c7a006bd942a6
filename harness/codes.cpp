// Makes, passes on and compares the library's error codes in two translation units.
#include "codes.hpp"
#if defined(ASIOEXT_USE_BOOST_ASIO)
typedef boost::system::error_condition ECond;
#else
typedef std::error_condition ECond;
#endif
const Unit unit_a = {&make, &same_as, &category, &parse, &socks, &raise};

static std::string catname(const EC& e)
{
  const char* known[] = {"url", "socks", "system", "generic", "misc"};
  std::string r = "none";
  for (auto k : known)
    if (e.category() == unit_a.category(k)) r = r == "none" ? k : "ambiguous";
  return r;
}

static void run(const std::vector<vh::Op>& ops)
{
  std::vector<EC> c(4);
  for (auto& op : ops) {
    vh::Ev e(op[0]);
    auto I = [&](std::size_t i) { return (int)vh::num(op.at(i)); };
    auto U = [&](std::size_t i) -> const Unit& { return I(i) ? unit_b : unit_a; };
    if (op[0] == "new") ;
    else if (op[0] == "make") {
      // make I cat v how unit
      c.at(I(1)) = U(5).make(op.at(2), I(3), op.at(4));
      e.num("i", I(1)).str("cat", op.at(2)).num("v", I(3));
    }
    else if (op[0] == "copy") { c.at(I(2)) = EC(c.at(I(1))); e.num("i", I(1)).num("j", I(2)); }
    else if (op[0] == "clear") { c.at(I(1)) = EC(); e.num("i", I(1)); }
    else if (op[0] == "throw") {
      EC got(98, asioext::generic_category());
      try { U(3).raise(c.at(I(1))); } catch (const std::exception& x) { if (auto s = dynamic_cast<const SysErr*>(&x)) got = s->code(); }
      c.at(I(2)) = got;
      e.num("i", I(1)).num("j", I(2));
    }
    else if (op[0] == "parse") {
      // parse I what throwing unit
      const std::string what = op.at(2);
      const char* url = what == "good" ? "http://h:80/p?q#f" : what == "space" ? "ht tp://h/" : what == "nohost" ? "http://u@/p" : "http://h:65536/";
      c.at(I(1)) = U(4).parse(url, I(3));
      e.num("i", I(1)).str("what", what);
    }
    else if (op[0] == "socks") {
      c.at(I(1)) = U(5).socks(op.at(2), I(3), I(4));
      e.num("i", I(1)).str("what", op.at(2)).num("reply", I(3)).num("version", I(4));
    }
    else if (op[0] == "same") e.num("i", I(1)).str("cat", op.at(2)).num("v", I(3)).num("r", U(4).same_as(c.at(I(1)), op.at(2), I(3)));
    else if (op[0] == "equal") {
      const EC &a = c.at(I(1)), &b = c.at(I(2));
      const bool r = a == b;
      const bool insane = (a != b) == r || (b == a) != r || (r && (a < b || b < a)) || (!r && (a < b) == (b < a));
      e.num("i", I(1)).num("j", I(2)).num("r", insane ? 2 : r);
    }
    else if (op[0] == "errc") {
      // does it stand for an error of the C library?
      const EC& a = c.at(I(1));
      e.num("i", I(1)).num("v", I(2)).boolean("r", a == ECond(I(2), asioext::generic_category()) || a.default_error_condition() == ECond(I(2), asioext::generic_category()));
    }
    else if (op[0] == "look") {
      const EC& a = c.at(I(1));
      e.num("i", I(1)).num("v", a.value()).str("cat", catname(a)).boolean("set", !!a).str("name", a.category().name()).str("msg", a.message());
      std::string w;
      try { U(2).raise(a); } catch (const std::exception& x) { w = x.what(); }
      e.boolean("told", w.find(a.message()) != std::string::npos);
    }
    else vh::fatal("op " + op[0]);
    e.emit();
  }
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
