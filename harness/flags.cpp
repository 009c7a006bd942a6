// Values of the library's flag types and their operators, at run time and in constant expressions.
#include "common.hpp"
#include <asioext/open_flags.hpp>
#include <asioext/file_perms.hpp>
#include <asioext/file_attrs.hpp>
using asioext::open_flags;
using asioext::file_perms;
using asioext::file_attrs;

template <class E> std::map<std::string, E> names();
#define N(x) {#x, T::x}
template <> std::map<std::string, open_flags> names()
{
  typedef open_flags T;
  return {N(none), N(access_read), N(access_write), N(access_read_write), N(create_new), N(create_always), N(open_existing),
          N(open_always), N(truncate_existing), N(exclusive_read), N(exclusive_write), N(internal_async)};
}
template <> std::map<std::string, file_perms> names()
{
  typedef file_perms T;
  return {N(none), N(owner_read), N(owner_write), N(owner_exec), N(owner_all), N(group_read), N(group_write), N(group_exec),
          N(group_all), N(others_read), N(others_write), N(others_exec), N(others_all), N(all), N(set_uid), N(set_gid),
          N(sticky_bit), N(create_default), N(mask)};
}
template <> std::map<std::string, file_attrs> names()
{
  typedef file_attrs T;
  return {N(none), N(hidden), N(system), N(archive), N(no_dump), N(not_indexed), N(user_immutable), N(system_immutable),
          N(user_no_unlink), N(system_no_unlink)};
}
template <> std::map<std::string, asioext::file_perm_options> names()
{
  typedef asioext::file_perm_options T;
  return {N(replace), N(add), N(remove)};
}
template <> std::map<std::string, asioext::file_attr_options> names()
{
  typedef asioext::file_attr_options T;
  return {N(replace), N(add), N(remove)};
}

template <class E> static std::string bits(E e)
{
  std::string s = "[";
  std::uint32_t v = (std::uint32_t)e;
  for (int i = 0; i < 32; ++i) if (v >> i & 1) s += (s.size() > 1 ? "," : "") + std::to_string(i);
  return s + "]";
}
template <class E> static E value(const std::string& list)
{
  std::uint32_t v = 0;
  for (int b : vh::ints(list)) v |= std::uint32_t(1) << b;
  return (E)v;
}
// the same in constant expressions
template <class E, std::uint32_t X, std::uint32_t Y> struct Const
{
  static constexpr E a = (E)X, b = (E)Y;
  static constexpr E o = a | b, n = a & b, x = a ^ b, c = ~a;
};
template <class E, std::uint32_t X, std::uint32_t Y> static void constant(std::vector<std::string>& bad)
{
  typedef Const<E, X, Y> C;
  if ((std::uint32_t)C::o != (X | Y)) bad.push_back("or in a constant expression");
  if ((std::uint32_t)C::n != (X & Y)) bad.push_back("and in a constant expression");
  if ((std::uint32_t)C::x != (X ^ Y)) bad.push_back("xor in a constant expression");
  if ((std::uint32_t)C::c != ~X) bad.push_back("complement in a constant expression");
}

template <class T> static void go(const std::vector<vh::Op>& ops)
{
  T v[3] = {};
  auto nm = names<T>();
  for (auto& op : ops) {
    vh::Ev e(op[0]);
    std::vector<std::string> bad;
    auto I = [&](std::size_t i) { int k = (int)vh::num(op.at(i)); if (k < 0 || k > 2) vh::fatal("slot"); return k; };
    auto bin = [&](const std::string& o, T a, T b) { return o == "and" ? a & b : o == "or" ? a | b : a ^ b; };
    auto asg = [&](const std::string& o, T& a, T b) -> T& {
      T& r = o == "and" ? (a &= b) : o == "or" ? (a |= b) : (a ^= b);
      if (&r != &a) bad.push_back("an assignment returned another object");
      return r;
    };
    if (op[0] == "new") {
      e.str("type", op.at(1));
      constant<T, 0, 0>(bad); constant<T, 5, 6>(bad); constant<T, 0xffffffffu, 1>(bad); constant<T, 0x80000001u, 0x80000000u>(bad);
      constant<T, 0777, 0x7fffffffu>(bad);
    }
    else if (op[0] == "bits") { v[I(1)] = value<T>(op.at(2)); e.num("i", I(1)).raw("b", bits(v[I(1)])); }
    else if (op[0] == "name") {
      auto it = nm.find(op.at(2));
      if (it == nm.end()) continue;
      v[I(1)] = it->second;
      e.num("i", I(1)).str("n", op.at(2));
    }
    else if (op[0] == "bin") {
      const T a = v[I(2)], b = v[I(3)];
      v[I(4)] = bin(op.at(1), a, b);
      e.str("o", op.at(1)).num("i", I(2)).num("j", I(3)).num("k", I(4));
    }
    else if (op[0] == "asg") { asg(op.at(1), v[I(2)], v[I(3)]); e.str("o", op.at(1)).num("i", I(2)).num("j", I(3)); }
    else if (op[0] == "chain") {
      const T b = v[I(3)], c = v[I(5)];
      asg(op.at(4), asg(op.at(1), v[I(2)], b), c);
      e.str("o", op.at(1)).num("i", I(2)).num("j", I(3)).str("o2", op.at(4)).num("k", I(5));
    }
    else if (op[0] == "not") { v[I(2)] = ~v[I(1)]; e.num("i", I(1)).num("k", I(2)); }
    else if (op[0] == "rem") { v[I(3)] = v[I(1)] & ~v[I(2)]; e.num("i", I(1)).num("j", I(2)).num("k", I(3)); }
    else if (op[0] == "ask") {
      T a = v[I(1)], b = v[I(2)];
      e.num("i", I(1)).num("j", I(2)).boolean("has", (a & b) == b).boolean("any", (a & b) != (T)0).boolean("eq", a == b);
    }
    else vh::fatal("op " + op[0]);
    e.raw("v", "[" + bits(v[0]) + "," + bits(v[1]) + "," + bits(v[2]) + "]").strs("bad", bad).emit();
  }
}

static void run(const std::vector<vh::Op>& ops)
{
  std::string t = ops.at(0).at(1);
  if (t == "open_flags") go<open_flags>(ops);
  else if (t == "file_perms") go<file_perms>(ops);
  else if (t == "file_perm_options") go<asioext::file_perm_options>(ops);
  else if (t == "file_attrs") go<file_attrs>(ops);
  else if (t == "file_attr_options") go<asioext::file_attr_options>(ops);
  else vh::fatal("type " + t);
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
