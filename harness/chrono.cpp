// Runs the time conversions for many combinations of unit and representation. Numbers go to the trace as
// digits in base 1000 (see Chrono.tla).
#include "common.hpp"
#include <asioext/detail/chrono.hpp>
#include <cerrno>
#include <ctime>
#include <utility>

namespace ch = asioext::chrono;
typedef __int128 big;

static std::vector<int> dig(big v)
{
  std::vector<int> r{v < 0 ? -1 : v > 0 ? 1 : 0};
  for (big x = v < 0 ? -v : v; x; x /= 1000) r.push_back((int)(x % 1000));
  return r;
}
static big floor_div(big a, big b) { big q = a / b; return a % b < 0 ? q - 1 : q; }

template <class D, class F, class S, class U> struct Units
{
  typedef D d; typedef F f; typedef S s;
  static constexpr big pd = std::ratio_divide<D, U>::num, pf = std::ratio_divide<F, U>::num, ps = std::ratio_divide<S, U>::num;
  static_assert(std::ratio_divide<D, U>::den == 1 && std::ratio_divide<F, U>::den == 1 && std::ratio_divide<S, U>::den == 1);
  // implicit conversions the library needs
  static constexpr bool joins = pf % pd == 0 && ps % pd == 0;
};
typedef std::ratio<1> sec;
typedef std::ratio<1, 10> deci;
typedef std::tuple<
  Units<deci, sec, deci, deci>,
  Units<std::nano, sec, std::nano, std::nano>,
  Units<std::milli, sec, std::milli, std::milli>,
  Units<sec, std::ratio<60>, sec, sec>,
  Units<std::nano, sec, std::micro, std::nano>,
  Units<std::micro, sec, std::nano, std::nano>,
  Units<std::micro, sec, std::micro, std::micro>,
  Units<std::milli, std::ratio<3600>, sec, std::milli>,
  Units<std::ratio<1, 10000000>, sec, std::ratio<1, 10000000>, std::ratio<1, 10000000>>,
  Units<sec, sec, sec, sec>,
  Units<std::ratio<1, 2>, std::ratio<3, 2>, std::ratio<1, 2>, std::ratio<1, 2>>,
  Units<std::ratio<60>, sec, std::milli, std::milli>
> Triples;
template <int I> struct RepT;
template <> struct RepT<0> { typedef std::int8_t t; };
template <> struct RepT<1> { typedef std::int16_t t; };
template <> struct RepT<2> { typedef std::int32_t t; };
template <> struct RepT<3> { typedef std::int64_t t; };
// the first four with all representations, the others with six
static constexpr int kFull = 4, kSome[6] = {0333, 0323, 0222, 0332, 0111, 0233};
static constexpr int nTypes = 64 * kFull + 6 * ((int)std::tuple_size<Triples>::value - kFull);

template <int T> struct Type
{
  static constexpr int triple = T < 64 * kFull ? T / 64 : kFull + (T - 64 * kFull) / 6;
  static constexpr int reps = T < 64 * kFull ? ((T / 16 % 4) << 6 | (T / 4 % 4) << 3 | T % 4) : kSome[(T - 64 * kFull) % 6];
  typedef std::tuple_element_t<triple, Triples> u;
  typedef typename RepT<(reps >> 6)>::t rd; typedef typename RepT<(reps >> 3 & 7)>::t rf; typedef typename RepT<(reps & 7)>::t rs;
  typedef ch::duration<rd, typename u::d> D; typedef ch::duration<rf, typename u::f> F; typedef ch::duration<rs, typename u::s> S;

  static void units(vh::Ev& e)
  {
    e.arr("pd", dig(u::pd)).arr("pf", dig(u::pf)).arr("ps", dig(u::ps)).num("rd", 8 * sizeof(rd)).num("rf", 8 * sizeof(rf)).num("rs", 8 * sizeof(rs));
  }
  static void join(const char* op, long long fv, long long sv, const D* was)
  {
    if constexpr (u::joins) {
      if ((rf)fv != fv || (rs)sv != sv) vh::fatal("value");
      D out(77);
      bool ok = asioext::detail::compose_time(F((rf)fv), S((rs)sv), out);
      vh::Ev e(op); units(e);
      e.arr("f", dig(fv)).arr("s", dig(sv)).boolean("ok", ok).arr("v", dig(ok ? (big)out.count() : 0));
      if (was) e.arr("was", dig(was->count()));
      e.emit();
    }
  }
  static void dec(long long v)
  {
    if ((rd)v != v) vh::fatal("value");
    D in((rd)v); F f(55); S s(66);
    bool ok = asioext::detail::decompose_time(in, f, s);
    big x = (big)v * u::pd, q = floor_div(x, u::pf);
    vh::Ev e("dec"); units(e);
    e.arr("v", dig(v)).boolean("ok", ok).arr("f", dig(ok ? (big)f.count() : 0)).arr("s", dig(ok ? (big)s.count() : 0))
      .arr("q", dig(q)).arr("r", dig(x - q * u::pf)).arr("m", dig(u::pd % u::ps ? 0 : u::pd / u::ps)).emit();
    if (ok && u::pd % u::ps == 0) join("back", f.count(), s.count(), &in);
  }
};
typedef void (*DecFn)(long long);
template <int... I> static DecFn dec_at(int i, std::integer_sequence<int, I...>) { static const DecFn t[] = {&Type<I>::dec...}; return t[i]; }
template <int I> static void join_at1(long long f, long long s) { Type<I>::join("cmp", f, s, nullptr); }
template <int... I> static void (*join_at(int i, std::integer_sequence<int, I...>))(long long, long long)
{
  static void (*const t[])(long long, long long) = {&join_at1<I>...};
  return t[i];
}

typedef std::tuple<std::pair<sec, sec>, std::pair<sec, std::milli>, std::pair<std::milli, sec>, std::pair<std::ratio<60>, std::nano>, std::pair<std::nano, std::ratio<3600>>,
                   std::pair<std::ratio<1, 24>, std::ratio<1, 30>>, std::pair<std::ratio<1, 30>, std::ratio<1, 24>>, std::pair<std::milli, std::ratio<1, 1024>>,
                   std::pair<std::ratio<3, 2>, sec>, std::pair<sec, std::ratio<3, 2>>, std::pair<std::ratio<1001, 30000>, std::ratio<1, 90000>>,
                   std::pair<std::ratio<1000000007>, std::ratio<1000000009>>> CastUnits;
static constexpr int nCasts = 16 * (int)std::tuple_size<CastUnits>::value;
template <int T> static void cast_at1(long long v)
{
  typedef std::tuple_element_t<T / 16, CastUnits> p;
  typedef typename RepT<T / 4 % 4>::t ri; typedef typename RepT<T % 4>::t ro;
  typedef std::ratio_divide<typename p::first_type, typename p::second_type> q;
  if ((ri)v != v) vh::fatal("value");
  ch::duration<ro, typename p::second_type> out(99);
  bool ok = asioext::detail::safe_duration_cast(ch::duration<ri, typename p::first_type>((ri)v), out);
  // in the unit 1/(lcm of denominators)
  big l = (big)p::first_type::den * p::second_type::den;
  vh::Ev("cast").arr("v", dig(v)).arr("pi", dig(l / p::first_type::den * p::first_type::num)).arr("po", dig(l / p::second_type::den * p::second_type::num))
    .num("ro", 8 * sizeof(ro)).arr("num", dig(q::num)).arr("den", dig(q::den)).boolean("ok", ok).arr("o", dig(ok ? (big)out.count() : 0)).emit();
}
template <int... I> static DecFn cast_at(int i, std::integer_sequence<int, I...>) { static const DecFn t[] = {&cast_at1<I>...}; return t[i]; }

static long long ll(const std::string& s) { return std::strtoll(s.c_str(), nullptr, 10); }
static big nanos() { timespec t; ::clock_gettime(CLOCK_REALTIME, &t); return (big)t.tv_sec * 1000000000 + t.tv_nsec; }

static void run(const std::vector<vh::Op>& ops)
{
  for (auto& o : ops) {
    if (o[0] == "dec") dec_at(ll(o[1]), std::make_integer_sequence<int, nTypes>())(ll(o[2]));
    else if (o[0] == "cmp") join_at(ll(o[1]), std::make_integer_sequence<int, nTypes>())(ll(o[2]), ll(o[3]));
    else if (o[0] == "cast") cast_at(ll(o[1]), std::make_integer_sequence<int, nCasts>())(ll(o[2]));
    else if (o[0] == "tt") {
      std::time_t t = (std::time_t)ll(o[1]);
      auto p = asioext::file_clock::from_time_t(t);
      vh::Ev("from").arr("t", dig(t)).arr("p", dig(p.time_since_epoch().count())).emit();
      vh::Ev("round").arr("t", dig(t)).arr("u", dig(asioext::file_clock::to_time_t(p))).emit();
    } else if (o[0] == "to") {
      long long v = ll(o[1]);
      vh::Ev("to").arr("p", dig(v)).arr("t", dig(asioext::file_clock::to_time_t(asioext::file_time_type(asioext::file_time_type::duration(v))))).emit();
    } else if (o[0] == "now") {
      big a, b, n;
      errno = ENOENT;      // of some earlier call
      do { a = nanos(); n = asioext::file_clock::now().time_since_epoch().count(); b = nanos(); } while (b < a);
      vh::Ev("now").arr("a", dig(a)).arr("n", dig(n)).arr("b", dig(b)).emit();
    } else vh::fatal("op " + o[0]);
  }
}

int main(int argc, char** argv) { return vh::run_main(argc, argv, run); }
