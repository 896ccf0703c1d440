//! sources: src/Smp/AnySimple.cpp src/Smp/StreamOperators.cpp
//! src/Xsmp/Exception.cpp src/Xsmp/Duration.cpp src/Xsmp/DateTime.cpp
//! src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Smp/Uuid.cpp
// C12: durations and dates are exact nanosecond counts.
#include "pbt.h"
#include <Xsmp/DateTime.h>
#include <Xsmp/Duration.h>
#include <chrono>

using pbt::Case;
using pbt::show;
using Xsmp::DateTime;
using Xsmp::Duration;
using I = int64_t;

namespace {
constexpr I G = 1000000000;
constexpr I epochOffset = 946728000LL * G; // 1970-01-01 to 2000-01-01 12:00
constexpr I maxDate = std::numeric_limits<I>::max() - epochOffset - G;
constexpr I minDate = std::numeric_limits<I>::min();

std::string pad(uint64_t v, int n) {
  auto s = std::to_string(v);
  while (static_cast<int>(s.size()) < n)
    s.insert(s.begin(), '0');
  return s;
}
I unit(Case &c) {
  return c.pick(std::vector<I>{1, 1000, 1000000, G, 60 * G, 3600 * G, 86400 * G,
                               7 * 86400 * G});
}
I genNs(Case &c, I lim) {
  I v;
  switch (c.u(3)) {
  case 0:
    v = c.range(-5, 5);
    break;
  case 1: {
    I q = unit(c);
    auto m = std::min<I>(lim / q, 100000);
    v = q * c.range(-m, m);
    I d = c.range(-2, 2);
    v = v > lim - 2 ? v : v < -lim + 2 ? v : v + d;
    break;
  }
  case 2:
    v = c.range(-lim, lim);
    break;
  default:
    v = c.flip() ? lim - static_cast<I>(c.u(3)) : -lim + static_cast<I>(c.u(3));
  }
  return v;
}
// [-]HH:MM:SS.nnnnnnnnn
std::string durationText(I v) {
  unsigned __int128 a =
      v < 0 ? static_cast<unsigned __int128>(-static_cast<__int128>(v))
            : static_cast<unsigned __int128>(v);
  auto ns = static_cast<uint64_t>(a % G);
  auto s = static_cast<uint64_t>(a / G);
  return std::string(v < 0 ? "-" : "") + pad(s / 3600, 2) + ":" +
         pad(s / 60 % 60, 2) + ":" + pad(s % 60, 2) + "." + pad(ns, 9);
}
void durationFormat(Case &c) {
  I v = genNs(c, std::numeric_limits<I>::max());
  NOTE(c, "duration " << v << " ns");
  const Duration d(v);
  auto t = durationText(v);
  std::ostringstream o, o2;
  o << d << "|" << 5;
  d.to_stream(o2) << "|";
  d.to_stream(o2, std::string("%T"));
  REQUIRE(d.format() == t && d.format(std::string("%T")) == t,
          "formatted as " << d.format() << " instead of " << t);
  REQUIRE(o.str() == t + "|5" && o2.str() == t + "|" + t,
          "printed as " << o.str() << " and " << o2.str());
  if (v != 0)
    c.nontrivial();
  // times of day read back; longer ones have more than two hour digits
  if (v >= 0 && v < 24 * 3600 * G) {
    c.label("read back");
    Duration r(t);
    REQUIRE(static_cast<I>(r) == v, t << " read as " << static_cast<I>(r));
    std::istringstream is(t + " rest");
    Duration q(is);
    std::string rest;
    is >> rest;
    REQUIRE(static_cast<I>(q) == v && rest == "rest",
            t << " read from a stream as " << static_cast<I>(q) << ", then "
              << show(rest));
    auto hm = d.format("%R");
    Duration m(hm, "%R");
    REQUIRE(static_cast<I>(m) == v / (60 * G) * (60 * G),
            hm << " read as " << static_cast<I>(m));
  }
}
void durationBad(Case &c) {
  // text that is no duration: a defined value, the same each time
  auto t = c.str(12, "0159:.-ax ");
  bool wf = false;
  NOTE(c, "parse " << show(t));
  std::istringstream is(t);
  Duration a(is);
  // dirty the stack between the two
  volatile char junk[512];
  std::memset(const_cast<char *>(junk), static_cast<int>(c.u(255)),
              sizeof junk);
  Duration b(t);
  REQUIRE(static_cast<I>(a) == static_cast<I>(b),
          show(t) << " read as " << static_cast<I>(a) << " and "
                  << static_cast<I>(b));
  if (is.fail()) {
    c.nontrivial();
    REQUIRE(static_cast<I>(a) == 0,
            "unreadable text " << show(t) << " gave " << static_cast<I>(a));
  }
  (void)wf;
  DateTime x(t);
  std::istringstream is2(t);
  DateTime y(is2);
  REQUIRE(static_cast<I>(x) == static_cast<I>(y), show(t)
                                                      << " read as two dates");
}
template <class Op> I mod64(Op op) { return op(); }

void durationArith(Case &c) {
  const I lim = std::numeric_limits<I>::max() / 4;
  I v = genNs(c, lim);
  Duration d(v);
  NOTE(c, "d=" << v);
  while (c.more(12)) {
    Case::Span sp(c);
    I w = genNs(c, lim / 16);
    I room = std::numeric_limits<I>::max() / 2;
    auto fits = [&](__int128 x) { return x <= room && x >= -room; };
    switch (c.u(16)) {
    case 0:
      if (!fits(static_cast<__int128>(v) + w))
        break;
      NOTE(c, "+= " << w);
      if (c.flip())
        d += w;
      else if (c.flip())
        d += Duration(w);
      else
        d += std::chrono::nanoseconds(w);
      v += w;
      break;
    case 1:
      if (!fits(static_cast<__int128>(v) - w))
        break;
      NOTE(c, "-= " << w);
      if (c.flip())
        d -= w;
      else if (c.flip())
        d -= Duration(w);
      else
        d -= std::chrono::nanoseconds(w);
      v -= w;
      break;
    case 2: {
      I k = c.range(-20, 20);
      if (!fits(static_cast<__int128>(v) * k))
        break;
      NOTE(c, "*= " << k);
      if (c.flip())
        d *= k;
      else
        d *= static_cast<int>(k);
      v *= k;
      break;
    }
    case 3: {
      I k = c.range(1, 1000) * (c.flip() ? 1 : -1);
      NOTE(c, "/= " << k);
      d /= k;
      v /= k;
      break;
    }
    case 4: {
      I k = c.range(1, 100000);
      NOTE(c, "%= " << k);
      d %= k;
      v %= k;
      break;
    }
    case 5:
      NOTE(c, "++");
      REQUIRE(static_cast<I>(d++) == v, "post increment result");
      ++v;
      REQUIRE(static_cast<I>(++d) == v + 1, "pre increment result");
      ++v;
      break;
    case 6:
      NOTE(c, "--");
      REQUIRE(static_cast<I>(d--) == v, "post decrement result");
      --v;
      REQUIRE(static_cast<I>(--d) == v - 1, "pre decrement result");
      --v;
      break;
    case 7:
      NOTE(c, "&= " << w);
      d &= w;
      v &= w;
      break;
    case 8:
      NOTE(c, "|= " << w);
      d |= w;
      v |= w;
      break;
    case 9:
      NOTE(c, "^= " << w);
      d ^= w;
      v ^= w;
      break;
    case 10: {
      int k = static_cast<int>(c.u(20));
      NOTE(c, ">>= " << k);
      d >>= k;
      v >>= k;
      break;
    }
    case 11: {
      int k = static_cast<int>(c.u(8));
      if (v < 0 || !fits(static_cast<__int128>(v) << k))
        break;
      NOTE(c, "<<= " << k);
      d <<= k;
      v <<= k;
      break;
    }
    case 12:
      NOTE(c, "= -d, +d");
      d = -d;
      d = +d;
      v = -v;
      break;
    case 13: {
      I s = c.range(-100000, 100000);
      auto u = c.u(3);
      NOTE(c, "= chrono " << s << " unit " << u);
      if (u == 0)
        d = std::chrono::microseconds(s), v = s * 1000;
      else if (u == 1)
        d = std::chrono::milliseconds(s), v = s * 1000000;
      else if (u == 2)
        d = std::chrono::seconds(s), v = s * G;
      else
        d = std::chrono::hours(s % 1000), v = s % 1000 * 3600 * G;
      break;
    }
    case 14: {
      I s = c.range(-100000, 100000);
      auto u = c.u(3);
      NOTE(c, "+=/-= chrono " << s << " unit " << u);
      __int128 delta = u == 0   ? static_cast<__int128>(s) * 1000
                       : u == 1 ? static_cast<__int128>(s) * 1000000
                       : u == 2 ? static_cast<__int128>(s) * G
                                : static_cast<__int128>(s) * 60 * G;
      if (!fits(v + delta) || !fits(v - delta))
        break;
      bool minus = c.flip();
      switch (u) {
      case 0:
        minus ? d -= std::chrono::microseconds(s)
              : d += std::chrono::microseconds(s);
        break;
      case 1:
        minus ? d -= std::chrono::milliseconds(s)
              : d += std::chrono::milliseconds(s);
        break;
      case 2:
        minus ? d -= std::chrono::seconds(s) : d += std::chrono::seconds(s);
        break;
      default:
        minus ? d -= std::chrono::minutes(s) : d += std::chrono::minutes(s);
      }
      v = static_cast<I>(minus ? v - delta : v + delta);
      break;
    }
    case 15: {
      I s = c.range(-1000, 1000);
      auto u = c.u(7);
      NOTE(c, "= factory " << s << " unit " << u);
      switch (u) {
      case 0:
        d = Duration::nanoseconds(s), v = s;
        break;
      case 1:
        d = Duration::microseconds(s), v = s * 1000;
        break;
      case 2:
        d = Duration::milliseconds(s), v = s * 1000000;
        break;
      case 3:
        d = Duration::seconds(s), v = s * G;
        break;
      case 4:
        d = Duration::minutes(s), v = s * 60 * G;
        break;
      case 5:
        d = Duration::hours(s), v = s * 3600 * G;
        break;
      case 6:
        d = Duration::days(s), v = s * 86400 * G;
        break;
      default:
        d = Duration::weeks(s), v = s * 7 * 86400 * G;
      }
      break;
    }
    default:
      NOTE(c, "= " << w);
      d = w;
      v = w;
    }
    REQUIRE(static_cast<I>(d) == v,
            "value is " << static_cast<I>(d) << " instead of " << v);
    c.nontrivial();
  }
}
template <class A, class B>
void cmp(const A &a, const B &b, I x, I y, const char *what) {
  REQUIRE((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) &&
              (a <= b) == (x <= y) && (a > b) == (x > y) &&
              (a >= b) == (x >= y),
          what << ": comparing " << x << " with " << y << ": == " << (a == b)
               << " != " << (a != b) << " < " << (a < b) << " <= " << (a <= b)
               << " > " << (a > b) << " >= " << (a >= b));
}
void durationCompare(Case &c) {
  I lim = std::numeric_limits<I>::max();
  I x = genNs(c, lim);
  I y = c.chance(1, 3)                    ? x
        : c.flip() && x < lim && x > -lim ? x + c.range(-1, 1)
                                          : genNs(c, lim);
  NOTE(c, x << " with " << y);
  const Duration a(x), b(y);
  cmp(a, b, x, y, "two durations");
  cmp(a, y, x, y, "duration and number");
  cmp(a, std::chrono::nanoseconds(y), x, y, "duration and nanoseconds");
  cmp(std::chrono::nanoseconds(x), b, x, y, "nanoseconds and duration");
  I s = y / G; // whole seconds
  cmp(a, std::chrono::seconds(s), x, s * G, "duration and seconds");
  cmp(std::chrono::seconds(s), a, s * G, x, "seconds and duration");
  I us = y / 1000;
  cmp(a, std::chrono::microseconds(us), x, us * 1000,
      "duration and microseconds");
  REQUIRE(static_cast<I>(Duration(std::chrono::seconds(s))) == s * G &&
              static_cast<I>(Duration(std::chrono::microseconds(us))) ==
                  us * 1000,
          "construction from chrono");
  Duration mut(x); // a const one: see the listed finding
  REQUIRE(static_cast<std::chrono::seconds>(mut).count() == x / G &&
              static_cast<std::chrono::nanoseconds>(mut).count() == x,
          "conversion to chrono");
  cmp(DateTime(x), DateTime(y), x, y, "two dates");
  c.nontrivial();
}
// days since 1970-01-01 to y/m/d, by counting
void civil(I days, I &y, unsigned &m, unsigned &d) {
  static const unsigned len[] = {31, 28, 31, 30, 31, 30,
                                 31, 31, 30, 31, 30, 31};
  auto leap = [](I yy) {
    return (yy % 4 == 0 && yy % 100 != 0) || yy % 400 == 0;
  };
  y = 1970;
  while (days < 0) {
    --y;
    days += leap(y) ? 366 : 365;
  }
  while (days >= (leap(y) ? 366 : 365)) {
    days -= leap(y) ? 366 : 365;
    ++y;
  }
  m = 1;
  while (true) {
    auto l = len[m - 1] + (m == 2 && leap(y) ? 1u : 0u);
    if (days < static_cast<I>(l))
      break;
    days -= l;
    ++m;
  }
  d = static_cast<unsigned>(days) + 1;
}
std::string dateText(I v) {
  __int128 t = static_cast<__int128>(v) + epochOffset;
  constexpr __int128 D = static_cast<__int128>(86400) * G;
  __int128 day = t / D;
  if (t % D < 0)
    --day;
  I y;
  unsigned m, d;
  civil(static_cast<I>(day), y, m, d);
  return pad(static_cast<uint64_t>(y), 4) + "-" + pad(m, 2) + "-" + pad(d, 2) +
         " " + durationText(static_cast<I>(t - day * D));
}
I genDate(Case &c) {
  switch (c.u(3)) {
  case 0: { // near midnights and year ends
    I day = c.range(-100000, 94000);
    return day * 86400 * G + 43200 * G + c.range(-2, 2);
  }
  case 1:
    return c.range(minDate, maxDate);
  case 2:
    return c.flip() ? minDate + static_cast<I>(c.u(3))
                    : maxDate - static_cast<I>(c.u(3));
  default:
    return c.range(-5, 5) * G * c.pick({1, 60, 3600, 86400}) + c.range(-3, 3);
  }
}
void dates(Case &c) {
  I v = genDate(c);
  NOTE(c, "date " << v << " ns");
  const DateTime d(v);
  auto t = dateText(v);
  std::ostringstream o, o2;
  o << d << "|" << 5;
  d.to_stream(o2) << "|";
  d.to_stream(o2, std::string("%F %T"));
  REQUIRE(d.format() == t && d.format(std::string("%F %T")) == t,
          "formatted as " << d.format() << " instead of " << t);
  REQUIRE(o.str() == t + "|5" && o2.str() == t + "|" + t,
          "printed as " << o.str() << " and " << o2.str());
  c.nontrivial();
  using SC = std::chrono::system_clock;
  auto tp =
      static_cast<std::chrono::time_point<SC, std::chrono::nanoseconds>>(d);
  REQUIRE(tp.time_since_epoch().count() == v + epochOffset,
          "as a time point: " << tp.time_since_epoch().count());
  auto ts = static_cast<std::chrono::time_point<SC, std::chrono::seconds>>(d);
  REQUIRE(ts.time_since_epoch().count() == (v + epochOffset) / G, "as seconds");
  if (v > minDate + epochOffset) {
    c.label("read back");
    DateTime r(t);
    REQUIRE(static_cast<I>(r) == v, t << " read as " << static_cast<I>(r));
    std::istringstream is(t + " rest");
    DateTime q(is);
    std::string rest;
    is >> rest;
    REQUIRE(static_cast<I>(q) == v && rest == "rest",
            t << " read from a stream as " << static_cast<I>(q));
    DateTime back(tp);
    REQUIRE(static_cast<I>(back) == v, "from a time point");
    DateTime as;
    as = tp;
    REQUIRE(static_cast<I>(as) == v, "assigned a time point");
    auto day = d.format("%Y-%m-%d");
    DateTime dd(day, "%Y-%m-%d");
    REQUIRE(dateText(static_cast<I>(dd)) == day + " 00:00:00.000000000",
            day << " read as " << dateText(static_cast<I>(dd)));
  }
}
void dateArith(Case &c) {
  const I lim = std::numeric_limits<I>::max() / 4;
  I v = genNs(c, lim);
  DateTime d(v);
  NOTE(c, "date " << v);
  while (c.more(12)) {
    Case::Span sp(c);
    I w = genNs(c, lim / 64);
    if (v + w > lim || v + w < -lim || v - w > lim || v - w < -lim)
      continue;
    switch (c.u(9)) {
    case 0:
      NOTE(c, "+= " << w);
      if (c.flip())
        d += Duration(w);
      else
        d += std::chrono::nanoseconds(w);
      v += w;
      break;
    case 1:
      NOTE(c, "-= " << w);
      if (c.flip())
        d -= Duration(w);
      else
        d -= std::chrono::nanoseconds(w);
      v -= w;
      break;
    case 2:
      NOTE(c, "d + " << w);
      d = c.flip() ? d + Duration(w) : Duration(w) + d;
      v += w;
      break;
    case 3:
      NOTE(c, "d + chrono " << w);
      d = c.flip() ? d + std::chrono::nanoseconds(w)
                   : std::chrono::nanoseconds(w) + d;
      v += w;
      break;
    case 4:
      NOTE(c, "d - " << w);
      d = c.flip() ? d - Duration(w) : d - std::chrono::nanoseconds(w);
      v -= w;
      break;
    case 5: {
      I s = w / G;
      NOTE(c, "d +- " << s << " s");
      if (c.flip()) {
        d = d + std::chrono::seconds(s);
        v += s * G;
      } else if (c.flip()) {
        d = d - std::chrono::seconds(s);
        v -= s * G;
      } else if (c.flip()) {
        d += std::chrono::seconds(s);
        v += s * G;
      } else {
        d -= std::chrono::seconds(s);
        v -= s * G;
      }
      break;
    }
    case 6:
      NOTE(c, "++");
      REQUIRE(static_cast<I>(d++) == v, "post increment result");
      ++v;
      REQUIRE(static_cast<I>(++d) == v + 1, "pre increment result");
      ++v;
      break;
    case 7:
      NOTE(c, "--");
      REQUIRE(static_cast<I>(d--) == v, "post decrement result");
      --v;
      REQUIRE(static_cast<I>(--d) == v - 1, "pre decrement result");
      --v;
      break;
    case 8: {
      NOTE(c, "copy, assign " << w);
      DateTime e(d);
      REQUIRE(static_cast<I>(e) == v, "copy");
      d = static_cast<Smp::DateTime>(w);
      v = w;
      REQUIRE(static_cast<I>(e) == v || static_cast<I>(e) != w || v == w,
              "copy");
      break;
    }
    default: {
      I us = w / 1000;
      NOTE(c, "from duration of " << us << " us");
      d = DateTime(std::chrono::microseconds(us));
      v = us * 1000;
    }
    }
    REQUIRE(static_cast<I>(d) == v,
            "value is " << static_cast<I>(d) << " instead of " << v);
    c.nontrivial();
  }
}
void literals(Case &c) {
  using namespace Xsmp::literals;
  c.nontrivial();
  NOTE(c, "literals");
  REQUIRE(static_cast<I>(7_ns) == 7 && static_cast<I>(7_us) == 7000 &&
              static_cast<I>(7_ms) == 7000000 && static_cast<I>(7_s) == 7 * G &&
              static_cast<I>(7_mn) == 420 * G &&
              static_cast<I>(7_h) == 7 * 3600 * G &&
              static_cast<I>(7_d) == 7 * 86400 * G &&
              static_cast<I>(7_w) == 49 * 86400 * G,
          "a literal has another value");
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C12";
  s.rule = "a case is non-trivial if it formatted or read a non-zero duration "
           "or date, met unreadable text, or did at least one operation";
  s.subs = {{"duration-format", durationFormat, 160000, 800000, 2},
            {"duration-unreadable", durationBad, 80000, 400000, 2},
            {"duration-arithmetic", durationArith, 160000, 800000, 12},
            {"duration-compare", durationCompare, 160000, 800000, 2},
            {"dates", dates, 160000, 800000, 2},
            {"date-arithmetic", dateArith, 160000, 800000, 12},
            {"literals", literals, 2, 2, 1}};
  s.known = {
      {"date-after-2262",
       "a DateTime after 2262-04-11 23:47:16 (beyond the nanosecond range of "
       "the standard clock) is formatted with a signed overflow",
       [] {
         auto t = DateTime(std::numeric_limits<I>::max()).format();
         REQUIRE(t.compare(0, 4, "2292") == 0, t);
       }},
      {"const-duration-to-chrono",
       "a const Duration converted to std::chrono::seconds keeps its number "
       "of nanoseconds as number of seconds",
       [] {
         const Duration d(I{3} * G);
         auto n = static_cast<std::chrono::seconds>(d).count();
         REQUIRE(n == 3, n);
       }}};
  s.assumptions = {"Howard Hinnant's date library is the one installed in the "
                   "sandbox",
                   "arithmetic stays within 64 bits"};
  return s;
}
