//! sources: none
//! opt: -O0
// C05: mixed-sign integer comparison and range tests are mathematically exact.
#include "pbt.h"
#include <Smp/utility.h>
#include <cstdint>

using pbt::Case;
namespace U = Smp::utility;

namespace {
template <class T> std::string str(T v) { return std::to_string(v); }
template <class... T> struct List {};
using Types = List<int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t,
                   int64_t, uint64_t, long long, unsigned long long, char,
                   char16_t, char32_t, wchar_t>;

[[noreturn]] void fail(const char *f, __int128 a, __int128 b, size_t sa,
                       bool na, size_t sb, bool nb) {
  auto t = [](__int128 v) {
    return v < 0 ? std::to_string(static_cast<int64_t>(v))
                 : std::to_string(static_cast<uint64_t>(v));
  };
  FAILURE(f << "(" << t(a) << " [" << sa * 8 << "b signed=" << na << "], "
            << t(b) << " [" << sb * 8 << "b signed=" << nb << "]) is wrong");
}

template <class A, class B> void pair(A a, B b) {
  auto x = static_cast<__int128>(a);
  auto y = static_cast<__int128>(b);
  const char *bad = nullptr;
#define T(F, OP)                                                               \
  if (U::F(a, b) != (x OP y))                                                  \
  bad = #F
  T(cmp_equal, ==);
  T(cmp_not_equal, !=);
  T(cmp_less, <);
  T(cmp_greater, >);
  T(cmp_less_equal, <=);
  T(cmp_greater_equal, >=);
  using L = std::numeric_limits<B>;
  bool fits = x >= static_cast<__int128>(L::lowest()) &&
              x <= static_cast<__int128>(L::max());
  if (U::in_range<B>(a) != fits)
    bad = "in_range<type of second>(first)";
  if (bad)
    fail(bad, x, y, sizeof(A), std::is_signed_v<A>, sizeof(B),
         std::is_signed_v<B>);
}

template <class A, class B> void gen(Case &c) {
  auto a = c.integer<A>();
  B b;
  switch (c.weighted({2, 2, 1, 1})) {
  case 0:
    b = c.integer<B>();
    break;
  case 1: // same bits or same value, give or take one
    b = static_cast<B>(static_cast<uint64_t>(a) + c.u(2) - 1);
    break;
  case 2:
    b = std::numeric_limits<B>::max();
    break;
  default:
    b = std::numeric_limits<B>::lowest();
  }
  if (c.tracing())
    c.note("compare " + str(a) + " (" + std::to_string(sizeof(A) * 8) +
           "b signed=" + std::to_string(std::is_signed_v<A>) + ") with " +
           str(b) + " (" + std::to_string(sizeof(B) * 8) +
           "b signed=" + std::to_string(std::is_signed_v<B>) + ")");
  c.nontrivial();
  if (std::is_signed_v<A> != std::is_signed_v<B>)
    c.label("mixed signedness");
  if ((a < 0) || (b < 0))
    c.label("a negative operand");
  pair<A, B>(a, b);
}
using Fn = void (*)(Case &);
template <class A, class... B> void row(std::vector<Fn> &v, List<B...>) {
  (v.push_back(gen<A, B>), ...);
}
template <class... A> std::vector<Fn> table(List<A...>) {
  std::vector<Fn> v;
  (row<A>(v, Types{}), ...);
  return v;
}
const std::vector<Fn> fns = table(Types{});

template <class A, class B> void exhaustive(Case &) {
  for (int i = std::numeric_limits<A>::lowest();
       i <= std::numeric_limits<A>::max(); ++i)
    for (int j = std::numeric_limits<B>::lowest();
         j <= std::numeric_limits<B>::max(); ++j)
      pair<A, B>(static_cast<A>(i), static_cast<B>(j));
}
const std::vector<Fn> full = {
    exhaustive<int8_t, uint8_t>, exhaustive<uint8_t, int8_t>,
    exhaustive<int8_t, int8_t>, exhaustive<uint8_t, uint8_t>,
    exhaustive<char, uint8_t>,  exhaustive<uint8_t, char>};
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C05";
  s.rule = "a case is one pair of integers of two generated types (196 type "
           "pairs), biased to limits, powers of two and equal bit patterns, "
           "checked against 128-bit arithmetic; plus all pairs of 8-bit types; "
           "distinct by choice sequence";
  s.subs = {{"pairs", [](Case &c) { c.pick(fns)(c); }, 4000000, 200000000},
            {"exhaustive 8 bit",
             [](Case &c) {
               auto i = c.idx(full.size());
               NOTE(c, "all pairs of 8-bit combination " << i);
               full[i](c);
             },
             64, 64}};
  return s;
}
