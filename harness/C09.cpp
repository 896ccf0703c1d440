//! sources: src/Smp/AnySimple.cpp src/Smp/StreamOperators.cpp
//! src/Xsmp/Exception.cpp src/Xsmp/Duration.cpp src/Xsmp/DateTime.cpp
//! src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Smp/Uuid.cpp
// C09: generic values convert exactly or are rejected.
#include "pbt.h"
#include <Smp/AnySimple.h>
#include <Smp/InvalidAnyType.h>
#include <Xsmp/Exception.h>

using pbt::Case;
using Smp::AnySimple;
using K = Smp::PrimitiveTypeKind;

namespace {
const std::vector<K> kinds = {
    K::PTK_None,    K::PTK_Char8,    K::PTK_Bool,     K::PTK_Int8,
    K::PTK_UInt8,   K::PTK_Int16,    K::PTK_UInt16,   K::PTK_Int32,
    K::PTK_UInt32,  K::PTK_Int64,    K::PTK_UInt64,   K::PTK_Float32,
    K::PTK_Float64, K::PTK_Duration, K::PTK_DateTime, K::PTK_String8};
const char *kname(K k) {
  static const char *n[] = {"None",    "Char8",    "Bool",     "Int8",
                            "UInt8",   "Int16",    "UInt16",   "Int32",
                            "UInt32",  "Int64",    "UInt64",   "Float32",
                            "Float64", "Duration", "DateTime", "String8"};
  for (size_t i = 0; i < kinds.size(); ++i)
    if (kinds[i] == k)
      return n[i];
  return "?";
}
struct R {
  bool integral;
  __int128 lo, hi;
};
R rng(K k) {
  auto s = [](int bits) {
    __int128 o = 1;
    return R{true, -(o << (bits - 1)), (o << (bits - 1)) - 1};
  };
  auto us = [](int bits) {
    __int128 o = 1;
    return R{true, 0, (o << bits) - 1};
  };
  switch (k) {
  case K::PTK_Int8:
    return s(8);
  case K::PTK_Int16:
    return s(16);
  case K::PTK_Int32:
    return s(32);
  case K::PTK_Int64:
  case K::PTK_Duration:
  case K::PTK_DateTime:
    return s(64);
  case K::PTK_UInt8:
    return us(8);
  case K::PTK_UInt16:
    return us(16);
  case K::PTK_UInt32:
    return us(32);
  case K::PTK_UInt64:
    return us(64);
  default:
    return R{false, 0, 0};
  }
}
bool isFloat(K k) { return k == K::PTK_Float32 || k == K::PTK_Float64; }
// exactly representable with `bits` significant bits
bool fits(__int128 v, int bits) {
  unsigned __int128 a = v < 0 ? static_cast<unsigned __int128>(-v)
                              : static_cast<unsigned __int128>(v);
  if (a == 0)
    return true;
  while ((a & 1) == 0)
    a >>= 1;
  return (a >> bits) == 0;
}
int bitsOf(K k) { return k == K::PTK_Float32 ? 24 : 53; }
std::string i128(__int128 v) {
  if (v < 0)
    return "-" + i128(-v);
  std::string s;
  do {
    s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
    v /= 10;
  } while (v);
  return s;
}
// model value
struct M {
  enum { None, Bool, Char, Int, Flt, Str } t = None;
  __int128 i = 0;
  double d = 0;
  bool isNull = false;
  std::string s;
};
std::string show(const M &m) {
  std::ostringstream o;
  o.precision(17);
  switch (m.t) {
  case M::None:
    o << "none";
    break;
  case M::Bool:
    o << "bool " << (m.i != 0);
    break;
  case M::Char:
    o << "char " << static_cast<int>(m.i);
    break;
  case M::Int:
    o << "int " << i128(m.i);
    break;
  case M::Flt:
    o << "flt " << m.d;
    break;
  case M::Str:
    o << "str " << (m.isNull ? "null" : pbt::show(m.s));
    break;
  }
  return o.str();
}
bool sameF(double a, double b) {
  return (std::isnan(a) && std::isnan(b)) || a == b;
}
enum Verdict { Accept, Reject, Either };
Verdict toFloat32(double v) {
  if (std::isnan(v) || std::isinf(v))
    return Accept;
  if (std::fabs(v) >= std::ldexp(1.0, 128))
    return Reject;
  double r = static_cast<float>(v);
  if (r == v)
    return Accept;
  if (std::isinf(r))
    return Reject;
  double e = std::fabs(r - v);
  return e > 3e-16 ? Reject : Either;
}

template <class T> M modelOf(T v) {
  M m;
  if constexpr (std::is_same_v<T, bool>) {
    m.t = M::Bool;
    m.i = v;
  } else if constexpr (std::is_same_v<T, char>) {
    m.t = M::Char;
    m.i = v;
  } else if constexpr (std::is_integral_v<T>) {
    m.t = M::Int;
    m.i = v;
  } else if constexpr (std::is_floating_point_v<T>) {
    m.t = M::Flt;
    m.d = v;
  } else {
    m.t = M::Str;
    m.isNull = v == nullptr;
    if (v)
      m.s = v;
  }
  return m;
}
// what storing `v` of C++ type T as `k` must do
template <class T> Verdict storing(K k, T v, M &out) {
  out = modelOf(v);
  if constexpr (std::is_same_v<T, bool>)
    return k == K::PTK_Bool ? Accept : Reject;
  else if constexpr (std::is_same_v<T, char>)
    return k == K::PTK_Char8 ? Accept : Reject;
  else if constexpr (std::is_integral_v<T>) {
    if (rng(k).integral)
      return v >= rng(k).lo && v <= rng(k).hi ? Accept : Reject;
    if (isFloat(k)) {
      out.t = M::Flt;
      out.d = static_cast<double>(v);
      return fits(v, bitsOf(k)) ? Accept : Reject;
    }
    return Reject;
  } else if constexpr (std::is_floating_point_v<T>) {
    if (k == K::PTK_Float64)
      return Accept;
    if (k == K::PTK_Float32) {
      auto r = toFloat32(v);
      if (r != Reject)
        out.d = static_cast<float>(v);
      return r;
    }
    return Reject;
  } else
    return k == K::PTK_String8 ? Accept : Reject;
}
template <class T> const char *tname() {
  if constexpr (std::is_same_v<T, bool>)
    return "Bool";
  else if constexpr (std::is_same_v<T, char>)
    return "Char8";
  else if constexpr (std::is_same_v<T, float>)
    return "Float32";
  else if constexpr (std::is_same_v<T, double>)
    return "Float64";
  else if constexpr (std::is_integral_v<T>) {
    if constexpr (std::is_signed_v<T>)
      return sizeof(T) == 1   ? "Int8"
             : sizeof(T) == 2 ? "Int16"
             : sizeof(T) == 4 ? "Int32"
                              : "Int64";
    else
      return sizeof(T) == 1   ? "UInt8"
             : sizeof(T) == 2 ? "UInt16"
             : sizeof(T) == 4 ? "UInt32"
                              : "UInt64";
  } else
    return "String8";
}
// reading the model value (stored as kind k) as T
template <class T> void readAs(Case &c, const AnySimple &a, K k, const M &m) {
  Verdict want;
  M exp = m;
  if constexpr (std::is_same_v<T, bool>) {
    want = m.t == M::None || m.t == M::Flt ? Reject : Accept;
    exp.t = M::Bool;
    exp.i = m.t == M::Str ? !m.isNull : m.i != 0;
  } else if constexpr (std::is_same_v<T, char>)
    want = m.t == M::Char ? Accept : Reject;
  else if constexpr (std::is_integral_v<T>) {
    using L = std::numeric_limits<T>;
    want =
        m.t == M::Int && m.i >= L::min() && m.i <= L::max() ? Accept : Reject;
  } else if constexpr (std::is_floating_point_v<T>) {
    constexpr int bits = std::is_same_v<T, float> ? 24 : 53;
    exp.t = M::Flt;
    if (m.t == M::Flt) {
      want = bits == 24 ? toFloat32(m.d) : Accept;
      if (want != Reject)
        exp.d = static_cast<T>(m.d);
    } else if (m.t == M::Int && k != K::PTK_Duration && k != K::PTK_DateTime) {
      want = fits(m.i, bits) ? Accept : Reject;
      exp.d = static_cast<double>(m.i);
    } else
      want = Reject;
  } else
    want = m.t == M::Str ? Accept : Reject;
  bool ok = true;
  T got{};
  try {
    got = static_cast<T>(a);
  } catch (Smp::InvalidAnyType &) {
    ok = false;
  }
  NOTE(c, "as " << tname<T>() << (ok ? " ok" : " rejected"));
  REQUIRE(want == Either || ok == (want == Accept),
          "reading " << kname(k) << " holding " << show(m) << " as "
                     << tname<T>() << (ok ? " succeeded" : " was rejected"));
  if (ok) {
    M g = modelOf(got);
    REQUIRE(g.t == exp.t &&
                g.i == (g.t == M::Flt || g.t == M::Str ? g.i : exp.i) &&
                (g.t != M::Flt || sameF(g.d, exp.d)) &&
                (g.t != M::Str || (g.isNull == exp.isNull && g.s == exp.s)),
            "reading " << kname(k) << " holding " << show(m) << " as "
                       << tname<T>() << " gave " << show(g));
  }
  REQUIRE(a.GetType() == k,
          "reading changed the kind to " << kname(a.GetType()));
}
void readAll(Case &c, const AnySimple &a, K k, const M &m) {
  readAs<bool>(c, a, k, m);
  readAs<char>(c, a, k, m);
  readAs<Smp::Int8>(c, a, k, m);
  readAs<Smp::UInt8>(c, a, k, m);
  readAs<Smp::Int16>(c, a, k, m);
  readAs<Smp::UInt16>(c, a, k, m);
  readAs<Smp::Int32>(c, a, k, m);
  readAs<Smp::UInt32>(c, a, k, m);
  readAs<Smp::Int64>(c, a, k, m);
  readAs<Smp::UInt64>(c, a, k, m);
  readAs<float>(c, a, k, m);
  readAs<double>(c, a, k, m);
  readAs<Smp::String8>(c, a, k, m);
}
template <class T> void store(Case &c, AnySimple &a, K k, T v, M &m) {
  M next;
  auto want = storing(k, v, next);
  K before = a.GetType();
  NOTE(c, "SetValue(" << kname(k) << "," << tname<T>() << " "
                      << show(modelOf(v)) << ")");
  bool ok = true, viaCtor = c.chance(1, 4);
  try {
    if (viaCtor)
      a = AnySimple(k, v);
    else
      a.SetValue(k, v);
  } catch (Smp::InvalidAnyType &) {
    ok = false;
  }
  REQUIRE(want == Either || ok == (want == Accept),
          "storing " << tname<T>() << " " << show(modelOf(v)) << " as "
                     << kname(k) << (ok ? " succeeded" : " was rejected"));
  if (ok) {
    m = next;
    REQUIRE(a.GetType() == k, "kind is " << kname(a.GetType()));
  } else {
    // rejected: kind is kept, and any non-string value with it
    c.label("rejected");
    REQUIRE(a.GetType() == before,
            "a rejected value changed the kind to " << kname(a.GetType()));
    if (m.t == M::Str && !viaCtor) {
      auto *s = static_cast<Smp::String8>(a);
      REQUIRE(!s || s == m.s, "a rejected value left another text");
      m.isNull = s == nullptr;
      m.s = s ? s : "";
    }
  }
  if (!ok || (next.t == M::Int && next.i != 0) || next.t == M::Flt)
    c.nontrivial();
}
template <class T> T gen(Case &c, K k) {
  // half of the values sit at the bounds of the target kind
  if (c.flip()) {
    auto r = rng(k);
    __int128 v;
    if (r.integral)
      v = (c.flip() ? r.lo : r.hi) + c.range(-2, 2);
    else {
      v = static_cast<__int128>(1) << c.range(0, 63);
      v += c.range(-2, 2);
      if (c.chance(1, 3))
        v = (v >> c.range(20, 26)) *
            (static_cast<__int128>(1) << c.range(0, 30));
      if (c.flip())
        v = -v;
    }
    using L = std::numeric_limits<T>;
    return v < L::min()   ? L::min()
           : v > L::max() ? L::max()
                          : static_cast<T>(v);
  }
  return c.integer<T>();
}
void anyStore(Case &c, AnySimple &a, M &m, std::string &hold) {
  Case::Span sp(c);
  K k = c.pick(kinds);
  switch (c.weighted({2, 2, 3, 3, 3, 3, 3, 3, 4, 4, 3, 5, 3})) {
  case 0:
    return store<bool>(c, a, c.flip() ? k : K::PTK_Bool, c.flip(), m);
  case 1:
    return store<char>(c, a, c.flip() ? k : K::PTK_Char8,
                       static_cast<char>(c.u(255)), m);
  case 2:
    return store<Smp::Int8>(c, a, k, gen<Smp::Int8>(c, k), m);
  case 3:
    return store<Smp::UInt8>(c, a, k, gen<Smp::UInt8>(c, k), m);
  case 4:
    return store<Smp::Int16>(c, a, k, gen<Smp::Int16>(c, k), m);
  case 5:
    return store<Smp::UInt16>(c, a, k, gen<Smp::UInt16>(c, k), m);
  case 6:
    return store<Smp::Int32>(c, a, k, gen<Smp::Int32>(c, k), m);
  case 7:
    return store<Smp::UInt32>(c, a, k, gen<Smp::UInt32>(c, k), m);
  case 8:
    return store<Smp::Int64>(c, a, k, gen<Smp::Int64>(c, k), m);
  case 9:
    return store<Smp::UInt64>(c, a, k, gen<Smp::UInt64>(c, k), m);
  case 10: {
    if (c.flip())
      k = c.flip() ? K::PTK_Float32 : K::PTK_Float64;
    return store<float>(c, a, k, c.floating<float>(), m);
  }
  case 11: {
    if (c.flip())
      k = c.flip() ? K::PTK_Float32 : K::PTK_Float64;
    double v = c.flip() ? c.floating<double>()
                        : static_cast<double>(c.floating<float>());
    return store<double>(c, a, k, v, m);
  }
  default: {
    hold = c.str(12, "abc\xe9 ");
    return store<Smp::String8>(c, a, c.flip() ? k : K::PTK_String8,
                               c.chance(1, 8) ? nullptr : hold.c_str(), m);
  }
  }
}
void conversions(Case &c) {
  AnySimple a;
  M m;
  std::string hold;
  REQUIRE(a.GetType() == K::PTK_None, "a new value is not None");
  while (c.more(8)) {
    anyStore(c, a, m, hold);
    readAll(c, a, a.GetType(), m);
  }
}
// the typed exceptions name the kinds involved
void dflt(Case &c) {
  K k = c.pick(kinds);
  AnySimple a(k);
  REQUIRE(a.GetType() == k, "kind");
  c.nontrivial();
  NOTE(c, "AnySimple(" << kname(k) << ")");
  M m;
  if (k == K::PTK_None)
    m.t = M::None;
  else if (k == K::PTK_String8) {
    m.t = M::Str;
    m.isNull = true;
  } else if (isFloat(k))
    m.t = M::Flt;
  else if (k == K::PTK_Bool)
    m.t = M::Bool;
  else if (k == K::PTK_Char8)
    m.t = M::Char;
  else
    m.t = M::Int;
  readAll(c, a, k, m);
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C09";
  s.rule = "a case is non-trivial if a value was rejected, or a non-zero "
           "number was stored under some kind and read back as all 13 types";
  s.subs = {{"conversions", conversions, 320000, 1600000, 6},
            {"default", dflt, 1600, 8000, 2}};
  s.assumptions = {"Smp::AnySimple is declared by the stand-in SMP headers in "
                   "/verif/smp",
                   "double to float conversions with an error below 3e-16 may "
                   "be accepted or rejected"};
  return s;
}
