//! sources: src/Smp/AnySimple.cpp src/Smp/StreamOperators.cpp
//! src/Xsmp/Exception.cpp src/Xsmp/Duration.cpp src/Xsmp/DateTime.cpp
//! src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Smp/Uuid.cpp
// C10: generic values own their content; equality and text follow it.
#include "pbt.h"
#include <Smp/AnySimple.h>
#include <Smp/InvalidAnyType.h>
#include <Xsmp/DateTime.h>
#include <Xsmp/Duration.h>
#include <Xsmp/Exception.h>
#include <optional>

using pbt::Case;
using Smp::AnySimple;
using K = Smp::PrimitiveTypeKind;
// texts are arrays: count the live ones
static long liveArrays;
void *operator new[](size_t n) {
  ++liveArrays;
  auto *p = std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void operator delete[](void *p) noexcept {
  if (p)
    --liveArrays;
  std::free(p);
}
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }

namespace {
struct M {
  K k = K::PTK_None;
  int64_t i = 0; // bool, char, integers (UInt64 as bits)
  double d = 0;
  bool null = true;
  std::string s;
};
bool isInt(K k) {
  return k != K::PTK_None && k != K::PTK_Float32 && k != K::PTK_Float64 &&
         k != K::PTK_String8;
}
std::string show(const M &m) {
  std::ostringstream o;
  o << static_cast<int>(m.k) << ":";
  if (m.k == K::PTK_String8)
    o << (m.null ? "null" : pbt::show(m.s));
  else if (m.k == K::PTK_Float32 || m.k == K::PTK_Float64)
    o << m.d;
  else
    o << m.i;
  return o.str();
}
template <class T> bool holds(const AnySimple &a, int64_t v) {
  return static_cast<T>(a) == static_cast<T>(v);
}
bool sameF(double a, double b) {
  return (std::isnan(a) && std::isnan(b)) || a == b;
}
void check(const AnySimple &a, const M &m) {
  REQUIRE(a.GetType() == m.k, "kind " << static_cast<int>(a.GetType())
                                      << " instead of " << show(m));
  bool ok = true;
  switch (m.k) {
  case K::PTK_None:
    break;
  case K::PTK_Bool:
    ok = holds<bool>(a, m.i);
    break;
  case K::PTK_Char8:
    ok = holds<char>(a, m.i);
    break;
  case K::PTK_Int8:
    ok = holds<Smp::Int8>(a, m.i);
    break;
  case K::PTK_UInt8:
    ok = holds<Smp::UInt8>(a, m.i);
    break;
  case K::PTK_Int16:
    ok = holds<Smp::Int16>(a, m.i);
    break;
  case K::PTK_UInt16:
    ok = holds<Smp::UInt16>(a, m.i);
    break;
  case K::PTK_Int32:
    ok = holds<Smp::Int32>(a, m.i);
    break;
  case K::PTK_UInt32:
    ok = holds<Smp::UInt32>(a, m.i);
    break;
  case K::PTK_Int64:
  case K::PTK_Duration:
  case K::PTK_DateTime:
    ok = holds<Smp::Int64>(a, m.i);
    break;
  case K::PTK_UInt64:
    ok = holds<Smp::UInt64>(a, m.i);
    break;
  case K::PTK_Float32:
    ok = sameF(static_cast<float>(a), m.d);
    break;
  case K::PTK_Float64:
    ok = sameF(static_cast<double>(a), m.d);
    break;
  case K::PTK_String8: {
    auto *s = static_cast<Smp::String8>(a);
    ok = m.null ? s == nullptr : s && m.s == s;
    break;
  }
  }
  REQUIRE(ok, "value changed, expected " << show(m));
}
int64_t clampTo(K k, int64_t v) {
  switch (k) {
  case K::PTK_Bool:
    return v & 1;
  case K::PTK_Char8:
    return static_cast<char>(v);
  case K::PTK_Int8:
    return static_cast<int8_t>(v);
  case K::PTK_UInt8:
    return static_cast<uint8_t>(v);
  case K::PTK_Int16:
    return static_cast<int16_t>(v);
  case K::PTK_UInt16:
    return static_cast<uint16_t>(v);
  case K::PTK_Int32:
    return static_cast<int32_t>(v);
  case K::PTK_UInt32:
    return static_cast<uint32_t>(v);
  default:
    return v;
  }
}
M genModel(Case &c) {
  M m;
  m.k = static_cast<K>(
      c.pick({0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10,
              11, 12, 13, 14, 15, 15, 15, 15, 15, 15}) == 15
          ? static_cast<int>(K::PTK_String8)
          : static_cast<int>(c.pick(std::vector<K>{
                K::PTK_None, K::PTK_Char8, K::PTK_Bool, K::PTK_Int8,
                K::PTK_UInt8, K::PTK_Int16, K::PTK_UInt16, K::PTK_Int32,
                K::PTK_UInt32, K::PTK_Int64, K::PTK_UInt64, K::PTK_Float32,
                K::PTK_Float64, K::PTK_Duration, K::PTK_DateTime})));
  if (m.k == K::PTK_String8) {
    m.null = c.chance(1, 8);
    if (!m.null)
      m.s = c.str(c.chance(1, 6) ? 200 : 10, "ab\x80 \"");
  } else if (m.k == K::PTK_Float32)
    m.d = c.floating<float>();
  else if (m.k == K::PTK_Float64)
    m.d = c.floating<double>();
  else if (m.k != K::PTK_None)
    m.i = clampTo(m.k, c.integer<int64_t>());
  return m;
}
void setTo(AnySimple &a, const M &m, const char *text) {
  switch (m.k) {
  case K::PTK_None:
    a = AnySimple();
    break;
  case K::PTK_Bool:
    a.SetValue(m.k, static_cast<bool>(m.i));
    break;
  case K::PTK_Char8:
    a.SetValue(m.k, static_cast<char>(m.i));
    break;
  case K::PTK_UInt64:
    a.SetValue(m.k, static_cast<Smp::UInt64>(m.i));
    break;
  case K::PTK_Float32:
    a.SetValue(m.k, static_cast<float>(m.d));
    break;
  case K::PTK_Float64:
    a.SetValue(m.k, m.d);
    break;
  case K::PTK_String8:
    a.SetValue(m.k, m.null ? nullptr : text);
    break;
  default:
    a.SetValue(m.k, m.i);
  }
}
void ownership(Case &c) {
  M models[3];
  char buf[256];
  auto const before = liveArrays;
  {
    {
      std::optional<AnySimple> v[3];
      for (auto &x : v)
        x.emplace();
      std::vector<const char *> moved;
      std::vector<std::string> movedText;
      moved.reserve(64);
      movedText.reserve(64);
      bool strings = false;
      while (c.more(14)) {
        Case::Span sp(c);
        auto i = c.idx(3), j = c.idx(3);
        switch (c.weighted({6, 3, 3, 2, 2, 2, 2, 2})) {
        case 0: {
          M m = genModel(c);
          NOTE(c, "v" << i << " = " << show(m));
          std::memset(buf, 'x', sizeof buf);
          std::memcpy(buf, m.s.c_str(), m.s.size() + 1);
          setTo(*v[i], m, buf);
          std::memset(buf, 'y', sizeof buf - 1); // the source is overwritten
          buf[255] = 0;
          strings |= m.k == K::PTK_String8 && !m.null;
          models[i] = m;
          break;
        }
        case 1:
          NOTE(c, "v" << i << " = v" << j);
          *v[i] = *v[j];
          models[i] = models[j];
          if (i == j)
            c.label("self-assign");
          break;
        case 2:
          if (i == j)
            break;
          NOTE(c, "v" << i << " = move v" << j);
          *v[i] = std::move(*v[j]);
          models[i] = models[j];
          models[j] = M();
          break;
        case 3: {
          NOTE(c, "v" << i << " copy constructed from v" << j);
          AnySimple t(*v[j]);
          check(t, models[j]);
          v[i].emplace(t);
          models[i] = models[j];
          break;
        }
        case 4: {
          NOTE(c, "v" << i << " move constructed from v" << j);
          AnySimple t(std::move(*v[j]));
          M m = models[j];
          models[j] = M();
          v[i].emplace(std::move(t));
          models[i] = m;
          REQUIRE(t.GetType() == K::PTK_None, "a moved-from value is not None");
          break;
        }
        case 5:
          NOTE(c, "v" << i << ".MoveString");
          try {
            auto *p = v[i]->MoveString();
            REQUIRE(models[i].k == K::PTK_String8,
                    "MoveString of a non-string");
            REQUIRE(models[i].null ? p == nullptr : p && models[i].s == p,
                    "MoveString gave another text");
            if (p) {
              if (moved.size() < 60) {
                moved.push_back(p);
                movedText.push_back(models[i].s);
              } else
                delete[] p;
            }
            models[i].null = true;
            models[i].s.clear();
            c.label("moved string");
          } catch (Smp::InvalidAnyType &) {
            REQUIRE(models[i].k != K::PTK_String8, "MoveString was rejected");
          }
          break;
        case 6: // its own text as new value
          if (models[i].k == K::PTK_String8 && !models[i].null) {
            auto off = c.idx(models[i].s.size() + 1);
            NOTE(c, "v" << i << " = own text from " << off);
            v[i]->SetValue(K::PTK_String8,
                           static_cast<Smp::String8>(*v[i]) + off);
            models[i].s = models[i].s.substr(off);
            c.label("own text");
          }
          break;
        default: { // another value's text
          if (models[j].k == K::PTK_String8 && i != j) {
            NOTE(c, "v" << i << " = text of v" << j);
            v[i]->SetValue(K::PTK_String8, static_cast<Smp::String8>(*v[j]));
            models[i] = models[j];
          }
          break;
        }
        }
        for (size_t n = 0; n < 3; ++n)
          check(*v[n], models[n]);
        for (size_t n = 0; n < moved.size(); ++n)
          REQUIRE(movedText[n] == moved[n], "a text handed out changed");
      }
      if (strings)
        c.nontrivial();
      for (auto *p : moved)
        delete[] p;
      moved = {};
      movedText = {};
      for (auto &m : models)
        m = M();
    }
  }
  REQUIRE(liveArrays == before, liveArrays - before << " texts were not freed");
}
bool equalSame(const M &a, const M &b) {
  if (a.k == K::PTK_String8)
    return a.null == b.null && a.s == b.s;
  if (isInt(a.k))
    return a.i == b.i;
  return true;
}
void equality(Case &c) {
  M a = genModel(c), b = c.chance(1, 3) ? a : genModel(c);
  if (c.chance(2, 3) && b.k != a.k) {
    // same kind, near value
    b = a;
    if (isInt(a.k))
      b.i = clampTo(a.k, static_cast<int64_t>(static_cast<uint64_t>(a.i) +
                                              (1ull << c.u(63))));
    else if (a.k == K::PTK_String8) {
      b.null = c.chance(1, 8);
      if (b.null)
        b.s.clear();
      else if (c.flip() && !b.s.empty())
        b.s.back() ^= 1;
      else
        b.s += "a";
    } else {
      b.d = c.flip() ? a.d + 1 : a.d * 1.5;
      if (a.k == K::PTK_Float32)
        b.d = static_cast<float>(b.d);
    }
  }
  NOTE(c, show(a) << " vs " << show(b));
  AnySimple x, y;
  setTo(x, a, a.s.c_str());
  setTo(y, b, b.s.c_str());
  bool eq = x == y, qe = y == x;
  REQUIRE((x != y) == !eq && (y != x) == !qe, "!= is not the negation of ==");
  if (a.k == b.k) {
    c.nontrivial();
    c.label("same kind");
    REQUIRE(eq == qe, "not symmetric");
    if (a.k == K::PTK_Float32 || a.k == K::PTK_Float64) {
      double eps = a.k == K::PTK_Float32
                       ? std::numeric_limits<float>::epsilon()
                       : std::numeric_limits<double>::epsilon();
      if (std::isnan(a.d) || std::isnan(b.d))
        REQUIRE(!eq || (std::isnan(a.d) && std::isnan(b.d)),
                "NaN equals a number");
      else if (a.d == b.d)
        REQUIRE(eq, "not equal to the same value");
      else if (std::isinf(a.d) || std::isinf(b.d) ||
               std::fabs(a.d - b.d) > 2 * eps)
        REQUIRE(!eq, "equal though the values differ");
    } else
      REQUIRE(eq == equalSame(a, b), "equality is " << eq);
  } else if (a.k == K::PTK_None || b.k == K::PTK_None) {
    c.nontrivial();
    c.label("None and a value");
    REQUIRE(!eq && !qe, "None equals a value of another kind");
  } else if (isInt(a.k) && isInt(b.k) && a.k != K::PTK_Bool &&
             b.k != K::PTK_Bool && a.k != K::PTK_Char8 && b.k != K::PTK_Char8) {
    // different integer kinds: equal exactly if the numbers are
    c.label("two integer kinds");
    auto num = [](const M &m) {
      return m.k == K::PTK_UInt64
                 ? static_cast<__int128>(static_cast<uint64_t>(m.i))
                 : static_cast<__int128>(m.i);
    };
    REQUIRE(eq == (num(a) == num(b)) && qe == eq, "equality is " << eq);
  } else if ((a.k == K::PTK_String8) != (b.k == K::PTK_String8) &&
             a.k != K::PTK_Bool && b.k != K::PTK_Bool)
    REQUIRE(!eq && !qe, "a text equals a number");
  if (!std::isnan(a.d)) {
    AnySimple z(x);
    REQUIRE(z == x && x == z && x == x, "a copy is not equal to its source");
  }
}
std::string textOf(const M &m) {
  std::ostringstream o;
  switch (m.k) {
  case K::PTK_None:
    return "None";
  case K::PTK_Bool:
    return m.i ? "true" : "false";
  case K::PTK_Int8:
    o << m.i << "i8";
    break;
  case K::PTK_UInt8:
    o << m.i << "u8";
    break;
  case K::PTK_Int16:
    o << m.i << "i16";
    break;
  case K::PTK_UInt16:
    o << m.i << "u16";
    break;
  case K::PTK_Int32:
    o << m.i << "i32";
    break;
  case K::PTK_UInt32:
    o << m.i << "u32";
    break;
  case K::PTK_Int64:
    o << m.i << "i64";
    break;
  case K::PTK_UInt64:
    o << static_cast<uint64_t>(m.i) << "u64";
    break;
  case K::PTK_Float32:
    o << static_cast<float>(m.d) << "f32";
    break;
  case K::PTK_Float64:
    o << m.d << "f64";
    break;
  case K::PTK_Duration:
    o << '"' << Xsmp::Duration(m.i) << '"';
    break;
  case K::PTK_DateTime:
    o << '"' << Xsmp::DateTime(m.i) << '"';
    break;
  case K::PTK_String8:
    o << '"' << m.s << '"';
    break;
  case K::PTK_Char8: {
    auto ch = static_cast<unsigned char>(m.i);
    static const std::map<unsigned char, std::string> esc = {
        {'\'', "\\'"}, {'?', "\\?"},  {'\\', "\\\\"}, {'\a', "\\a"},
        {'\b', "\\b"}, {'\f', "\\f"}, {'\n', "\\n"},  {'\r', "\\r"},
        {'\t', "\\t"}, {'\v', "\\v"}};
    auto it = esc.find(ch);
    if (it != esc.end())
      return "'" + it->second + "'";
    if (ch >= 32 && ch < 127)
      return std::string("'") + static_cast<char>(ch) + "'";
    o << "'\\" << std::oct << static_cast<unsigned>(ch) << "'";
    break;
  }
  }
  return o.str();
}
void text(Case &c) {
  M a = genModel(c), b = genModel(c);
  NOTE(c, "printing " << show(a) << " then " << show(b));
  for (auto *m : {&a, &b}) // dates the standard clock cannot express: see C12
    if (m->k == K::PTK_DateTime &&
        m->i > std::numeric_limits<int64_t>::max() - 946728000000000000)
      m->i -= 946728000000000000;
    else if (m->k == K::PTK_Duration &&
             m->i == std::numeric_limits<int64_t>::min())
      ++m->i; // its magnitude is no 64-bit number
  AnySimple x, y;
  setTo(x, a, a.s.c_str());
  setTo(y, b, b.s.c_str());
  std::ostringstream o;
  o << x << "|" << y << "|" << 10 << true;
  std::string want;
  std::string got = o.str();
  auto part = [&](const M &m) {
    // the text of a missing string is free, everything else is fixed
    auto bar = got.find('|');
    REQUIRE(bar != std::string::npos, "output stopped: " << pbt::show(got));
    if (m.k == K::PTK_String8 && m.null) {
      c.label("null text");
      got = got.substr(bar + 1);
      return;
    }
    auto t = textOf(m);
    REQUIRE(got.compare(0, t.size() + 1, t + "|") == 0,
            show(m) << " printed as " << pbt::show(got));
    got = got.substr(t.size() + 1);
  };
  if (a.k == K::PTK_Char8 || b.k == K::PTK_Char8) {
    // "'|'" contains the separator: handled by exact prefix match
  }
  part(a);
  part(b);
  REQUIRE(got == "101", "the stream was left changed: " << pbt::show(got));
  c.nontrivial();
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C10";
  s.rule = "a case is non-trivial if it held a text in at least one value "
           "(ownership), compared values of one kind or with None (equality), "
           "or printed two values (text)";
  s.subs = {{"ownership", ownership, 160000, 800000, 14},
            {"equality", equality, 320000, 1600000, 2},
            {"text", text, 160000, 800000, 2}};
  s.assumptions = {"a text is released with delete[] by whoever took it with "
                   "MoveString",
                   "NaN need not equal itself; floats within one epsilon count "
                   "as equal"};
  return s;
}
