//! sources: src/Smp/AnySimple.cpp src/Smp/StreamOperators.cpp
//! src/Xsmp/Exception.cpp src/Xsmp/Duration.cpp src/Xsmp/DateTime.cpp
//! src/Xsmp/cstring.cpp src/Xsmp/Helper.cpp src/Smp/Uuid.cpp
// C11: UUID text round-trips, wrong text is rejected, order and hash agree.
#include "pbt.h"
#include <Smp/Exception.h>
#include <Smp/Uuid.h>
#include <algorithm>
#include <cctype>
#include <unordered_map>

using pbt::Case;
using pbt::show;
using Smp::Uuid;

namespace {
const std::string hexd = "0123456789abcdef";
std::string bytesText(const std::vector<unsigned> &b) {
  std::string s;
  for (size_t i = 0; i < 16; ++i) {
    if (i == 4 || i == 6 || i == 8 || i == 10)
      s += '-';
    s += hexd[b[i] >> 4];
    s += hexd[b[i] & 15];
  }
  return s;
}
std::vector<unsigned> genBytes(Case &c) {
  std::vector<unsigned> b;
  auto mode = c.u(2);
  for (int i = 0; i < 16; ++i)
    b.push_back(mode == 0   ? static_cast<unsigned>(c.u(255))
                : mode == 1 ? c.pick({0u, 1u, 9u, 10u, 0x7fu, 0x80u, 0xffu})
                            : 0u);
  return b;
}
Uuid make(const std::vector<unsigned> &b) {
  Uuid u;
  u.Data1 = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3];
  for (size_t i = 0; i < 3; ++i)
    u.Data2[i] = static_cast<uint16_t>(b[4 + 2 * i] << 8 | b[5 + 2 * i]);
  for (size_t i = 0; i < 6; ++i)
    u.Data3[i] = static_cast<uint8_t>(b[10 + i]);
  return u;
}
void roundtrip(Case &c) {
  auto b = genBytes(c);
  auto t = bytesText(b);
  std::string in = t;
  for (auto &ch : in)
    if (c.chance(1, 4))
      ch = static_cast<char>(std::toupper(ch));
  NOTE(c, "parse " << in);
  c.nontrivial();
  Uuid u(in.c_str());
  Uuid w = make(b);
  REQUIRE(u.Data1 == w.Data1 && u.Data2 == w.Data2 && u.Data3 == w.Data3,
          "parsed to other numbers");
  REQUIRE(u == w && !(u != w), "not equal to the same numbers");
  std::ostringstream o;
  o << u << "|" << 10 << "|" << u << "|";
  o.width(4);
  o << 7;
  REQUIRE(o.str() == t + "|10|" + t + "|   7", "printed as " << show(o.str()));
}
bool wellFormed(const std::string &s) {
  if (s.size() != 36)
    return false;
  for (size_t i = 0; i < 36; ++i) {
    bool dash = i == 8 || i == 13 || i == 18 || i == 23;
    if (dash ? s[i] != '-'
             : !((s[i] >= '0' && s[i] <= '9') || (s[i] >= 'a' && s[i] <= 'f') ||
                 (s[i] >= 'A' && s[i] <= 'F')))
      return false;
  }
  return true;
}
void badText(Case &c) {
  auto s = bytesText(genBytes(c));
  auto n = 1 + c.u(1);
  for (uint64_t k = 0; k < n; ++k) {
    Case::Span sp(c);
    switch (c.weighted({4, 2, 2, 2, 1})) {
    case 0:
      if (!s.empty())
        s[c.idx(s.size())] = c.pick({'g', 'G', ' ', '-', 'x', '\x80', '\xff',
                                     '/', ':', '@', '`', '+', '\n', 'F', '9'});
      break;
    case 1:
      s.resize(c.idx(s.size() + 1));
      break;
    case 2:
      s += c.str(4, "0a-g ");
      break;
    case 3:
      if (!s.empty())
        s.erase(c.idx(s.size()), 1);
      break;
    default:
      s = c.str(40, "0aF-{}g");
    }
  }
  // exact size heap copy: reading past the end is seen by the sanitizer
  std::vector<char> buf(s.begin(), s.end());
  buf.push_back(0);
  buf.shrink_to_fit();
  std::string seen = buf.data();
  NOTE(c, "parse " << show(seen));
  bool ok = true;
  try {
    Uuid u(buf.data());
    (void)u;
  } catch (Smp::Exception &e) {
    ok = false;
  }
  REQUIRE(ok == wellFormed(seen),
          show(seen) << (ok ? " was accepted" : " was rejected"));
  if (!ok)
    c.nontrivial();
}
void nullText(Case &c) {
  NOTE(c, "parse null");
  c.nontrivial();
  bool thrown = false;
  try {
    Uuid u(static_cast<const char *>(nullptr));
  } catch (Smp::Exception &) {
    thrown = true;
  }
  REQUIRE(thrown, "a null text was accepted");
}
void order(Case &c) {
  std::vector<std::vector<unsigned>> bs;
  bs.push_back(genBytes(c));
  auto n = 2 + c.u(4);
  for (uint64_t i = 0; i < n; ++i) {
    Case::Span sp(c);
    auto b = c.pick(bs);
    switch (c.u(3)) {
    case 0:
      break; // a duplicate
    case 1:
      b[c.idx(16)] ^= 1u << c.u(7);
      break;
    case 2: { // two bytes, opposite direction
      b[c.idx(16)] = static_cast<unsigned>(c.u(255));
      b[c.idx(16)] = static_cast<unsigned>(c.u(255));
      break;
    }
    default:
      b = genBytes(c);
    }
    bs.push_back(b);
  }
  bool differ = false;
  for (auto &x : bs)
    for (auto &y : bs) {
      Uuid a = make(x), b = make(y);
      bool lt = x < y; // byte order is the order of the numbers
      NOTE(c, bytesText(x) << " ? " << bytesText(y));
      REQUIRE((a == b) == (x == y) && (a != b) == (x != y),
              "equality of " << bytesText(x) << " and " << bytesText(y));
      REQUIRE((a < b) == lt, bytesText(x)
                                 << " < " << bytesText(y) << " is " << (a < b));
      if (x == y)
        REQUIRE(std::hash<Uuid>()(a) == std::hash<Uuid>()(b), "hash");
      else
        differ = true;
    }
  if (differ)
    c.nontrivial();
  // usable as key of ordered and hashed containers
  std::map<Uuid, size_t> m;
  std::unordered_map<Uuid, size_t> h;
  std::map<std::vector<unsigned>, size_t> want;
  for (size_t i = 0; i < bs.size(); ++i) {
    m[make(bs[i])] = i;
    h[make(bs[i])] = i;
    want[bs[i]] = i;
  }
  REQUIRE(m.size() == want.size() && h.size() == want.size(), "container size");
  for (auto &[k, v] : want)
    REQUIRE(m.at(make(k)) == v && h.at(make(k)) == v, "container look-up");
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C11";
  s.rule = "a case is non-trivial if it parsed and printed a random UUID, was "
           "rejected, or compared UUIDs that differ";
  s.subs = {{"roundtrip", roundtrip, 240000, 1200000, 2},
            {"bad-text", badText, 320000, 1600000, 2},
            {"null", nullText, 10, 10, 1},
            {"order", order, 160000, 800000, 6}};
  s.assumptions = {"streams are in their default format"};
  return s;
}
