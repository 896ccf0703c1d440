//! sources: src/Xsmp/cstring.cpp
//! opt: -O1
// C03: a cstring owns a private, NUL-terminated copy of the text it was given.
#include "pbt.h"
#include <Xsmp/cstring.h>
#include <array>
#include <optional>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

using pbt::Case;
using pbt::show;
using Xsmp::cstring;

namespace {
constexpr size_t Slots = 4;
struct Op {
  int kind;
  size_t a, b, off;
  std::string text; // size may exceed the first NUL
};
std::string cut(const std::string &s) { return s.substr(0, s.find('\0')); }

std::string text(Case &c, bool nul) {
  static const std::string abc("ab\xff\x80 \0", 6);
  size_t n = c.chance(1, 300) ? 65530 + c.u(20) // around 16 bits
             : c.chance(1, 8) ? c.u(300) : c.u(12);
  std::string s;
  if (n > 300) {
    s.assign(n, 'x');
    s.back() = 'y';
    return s;
  }
  for (size_t i = 0; i < n; ++i)
    s += abc[c.idx(abc.size() - (nul ? 0 : 1))];
  return s;
}
const char *names[] = {"new(char*)", "new(ptr,len)", "new(view)",
                       "new(copy)",  "new(move)",    "destroy",
                       "=copy",      "=move",        "=char*",
                       "=own text",  "=other text",  "swap"};

// runs the decoded history; allocates nothing that outlives it
void run(const std::vector<Op> &ops) {
  // value: the text, or nothing for "valid but unspecified" (moved from)
  struct Slot {
    std::optional<cstring> s;
    std::optional<std::string> m;
    const char *ptr{};
  };
  std::array<Slot, Slots> sl;
  auto stable = [&](size_t skip1, size_t skip2) {
    for (size_t i = 0; i < Slots; ++i) {
      if (!sl[i].s || !sl[i].m)
        continue;
      const char *p = sl[i].s->c_str();
      REQUIRE(p != nullptr, "slot " << i << ": null text");
      REQUIRE(std::strcmp(p, sl[i].m->c_str()) == 0,
              "slot " << i << ": " << show(p) << " expected " << show(*sl[i].m));
      if (i != skip1 && i != skip2)
        REQUIRE(p == sl[i].ptr, "slot " << i
                                        << ": text moved without being touched");
      sl[i].ptr = p;
    }
    for (size_t i = 0; i < Slots; ++i)
      for (size_t j = 0; j < i; ++j)
        if (sl[i].s && sl[j].s && sl[i].m && sl[j].m)
          REQUIRE(sl[i].s->c_str() != sl[j].s->c_str(),
                  "slots " << i << " and " << j << " share their text");
  };
  for (auto const &o : ops) {
    auto &A = sl[o.a];
    auto &B = sl[o.b];
    // the argument lives in its own block and is gone after the operation
    auto arg = std::make_unique<char[]>(o.text.size() + 1);
    std::memcpy(arg.get(), o.text.c_str(), o.text.size() + 1);
    switch (o.kind) {
    case 0:
      A.s.emplace(static_cast<const char *>(arg.get()));
      A.m = cut(o.text);
      break;
    case 1: {
      auto exact = std::make_unique<char[]>(o.text.size());
      std::memcpy(exact.get(), o.text.data(), o.text.size());
      A.s.emplace(exact.get(), o.text.size());
      REQUIRE(std::memcmp(A.s->c_str(), o.text.c_str(), o.text.size() + 1) == 0,
              "all given bytes are kept and terminated");
      A.m = cut(o.text);
      break;
    }
    case 2: {
      auto exact = std::make_unique<char[]>(o.text.size());
      std::memcpy(exact.get(), o.text.data(), o.text.size());
      A.s.emplace(std::string_view(exact.get(), o.text.size()));
      REQUIRE(std::memcmp(A.s->c_str(), o.text.c_str(), o.text.size() + 1) == 0,
              "all given bytes are kept and terminated");
      A.m = cut(o.text);
      break;
    }
    case 3:
      if (B.s && o.a != o.b) {
        A.s.emplace(*B.s);
        A.m = B.m;
      }
      break;
    case 4:
      if (B.s && o.a != o.b) {
        A.s.emplace(std::move(*B.s));
        A.m = B.m;
        B.m.reset();
      }
      break;
    case 5:
      A.s.reset();
      A.m.reset();
      break;
    case 6:
      if (A.s && B.s) {
        cstring &r = (*A.s = static_cast<const cstring &>(*B.s));
        REQUIRE(&r == &*A.s, "= returns *this");
        A.m = B.m;
      }
      break;
    case 7:
      if (A.s && B.s) {
        cstring &r = (*A.s = std::move(*B.s));
        REQUIRE(&r == &*A.s, "= returns *this");
        A.m = B.m;
        if (o.a != o.b)
          B.m.reset();
        else
          A.m.reset(); // self move: valid, but unspecified
      }
      break;
    case 8:
      if (A.s) {
        cstring &r = (*A.s = static_cast<const char *>(arg.get()));
        REQUIRE(&r == &*A.s, "= returns *this");
        A.m = cut(o.text);
      }
      break;
    case 9:
      if (A.s && A.m) {
        auto off = std::min(o.off, A.m->size());
        *A.s = A.s->c_str() + off;
        A.m = A.m->substr(off);
      }
      break;
    case 10:
      if (A.s && B.s && B.m) {
        auto off = std::min(o.off, B.m->size());
        auto t = B.m->substr(off);
        *A.s = B.s->c_str() + off;
        A.m = t;
      }
      break;
    default:
      if (A.s && B.s && o.a != o.b) {
        std::swap(*A.s, *B.s);
        std::swap(A.m, B.m);
      }
    }
    stable(o.a, o.b);
  }
}

void history(Case &c) {
  std::vector<Op> ops;
  while (c.more(40)) {
    Case::Span sp(c);
    Op o;
    o.kind = static_cast<int>(c.u(11));
    o.a = c.idx(Slots);
    o.b = c.idx(Slots);
    o.off = c.u(6);
    o.text = text(c, o.kind == 1 || o.kind == 2);
    NOTE(c, names[o.kind] << " a=" << o.a << " b=" << o.b << " off=" << o.off
                          << " " << show(o.text));
    c.label(names[o.kind]);
    ops.push_back(std::move(o));
  }
  if (ops.size() >= 3)
    c.nontrivial();
  auto before = __sanitizer_get_current_allocated_bytes();
  run(ops);
  auto after = __sanitizer_get_current_allocated_bytes();
  REQUIRE(after == before, "the history leaves " << (after - before)
                                                 << " bytes allocated");
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C03";
  s.rule = "a case is a history of construction, copy, move, assignment (also "
           "from own text and self), swap and destruction over 4 slots against "
           "a text model, with allocation balance; non-trivial = at least 3 "
           "operations; distinct by choice sequence";
  s.subs = {{"ownership", history, 700000, 15000000, 30}};
  s.assumptions = {"text pointers are non-null and terminated",
                   "the text of a moved-from object is unspecified"};
  return s;
}
