//! sources: none
//! opt: -O0
// C01: a fixed-capacity string is the NUL-terminated prefix of what was stored
// in it.  Model-based: operation histories against a std::string model.
#include "pbt.h"
#include <Xsmp/String.h>
#include <memory>

using pbt::Case;
using pbt::show;
using Xsmp::String;

namespace {
// The model of a fixed string: bytes up to capacity, cut at the first NUL.
std::string cut(std::string s) { return s.substr(0, s.find('\0')); }
std::string fit(const std::string &s, size_t cap) {
  return cut(s.substr(0, cap));
}

std::string text(Case &c, size_t cap) {
  static const std::string abc("ab\x80\xff c\0z", 8);
  size_t n;
  switch (c.weighted({4, 3, 2, 2})) {
  case 0:
    n = c.u(4);
    break;
  case 1: // around the capacity
    n = cap + c.u(4);
    n = n >= 2 ? n - 2 : 0;
    break;
  case 2:
    n = c.u(cap);
    break;
  default:
    n = cap + c.u(20);
  }
  std::string s;
  bool nul = c.chance(1, 6);
  for (size_t i = 0; i < n; ++i) {
    auto ch = abc[c.idx(abc.size())];
    s += (ch == 0 && !nul) ? 'q' : ch;
  }
  return s;
}
// argument text handed over in an exactly sized heap block
struct Buf {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Buf(const std::string &s, bool z = false)
      : p(new char[s.size() + (z ? 1 : 0)]), n(s.size()) {
    std::memcpy(p.get(), s.data(), n);
    if (z)
      p[n] = 0;
  }
  std::string_view view() const { return {p.get(), n}; }
};

template <size_t N> struct Obj {
  std::unique_ptr<String<N>> s;
  std::string m;
};

template <size_t N> void check(const Obj<N> &o, const char *who) {
  const String<N> &s = *o.s;
  static_assert(sizeof(String<N>) == N + 1, "layout");
  REQUIRE(std::memchr(s.data(), 0, N + 1) != nullptr,
          who << ": not terminated within its storage");
  std::string got(s.c_str());
  REQUIRE(got == o.m, who << "<" << N << ">: content " << show(got)
                          << " expected " << show(o.m));
  REQUIRE(s.size() == o.m.size(), who << ": size " << s.size());
  REQUIRE(s.length() == o.m.size(), who << ": length " << s.length());
  REQUIRE(s.empty() == o.m.empty(), who << ": empty");
  REQUIRE(s.max_size() == N, who << ": max_size");
  REQUIRE(std::string(s.begin(), s.end()) == o.m, who << ": begin/end");
  REQUIRE(std::string(s.cbegin(), s.cend()) == o.m, who << ": cbegin/cend");
  REQUIRE(std::string(o.s->begin(), o.s->end()) == o.m, who << ": begin/end");
  REQUIRE(std::string(o.s->cbegin(), o.s->cend()) == o.m, who << ": cbegin");
  std::string r(o.m.rbegin(), o.m.rend());
  REQUIRE(std::string(s.rbegin(), s.rend()) == r, who << ": rbegin/rend");
  REQUIRE(std::string(s.crbegin(), s.crend()) == r, who << ": crbegin/crend");
  REQUIRE(std::string(o.s->rbegin(), o.s->rend()) == r, who << ": rbegin");
  REQUIRE(std::string(o.s->crbegin(), o.s->crend()) == r, who << ": crbegin");
  REQUIRE(s.data() == s.c_str() && s.data() == s.internalString,
          who << ": data");
  if (!o.m.empty()) {
    REQUIRE(s.front() == o.m.front() && o.s->front() == o.m.front(),
            who << ": front");
    REQUIRE(s.back() == o.m.back() && o.s->back() == o.m.back(),
            who << ": back");
  }
}

template <size_t N> void fresh(Case &c, Obj<N> &o) {
  auto t = text(c, N);
  switch (c.u(6)) {
  case 0:
    o.s = std::make_unique<String<N>>();
    o.m.clear();
    NOTE(c, "new<" << N << ">()");
    break;
  case 1: {
    t = cut(t);
    Buf b(t, true);
    o.s.reset(new String<N>(static_cast<const char *>(b.p.get())));
    o.m = fit(t, N);
    NOTE(c, "new<" << N << ">(char* " << show(t) << ")");
    break;
  }
  case 2:
    o.s.reset(new String<N>(t));
    o.m = fit(t, N);
    NOTE(c, "new<" << N << ">(std::string " << show(t) << ")");
    break;
  case 3: {
    Buf b(t);
    o.s.reset(new String<N>(b.view()));
    o.m = fit(t, N);
    NOTE(c, "new<" << N << ">(view " << show(t) << ")");
    break;
  }
  case 4: {
    Buf b(t);
    o.s.reset(new String<N>(b.p.get(), b.n));
    o.m = fit(t, N);
    NOTE(c, "new<" << N << ">(ptr,len " << show(t) << ")");
    break;
  }
  default: {
    std::unique_ptr<String<N>> copy(new String<N>(*o.s));
    o.s = std::move(copy);
    NOTE(c, "copy-construct<" << N << ">");
  }
  }
}

template <size_t N, size_t M> void op(Case &c, Obj<N> &a, Obj<M> &b) {
  String<N> &s = *a.s;
  auto over = [&](size_t n) {
    if (n > N)
      c.label("over capacity");
    if (n == N)
      c.label("exactly at capacity");
  };
  auto t = text(c, N);
  switch (c.u(31)) {
  case 0:
    fresh(c, a);
    break;
  case 1: {
    Buf x(t);
    auto &r = s.assign(x.view());
    REQUIRE(&r == &s, "assign returns *this");
    a.m = fit(t, N);
    over(t.size());
    NOTE(c, "assign(view " << show(t) << ")");
    break;
  }
  case 2: {
    Buf x(t);
    REQUIRE(&s.assign(x.p.get(), x.n) == &s, "assign returns *this");
    a.m = fit(t, N);
    over(t.size());
    NOTE(c, "assign(ptr,len " << show(t) << ")");
    break;
  }
  case 3:
    REQUIRE(&s.assign(*b.s) == &s, "assign returns *this");
    a.m = fit(b.m, N);
    over(b.m.size());
    NOTE(c, "assign(String<" << M << "> " << show(b.m) << ")");
    break;
  case 4:
    REQUIRE(&(s = *b.s) == &s, "operator= returns *this");
    a.m = fit(b.m, N);
    over(b.m.size());
    NOTE(c, "= String<" << M << "> " << show(b.m));
    break;
  case 5: {
    t = cut(t);
    Buf x(t, true);
    s = static_cast<const char *>(x.p.get());
    a.m = fit(t, N);
    NOTE(c, "= char* " << show(t));
    break;
  }
  case 6:
    s = t;
    a.m = fit(t, N);
    NOTE(c, "= std::string " << show(t));
    break;
  case 7: {
    Buf x(t);
    s = x.view();
    a.m = fit(t, N);
    NOTE(c, "= view " << show(t));
    break;
  }
  case 8: {
    Buf x(t);
    REQUIRE(&s.append(x.view()) == &s, "append returns *this");
    over(a.m.size() + t.size());
    a.m = fit(a.m + t, N);
    NOTE(c, "append(view " << show(t) << ")");
    break;
  }
  case 9: {
    Buf x(t);
    REQUIRE(&s.append(x.p.get(), x.n) == &s, "append returns *this");
    over(a.m.size() + t.size());
    a.m = fit(a.m + t, N);
    NOTE(c, "append(ptr,len " << show(t) << ")");
    break;
  }
  case 10:
    REQUIRE(&s.append(*b.s) == &s, "append returns *this");
    over(a.m.size() + b.m.size());
    a.m = fit(a.m + b.m, N);
    NOTE(c, "append(String<" << M << "> " << show(b.m) << ")");
    break;
  case 11:
    REQUIRE(&(s += *b.s) == &s, "+= returns *this");
    over(a.m.size() + b.m.size());
    a.m = fit(a.m + b.m, N);
    NOTE(c, "+= String<" << M << "> " << show(b.m));
    break;
  case 12: {
    Buf x(t);
    REQUIRE(&(s += x.view()) == &s, "+= returns *this");
    over(a.m.size() + t.size());
    a.m = fit(a.m + t, N);
    NOTE(c, "+= view " << show(t));
    break;
  }
  case 13:
  case 14:
  case 15: {
    char ch = c.pick<char>({'x', 'y', '\x80', '\xff', '\0'});
    if (c.flip()) {
      s.push_back(ch);
    } else
      REQUIRE(&(s += ch) == &s, "+= returns *this");
    over(a.m.size() + 1);
    a.m = fit(a.m + ch, N);
    NOTE(c, "push_back " << int(ch));
    break;
  }
  case 16:
  case 17:
    s.pop_back();
    if (a.m.empty())
      c.label("pop_back on empty");
    else
      a.m.pop_back();
    NOTE(c, "pop_back");
    break;
  case 18:
  case 19: {
    size_t n = c.chance(1, 5) ? c.u(SIZE_MAX) : c.u(N + 3);
    s.remove_suffix(n);
    if (n > a.m.size())
      c.label("remove_suffix past start");
    a.m.resize(a.m.size() - std::min(a.m.size(), n));
    NOTE(c, "remove_suffix " << n);
    break;
  }
  case 20:
  case 21: {
    size_t n = c.chance(1, 5) ? c.u(SIZE_MAX) : c.u(N + 3);
    s.remove_prefix(n);
    if (n > a.m.size())
      c.label("remove_prefix past end");
    a.m.erase(0, n);
    NOTE(c, "remove_prefix " << n);
    break;
  }
  case 22:
    s.clear();
    a.m.clear();
    NOTE(c, "clear");
    break;
  case 23:
    if (!a.m.empty()) {
      auto i = c.idx(a.m.size());
      char ch = c.pick<char>({'m', '\xfe', '\0'});
      switch (c.u(4)) {
      case 0:
        s[i] = ch;
        break;
      case 1:
        s.at(i) = ch;
        break;
      case 2:
        s.data()[i] = ch;
        break;
      case 3:
        i = 0;
        s.front() = ch;
        break;
      default:
        i = a.m.size() - 1;
        s.back() = ch;
      }
      a.m[i] = ch;
      a.m = cut(a.m);
      NOTE(c, "element " << i << " = " << int(ch));
    }
    break;
  case 24: {
    size_t i = c.chance(1, 5) ? c.u(SIZE_MAX) : c.u(N + 2);
    bool threw = false;
    char got = 0;
    char got2 = 0;
    try {
      got = s.at(i);
    } catch (const std::out_of_range &) {
      threw = true;
    }
    bool threwC = false;
    try {
      got2 = static_cast<const String<N> &>(s).at(i);
    } catch (const std::out_of_range &) {
      threwC = true;
    }
    REQUIRE(threw == (i >= a.m.size()) && threwC == threw,
            "at(" << i << ") on size " << a.m.size());
    if (!threw)
      REQUIRE(got == a.m[i] && got2 == got, "at(" << i << ")");
    NOTE(c, "at " << i);
    break;
  }
  case 25: { // own pieces
    if (a.m.empty())
      break;
    auto i = c.idx(a.m.size());
    auto n = c.u(a.m.size() - i);
    auto piece = a.m.substr(i, n);
    if (c.flip()) {
      s.append(s.c_str() + i, n);
      a.m = fit(a.m + piece, N);
      NOTE(c, "append own [" << i << "," << n << "]");
    } else {
      s.assign(s.substr(i, n));
      a.m = piece;
      NOTE(c, "assign own [" << i << "," << n << "]");
    }
    c.label("aliased argument");
    break;
  }
  case 26:
    switch (c.u(3)) {
    case 0:
      s.append(s);
      a.m = fit(a.m + a.m, N);
      break;
    case 1:
      s += s;
      a.m = fit(a.m + a.m, N);
      break;
    case 2:
      s.assign(s);
      break;
    default:
      s = *a.s;
    }
    NOTE(c, "self append/assign");
    c.label("aliased argument");
    break;
  case 27:
  case 28: { // another string of the same capacity
    Obj<N> d;
    auto t2 = text(c, N);
    d.s.reset(new String<N>(t2));
    d.m = fit(t2, N);
    switch (c.u(3)) {
    case 0:
      s.swap(*d.s);
      std::swap(a.m, d.m);
      break;
    case 1:
      std::swap(s, *d.s);
      std::swap(a.m, d.m);
      break;
    case 2: {
      using std::swap;
      swap(s, *d.s);
      std::swap(a.m, d.m);
      break;
    }
    default:
      s = *d.s;
      a.m = d.m;
    }
    check(d, "swapped");
    NOTE(c, "swap/assign with " << show(t2));
    break;
  }
  case 29: { // construct from the other capacity
    a.s.reset(new String<N>(*b.s));
    a.m = fit(b.m, N);
    over(b.m.size());
    NOTE(c, "construct from String<" << M << ">");
    break;
  }
  case 30: { // moves
    String<N> tmp(std::move(s));
    *a.s = std::move(tmp);
    NOTE(c, "move");
    break;
  }
  default: { // fill to capacity, then work at the boundary
    while (a.m.size() < N) {
      s.push_back('f');
      a.m += 'f';
    }
    NOTE(c, "fill");
    c.label("exactly at capacity");
  }
  }
}

template <size_t N, size_t M> void history(Case &c) {
  Obj<N> a;
  Obj<M> b;
  a.s = std::make_unique<String<N>>();
  b.s = std::make_unique<String<M>>();
  check(a, "default a");
  check(b, "default b");
  unsigned mut = 0;
  while (c.more(60)) {
    Case::Span sp(c);
    if (c.chance(2, 3)) {
      NOTE(c, "a<" << N << ">:");
      op(c, a, b);
    } else {
      NOTE(c, "b<" << M << ">:");
      op(c, b, a);
    }
    check(a, "a");
    check(b, "b");
    ++mut;
  }
  if (mut >= 3)
    c.nontrivial();
}
using Fn = void (*)(Case &);
const std::vector<Fn> pairs = {
    history<8, 8>,  history<1, 2>,  history<3, 5>,   history<16, 4>,
    history<0, 3>,  history<7, 33>, history<31, 15>, history<300, 129>,
};
void content(Case &c) { c.pick(pairs)(c); }

// lengths at which a narrow type would lose something
template <size_t N> void large(Case &c) {
  static const size_t edges[] = {0,   1,     126,   127,   128,   254,  255,
                                 256, 32766, 32767, 32768, 65534, 65535, 65536};
  auto length = [&](size_t cap) {
    return std::min(edges[c.idx(std::size(edges))] + c.u(2), cap);
  };
  auto s = std::make_unique<String<N>>();
  std::string m;
  char next = 'a';
  bool beyond = false;
  while (c.more(6)) {
    Case::Span span(c);
    auto n = length(N + 3);
    std::string t(n, next);
    next = next == 'z' ? 'a' : static_cast<char>(next + 1);
    if (n)
      t.back() = '#';
    Buf b(t);
    auto op = c.idx(7);
    NOTE(c, "operation " << op << " with " << n << " characters");
    switch (op) {
    case 0:
      s->assign(b.view());
      m = t;
      break;
    case 1:
      s->append(b.view());
      m += t;
      break;
    case 2:
      *s = String<N>(b.p.get(), b.n);
      m = t;
      break;
    case 3:
      s->remove_prefix(n);
      m.erase(0, n);
      break;
    case 4:
      s->remove_suffix(n);
      m.resize(m.size() - std::min(n, m.size()));
      break;
    case 5: { // a part of itself
      auto from = length(m.size());
      s->assign(s->substr(from, n));
      m = m.substr(from, n);
      break;
    }
    default: {
      auto other = std::make_unique<String<N>>(t);
      s->swap(*other);
      REQUIRE(other->c_str() == m, "swapped");
      m = t;
    }
    }
    beyond = beyond || m.size() > N;
    m.resize(std::min(m.size(), N));
    REQUIRE(s->c_str() == m, "content after operation "
                                 << op << " with " << n << " characters: "
                                 << s->size() << " instead of " << m.size());
    REQUIRE(s->size() == m.size() && s->empty() == m.empty() &&
                static_cast<size_t>(s->end() - s->begin()) == m.size(),
            "size " << s->size() << " instead of " << m.size());
    for (auto i : {size_t{0}, m.size() / 2, m.size() - 1, m.size(), N}) {
      bool threw = false;
      try {
        threw = s->at(i) != m[i];
      } catch (const std::out_of_range &) {
        REQUIRE(i >= m.size(), "at(" << i << ") throws");
        threw = true;
      }
      REQUIRE(threw == (i >= m.size()), "at(" << i << ") of " << m.size());
    }
  }
  if (m.size() > 126)
    c.nontrivial();
  if (beyond)
    c.label("long text truncated");
}
const std::vector<Fn> larges = {large<255>, large<256>, large<40000>,
                                large<70000>};
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C01";
  s.rule = "a case is a history of construction/assignment/append/removal/"
           "element writes/swap on two strings of different capacities, checked "
           "against a std::string model after each step; non-trivial = at least "
           "3 operations, or a text longer than 126 characters; counted distinct by choice sequence";
  s.subs = {{"content", content, 280000, 12000000, 30},
            {"large", [](Case &c) { c.pick(larges)(c); }, 30000, 600000, 30}};
  s.assumptions = {"an element write past the current end is outside the domain"};
  return s;
}
