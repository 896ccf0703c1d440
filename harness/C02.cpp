//! sources: none
//! opt: -O0
// C02: comparison, ordering, hashing, searching, concatenation and streaming of
// fixed-capacity strings agree with the plain text they hold.
#include "pbt.h"
#include <Xsmp/String.h>
#include <memory>
#include <unordered_set>

using pbt::Case;
using pbt::show;
using Xsmp::String;

namespace {
int sgn(int v) { return (v > 0) - (v < 0); }

// a string holding `t`, with left-over bytes after the terminator
template <size_t N> std::unique_ptr<String<N>> make(Case &c, std::string t) {
  auto s = std::make_unique<String<N>>();
  if (c.flip()) { // dirty tail
    std::string junk(N, static_cast<char>('0' + c.u(9)));
    s->assign(junk);
    s->clear();
  }
  s->append(t);
  return s;
}
// small alphabet so that equal prefixes and equal strings are common
std::string text(Case &c, size_t cap) {
  static const std::string abc("ab\x80");
  size_t n = c.chance(1, 4) ? cap - std::min<size_t>(cap, c.u(1))
                            : c.u(std::min<size_t>(cap, 6));
  std::string s;
  for (size_t i = 0; i < n; ++i)
    s += abc[c.weighted({4, 3, 1})];
  return s;
}
// a relative of t: equal, prefix, extension, one byte changed, or fresh
std::string relative(Case &c, std::string t, size_t cap) {
  switch (c.u(5)) {
  case 0:
    break;
  case 1:
    t.resize(c.u(t.size()));
    break;
  case 2:
    t += text(c, cap);
    break;
  case 3:
    if (!t.empty())
      t[c.idx(t.size())] = c.pick<char>({'a', 'b', 'c', '\x80', '\xff', '\x01'});
    break;
  default:
    return text(c, cap);
  }
  if (t.size() > cap)
    t.resize(cap);
  return t;
}

#define CMP(OP, X, Y, what)                                                    \
  REQUIRE(((X)OP(Y)) == (ml OP mr), what " " #OP " for " << show(ml) << ", "   \
                                                         << show(mr))
#define CMPALL(X, Y, what)                                                     \
  CMP(==, X, Y, what);                                                         \
  CMP(!=, X, Y, what);                                                         \
  CMP(<, X, Y, what);                                                          \
  CMP(>, X, Y, what);                                                          \
  CMP(<=, X, Y, what);                                                         \
  CMP(>=, X, Y, what)

// a view of some characters in the middle of others, NUL among them or not
struct Slice {
  std::unique_ptr<char[]> p;
  std::string m;
  std::string_view v;
  Slice(Case &c, std::string t) {
    if (!t.empty() && c.chance(1, 4))
      t[c.idx(t.size())] = '\0';
    if (c.chance(1, 6))
      t += '\0';
    m = t;
    // what follows is the rest of a longer text, or nothing at all
    auto after = c.flip() ? std::string() : t + "ab";
    p.reset(new char[t.size() + after.size()]);
    std::memcpy(p.get(), t.data(), t.size());
    std::memcpy(p.get() + t.size(), after.data(), after.size());
    v = std::string_view(p.get(), t.size());
  }
};
template <size_t N>
void views(Case &c, const String<N> &L, const std::string &ml) {
  Slice slice(c, relative(c, ml, N + 4));
  auto &mr = slice.m;
  auto v = slice.v;
  REQUIRE(sgn(L.compare(v)) == sgn(ml.compare(mr)),
          "compare slice " << show(ml) << show(mr));
  CMPALL(L, v, "String/slice");
  {
    auto &swapped = ml;
    auto ml = mr;
    auto mr = swapped;
    CMPALL(v, L, "slice/String");
  }
}

// lengths at which a narrow type would lose something
template <size_t N, size_t M> void large(Case &c) {
  static const size_t edges[] = {0,   1,     126,   127,   128,   254,  255,
                                 256, 32766, 32767, 32768, 65534, 65535, 65536};
  auto length = [&](size_t cap) {
    auto n = edges[c.idx(std::size(edges))] + c.u(2);
    return std::min(n, cap);
  };
  std::string ml(length(N), 'a'), mr(length(M), 'a');
  if (!mr.empty() && c.chance(1, 3))
    mr[mr.size() - 1 - c.idx(std::min<size_t>(mr.size(), 3))] = 'b';
  NOTE(c, "texts of " << ml.size() << " and " << mr.size() << " characters");
  c.nontrivial();
  auto l = std::make_unique<String<N>>(ml);
  auto r = std::make_unique<String<M>>(mr);
  const String<N> &L = *l;
  const String<M> &R = *r;
  int want = sgn(ml.compare(mr));
  REQUIRE(sgn(L.compare(R)) == want && sgn(R.compare(L)) == -want &&
              sgn(L.compare(std::string_view(mr))) == want,
          "compare " << ml.size() << " with " << mr.size() << " characters");
  REQUIRE((L == R) == (want == 0) && (L != R) == (want != 0) &&
              (L < R) == (want < 0) && (L > R) == (want > 0) &&
              (L <= R) == (want <= 0) && (L >= R) == (want >= 0),
          "operators on " << ml.size() << " and " << mr.size()
                          << " characters");
  REQUIRE(L.find('b') == ml.find('b') && R.find('b') == mr.find('b') &&
              R.rfind('a') == mr.rfind('a') &&
              R.find_last_not_of('a') == mr.find_last_not_of('a'),
          "search in " << mr.size() << " characters");
  auto pos = length(mr.size()), n = length(M);
  REQUIRE(std::string(R.substr(pos, n)) == mr.substr(pos, n),
          "substr(" << pos << "," << n << ")");
  REQUIRE(L + std::string_view(mr) == ml + mr, "concatenation");
  std::stringstream ss;
  ss << L << ' ' << R;
  auto back = std::make_unique<String<M>>();
  std::string first, second;
  ss >> first;
  REQUIRE(first == ml || ml.empty(), "written text");
  if (!ml.empty() && !mr.empty()) {
    ss >> *back;
    REQUIRE(back->c_str() == mr, "read text");
  }
}

template <size_t N, size_t M> void cmp(Case &c) {
  auto ml = text(c, N);
  auto mr = relative(c, ml, M);
  auto l = make<N>(c, ml);
  auto r = make<M>(c, mr);
  const String<N> &L = *l;
  const String<M> &R = *r;
  NOTE(c, "compare String<" << N << "> " << show(ml) << " with String<" << M
                            << "> " << show(mr));
  c.nontrivial();
  if (ml == mr)
    c.label("equal");
  else if (ml.compare(0, mr.size(), mr) == 0 ||
           mr.compare(0, ml.size(), ml) == 0)
    c.label("one is a prefix of the other");
  else
    c.label("differ at a byte");
  int want = sgn(ml.compare(mr));
  REQUIRE(sgn(L.compare(R)) == want, "compare " << show(ml) << show(mr));
  REQUIRE(sgn(R.compare(L)) == -want, "compare " << show(mr) << show(ml));
  REQUIRE(sgn(L.compare(std::string_view(mr))) == want,
          "compare view " << show(ml) << show(mr));
  views<N>(c, L, ml);
  CMPALL(L, R, "String/String");
  {
    std::string_view v(mr);
    CMPALL(L, v, "String/string_view");
  }
  {
    std::string_view v(ml);
    CMPALL(v, R, "string_view/String");
  }
  CMPALL(L, mr.c_str(), "String/char*");
  CMPALL(ml.c_str(), R, "char*/String");
  CMPALL(L, mr, "String/std::string");
  CMPALL(ml, R, "std::string/String");
  if constexpr (N == M) {
    std::hash<String<N>> h;
    if (ml == mr)
      REQUIRE(h(L) == h(R), "equal strings, different hashes " << show(ml));
    std::unordered_set<String<N>> set;
    set.insert(L);
    REQUIRE(set.count(R) == (ml == mr ? 1u : 0u),
            "lookup of " << show(mr) << " among " << show(ml));
  }
  // the hash depends on the text
  if (!ml.empty()) {
    std::set<size_t> hs;
    std::hash<String<N>> h;
    for (char ch = 'A'; ch < 'I'; ++ch)
      for (size_t p : {size_t{0}, ml.size() / 2, ml.size() - 1}) {
        auto t = ml;
        t[p] = ch;
        hs.insert(h(*make<N>(c, t)));
      }
    REQUIRE(hs.size() >= 8, "hash ignores the text");
  }
}

template <size_t N> void search(Case &c) {
  auto m = text(c, N);
  auto sp = make<N>(c, m);
  const String<N> &s = *sp;
  // argument: often a piece of the text
  std::string a;
  if (!m.empty() && c.chance(2, 3)) {
    auto i = c.idx(m.size());
    a = m.substr(i, c.u(3));
  } else
    a = c.str(4, std::string("abx\x80"));
  std::unique_ptr<char[]> exact(new char[a.size()]); // nothing behind it
  std::memcpy(exact.get(), a.data(), a.size());
  char ch = c.pick<char>({'a', 'b', '\x80', 'x'});
  size_t pos = c.chance(1, 6) ? SIZE_MAX - c.u(2) : c.u(m.size() + 2);
  size_t n = c.u(a.size());
  NOTE(c, "search in String<" << N << "> " << show(m) << " for " << show(a)
                              << " / " << int(ch) << " from " << pos << " n="
                              << n);
  c.nontrivial();
  std::string_view av(exact.get(), a.size());
  bool hit = false;
  auto eq = [&](size_t got, size_t want, const char *what) {
    REQUIRE(got == want, what << " in " << show(m) << " for " << show(a) << "/"
                              << int(ch) << " pos=" << pos << " n=" << n
                              << ": got " << got << " expected " << want);
    hit = hit || want != std::string::npos;
  };
#define ALL(F)                                                                 \
  eq(s.F(av, pos), m.F(av, pos), #F "(view,pos)");                             \
  eq(s.F(av), m.F(av), #F "(view)");                                           \
  eq(s.F(ch, pos), m.F(ch, pos), #F "(char,pos)");                             \
  eq(s.F(ch), m.F(ch), #F "(char)");                                           \
  eq(s.F(a.c_str(), pos), m.F(a.c_str(), pos), #F "(char*,pos)");              \
  eq(s.F(a.c_str()), m.F(a.c_str()), #F "(char*)");                            \
  eq(s.F(a.c_str(), pos, n), m.F(a.c_str(), pos, n), #F "(char*,pos,n)");      \
  eq(s.F(av.substr(0, n), pos), m.F(av.substr(0, n), pos), #F "(sub,pos)")
  ALL(find);
  ALL(rfind);
  ALL(find_first_of);
  ALL(find_last_of);
  ALL(find_first_not_of);
  ALL(find_last_not_of);
  if (hit)
    c.label("something found");
  // substr
  size_t k = c.chance(1, 4) ? SIZE_MAX : c.u(N + 2);
  bool threw = false;
  std::string got;
  try {
    got = std::string(s.substr(pos, k));
  } catch (const std::out_of_range &) {
    threw = true;
  }
  REQUIRE(threw == (pos > m.size()), "substr(" << pos << ") of " << show(m));
  if (!threw)
    REQUIRE(got == m.substr(pos, k), "substr(" << pos << "," << k << ") of "
                                               << show(m) << " is "
                                               << show(got));
  REQUIRE(std::string(s.substr()) == m, "substr()");
}

template <size_t N, size_t M> void text_io(Case &c) {
  auto ml = text(c, N);
  auto mr = relative(c, ml, M);
  auto l = make<N>(c, ml);
  auto r = make<M>(c, mr);
  const String<N> &L = *l;
  const String<M> &R = *r;
  NOTE(c, "concat/stream String<" << N << "> " << show(ml) << " String<" << M
                                  << "> " << show(mr));
  c.nontrivial();
  char ch = c.pick<char>({'z', '\xfe'});
  auto eq = [&](const std::string &got, const std::string &want,
                const char *what) {
    REQUIRE(got == want, what << ": " << show(got) << " expected "
                              << show(want));
  };
  eq(std::string_view(ml) + R, ml + mr, "view + String");
  eq(L + std::string_view(mr), ml + mr, "String + view");
  Slice slice(c, mr);
  eq(L + slice.v, ml + slice.m, "String + slice");
  eq(slice.v + L, slice.m + ml, "slice + String");
  eq(ch + R, ch + mr, "char + String");
  eq(L + ch, ml + ch, "String + char");
  // ostream: same as the text, formatting included
  std::ostringstream o1, o2;
  int w = static_cast<int>(c.u(12));
  bool left = c.flip();
  for (auto *o : {&o1, &o2}) {
    o->width(w);
    o->fill('*');
    if (left)
      *o << std::left;
  }
  o1 << L;
  o2 << ml;
  eq(o1.str(), o2.str(), "operator<<");
  REQUIRE(o1.width() == o2.width() && o1.flags() == o2.flags(),
          "stream state after <<");
  // istream: the next token, truncated to the capacity
  std::string in = c.str(3, " \t") + ml + c.pick<const char *>({" ", "\n", ""}) +
                   mr + c.str(2, " ") + text(c, N + 4);
  std::istringstream i1(in), i2(in);
  auto into = make<N>(c, mr);
  std::string want;
  for (int k = 0; k < 4; ++k) {
    i1 >> *into;
    i2 >> want;
    REQUIRE(i1.rdstate() == i2.rdstate(), "stream state after >>");
    if (!i2)
      break;
    eq(into->c_str(), want.substr(0, N), "operator>>");
    if (!i2.eof())
      REQUIRE(i1.tellg() == i2.tellg(), "stream position after >>");
    if (want.size() > N)
      c.label("token longer than the capacity");
  }
  // round trip
  if (!ml.empty()) {
    std::stringstream ss;
    ss << L;
    auto back = make<N>(c, mr);
    ss >> *back;
    eq(back->c_str(), ml, "write/read round trip");
  }
}
using Fn = void (*)(Case &);
const std::vector<Fn> cmps = {cmp<5, 5>, cmp<8, 3>, cmp<3, 8>, cmp<20, 20>,
                              cmp<40, 6>};
const std::vector<Fn> larges = {large<300, 300>, large<70000, 300>,
                                large<70000, 70000>, large<300, 70000>};
const std::vector<Fn> searches = {search<6>, search<3>, search<24>};
const std::vector<Fn> ios = {text_io<6, 6>, text_io<3, 9>, text_io<16, 2>};
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C02";
  s.rule = "a case is a pair of related texts (equal / prefix / extension / one "
           "byte changed) in strings of given capacities with stale bytes after "
           "the terminator, all overloads compared with std::string; every "
           "completed case is non-trivial; distinct by choice sequence";
  s.subs = {
      {"compare", [](Case &c) { c.pick(cmps)(c); }, 800000, 20000000},
      {"search", [](Case &c) { c.pick(searches)(c); }, 800000, 20000000},
      {"text", [](Case &c) { c.pick(ios)(c); }, 600000, 9000000},
      {"large", [](Case &c) { c.pick(larges)(c); }, 30000, 600000},
  };
  s.assumptions = {"the texts of the strings have no NUL; arguments are valid pointers"};
  return s;
}
