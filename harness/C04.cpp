//! sources: none
//! opt: -O0
// C04: a fixed-size array behaves as std::array of the same size.
#include "pbt.h"
#include <Xsmp/Array.h>
#include <algorithm>
#include <array>
#include <limits>
#include <memory>

using pbt::Case;
using pbt::show;

namespace {
template <class T> struct Gen;
template <> struct Gen<int> {
  static int get(Case &c) { return static_cast<int>(c.range(-2, 3)); }
};
template <> struct Gen<uint8_t> {
  static uint8_t get(Case &c) { return c.pick<uint8_t>({0, 1, 2, 127, 128, 255}); }
};
template <> struct Gen<int8_t> {
  static int8_t get(Case &c) { return c.pick<int8_t>({-128, -127, -1, 0, 1, 127}); }
};
template <> struct Gen<bool> {
  static bool get(Case &c) { return c.flip(); }
};
template <> struct Gen<double> {
  static double get(Case &c) { return c.floating<double>(false); }
};
template <> struct Gen<std::string> {
  static std::string get(Case &c) {
    return c.chance(1, 4) ? std::string(40, 'a' + static_cast<char>(c.u(2)))
                          : c.str(3, "ab");
  }
};
template <class T, size_t N> struct Gen<Xsmp::Array<T, N>> {};

template <class T, size_t N> struct Pair {
  std::unique_ptr<Xsmp::Array<T, N>> x; // heap block: overruns are visible
  std::unique_ptr<std::array<T, N>> m;
  Pair() : x(new Xsmp::Array<T, N>()), m(new std::array<T, N>()) {}
};

template <class T, size_t N> void same(Pair<T, N> &p, const char *who) {
  auto &x = *p.x;
  const auto &cx = *p.x;
  auto &m = *p.m;
  REQUIRE(cx.size() == N && cx.max_size() == N && cx.empty() == (N == 0),
          who << ": size");
  std::vector<T> want(m.begin(), m.end());
  std::vector<T> rwant(m.rbegin(), m.rend());
  REQUIRE(static_cast<size_t>(cx.end() - cx.begin()) == N, who << ": extent");
  REQUIRE(std::vector<T>(cx.begin(), cx.end()) == want, who << ": content");
  REQUIRE(std::vector<T>(x.begin(), x.end()) == want, who << ": content");
  REQUIRE(std::vector<T>(cx.cbegin(), cx.cend()) == want, who << ": content");
  REQUIRE(std::vector<T>(cx.rbegin(), cx.rend()) == rwant, who << ": reverse");
  REQUIRE(std::vector<T>(x.rbegin(), x.rend()) == rwant, who << ": reverse");
  REQUIRE(std::vector<T>(cx.crbegin(), cx.crend()) == rwant, who << ": reverse");
  REQUIRE(x.begin() == x.data() && cx.begin() == cx.data() &&
              cx.data() == x.data(),
          who << ": data");
  if constexpr (N > 0) {
    static_assert(sizeof(Xsmp::Array<T, N>) == sizeof(T[N]), "layout");
    REQUIRE(static_cast<const void *>(cx.data()) ==
                static_cast<const void *>(&cx),
            who << ": storage");
    REQUIRE(x.front() == m.front() && cx.front() == m.front(), who << ": front");
    REQUIRE(x.back() == m.back() && cx.back() == m.back(), who << ": back");
    for (size_t i = 0; i < N; ++i)
      REQUIRE(x[i] == m[i] && cx[i] == m[i] && x.at(i) == m[i] &&
                  cx.at(i) == m[i] && &x.at(i) == x.data() + i,
              who << ": element " << i);
  }
}

template <class T, size_t N>
void related(Case &c, Pair<T, N> &a, const Pair<T, N> &b) {
  *a.x = *b.x;
  *a.m = *b.m;
  if constexpr (N > 0)
    if (c.chance(2, 3)) {
      auto i = c.idx(N);
      T v = Gen<T>::get(c);
      a.x->data()[i] = v;
      (*a.m)[i] = v;
    }
}

template <class T, size_t N> void history(Case &c) {
  Pair<T, N> a, b;
  unsigned ops = 0;
  while (c.more(40)) {
    Case::Span sp(c);
    ++ops;
    auto &p = c.flip() ? a : b;
    auto &q = &p == &a ? b : a;
    switch (c.u(12)) {
    case 0: {
      T v = Gen<T>::get(c);
      p.x->fill(v);
      p.m->fill(v);
      NOTE(c, "fill");
      break;
    }
    case 1:
      if (c.flip())
        p.x->swap(*q.x);
      else
        std::swap(*p.x, *q.x);
      p.m->swap(*q.m);
      NOTE(c, "swap");
      break;
    case 2:
    case 3: {
      size_t i = c.chance(1, 4) ? c.u(SIZE_MAX) : c.u(N + 1);
      T v = Gen<T>::get(c);
      bool threw = false, threwC = false;
      try {
        p.x->at(i) = v;
      } catch (const std::out_of_range &) {
        threw = true;
      }
      try {
        const auto &cx = *p.x;
        REQUIRE(cx.at(i) == v, "at(" << i << ") const");
      } catch (const std::out_of_range &) {
        threwC = true;
      }
      REQUIRE(threw == (i >= N) && threwC == threw, "at(" << i << ") of " << N);
      if (i < N)
        (*p.m)[i] = v;
      else
        c.label("out of range");
      NOTE(c, "at(" << i << ")=");
      break;
    }
    case 4:
      if constexpr (N > 0) {
        size_t i = c.idx(N);
        T v = Gen<T>::get(c);
        switch (c.u(4)) {
        case 0:
          (*p.x)[i] = v;
          break;
        case 1:
          p.x->begin()[i] = v;
          break;
        case 2:
          p.x->rbegin()[static_cast<long>(N - 1 - i)] = v;
          break;
        case 3:
          i = 0;
          p.x->front() = v;
          break;
        default:
          i = N - 1;
          p.x->back() = v;
        }
        (*p.m)[i] = v;
        NOTE(c, "element " << i);
      }
      break;
    case 5:
      *p.x = *q.x;
      *p.m = *q.m;
      NOTE(c, "copy assign");
      break;
    case 6: {
      std::unique_ptr<Xsmp::Array<T, N>> n(new Xsmp::Array<T, N>(*p.x));
      p.x = std::move(n);
      NOTE(c, "copy construct");
      break;
    }
    case 7: { // a move takes every element along
      std::unique_ptr<Xsmp::Array<T, N>> n(
          new Xsmp::Array<T, N>(std::move(*p.x)));
      std::array<T, N> v(std::move(*p.m));
      *p.x = std::move(*n);
      *p.m = std::move(v);
      NOTE(c, "move");
      break;
    }
    case 8: { // with itself
      auto &self = *p.x;
      if (c.flip()) {
        p.x->swap(self);
        NOTE(c, "swap with itself");
      } else {
        *p.x = self;
        NOTE(c, "assign itself");
      }
      break;
    }
    case 9:
      if constexpr (N > 0) { // with one of its own elements
        auto i = c.idx(N);
        T v = (*p.m)[i];
        p.x->fill((*p.x)[i]);
        p.m->fill(v);
        NOTE(c, "fill with own element " << i);
      }
      break;
    default:
      related(c, p, q);
      NOTE(c, "one element apart");
    }
    same(a, "a");
    same(b, "b");
    const auto &x = *a.x;
    const auto &y = *b.x;
    const auto &m = *a.m;
    const auto &n = *b.m;
    if (m == n)
      c.label("equal");
    else
      c.label(m < n ? "less" : "greater");
    REQUIRE((x == y) == (m == n) && (x != y) == (m != n), "equality");
    REQUIRE((x < y) == (m < n) && (x > y) == (m > n), "order < >");
    REQUIRE((x <= y) == (m <= n) && (x >= y) == (m >= n), "order <= >=");
    REQUIRE((y < x) == (n < m) && (y <= x) == (n <= m), "order swapped");
    REQUIRE(x == x && !(x < x) && x <= x, "reflexive");
  }
  if (ops >= 2)
    c.nontrivial();
}

// arrays of arrays and other element shapes
void nested(Case &c) {
  using In = Xsmp::Array<int, 3>;
  auto x = std::make_unique<Xsmp::Array<In, 2>>();
  auto y = std::make_unique<Xsmp::Array<In, 2>>();
  std::array<std::array<int, 3>, 2> m{}, n{};
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) {
      (*x)[i][j] = m[i][j] = static_cast<int>(c.range(-1, 1));
      (*y).at(i).at(j) = n[i][j] =
          c.chance(2, 3) ? m[i][j] : static_cast<int>(c.range(-1, 1));
    }
  c.nontrivial();
  NOTE(c, "nested " << m[0][0] << m[0][1] << m[0][2] << m[1][0] << m[1][1]
                    << m[1][2] << " / " << n[0][0] << n[0][1] << n[0][2]
                    << n[1][0] << n[1][1] << n[1][2]);
  auto cmp = [&] {
    REQUIRE((*x == *y) == (m == n) && (*x != *y) == (m != n), "equality");
    REQUIRE((*x < *y) == (m < n) && (*x > *y) == (m > n), "order");
    REQUIRE((*x <= *y) == (m <= n) && (*x >= *y) == (m >= n), "order");
  };
  cmp();
  x->swap(*y);
  std::swap(m, n);
  cmp();
  In v{static_cast<int>(c.range(-1, 1)), 1, -1};
  x->fill(v);
  m.fill({v[0], v[1], v[2]});
  cmp();
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j)
      REQUIRE((*x)[i][j] == m[i][j] && (*y)[i][j] == n[i][j], "content");
  Xsmp::Array d{1, 2, 3, 4};
  static_assert(std::is_same_v<decltype(d), Xsmp::Array<int, 4>>, "deduction");
  REQUIRE(d.size() == 4 && d[0] == 1 && d[3] == 4, "deduced");
  Xsmp::Array<int, 4>::simple s{1, 2};
  REQUIRE(s.size() == 4 && s[0] == 1 && s[1] == 2 && s[2] == 0 && s[3] == 0,
          "aggregate initialisation");
}
// elements whose equality is not the equality of their bytes
struct Keyed {
  int key;
  int noise;
  bool operator==(const Keyed &o) const { return key == o.key; }
  bool operator<(const Keyed &o) const { return key < o.key; }
};
double special(Case &c) {
  return c.pick<double>({std::numeric_limits<double>::quiet_NaN(), 0., -0., 1.,
                         -1., std::numeric_limits<double>::infinity(),
                         -std::numeric_limits<double>::infinity(),
                         std::numeric_limits<double>::denorm_min()});
}
template <class T, size_t N, class G> void comparePair(Case &c, G gen) {
  Pair<T, N> a, b;
  for (size_t i = 0; i < N; ++i) {
    T v = gen(), w = c.chance(2, 3) ? v : gen();
    if constexpr (std::is_same_v<T, Keyed>)
      w.noise = static_cast<int>(c.u(3));
    (*a.x)[i] = v;
    (*a.m)[i] = v;
    (*b.x)[i] = w;
    (*b.m)[i] = w;
  }
  const auto &x = *a.x;
  const auto &y = *b.x;
  const auto &m = *a.m;
  const auto &n = *b.m;
  c.nontrivial();
  c.label(m == n ? "equal" : m < n ? "less" : n < m ? "greater" : "unordered");
  REQUIRE((x == y) == (m == n) && (x != y) == (m != n), "equality");
  REQUIRE((x < y) == (m < n) && (x > y) == (m > n), "order < >");
  REQUIRE((x <= y) == (m <= n) && (x >= y) == (m >= n), "order <= >=");
  REQUIRE((y < x) == (n < m) && (y <= x) == (n <= m), "order swapped");
  REQUIRE((y > x) == (n > m) && (y >= x) == (n >= m), "order swapped");
  REQUIRE((x == x) == (m == m) && (x <= x) == (m <= m), "with itself");
}
void elements(Case &c) {
  auto d = [&] { return special(c); };
  auto f = [&] { return static_cast<float>(special(c)); };
  auto k = [&] { return Keyed{static_cast<int>(c.range(-1, 2)), static_cast<int>(c.u(3))}; };
  switch (c.u(4)) {
  case 0:
    return comparePair<double, 1>(c, d);
  case 1:
    return comparePair<double, 3>(c, d);
  case 2:
    return comparePair<float, 2>(c, f);
  case 3:
    return comparePair<Keyed, 2>(c, k);
  default:
    return comparePair<Keyed, 4>(c, k);
  }
}

// long arrays: positions beyond 8 and 16 bits
template <class T, size_t N> void wide(Case &c) {
  Pair<T, N> a, b;
  auto position = [&]() -> size_t {
    switch (c.weighted({3, 2, 2})) {
    case 0:
      return c.u(N - 1);
    case 1:
      return N - 1 - c.u(3);
    default:
      return std::min<size_t>(N - 1, (c.flip() ? 256u : 65536u) + c.u(2) - 1);
    }
  };
  T v = Gen<T>::get(c);
  a.x->fill(v);
  a.m->fill(v);
  *b.x = *a.x;
  *b.m = *a.m;
  NOTE(c, "an array of " << N << " filled");
  while (c.more(6)) {
    Case::Span sp(c);
    auto &p = c.flip() ? a : b;
    auto i = position();
    T w = Gen<T>::get(c);
    switch (c.u(3)) {
    case 0:
      (*p.x)[i] = w;
      break;
    case 1:
      p.x->at(i) = w;
      break;
    case 2:
      *(p.x->end() - static_cast<std::ptrdiff_t>(N - i)) = w;
      break;
    default:
      *(p.x->rbegin() + static_cast<std::ptrdiff_t>(N - 1 - i)) = w;
    }
    (*p.m)[i] = w;
    NOTE(c, (&p == &a ? "a" : "b") << "[" << i << "] =");
    const auto &cx = *p.x;
    REQUIRE(cx[i] == w && cx.at(i) == w && &cx[i] == cx.data() + i,
            "element " << i);
    c.nontrivial();
  }
  for (auto i : {N, N + 1, N + 255, size_t{65536} * 65536 + 3, SIZE_MAX})
    try {
      const auto &cx = *a.x;
      (void)cx.at(i);
      FAILURE("at(" << i << ") of " << N);
    } catch (const std::out_of_range &) {
    }
  auto check = [&] {
    REQUIRE(std::equal(a.x->begin(), a.x->end(), a.m->begin(), a.m->end()) &&
                std::equal(b.x->begin(), b.x->end(), b.m->begin(), b.m->end()),
            "content");
    const auto &x = *a.x;
    const auto &y = *b.x;
    const auto &m = *a.m;
    const auto &n = *b.m;
    REQUIRE(x.size() == N && !x.empty() && x.back() == m.back(), "size");
    REQUIRE((x == y) == (m == n) && (x != y) == (m != n), "equality");
    REQUIRE((x < y) == (m < n) && (x > y) == (m > n), "order < >");
    REQUIRE((x <= y) == (m <= n) && (x >= y) == (m >= n), "order <= >=");
  };
  check();
  a.x->swap(*b.x);
  a.m->swap(*b.m);
  check();
}

// the operations are usable in constant expressions
constexpr Xsmp::Array<int, 3> constA{{1, 2, 3}};
constexpr Xsmp::Array<int, 3> constB{{1, 2, 4}};
static_assert(constA[1] == 2 && constA.at(2) == 3 && constA.size() == 3 &&
              constA.front() == 1 && constA.back() == 3 && !constA.empty());
static_assert(*constA.begin() == 1 && *constA.rbegin() == 3 &&
              constA.end() - constA.begin() == 3);
static_assert(constB[2] == 4);

using Fn = void (*)(Case &);
const std::vector<Fn> all = {history<int, 3>,         history<int, 1>,
                             history<int, 0>,         history<uint8_t, 5>,
                             history<uint8_t, 17>,    history<double, 2>,
                             history<std::string, 2>, history<std::string, 0>,
                             history<std::string, 4>, history<int8_t, 6>,
                             history<bool, 3>,        history<double, 0>};
const std::vector<Fn> allWide = {wide<uint8_t, 256>, wide<int, 300>,
                                 wide<uint8_t, 65540>, wide<int8_t, 70000>};
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C04";
  s.rule = "a case is a history of fill/swap/element access/copy on two arrays "
           "(sizes 0 to 17 and up to 70000, several element types) compared with std::array "
           "after each step; non-trivial = at least 2 operations; distinct by "
           "choice sequence";
  s.subs = {{"history", [](Case &c) { c.pick(all)(c); }, 300000, 8000000, 12},
            {"nested", nested, 100000, 1000000},
            {"elements", elements, 300000, 4000000},
            {"wide", [](Case &c) { c.pick(allWide)(c); }, 6000, 200000}};
  s.assumptions = {"unchecked access stays in range"};
  return s;
}
