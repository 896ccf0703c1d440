//! sources: src/Xsmp/Object.cpp src/Xsmp/Helper.cpp src/Xsmp/Exception.cpp
//! src/Xsmp/cstring.cpp src/Smp/AnySimple.cpp src/Smp/StreamOperators.cpp
//! src/Smp/Uuid.cpp src/Xsmp/Duration.cpp src/Xsmp/DateTime.cpp
// C13: collections are ordered sequences with unique names.
#include "fx.h"
#include <Smp/DuplicateName.h>
#include <Smp/IObject.h>
#include <Xsmp/Collection.h>
#include <Xsmp/Object.h>
#include <memory>

using fx::outcome;
using pbt::Case;
using pbt::show;

namespace {
int live = 0;
std::vector<int> died;
struct Item : Xsmp::Object {
  int id;
  Item(const char *name, int i, Smp::IObject *parent = nullptr)
      : Object(name, "", parent), id(i) {
    ++live;
  }
  ~Item() override {
    --live;
    died.push_back(id);
  }
};
struct Special : Item {
  using Item::Item;
};
// an interface that is not an object
struct Plain {
  virtual ~Plain() = default;
  int pid = 0;
};
struct PlainObject : Plain, Item {
  using Item::Item;
};
const std::vector<std::string> names = {"a", "b",  "c",   "ab",
                                        "A", "a1", "a_b", "longer_name"};

template <class C, class T, class GetName>
void same(const C &col, const std::vector<T *> &model, GetName nameOf,
          const char *who) {
  REQUIRE(col.size() == model.size(), who << ": size " << col.size());
  REQUIRE(col.empty() == model.empty(), who << ": empty");
  const Smp::ICollection<T> &base = col;
  REQUIRE(base.size() == model.size(), who << ": size (interface)");
  std::vector<T *> got;
  for (auto *e : col)
    got.push_back(e);
  REQUIRE(got == model, who << ": iteration gives other elements or order");
  REQUIRE(static_cast<size_t>(col.end() - col.begin()) == model.size(),
          who << ": iterator distance");
  for (size_t i = 0; i < model.size() + 2; ++i)
    REQUIRE(base.at(i) == (i < model.size() ? model[i] : nullptr),
            who << ": at(" << i << ")");
  REQUIRE(base.at(SIZE_MAX) == nullptr, who << ": at(max)");
  for (auto &n : names) {
    T *want = nullptr;
    for (auto *m : model)
      if (nameOf(m) == n) {
        want = m;
        break;
      }
    std::string copy = n; // not the same pointer
    REQUIRE(base.at(copy.c_str()) == want, who << ": at(" << n << ")");
  }
  REQUIRE(base.at(static_cast<Smp::String8>(nullptr)) == nullptr,
          who << ": at(null)");
  REQUIRE(base.at("") == nullptr && base.at("nope") == nullptr,
          who << ": at(unknown)");
}

template <bool Dup> void collection(Case &c) {
  Item owner("owner", -1);
  std::vector<std::unique_ptr<Item>> pool;
  for (int i = 0; i < 10; ++i)
    pool.push_back(
        std::make_unique<Item>(names[c.idx(names.size())].c_str(), i));
  Xsmp::Collection<Item, Dup> col("col", "desc", &owner);
  std::vector<Item *> model;
  REQUIRE(fx::str(col.GetName()) == "col" &&
              fx::str(col.GetDescription()) == "desc" &&
              col.GetParent() == &owner,
          "identity");
  auto nameOf = [](Item *i) { return std::string(i->GetName()); };
  while (c.more(30)) {
    Case::Span sp(c);
    auto *e = pool[c.idx(pool.size())].get();
    switch (c.weighted({5, 3, 1})) {
    case 0: {
      bool dup = false;
      for (auto *m : model)
        dup = dup || nameOf(m) == nameOf(e);
      auto got = outcome([&] { col.Add(e); });
      auto want = !Dup && dup ? "DuplicateName" : "";
      NOTE(c, "add " << e->id << ":" << e->GetName() << " " << got);
      REQUIRE(got == want, "Add: " << got);
      if (got.empty())
        model.push_back(e);
      if (dup)
        c.label("duplicate");
      break;
    }
    case 1: {
      auto it = std::find(model.begin(), model.end(), e);
      NOTE(c, "remove " << e->id);
      REQUIRE(col.Remove(e) == (it != model.end()), "Remove");
      if (it != model.end()) {
        model.erase(it);
        c.nontrivial();
      }
      break;
    }
    default:
      col.clear();
      model.clear();
      NOTE(c, "clear");
    }
    same(col, model, nameOf, "collection");
  }
  auto before = live;
  {
    Xsmp::Collection<Item, Dup> other("other");
    for (auto *m : model)
      other.Add(m);
  }
  REQUIRE(live == before, "a collection must not own its elements");
}

template <bool Dup> void containing(Case &c) {
  auto before = live;
  {
    Xsmp::ContainingCollection<Item, Dup> col("col", "desc");
    std::vector<Item *> model;
    std::vector<int> ids;
    auto nameOf = [](Item *i) { return std::string(i->GetName()); };
    int next = 0;
    while (c.more(30)) {
      Case::Span sp(c);
      died.clear();
      std::vector<int> expectDead;
      switch (c.weighted({5, 3, 1})) {
      case 0: {
        auto name = names[c.idx(names.size())];
        bool dup = false;
        for (auto *m : model)
          dup = dup || nameOf(m) == name;
        Item *added = nullptr;
        std::string got;
        const bool made = c.flip();
        const int id = next++;
        if (made)
          got = outcome(
              [&] { added = col.template Add<Item>(name.c_str(), id); });
        else
          got = outcome([&] {
            added = col.Add(std::make_unique<Special>(name.c_str(), id));
          });
        auto want = !Dup && dup ? "DuplicateName" : "";
        NOTE(c, "add " << name << " " << got);
        REQUIRE(got == want, "Add: " << got);
        if (got.empty()) {
          REQUIRE(added && added->id == id && nameOf(added) == name,
                  "Add returns another element");
          model.push_back(added);
        } else {
          expectDead.push_back(id);
          c.label("duplicate");
        }
        break;
      }
      case 1: {
        Item foreign("a", -7);
        if (model.empty() || c.chance(1, 5)) {
          REQUIRE(!col.Remove(&foreign), "Remove of a foreign element");
          REQUIRE(!col.Remove(nullptr), "Remove of null");
          died.clear();
          break;
        }
        auto i = c.idx(model.size());
        expectDead.push_back(model[i]->id);
        NOTE(c, "remove #" << i);
        REQUIRE(col.Remove(model[i]), "Remove");
        model.erase(model.begin() + static_cast<long>(i));
        c.nontrivial();
        REQUIRE(died == expectDead,
                "removed element not destroyed exactly once");
        died.clear();
        expectDead.clear();
        break;
      }
      default:
        for (auto *m : model)
          expectDead.push_back(m->id);
        col.clear();
        std::sort(died.begin(), died.end());
        std::sort(expectDead.begin(), expectDead.end());
        model.clear();
        NOTE(c, "clear");
      }
      died.erase(std::remove(died.begin(), died.end(), -7), died.end());
      REQUIRE(died == expectDead, "elements destroyed: " << died.size()
                                                         << " instead of "
                                                         << expectDead.size());
      same(col, model, nameOf, "containing");
      REQUIRE(live == before + static_cast<int>(model.size()), "live elements");
    }
  }
  REQUIRE(live == before, "elements leaked or destroyed twice");
}

template <bool Dup, bool DelegateDup> void delegating(Case &c) {
  Item owner("owner", -1);
  std::vector<std::unique_ptr<Item>> pool;
  for (int i = 0; i < 10; ++i)
    pool.push_back(
        std::make_unique<Item>(names[c.idx(names.size())].c_str(), i));
  Xsmp::Collection<Item, DelegateDup> inner("inner", "in", &owner);
  Xsmp::DelegateCollection<Item, Dup> col(&inner);
  REQUIRE(fx::str(col.GetName()) == "inner" &&
              fx::str(col.GetDescription()) == "in" &&
              col.GetParent() == &owner,
          "identity");
  std::vector<Item *> own, in;
  auto nameOf = [](Item *i) { return std::string(i->GetName()); };
  auto has = [&](const std::vector<Item *> &v, Item *e) {
    for (auto *m : v)
      if (nameOf(m) == nameOf(e))
        return true;
    return false;
  };
  while (c.more(30)) {
    Case::Span sp(c);
    auto *e = pool[c.idx(pool.size())].get();
    switch (c.weighted({4, 4, 2, 2, 1})) {
    case 0: {
      auto got = outcome([&] { inner.Add(e); });
      auto want = !DelegateDup && has(in, e) ? "DuplicateName" : "";
      NOTE(c, "inner add " << e->id << " " << got);
      REQUIRE(got == want, "inner Add: " << got);
      if (got.empty())
        in.push_back(e);
      break;
    }
    case 1: {
      auto got = outcome([&] { col.Add(e); });
      auto want = !Dup && (has(in, e) || has(own, e)) ? "DuplicateName" : "";
      NOTE(c, "add " << e->id << " " << got);
      REQUIRE(got == want, "Add: " << got);
      if (got.empty())
        own.push_back(e);
      break;
    }
    case 2: {
      auto it = std::find(in.begin(), in.end(), e);
      REQUIRE(inner.Remove(e) == (it != in.end()), "inner Remove");
      if (it != in.end())
        in.erase(it);
      break;
    }
    case 3: {
      auto it = std::find(own.begin(), own.end(), e);
      REQUIRE(col.Remove(e) == (it != own.end()), "Remove");
      if (it != own.end())
        own.erase(it);
      break;
    }
    default:
      col.clear();
      own.clear();
    }
    if (!in.empty() && !own.empty())
      c.nontrivial();
    auto model = in;
    model.insert(model.end(), own.begin(), own.end());
    same(col, model, nameOf, "delegating");
    same(inner, in, nameOf, "inner");
  }
}

// collections of an interface that is not an object
void interfaces(Case &c) {
  std::vector<std::unique_ptr<Plain>> pool;
  for (int i = 0; i < 8; ++i) {
    if (c.chance(1, 4))
      pool.push_back(std::make_unique<Plain>());
    else
      pool.push_back(
          std::make_unique<PlainObject>(names[c.idx(names.size())].c_str(), i));
  }
  Xsmp::Collection<Plain> col("col");
  std::vector<Plain *> model;
  auto nameOf = [](Plain *p) {
    return std::string(dynamic_cast<Smp::IObject *>(p)->GetName());
  };
  while (c.more(25)) {
    Case::Span sp(c);
    auto *e = pool[c.idx(pool.size())].get();
    auto *obj = dynamic_cast<Smp::IObject *>(e);
    if (c.chance(2, 3)) {
      bool dup = false;
      if (obj)
        for (auto *m : model)
          dup = dup || nameOf(m) == nameOf(e);
      auto got = outcome([&] { col.Add(e); });
      NOTE(c, "add " << got);
      REQUIRE(got == (!obj  ? "InvalidObject"
                      : dup ? "DuplicateName"
                            : ""),
              "Add: " << got);
      if (got.empty())
        model.push_back(e);
      else
        c.nontrivial();
    } else {
      auto it = std::find(model.begin(), model.end(), e);
      bool r = false;
      auto got = outcome([&] { r = col.Remove(e); });
      NOTE(c, "remove " << got);
      REQUIRE(got == (obj ? "" : "InvalidObject"), "Remove: " << got);
      REQUIRE(r == (it != model.end()), "Remove");
      if (it != model.end())
        model.erase(it);
    }
    same(col, model, nameOf, "interfaces");
  }
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C13";
  s.rule = "a case is a history of additions (names drawn from a small set), "
           "removals and clears on a collection, compared with a vector after "
           "each step; non-trivial = an element was removed, refused or both "
           "parts of a delegating collection were in use";
  s.subs = {
      {"collection", collection<false>, 60000, 400000},
      {"collection with duplicates", collection<true>, 60000, 400000},
      {"containing", containing<false>, 60000, 400000},
      {"containing with duplicates", containing<true>, 60000, 400000},
      {"delegating", delegating<false, false>, 60000, 400000},
      {"delegating to duplicates", delegating<false, true>, 32000, 200000},
      {"delegating with duplicates", delegating<true, true>, 32000, 200000},
      {"interfaces", interfaces, 60000, 400000}};
  s.assumptions = {"elements outlive the (non-owning) collection"};
  return s;
}
