//! sources: full src-gen/Xsmp/Tests/Types/*.cpp
//! opt: -O1
// C24: fields hold the values written to them.
// A model of every leaf value, of the forced and of the failed states is kept
// over generated histories of reads and writes through the interfaces, through
// the typed fields and through the published variables.
#include "fx.h"
#include "fx_fields.h"
#include "fx_sim.h"
#include "fx_types.h"
#include <Smp/Publication/IArrayType.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Model.h>
#include <functional>
#include <map>
#include <memory>

using pbt::Case;
using K = Smp::PrimitiveTypeKind;
namespace T = Xsmp::Tests::Types;

namespace {
struct Typed : Xsmp::Model, Xsmp::FallibleModel {
  fx::TypedFields f;
  Typed(Smp::String8 name, Smp::IComposite *parent, Smp::ISimulator *sim)
      : Model(name, "", parent, sim),
        f(sim->GetTypeRegistry(), static_cast<Smp::IModel *>(this)) {}
};
struct Published : Xsmp::Model {
  fx::PublishedFields f;
  using Model::Model;
  void Publish(Smp::IPublication *p) override {
    Model::Publish(p);
    f.publish(p);
  }
};
const std::vector<K> kinds = {K::PTK_Bool,   K::PTK_Char8,   K::PTK_Int8,    K::PTK_Int16,
                   K::PTK_Int32,  K::PTK_Int64,   K::PTK_UInt8,   K::PTK_UInt16,
                   K::PTK_UInt32, K::PTK_UInt64,  K::PTK_Float32, K::PTK_Float64,
                   K::PTK_Duration, K::PTK_DateTime, K::PTK_String8, K::PTK_None};
// the value as a value of another kind; throws as the generic value does
Smp::AnySimple as(K k, Smp::AnySimple const &v) {
  switch (k) {
  case K::PTK_Bool:
    return {k, static_cast<Smp::Bool>(v)};
  case K::PTK_Char8:
    return {k, static_cast<Smp::Char8>(v)};
  case K::PTK_Int8:
    return {k, static_cast<Smp::Int8>(v)};
  case K::PTK_Int16:
    return {k, static_cast<Smp::Int16>(v)};
  case K::PTK_Int32:
    return {k, static_cast<Smp::Int32>(v)};
  case K::PTK_Int64:
  case K::PTK_Duration:
  case K::PTK_DateTime:
    return {k, static_cast<Smp::Int64>(v)};
  case K::PTK_UInt8:
    return {k, static_cast<Smp::UInt8>(v)};
  case K::PTK_UInt16:
    return {k, static_cast<Smp::UInt16>(v)};
  case K::PTK_UInt32:
    return {k, static_cast<Smp::UInt32>(v)};
  case K::PTK_UInt64:
    return {k, static_cast<Smp::UInt64>(v)};
  case K::PTK_Float32:
    return {k, static_cast<Smp::Float32>(v)};
  case K::PTK_Float64:
    return {k, static_cast<Smp::Float64>(v)};
  case K::PTK_String8: {
    const auto *s = static_cast<Smp::String8>(v);
    return {k, std::string(s ? s : "").substr(0, 10).c_str()};
  }
  default:
    return {};
  }
}
bool enumeration(Smp::IField *f) {
  const auto *type = f->GetType();
  if (auto const *a =
          dynamic_cast<const Smp::Publication::IArrayType *>(type))
    type = a->GetItemType();
  return type && type->GetUuid() == T::Uuid_Enum1;
}

struct World {
  std::unique_ptr<Xsmp::Simulator> sim = std::make_unique<Xsmp::Simulator>();
  Typed *typed;
  Published *published;
  fx::Walk walk;
  std::vector<std::string> expected; // leaves
  std::vector<Smp::AnySimple> last;  // what was read when expected was checked
  std::vector<std::string> checked;  // the text of last
  struct Fast {
    Smp::ISimpleField *simple;
    Smp::ISimpleArrayField *array;
    Smp::UInt64 index;
  };
  std::vector<Fast> fast;
  Smp::AnySimple read(size_t i) const {
    auto const &f = fast[i];
    return f.simple ? f.simple->GetValue() : f.array->GetValue(f.index);
  }
  std::vector<bool> isTyped, isEnum; // leaves
  std::vector<K> leafKind;
  std::vector<bool> forced, failed;
  std::vector<Smp::IObject *> failureParents;
  std::vector<size_t> rawLeaf;
  std::map<Smp::IField *, size_t> simple;           // leaf of a simple field
  std::map<Smp::IField *, size_t> forcible;         // index in walk.forcible
  std::map<Smp::IField *, std::vector<size_t>> arrays;
  std::map<std::string, size_t> byPath;
  std::vector<Smp::IArrayField *> items;
  void collectArrays(Smp::IField *f) {
    if (dynamic_cast<Smp::ISimpleArrayField *>(f))
      return;
    if (auto *r = dynamic_cast<Smp::IArrayField *>(f)) {
      items.push_back(r);
      for (Smp::UInt64 i = 0; i < r->GetSize(); ++i)
        collectArrays(r->GetItem(i));
    } else if (auto *s = dynamic_cast<Smp::IStructureField *>(f)) {
      for (auto *x : *s->GetFields())
        collectArrays(x);
    }
  }
  World() {
    fx::registerTypes(sim->GetTypeRegistry());
    auto *root = static_cast<Smp::IComposite *>(
        static_cast<Smp::ISimulator *>(sim.get()));
    sim->AddModel(typed = new Typed("typed", root, sim.get()));
    sim->AddModel(published = new Published("published", "", root, sim.get()));
    sim->Publish();
    for (auto *x : typed->f.list()) {
      walk.visit(x, true, "");
      collectArrays(x);
    }
    const auto n = walk.leaves.size();
    for (auto *x : *published->GetFields()) {
      walk.visit(x, true, "");
      collectArrays(x);
    }
    for (size_t i = 0; i < walk.leaves.size(); ++i) {
      auto const &l = walk.leaves[i];
      fast.push_back({l.index < 0 ? dynamic_cast<Smp::ISimpleField *>(l.field) : nullptr,
                      dynamic_cast<Smp::ISimpleArrayField *>(l.field),
                      static_cast<Smp::UInt64>(l.index)});
      last.push_back(read(i));
      expected.push_back(fx::show(last[i]));
      checked.push_back(expected[i]);
      isTyped.push_back(i < n);
      isEnum.push_back(enumeration(l.field));
      leafKind.push_back(fx::kind(l));
      byPath[l.path] = i;
      if (l.index < 0)
        simple[l.field] = i;
      else
        arrays[l.field].push_back(i);
    }
    forced.resize(walk.forcible.size());
    failed.resize(walk.failures.size());
    for (size_t i = 0; i < walk.forcible.size(); ++i)
      forcible[dynamic_cast<Smp::IField *>(walk.forcible[i].first)] = i;
  }
  ~World() { sim->Exit(); }
  bool isForced(size_t leaf) {
    auto it = forcible.find(walk.leaves[leaf].field);
    return it != forcible.end() && forced[it->second];
  }
};

bool identical(Smp::AnySimple const &a, Smp::AnySimple const &b) {
  if (a.type != b.type)
    return false;
  static const size_t size[] = {0, 1, 1, 1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 8, 8};
  for (size_t i = 0; i < kinds.size(); ++i)
    if (kinds[i] == a.type && a.type != K::PTK_String8 && a.type != K::PTK_None)
      return std::memcmp(&a.value, &b.value, size[i + 1]) == 0;
  return a.type == K::PTK_String8 && fx::str(a) == fx::str(b);
}

std::string blank(K k) { return fx::show(fx::value(k, 0)); }

struct Run {
  Case &c;
  World &w;
  bool interesting = false;
  size_t order = 0;
  Smp::AnySimple generate(K k) {
    if (k == K::PTK_None)
      return {};
    auto raw = c.weighted({3, 1, 1}) ? c.integer<uint64_t>() : c.range(0, 5);
    if (k == K::PTK_DateTime) // dates that can be written in a message
      raw = static_cast<uint64_t>(static_cast<int64_t>(raw) / 2);
    return fx::value(k, raw);
  }
  // a value of the kind of the leaf; mostly a literal for an enumeration
  Smp::AnySimple valueFor(size_t i) {
    if (w.isEnum[i])
      return {K::PTK_Int32, static_cast<Smp::Int32>(c.chance(1, 5) ? c.range(3, 9)
                                                                   : c.range(0, 2))};
    return generate(w.leafKind[i]);
  }
  static bool literal(Smp::AnySimple const &v) {
    auto i = static_cast<Smp::Int32>(v);
    return i >= 0 && i <= 2;
  }
  // what a write of v to leaf i gives: refused, or the text of the new value
  bool converts(size_t i, Smp::AnySimple const &v, std::string &text) {
    try {
      text = fx::show(as(w.leafKind[i], v));
    } catch (Smp::Exception const &) {
      return false;
    }
    return v.type != K::PTK_None;
  }
  void checkAll(const char *after) {
    for (size_t i = 0; i < w.walk.leaves.size(); ++i) {
      auto value = w.read(i);
      if (identical(value, w.last[i]) && w.checked[i] == w.expected[i])
        continue;
      auto const &l = w.walk.leaves[i];
      auto got = fx::show(value);
      w.last[i] = value;
      w.checked[i] = got;
      REQUIRE(got == w.expected[i], "after " << after << ", field " << l.path
                                             << " holds " << got << " instead of "
                                             << w.expected[i]);
    }
    for (size_t i = 0; i < w.forced.size(); ++i)
      REQUIRE(w.walk.forcible[i].first->IsForced() == w.forced[i],
              "after " << after << ", field "
                       << w.walk.forcible[i].first->GetName() << " forced: "
                       << !w.forced[i]);
    bool any = false;
    for (size_t i = 0; i < w.failed.size(); ++i) {
      auto *f = w.walk.failures[i].first;
      auto *parent = i < w.failureParents.size()
                         ? w.failureParents[i]
                         : w.failureParents.emplace_back(f->GetParent());
      REQUIRE(f->IsFailed() == w.failed[i], "after " << after << ", failure "
                                                     << f->GetName()
                                                     << " failed: "
                                                     << !w.failed[i]);
      if (w.failed[i] && parent == static_cast<Smp::IModel *>(w.typed))
        any = true;
    }
    REQUIRE(w.typed->IsFailed() == any,
            "after " << after << ", the model failed: " << !any);
    raw(after);
  }
  // the published variables
  void rawOne(const char *after, const char *path, K k, Smp::AnySimple v) {
    if (order < w.rawLeaf.size()) {
      auto i = w.rawLeaf[order++];
      REQUIRE(identical(v, w.last[i]), "after " << after << ", the variable of "
                                                << path << " is " << fx::show(v)
                                                << " instead of "
                                                << w.expected[i]);
      return;
    }
    auto it = w.byPath.find(path);
    REQUIRE(it != w.byPath.end(), "no field " << path);
    w.rawLeaf.push_back(it->second);
    ++order;
    REQUIRE(w.leafKind[it->second] == k, "kind of " << path);
    REQUIRE(fx::show(v) == w.expected[it->second],
            "after " << after << ", the variable of " << path << " is "
                     << fx::show(v) << " instead of " << w.expected[it->second]);
  }
  void raw(const char *a) {
    auto &p = w.published->f;
    order = 0;
#define ONE(path, kind, x) rawOne(a, path, K::kind, Smp::AnySimple(K::kind, x))
    ONE("p_b", PTK_Bool, p.b);
    ONE("p_c", PTK_Char8, p.c);
    ONE("p_i8", PTK_Int8, p.i8);
    ONE("p_i16", PTK_Int16, p.i16);
    ONE("p_i32", PTK_Int32, p.i32);
    ONE("p_i64", PTK_Int64, p.i64);
    ONE("p_u8", PTK_UInt8, p.u8);
    ONE("p_u16", PTK_UInt16, p.u16);
    ONE("p_u32", PTK_UInt32, p.u32);
    ONE("p_u64", PTK_UInt64, p.u64);
    ONE("p_f32", PTK_Float32, p.f32);
    ONE("p_f64", PTK_Float64, p.f64);
    ONE("p_duration", PTK_Duration, p.duration);
    ONE("p_date", PTK_DateTime, p.date);
    ONE("p_temporary", PTK_Int32, p.temporary);
    ONE("p_enumeration", PTK_Int32, static_cast<Smp::Int32>(p.enumeration));
    ONE("p_string", PTK_String8, p.string.c_str());
    ONE("p_itemsa", PTK_Int64, p.item[0]);
    ONE("p_itemsb", PTK_Int64, p.item[1]);
    ONE("p_itemsc", PTK_Int64, p.item[2]);
    ONE("p_members.a", PTK_Int32, p.member[0]);
    ONE("p_members.inner.b", PTK_Int32, p.member[1]);
    ONE("p_members.hidden.c", PTK_Int32, p.member[2]);
    ONE("p_temporaryVector.x", PTK_Float64, p.temporaryVector.x);
    ONE("p_temporaryVector.y", PTK_Float64, p.temporaryVector.y);
    ONE("p_temporaryVector.z", PTK_Float64, p.temporaryVector.z);
    ONE("p_custom.booleanInput", PTK_Bool, p.custom.booleanInput);
    ONE("p_custom.string1Input", PTK_String8, p.custom.string1Input.c_str());
    ONE("p_custom.struct1Transient.integer1", PTK_Int32,
        p.custom.struct1Transient.integer1);
    ONE("p_custom.struct1All.integer1", PTK_Int32, p.custom.struct1All.integer1);
    ONE("p_custom.char8Forcible", PTK_Char8, p.custom.char8Forcible);
    ONE("p_custom.struct1All.enum1", PTK_Int32,
        static_cast<Smp::Int32>(p.custom.struct1All.enum1));
    auto at = [](const char *n, size_t i) {
      return std::string(n) + "[" + std::to_string(i) + "]";
    };
    for (size_t i = 0; i < 5; ++i)
      ONE(at("p_raw", i).c_str(), PTK_UInt16, p.raw[i]);
    for (size_t i = 0; i < 3; ++i)
      ONE(at("p_temporaryRaw", i).c_str(), PTK_Float64, p.temporaryRaw[i]);
    for (size_t i = 0; i < p.simple.size(); ++i)
      ONE(at("p_simple", i).c_str(), PTK_Int32, p.simple[i]);
    for (size_t i = 0; i < p.strings.size(); ++i)
      ONE(at("p_strings", i).c_str(), PTK_String8, p.strings[i].c_str());
    for (size_t i = 0; i < p.enums.size(); ++i)
      ONE(at("p_enums", i).c_str(), PTK_Int32, static_cast<Smp::Int32>(p.enums[i]));
    for (size_t i = 0; i < p.array.size(); ++i)
      ONE(at("p_array", i).c_str(), PTK_Float32, p.array[i]);
    for (size_t i = 0; i < p.matrix.size(); ++i)
      for (size_t j = 0; j < p.matrix[i].size(); ++j) {
        auto q = at(at("p_matrix", i).c_str(), j);
        ONE((q + ".x").c_str(), PTK_Float64, p.matrix[i][j].x);
        ONE((q + ".z").c_str(), PTK_Float64, p.matrix[i][j].z);
      }
#undef ONE
  }

  // ---------------------------------------------------------------- writes
  void write() {
    auto i = c.idx(w.walk.leaves.size());
    auto const &l = w.walk.leaves[i];
    bool other = c.chance(1, 4);
    auto v = other ? generate(c.pick(kinds)) : valueFor(i);
    NOTE(c, "write " << l.path << " = " << fx::show(v));
    auto x = fx::outcome([&] { fx::set(l, v); });
    std::string text;
    bool ok = converts(i, v, text);
    if (ok && w.isEnum[i] && !literal(v)) {
      if (!w.isTyped[i]) {
        REQUIRE(x == (l.index < 0 ? "InvalidFieldValue" : "InvalidArrayValue"),
                "a value that is no literal was written to "
                    << l.path << ", exception: '" << x << "'");
        c.label("refused literal");
        return;
      }
      ok = x.empty(); // a typed field may refuse it
    }
    if (v.type != w.leafKind[i] && (l.index >= 0 || v.type == K::PTK_None)) {
      // an array may refuse the other kind
      ok = ok && x.empty();
      if (!ok && x.empty())
        REQUIRE(false, "a value that cannot be converted was accepted by "
                           << l.path);
    }
    if (!ok) {
      REQUIRE(!x.empty(), "the value was accepted by " << l.path);
      c.label("refused value");
      return;
    }
    REQUIRE(x.empty(), "writing " << l.path << " throws " << x);
    if (w.isForced(i)) {
      c.label("write to a forced field");
      return;
    }
    w.expected[i] = text;
    interesting = true;
  }
  void writeAll() {
    auto it = w.arrays.begin();
    std::advance(it, static_cast<long>(c.idx(w.arrays.size())));
    auto *a = dynamic_cast<Smp::ISimpleArrayField *>(it->first);
    auto const &leaves = it->second;
    const auto n = leaves.size();
    REQUIRE(a->GetSize() == n, "size of " << a->GetName());
    if (c.chance(1, 6)) {
      auto length = c.range(0, n + 3);
      std::vector<Smp::AnySimple> v;
      for (uint64_t i = 0; i < length; ++i)
        v.push_back(generate(w.leafKind[leaves[0]]));
      if (length == n)
        return;
      v.resize(length + 1);
      auto x = fx::outcome([&] { a->SetValues(length, v.data()); });
      NOTE(c, "write " << length << " values to " << a->GetName());
      REQUIRE(x == "InvalidArraySize", "SetValues of " << length << " of " << n
                                                       << " values gives '"
                                                       << x << "'");
      for (auto &y : v)
        y.SetValue(K::PTK_UInt8, static_cast<Smp::UInt8>(7));
      x = fx::outcome([&] { a->GetValues(length, v.data()); });
      REQUIRE(x == "InvalidArraySize", "GetValues of " << length << " of " << n
                                                       << " values gives '"
                                                       << x << "'");
      c.label("wrong size");
      return;
    }
    std::vector<Smp::AnySimple> v;
    for (auto i : leaves)
      v.push_back(valueFor(i));
    int bad = -1;
    if (c.chance(1, 5)) {
      bad = static_cast<int>(c.idx(n));
      v[static_cast<size_t>(bad)] = generate(c.pick(kinds));
    }
    NOTE(c, "write all of " << a->GetName() << (bad >= 0 ? " with another kind" : ""));
    auto given = v;
    auto x = fx::outcome([&] { a->SetValues(n, v.data()); });
    bool must = false, may = false; // is it refused
    std::vector<std::string> text(n);
    for (size_t i = 0; i < n; ++i) {
      bool ok = converts(leaves[i], given[i], text[i]);
      bool no = ok && w.isEnum[leaves[i]] && !literal(given[i]);
      bool other = given[i].type != w.leafKind[leaves[i]];
      if (!ok || (no && !w.isTyped[leaves[i]]))
        must = true;
      if (no || other)
        may = true;
    }
    if (!x.empty()) {
      REQUIRE(must || may, "SetValues of " << a->GetName() << " throws " << x);
      REQUIRE(x == "InvalidArrayValue" || x == "InvalidAnyType",
              "SetValues of " << a->GetName() << " throws " << x);
      // values before the offending one may have been written
      for (size_t i = 0; i < n; ++i) {
        auto got = fx::show(a->GetValue(i));
        if (got != w.expected[leaves[i]]) {
          REQUIRE(got == text[i], "item " << i << " holds " << got);
          w.expected[leaves[i]] = got;
        }
      }
      c.label("refused array");
      return;
    }
    REQUIRE(!must, "SetValues of " << a->GetName() << " accepts a wrong value");
    for (size_t i = 0; i < n; ++i)
      w.expected[leaves[i]] = text[i];
    // read them all
    std::vector<Smp::AnySimple> r(n);
    a->GetValues(n, r.data());
    for (size_t i = 0; i < n; ++i)
      REQUIRE(fx::show(r[i]) == text[i],
              "GetValues of " << a->GetName() << " gives " << fx::show(r[i])
                              << " for item " << i);
    interesting = true;
  }
  void outside() {
    auto beyond = [&](uint64_t size) {
      return c.flip() ? size + c.range(0, 3)
                      : c.pick(std::vector<uint64_t>{
                            ~0ull, 1ull << 32, 1ull << 63, (1ull << 32) + 1});
    };
    if (c.flip()) {
      auto it = w.arrays.begin();
      std::advance(it, static_cast<long>(c.idx(w.arrays.size())));
      auto *a = dynamic_cast<Smp::ISimpleArrayField *>(it->first);
      auto i = beyond(it->second.size());
      NOTE(c, "item " << i << " of " << a->GetName());
      auto v = valueFor(it->second[0]);
      auto x = fx::outcome([&] { a->SetValue(i, v); });
      REQUIRE(x == "InvalidArrayIndex",
              "SetValue of item " << i << " of " << a->GetName() << ": '" << x << "'");
      x = fx::outcome([&] { a->GetValue(i); });
      REQUIRE(x == "InvalidArrayIndex",
              "GetValue of item " << i << " of " << a->GetName() << ": '" << x << "'");
    } else {
      auto *a = w.items[c.idx(w.items.size())];
      auto i = beyond(a->GetSize());
      NOTE(c, "item " << i << " of " << a->GetName());
      auto x = fx::outcome([&] { a->GetItem(i); });
      REQUIRE(x == "InvalidArrayIndex",
              "GetItem " << i << " of " << a->GetName() << ": '" << x << "'");
    }
    c.label("outside the array");
  }
  void force() {
    auto i = c.idx(w.forced.size());
    auto *f = w.walk.forcible[i].first;
    auto leaf = w.simple.at(dynamic_cast<Smp::IField *>(f));
    switch (c.weighted({3, 1, 2, 1})) {
    case 0: {
      auto v = valueFor(leaf);
      NOTE(c, "force " << w.walk.leaves[leaf].path << " to " << fx::show(v));
      auto x = fx::outcome([&] { f->Force(v); });
      std::string text;
      converts(leaf, v, text);
      REQUIRE(x.empty() || (w.isEnum[leaf] && !literal(v)),
              "Force throws " << x);
      if (x.empty()) {
        w.expected[leaf] = text;
        w.forced[i] = true;
      }
      c.label("forced");
      break;
    }
    case 1:
      NOTE(c, "freeze " << w.walk.leaves[leaf].path);
      f->Freeze();
      w.forced[i] = true;
      c.label("frozen");
      break;
    case 2:
      NOTE(c, "unforce " << w.walk.leaves[leaf].path);
      f->Unforce();
      w.forced[i] = false;
      break;
    default: {
      auto v = generate(c.pick(kinds));
      std::string text;
      if (converts(leaf, v, text))
        return;
      NOTE(c, "force " << w.walk.leaves[leaf].path << " to a wrong "
                       << fx::show(v));
      auto x = fx::outcome([&] { f->Force(v); });
      REQUIRE(!x.empty(), "Force accepts a wrong value");
      c.label("refused force");
    }
    }
    interesting = true;
  }
  void fail() {
    auto i = c.idx(w.failed.size());
    auto *f = w.walk.failures[i].first;
    w.failed[i] = c.flip();
    NOTE(c, (w.failed[i] ? "fail " : "repair ") << f->GetName());
    if (w.failed[i])
      f->Fail();
    else
      f->Unfail();
    interesting = true;
  }
  template <class X> void is(std::string const &path, K k, X x) {
    auto it = w.byPath.find(path);
    REQUIRE(it != w.byPath.end(), "no field " << path);
    if (!w.isForced(it->second))
      w.expected[it->second] = fx::show(Smp::AnySimple(k, x));
  }
  template <class X, class F>
  void arithmetic(F &f, std::string const &path, K k, bool integral) {
    // small numbers: the results are representable
    auto start = static_cast<X>(c.range(0, 20));
    auto by = static_cast<X>(c.range(1, 5));
    f = start;
    is(path, k, start);
    X now = w.isForced(w.byPath.at(path)) ? static_cast<X>(f) : start;
    auto kind = c.weighted({1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1});
    (void)integral;
    NOTE(c, path << " = " << +start << ", operator " << kind << " by " << +by);
    X result{};
    switch (kind) {
    case 0:
      ++f;
      result = static_cast<X>(now + 1);
      break;
    case 1:
      --f;
      result = static_cast<X>(now - 1);
      break;
    case 2:
      f += by;
      result = static_cast<X>(now + by);
      break;
    case 3:
      f -= by;
      result = static_cast<X>(now - by);
      break;
    case 4:
      f *= by;
      result = static_cast<X>(now * by);
      break;
    case 5:
      f /= by;
      result = static_cast<X>(now / by);
      break;
    default:
      if constexpr (std::is_integral_v<X>) {
        switch (kind) {
        case 6:
          f %= by;
          result = static_cast<X>(now % by);
          break;
        case 7:
          f &= by;
          result = static_cast<X>(now & by);
          break;
        case 8:
          f |= by;
          result = static_cast<X>(now | by);
          break;
        case 9:
          f ^= by;
          result = static_cast<X>(now ^ by);
          break;
        case 10:
          f <<= by;
          result = static_cast<X>(now << by);
          break;
        default:
          f >>= by;
          result = static_cast<X>(now >> by);
        }
      } else {
        f = by;
        result = by;
      }
    }
    is(path, k, result);
    c.label("operator");
  }
  static std::string at(const char *n, size_t i) {
    return std::string(n) + "[" + std::to_string(i) + "]";
  }
  void direct() { // through the typed fields
    auto &f = w.typed->f;
    interesting = true;
    switch (c.u(13)) {
    case 0:
      arithmetic<Smp::Int32>(f.plain, "plain", K::PTK_Int32, true);
      break;
    case 1:
      if (!w.isForced(w.byPath.at("forced")))
        arithmetic<Smp::Float64>(f.forced, "forced", K::PTK_Float64, false);
      else {
        NOTE(c, "forced = 3");
        f.forced = 3;
        f.forced += 2;
        ++f.forced;
        c.label("write to a forced field");
      }
      break;
    case 2:
      arithmetic<Smp::Int16>(f.temporary, "temporary", K::PTK_Int16, true);
      break;
    case 3:
      arithmetic<Smp::UInt64>(f.out, "out", K::PTK_UInt64, true);
      break;
    case 4: {
      auto i = c.idx(f.array.size());
      arithmetic<Smp::Int32>(f.array[i], at("array", i), K::PTK_Int32, true);
      break;
    }
    case 5: {
      T::Int32Array v{};
      for (auto &x : v)
        x = static_cast<Smp::Int32>(c.range(0, 1000));
      NOTE(c, "forcedArray = " << v[0] << "...");
      f.forcedArray = v;
      for (size_t i = 0; i < v.size(); ++i)
        is(at("forcedArray", i), K::PTK_Int32, v[i]);
      break;
    }
    case 6: {
      auto v = static_cast<Smp::Int16>(c.range(0, 1000));
      NOTE(c, "simpleArray.fill(" << v << ")");
      f.simpleArray.fill(v);
      for (size_t i = 0; i < f.simpleArray.size(); ++i)
        is(at("simpleArray", i), K::PTK_Int16, v);
      break;
    }
    case 7: { // an output array: elements are proxies
      auto i = c.idx(f.simpleOut.size());
      if (c.flip()) {
        auto item = f.simpleOut[i];
        auto v = static_cast<Smp::Float64>(c.range(0, 1000)) / 4;
        NOTE(c, "simpleOut[" << i << "] = " << v << ", += 2, *= 3");
        item = v;
        item += 2;
        item *= 3;
        is(at("simpleOut", i), K::PTK_Float64, (v + 2) * 3);
      } else {
        NOTE(c, "iterate over simpleOut");
        double v = static_cast<double>(c.range(0, 1000)) / 4;
        size_t n = 0;
        for (auto it = f.simpleOut.begin(); it != f.simpleOut.end(); ++it, ++n) {
          *it = v + static_cast<double>(n);
          is(at("simpleOut", n), K::PTK_Float64, v + static_cast<double>(n));
        }
        REQUIRE(n == f.simpleOut.size(), "iteration over " << n << " items");
      }
      break;
    }
    case 8: {
      T::Vector v{static_cast<double>(c.range(0, 99)),
                  static_cast<double>(c.range(0, 99)) / 2, -1};
      NOTE(c, "vector, forcedVector, vectors[1] = " << v.x << " " << v.y);
      f.vector = v;
      f.forcedVector = v;
      f.vectors[1] = v;
      for (auto const *n : {"vector", "forcedVector", "vectors[1]"}) {
        is(std::string(n) + ".x", K::PTK_Float64, v.x);
        is(std::string(n) + ".y", K::PTK_Float64, v.y);
        is(std::string(n) + ".z", K::PTK_Float64, v.z);
      }
      T::Vector back = f.vector;
      REQUIRE(back.x == v.x && back.y == v.y && back.z == v.z,
              "the vector is converted to " << back.x << " " << back.y << " "
                                            << back.z);
      break;
    }
    case 9: {
      T::String1 v = c.str(14, "abcd").c_str();
      NOTE(c, "string = " << v.c_str());
      f.string = v;
      is("string", K::PTK_String8, v.c_str());
      REQUIRE(f.string->size() == v.size(), "operator-> of the string");
      break;
    }
    case 10: {
      auto v = static_cast<T::Enum1>(c.range(0, 2));
      NOTE(c, "enumeration = " << static_cast<int>(v));
      f.enumeration = v;
      is("enumeration", K::PTK_Int32, static_cast<Smp::Int32>(v));
      REQUIRE(*f.enumeration == v, "operator* of the enumeration");
      break;
    }
    case 11: {
      auto i = c.idx(f.matrix.size());
      auto j = c.idx(f.matrix[i].size());
      auto v = static_cast<Smp::Int64>(c.range(0, 1 << 20));
      NOTE(c, "matrix[" << i << "][" << j << "] = " << v);
      if (c.flip())
        f.matrix.at(i).at(j) = v;
      else
        *(f.matrix.begin()[i].begin() + j) = v;
      is(at(at("matrix", i).c_str(), j), K::PTK_Int64, v);
      auto x = fx::outcome([&] { f.matrix.at(f.matrix.size()); });
      REQUIRE(!x.empty(), "at() beyond the end");
      break;
    }
    default: {
      Smp::Int64 sum = 0, want = 0;
      NOTE(c, "read arrays");
      T::Int32Array v = f.array;
      for (size_t i = 0; i < v.size(); ++i)
        REQUIRE(fx::show({K::PTK_Int32, v[i]}) == w.expected[w.byPath.at(at("array", i))],
                "item " << i << " of the array is converted to " << v[i]);
      for (auto it = f.simpleArray.cbegin(); it != f.simpleArray.cend(); ++it)
        sum += *it;
      for (size_t i = 0; i < f.simpleArray.size(); ++i)
        want += static_cast<Smp::Int16>(f.simpleArray.GetValue(i));
      REQUIRE(sum == want, "sum over the iterators " << sum << " instead of " << want);
      T::SimpleInt16Array const &a = f.simpleArray;
      REQUIRE(a.size() == f.simpleArray.size() && a.front() == f.simpleArray.front() &&
                  a.back() == f.simpleArray.back() && a.data() == f.simpleArray.data(),
              "the array and its field differ");
    }
    }
  }
  void variable() { // the published variables
    auto &p = w.published->f;
    interesting = true;
    auto n = static_cast<int>(c.range(0, 100));
    auto i = c.idx(3);
    NOTE(c, "variable, " << n << " " << i);
    switch (c.u(11)) {
    case 0:
      p.b = n & 1;
      is("p_b", K::PTK_Bool, p.b);
      break;
    case 1:
      p.i32 = -n;
      is("p_i32", K::PTK_Int32, p.i32);
      break;
    case 2:
      p.u64 = ~0ull - static_cast<unsigned>(n);
      is("p_u64", K::PTK_UInt64, p.u64);
      break;
    case 3:
      p.f32 = static_cast<float>(n) / 8;
      is("p_f32", K::PTK_Float32, p.f32);
      break;
    case 4:
      p.string = std::string(static_cast<size_t>(n % 11), 'q').c_str();
      is("p_string", K::PTK_String8, p.string.c_str());
      break;
    case 5:
      p.simple[i] = n;
      is(at("p_simple", i), K::PTK_Int32, n);
      break;
    case 6:
      p.raw[i] = static_cast<Smp::UInt16>(n);
      is(at("p_raw", i), K::PTK_UInt16, p.raw[i]);
      break;
    case 7:
      p.custom.struct1Output.integer1 = n;
      is("p_custom.struct1Output.integer1", K::PTK_Int32, n);
      break;
    case 8:
      p.matrix[1][0].y = n;
      is("p_matrix[1][0].y", K::PTK_Float64, static_cast<double>(n));
      break;
    case 9:
      p.member[i] = n;
      is(i == 0 ? "p_members.a" : i == 1 ? "p_members.inner.b" : "p_members.hidden.c",
         K::PTK_Int32, n);
      break;
    default:
      p.item[i] = n;
      is(std::string("p_items") + "abc"[i], K::PTK_Int64, static_cast<Smp::Int64>(n));
    }
    c.label("variable");
  }
};

void values(Case &c) {
  World w;
  for (size_t i = 0; i < w.expected.size(); ++i)
    REQUIRE(w.expected[i] == blank(w.leafKind[i]),
            "field " << w.walk.leaves[i].path << " starts with "
                     << w.expected[i]);
  Run r{c, w};
  unsigned n = 0;
  while (c.more(40)) {
    Case::Span s(c);
    ++n;
    switch (c.weighted({12, 5, 2, 6, 3, 8, 4})) {
    case 0:
      r.write();
      break;
    case 1:
      r.writeAll();
      break;
    case 2:
      r.outside();
      break;
    case 3:
      r.force();
      break;
    case 4:
      r.fail();
      break;
    case 5:
      r.direct();
      break;
    default:
      r.variable();
    }
    r.checkAll("this operation");
  }
  if (n >= 3 && r.interesting)
    c.nontrivial();
}

// --------------------------------------------------------------- creation
struct Maker : Xsmp::Model {
  std::function<void(Smp::IPublication *)> publish;
  using Model::Model;
  void Publish(Smp::IPublication *p) override {
    Model::Publish(p);
    publish(p);
  }
};
struct Blob { // room for a value
  alignas(16) unsigned char bytes[256]{};
};
struct Kind {
  Smp::Uuid uuid;
  size_t size; // of the array, 0: not an array
  bool simpleArray, structure;
};
const std::vector<Kind> &types() {
  static const std::vector<Kind> t{
      {Smp::Uuids::Uuid_Bool, 0, false, false},
      {Smp::Uuids::Uuid_Char8, 0, false, false},
      {Smp::Uuids::Uuid_Int8, 0, false, false},
      {Smp::Uuids::Uuid_Int16, 0, false, false},
      {Smp::Uuids::Uuid_Int32, 0, false, false},
      {Smp::Uuids::Uuid_Int64, 0, false, false},
      {Smp::Uuids::Uuid_UInt8, 0, false, false},
      {Smp::Uuids::Uuid_UInt16, 0, false, false},
      {Smp::Uuids::Uuid_UInt32, 0, false, false},
      {Smp::Uuids::Uuid_UInt64, 0, false, false},
      {Smp::Uuids::Uuid_Float32, 0, false, false},
      {Smp::Uuids::Uuid_Float64, 0, false, false},
      {Smp::Uuids::Uuid_Duration, 0, false, false},
      {Smp::Uuids::Uuid_DateTime, 0, false, false},
      {T::Uuid_Enum1, 0, false, false},
      {T::Uuid_String1, 0, false, false},
      {T::Uuid_Int32Array, T::Int32Array{}.size(), false, false},
      {T::Uuid_SimpleInt32Array, T::SimpleInt32Array{}.size(), true, false},
      {T::Uuid_SimpleString1Array, T::SimpleString1Array{}.size(), true, false},
      {T::Uuid_Vector, 0, false, true},
  };
  return t;
}
void flags(Smp::IField *f, bool state, bool input, bool output, Smp::ViewKind view,
           Smp::IObject *parent, std::string const &name,
           std::string const &description, Smp::Uuid uuid) {
  REQUIRE(fx::str(f->GetName()) == name, "name " << f->GetName());
  REQUIRE(fx::str(f->GetDescription()) == description,
          "description " << f->GetDescription());
  REQUIRE(f->GetParent() == parent, "parent of " << name);
  REQUIRE(f->GetView() == view, "view of " << name);
  REQUIRE(f->IsState() == state && f->IsInput() == input && f->IsOutput() == output,
          "flags of " << name << ": " << f->IsState() << f->IsInput()
                      << f->IsOutput());
  REQUIRE(f->GetType() && f->GetType()->GetUuid() == uuid, "type of " << name);
  bool data = dynamic_cast<Smp::IDataflowField *>(f) != nullptr;
  REQUIRE(data == output, name << " is an output: " << output
                               << ", can be connected: " << data);
}
template <class F> struct Held { F f; };
void creation(Case &c) {
  auto sim = std::make_unique<Xsmp::Simulator>();
  fx::registerTypes(sim->GetTypeRegistry());
  auto *root = static_cast<Smp::IComposite *>(
      static_cast<Smp::ISimulator *>(sim.get()));
  auto &m = *new Maker("m", "", root, sim.get());
  sim->AddModel(&m);
  struct Want {
    std::string name, description;
    size_t type;
    Smp::ViewKind view;
    bool state, input, output;
    std::unique_ptr<Blob> memory;
    bool anonymous = false;
    size_t count = 0;
  };
  std::vector<Want> wants;
  auto *model = static_cast<Smp::IModel *>(&m);
  const std::vector<Smp::ViewKind> views{
      Smp::ViewKind::VK_None, Smp::ViewKind::VK_Debug,
      Smp::ViewKind::VK_Expert, Smp::ViewKind::VK_All};
  while (c.more(8)) {
    Case::Span s(c);
    Want x;
    x.name = "f" + std::to_string(wants.size());
    x.description = c.str(6, "ab ");
    x.type = c.idx(types().size());
    x.view = c.pick(views);
    x.state = c.flip();
    x.input = c.flip();
    x.output = c.flip();
    x.memory = std::make_unique<Blob>();
    if (x.type < 12 && c.chance(1, 3)) {
      x.anonymous = true;
      x.count = c.range(0, 6);
    }
    NOTE(c, x.name << ": type " << x.type << " state " << x.state << " input "
                   << x.input << " output " << x.output << " view "
                   << static_cast<int>(x.view) << (x.anonymous ? " array" : "")
                   << " of " << x.count);
    wants.push_back(std::move(x));
  }
  m.publish = [&](Smp::IPublication *p) {
    for (auto &x : wants) {
      if (x.anonymous)
        p->PublishArray(x.name.c_str(), x.description.c_str(),
                        static_cast<Smp::Int64>(x.count), x.memory->bytes,
                        kinds[x.type], x.view, x.state, x.input, x.output);
      else
        p->PublishField(x.name.c_str(), x.description.c_str(), x.memory->bytes,
                        types()[x.type].uuid, x.view, x.state, x.input, x.output);
    }
  };
  sim->Publish();
  auto const *fields = model->GetFields();
  REQUIRE(fields->size() == wants.size(), fields->size() << " fields");
  size_t i = 0;
  for (auto &x : wants) {
    auto *f = fields->at(i++);
    REQUIRE(model->GetField(x.name.c_str()) == f, "GetField " << x.name);
    auto const &t = types()[x.type];
    if (x.anonymous) {
      REQUIRE(f->IsState() == x.state && f->IsInput() == x.input &&
                  f->IsOutput() == x.output && f->GetView() == x.view &&
                  fx::str(f->GetName()) == x.name &&
                  fx::str(f->GetDescription()) == x.description,
              "attributes of " << x.name);
      auto *a = dynamic_cast<Smp::ISimpleArrayField *>(f);
      REQUIRE(a && a->GetSize() == x.count, "size of " << x.name);
      c.label("array published by address");
    } else {
      flags(f, x.state, x.input, x.output, x.view, model, x.name, x.description,
            t.uuid);
      auto *simple = dynamic_cast<Smp::ISimpleField *>(f);
      auto *simpleArray = dynamic_cast<Smp::ISimpleArrayField *>(f);
      auto *array = dynamic_cast<Smp::IArrayField *>(f);
      auto *structure = dynamic_cast<Smp::IStructureField *>(f);
      REQUIRE((structure != nullptr) == t.structure, "structure " << x.name);
      REQUIRE((simpleArray != nullptr) == t.simpleArray, "simple array " << x.name);
      REQUIRE((array != nullptr) == (t.size && !t.simpleArray), "array " << x.name);
      REQUIRE((simple != nullptr) == (!t.size && !t.structure), "simple " << x.name);
      if (simpleArray)
        REQUIRE(simpleArray->GetSize() == t.size, "size of " << x.name);
      if (array) {
        REQUIRE(array->GetSize() == t.size, "size of " << x.name);
        for (Smp::UInt64 k = 0; k < t.size; ++k) {
          auto *item = array->GetItem(k);
          REQUIRE(fx::str(item->GetName()) == "[" + std::to_string(k) + "]" &&
                      item->GetParent() == f && item->IsState() == x.state &&
                      item->IsInput() == x.input && item->IsOutput() == x.output &&
                      item->GetView() == x.view,
                  "item " << k << " of " << x.name);
        }
      }
      if (structure) {
        REQUIRE(structure->GetFields()->size() == 3, "members of " << x.name);
        const char *const member[] = {"x", "y", "z"};
        for (size_t k = 0; k < 3; ++k) {
          auto *item = structure->GetFields()->at(k);
          REQUIRE(fx::str(item->GetName()) == member[k] && item->GetParent() == f &&
                      item->IsInput() == x.input && item->IsOutput() == x.output &&
                      structure->GetField(member[k]) == item,
                  "member " << member[k] << " of " << x.name);
        }
        REQUIRE(structure->GetField("w") == nullptr, "unknown member");
      }
    }
    // a value written lands in its own variable only
    fx::Walk walk;
    walk.visit(f, true, "");
    for (auto const &l : walk.leaves) {
      auto k = fx::kind(l);
      auto v = t.uuid == T::Uuid_Enum1 && !x.anonymous
                   ? Smp::AnySimple(k, static_cast<Smp::Int32>(2))
                   : fx::value(k, c.integer<uint64_t>());
      fx::set(l, v);
      REQUIRE(fx::show(fx::get(l)) == fx::show(as(k, v)),
              l.path << " holds " << fx::show(fx::get(l)) << " after "
                     << fx::show(v));
    }
    if (!x.anonymous && x.type < 14) {
      // exactly the bytes of the type are written
      static const size_t size[] = {1, 1, 1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 8, 8};
      auto v = fx::get(walk.leaves[0]);
      REQUIRE(std::memcmp(x.memory->bytes, &v.value, size[x.type]) == 0,
              "the variable of " << x.name << " does not hold the value");
      for (size_t b = size[x.type]; b < sizeof(x.memory->bytes); ++b)
        REQUIRE(x.memory->bytes[b] == 0, "byte " << b << " behind " << x.name);
    }
    if (x.anonymous) {
      static const size_t size[] = {1, 1, 1, 2, 4, 8, 1, 2, 4, 8, 4, 8};
      for (size_t n = 0; n < x.count; ++n) {
        auto v = fx::get(walk.leaves[n]);
        REQUIRE(std::memcmp(x.memory->bytes + n * size[x.type], &v.value,
                            size[x.type]) == 0,
                "the variable of " << x.name << "[" << n << "]");
      }
      for (size_t b = x.count * size[x.type]; b < sizeof(x.memory->bytes); ++b)
        REQUIRE(x.memory->bytes[b] == 0, "byte " << b << " behind " << x.name);
    }
  }
  // typed fields with an initial value
  {
    auto *t = sim->GetTypeRegistry();
    auto view = c.pick(views);
    auto n = c.integer<Smp::Int32>();
    auto text = c.str(10, "xyz");
    T::Int32Array numbers{};
    for (auto &x : numbers)
      x = c.integer<Smp::Int32>();
    T::SimpleInt32Array more{};
    for (auto &x : more)
      x = c.integer<Smp::Int32>();
    T::Vector v{1.5, static_cast<double>(c.range(0, 9)), 3};
    Xsmp::Field<Smp::Int32>::input a{t, Smp::Uuids::Uuid_Int32, "a", "A", model, view, n};
    Xsmp::Field<T::String1>::transient b{t, T::Uuid_String1, "b", "B", model, view,
                                         T::String1(text.c_str())};
    Xsmp::Field<T::Int32Array>::output d{t, T::Uuid_Int32Array, "d", "D", model, view, numbers};
    Xsmp::Field<T::SimpleInt32Array>::output::input e{
        t, T::Uuid_SimpleInt32Array, "e", "E", model, view, more};
    Xsmp::Field<T::Vector>::input::transient g{t, T::Uuid_Vector, "g", "G", model, view, v};
    Xsmp::Field<Smp::Float64>::output::forcible::failure h{
        t, Smp::Uuids::Uuid_Float64, "h", "H", model, view, 2.5};
    flags(&a, true, true, false, view, model, "a", "A", Smp::Uuids::Uuid_Int32);
    flags(&b, false, false, false, view, model, "b", "B", T::Uuid_String1);
    flags(&d, true, false, true, view, model, "d", "D", T::Uuid_Int32Array);
    flags(&e, true, true, true, view, model, "e", "E", T::Uuid_SimpleInt32Array);
    flags(&g, false, true, false, view, model, "g", "G", T::Uuid_Vector);
    flags(&h, true, false, true, view, model, "h", "H", Smp::Uuids::Uuid_Float64);
    REQUIRE(static_cast<Smp::Int32>(a.GetValue()) == n, "initial value of a");
    REQUIRE(text == static_cast<Smp::String8>(b.GetValue()), "initial value of b");
    REQUIRE(d.GetSize() == numbers.size() && e.GetSize() == more.size(), "sizes");
    for (size_t k = 0; k < numbers.size(); ++k) {
      auto *item = dynamic_cast<Smp::ISimpleField *>(d.GetItem(k));
      REQUIRE(item && static_cast<Smp::Int32>(item->GetValue()) == numbers[k] &&
                  fx::str(item->GetName()) == "[" + std::to_string(k) + "]" &&
                  item->GetParent() == &d && item->IsOutput() && item->GetView() == view,
              "item " << k << " of d");
    }
    for (size_t k = 0; k < more.size(); ++k)
      REQUIRE(static_cast<Smp::Int32>(e.GetValue(k)) == more[k], "item " << k << " of e");
    REQUIRE(g.x == v.x && g.y == v.y && g.z == v.z && static_cast<Smp::IStructureField &>(g).GetFields()->size() == 3 &&
                g.GetField("y") == &g.y && g.y.GetParent() == &g,
            "initial value of g");
    REQUIRE(h == 2.5 && !h.IsForced() && !h.IsFailed(), "initial value of h");
    // a field of a type that is not registered, or not of its kind
    auto x = fx::outcome([&] {
      Xsmp::Field<Smp::Int32> f{t, Smp::Uuid{1, 2, 3, 4, 5}, "z", "", model};
    });
    REQUIRE(x == "InvalidFieldType", "a field of an unknown type: '" << x << "'");
    x = fx::outcome([&] {
      Xsmp::Field<T::SimpleInt32Array> f{t, Smp::Uuids::Uuid_Int32, "z", "", model};
    });
    REQUIRE(x == "InvalidFieldType", "an array field of a simple type: '" << x << "'");
    x = fx::outcome([&] {
      Xsmp::Field<Smp::Int32> f{t, Smp::Uuids::Uuid_Int32, "1z", "", model};
    });
    REQUIRE(x == "InvalidObjectName", "a field with a wrong name: '" << x << "'");
  }
  if (wants.size() >= 2)
    c.nontrivial();
  sim->Exit();
}

} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s{"C24",
               "values: a history of at least three operations that write, "
               "force or fail a field; creation: at least two fields",
               {{"values", values, 6000, 400000, 60},
                {"creation", creation, 6000, 400000, 60}},
               {"dates before 2262 (the finding date-after-2262 of C12)"},
               {}};
  return s;
}
