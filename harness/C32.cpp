//! sources: full src-gen/Xsmp/Tests/Types/*.cpp
// C32: the fields a component publishes are found, once, under their names.
#include "fx_model.h"
#include "fx_types.h"
#include <Smp/DuplicateName.h>
#include <Smp/IArrayField.h>
#include <Smp/IForcibleField.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/ISimpleField.h>
#include <Smp/IStructureField.h>
#include <Smp/InvalidFieldName.h>
#include <Smp/Publication/IType.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Xsmp/Field.h>
#include <Xsmp/Helper.h>
#include <deque>
#include <memory>

using fx::outcome;
using fx::str;
using pbt::Case;
namespace T = Xsmp::Tests::Types;
using K = Smp::PrimitiveTypeKind;

namespace {
enum class Shape { Simple, SimpleArray, Array, Structure };
struct Known {
  const char *text;
  Smp::Uuid uuid;
  Shape shape;
  K kind; // of a simple field, or of the items of a simple array
  Smp::UInt64 size;
};
const Known known[] = {
    {"Char8", Smp::Uuids::Uuid_Char8, Shape::Simple, K::PTK_Char8, 0},
    {"Bool", Smp::Uuids::Uuid_Bool, Shape::Simple, K::PTK_Bool, 0},
    {"Int8", Smp::Uuids::Uuid_Int8, Shape::Simple, K::PTK_Int8, 0},
    {"UInt8", Smp::Uuids::Uuid_UInt8, Shape::Simple, K::PTK_UInt8, 0},
    {"Int16", Smp::Uuids::Uuid_Int16, Shape::Simple, K::PTK_Int16, 0},
    {"UInt16", Smp::Uuids::Uuid_UInt16, Shape::Simple, K::PTK_UInt16, 0},
    {"Int32", Smp::Uuids::Uuid_Int32, Shape::Simple, K::PTK_Int32, 0},
    {"UInt32", Smp::Uuids::Uuid_UInt32, Shape::Simple, K::PTK_UInt32, 0},
    {"Int64", Smp::Uuids::Uuid_Int64, Shape::Simple, K::PTK_Int64, 0},
    {"UInt64", Smp::Uuids::Uuid_UInt64, Shape::Simple, K::PTK_UInt64, 0},
    {"Float32", Smp::Uuids::Uuid_Float32, Shape::Simple, K::PTK_Float32, 0},
    {"Float64", Smp::Uuids::Uuid_Float64, Shape::Simple, K::PTK_Float64, 0},
    // only by identifier
    {"Duration", Smp::Uuids::Uuid_Duration, Shape::Simple, K::PTK_Duration, 0},
    {"DateTime", Smp::Uuids::Uuid_DateTime, Shape::Simple, K::PTK_DateTime, 0},
    {"Enum1", T::Uuid_Enum1, Shape::Simple, K::PTK_Int32, 0},
    {"String1", T::Uuid_String1, Shape::Simple, K::PTK_String8, 0},
    {"Float1", T::Uuid_Float1, Shape::Simple, K::PTK_Float64, 0},
    {"Integer1", T::Uuid_Integer1, Shape::Simple, K::PTK_Int32, 0},
    {"SimpleInt16Array", T::Uuid_SimpleInt16Array, Shape::SimpleArray,
     K::PTK_Int16, 0},
    {"SimpleBoolArray", T::Uuid_SimpleBoolArray, Shape::SimpleArray,
     K::PTK_Bool, 0},
    {"Int16Array", T::Uuid_Int16Array, Shape::Array, K::PTK_None, 0},
    {"Int32Matrix", T::Uuid_Int32Matrix, Shape::Array, K::PTK_None, 0},
    {"VectorArray", T::Uuid_VectorArray, Shape::Array, K::PTK_None, 0},
    {"Vector", T::Uuid_Vector, Shape::Structure, K::PTK_None, 0},
    {"StructureWithCustomFields", T::Uuid_StructureWithCustomFields,
     Shape::Structure, K::PTK_None, 0}};

struct Attributes {
  Smp::ViewKind view = Smp::ViewKind::VK_None;
  bool state = true, input = false, output = false;
};

struct Level;
struct Entry {
  std::string name, description;
  Shape shape = Shape::Simple;
  const Known *type = nullptr; // null when anonymous
  K kind = K::PTK_None;
  Smp::UInt64 size = 0;
  Attributes attributes;
  bool flags = true;             // input and output are given
  bool member = false;           // a field of the component
  Smp::IField *field = nullptr;  // when known beforehand
  std::unique_ptr<Level> nested; // anonymous array or structure
};
struct Level {
  Smp::IPublication *publication;
  bool array = false;
  std::vector<Entry> entries;
  Entry const *find(std::string const &n) const {
    for (auto &e : entries)
      if (e.name == n)
        return &e;
    return nullptr;
  }
};

// a member of the component, alive as long as it
struct Member {
  std::string name, description;
  const Known *type;
  Attributes attributes;
  std::shared_ptr<Smp::IField> field;
};

struct History {
  Case &c;
  fx::Node component{"component", 1};
  Xsmp::Publication::TypeRegistry types{
      static_cast<Smp::IObject *>(static_cast<Xsmp::Model *>(&component))};
  Smp::IObject *owner =
      static_cast<Smp::IObject *>(static_cast<Xsmp::Model *>(&component));
  Xsmp::Publication::Publication publication{owner, &types};
  std::vector<Member> members;
  std::deque<std::vector<Smp::UInt64>> memory;
  Level root{&publication, false, {}};
  bool published = false;

  explicit History(Case &k) : c(k) { fx::registerTypes(&types); }

  void *address() {
    memory.emplace_back(1024, 0);
    return memory.back().data();
  }
  // the same few names, so that they collide
  std::string name(Level const &level) {
    static const char *const names[] = {"a", "b", "c", "d", "A", "a1", "a_"};
    if (level.array)
      return "[" +
             std::to_string(c.chance(1, 6) ? c.u(6) : level.entries.size()) +
             "]";
    return names[c.idx(7)];
  }
  Attributes attributes() {
    Attributes a;
    a.view = static_cast<Smp::ViewKind>(c.idx(4));
    a.state = c.flip();
    a.input = c.flip();
    a.output = c.flip();
    return a;
  }
  // what publishing under a name gives
  std::string refusal(Level const &level, std::string const &n) {
    if (n.empty() || n == "1" || n == "a b" || n == "a.b")
      return "InvalidObjectName";
    return level.find(n) ? "DuplicateName" : "";
  }

  template <class V> std::shared_ptr<Smp::IField> make(Member const &m) {
    auto *n = m.name.c_str();
    auto *d = m.description.c_str();
    auto &a = m.attributes;
    switch ((a.state ? 0 : 1) + (a.input ? 2 : 0) + (a.output ? 4 : 0)) {
    case 0:
      return std::make_shared<Xsmp::Field<V>>(&types, m.type->uuid, n, d, owner,
                                              a.view);
    case 1:
      return std::make_shared<typename Xsmp::Field<V>::transient>(
          &types, m.type->uuid, n, d, owner, a.view);
    case 2:
      return std::make_shared<typename Xsmp::Field<V>::input>(
          &types, m.type->uuid, n, d, owner, a.view);
    case 3:
      return std::make_shared<typename Xsmp::Field<V>::transient::input>(
          &types, m.type->uuid, n, d, owner, a.view);
    case 4:
      return std::make_shared<typename Xsmp::Field<V>::output>(
          &types, m.type->uuid, n, d, owner, a.view);
    case 5:
      return std::make_shared<typename Xsmp::Field<V>::transient::output>(
          &types, m.type->uuid, n, d, owner, a.view);
    case 6:
      return std::make_shared<typename Xsmp::Field<V>::input::output>(
          &types, m.type->uuid, n, d, owner, a.view);
    default:
      return std::make_shared<
          typename Xsmp::Field<V>::transient::input::output>(
          &types, m.type->uuid, n, d, owner, a.view);
    }
  }

  void publishMember(Level &level) {
    Entry e;
    std::vector<Member *> again; // items are published in arrays
    for (auto &m : members)
      if ((m.name[0] == '[') == level.array)
        again.push_back(&m);
    if (!again.empty() && c.chance(1, 4)) {
      auto &m = *again[c.idx(again.size())];
      e.name = m.name;
      e.description = m.description;
      e.type = m.type;
      e.attributes = m.attributes;
      e.field = m.field.get();
    } else {
      Member m;
      m.name = e.name = name(level);
      m.description = e.description = c.str(5, "xy ");
      m.attributes = e.attributes = attributes();
      switch (c.idx(5)) {
      case 0:
        m.type = &known[6];
        m.field = make<Smp::Int32>(m);
        break;
      case 1:
        m.type = &known[1];
        m.field = make<Smp::Bool>(m);
        break;
      case 2:
        m.type = &known[11];
        m.field = make<Smp::Float64>(m);
        break;
      case 3:
        m.type = &known[18];
        m.field = make<T::SimpleInt16Array>(m);
        break;
      default:
        m.type = &known[23];
        m.field = make<T::Vector>(m);
      }
      e.type = m.type;
      e.field = m.field.get();
      members.push_back(m);
    }
    e.member = true;
    e.shape = e.type->shape;
    e.kind = e.type->kind;
    NOTE(c, "publish member " << e.name << " " << e.type->text);
    auto r = outcome([&] { level.publication->PublishField(e.field); });
    expect(r, refusal(level, e.name));
    if (r.empty())
      level.entries.push_back(std::move(e));
  }

  void expect(std::string const &r, std::string const &want) {
    REQUIRE(r == want, "gives " << (r.empty() ? "nothing" : r) << " instead of "
                                << (want.empty() ? "nothing" : want));
    if (!r.empty())
      c.label(r);
    if (r == "DuplicateName")
      c.nontrivial();
  }

  void publishField(Level &level) {
    Entry e;
    e.name = name(level);
    if (!level.array && c.chance(1, 12)) {
      static const char *const bad[] = {"", "1", "a b", "a.b"};
      e.name = bad[c.idx(4)];
    }
    bool null = c.chance(1, 30);
    e.description = c.str(6, "abc ");
    e.attributes = attributes();
    auto &a = e.attributes;
    auto i = c.idx(std::size(known));
    e.type = &known[i];
    e.shape = e.type->shape;
    e.kind = e.type->kind;
    bool unknown = c.chance(1, 15);
    bool byKind = i < 12 && !unknown && c.flip();
    // the publication keeps its own texts
    auto n0 = e.name, d0 = e.description;
    auto *n = null ? nullptr : n0.c_str();
    auto *d = d0.c_str();
    auto *p = address();
    auto *to = level.publication;
    NOTE(c, "publish " << (null ? "null" : e.name) << " "
                       << (unknown ? "of an unknown type" : e.type->text)
                       << (byKind ? " by pointer" : "") << " view "
                       << static_cast<int>(a.view) << (a.state ? " state" : "")
                       << (a.input ? " input" : "")
                       << (a.output ? " output" : ""));
    auto r = outcome([&] {
      if (unknown)
        return to->PublishField(n, d, p, Smp::Uuid{1, 2, 3, 4, 5}, a.view,
                                a.state, a.input, a.output);
      if (!byKind)
        return to->PublishField(n, d, p, e.type->uuid, a.view, a.state, a.input,
                                a.output);
      switch (i) {
#define AS(N, TYPE)                                                            \
  case N:                                                                      \
    return to->PublishField(n, d, static_cast<TYPE *>(p), a.view, a.state,     \
                            a.input, a.output)
        AS(0, Smp::Char8);
        AS(1, Smp::Bool);
        AS(2, Smp::Int8);
        AS(3, Smp::UInt8);
        AS(4, Smp::Int16);
        AS(5, Smp::UInt16);
        AS(6, Smp::Int32);
        AS(7, Smp::UInt32);
        AS(8, Smp::Int64);
        AS(9, Smp::UInt64);
        AS(10, Smp::Float32);
      default:
        return to->PublishField(n, d, static_cast<Smp::Float64 *>(p), a.view,
                                a.state, a.input, a.output);
      }
    });
    auto want = null ? "InvalidObjectName" : refusal(level, e.name);
    if (unknown) {
      REQUIRE(r == "TypeNotRegistered" || (!want.empty() && r == want),
              "an unknown type gives " << r);
      c.label("unknown type");
      return;
    }
    expect(r, want);
    if (r.empty())
      level.entries.push_back(std::move(e));
  }

  void publishArray(Level &level) {
    Entry e;
    e.name = name(level);
    e.description = c.str(6, "abc ");
    e.attributes = attributes();
    auto &a = e.attributes;
    e.shape = Shape::SimpleArray;
    e.kind = known[c.idx(14)].kind;
    e.size = c.u(6);
    NOTE(c, "publish array " << e.name << " of " << e.size << " items of kind "
                             << static_cast<int>(e.kind));
    auto n0 = e.name, d0 = e.description;
    auto r = outcome([&] {
      level.publication->PublishArray(
          n0.c_str(), d0.c_str(), static_cast<Smp::Int64>(e.size), address(),
          e.kind, a.view, a.state, a.input, a.output);
    });
    expect(r, refusal(level, e.name));
    if (r.empty())
      level.entries.push_back(std::move(e));
  }

  void publishNested(Level &level) {
    Entry e;
    e.name = name(level);
    e.description = c.str(6, "abc ");
    e.attributes = attributes();
    e.flags = false;
    bool array = c.flip();
    e.shape = array ? Shape::Array : Shape::Structure;
    NOTE(c, "publish " << (array ? "array " : "structure ") << e.name);
    Smp::IPublication *nested = nullptr;
    auto n0 = e.name, d0 = e.description;
    auto r = outcome([&] {
      nested = array
                   ? level.publication->PublishArray(n0.c_str(), d0.c_str(),
                                                     e.attributes.view,
                                                     e.attributes.state)
                   : level.publication->PublishStructure(n0.c_str(), d0.c_str(),
                                                         e.attributes.view,
                                                         e.attributes.state);
    });
    expect(r, refusal(level, e.name));
    if (!r.empty())
      return;
    REQUIRE(nested && nested->GetTypeRegistry() == &types,
            "the nested publication");
    e.nested = std::make_unique<Level>();
    e.nested->publication = nested;
    e.nested->array = array;
    level.entries.push_back(std::move(e));
    c.label("nested");
  }

  Level &pick() {
    Level *l = &root;
    while (true) {
      std::vector<Level *> inner;
      for (auto &e : l->entries)
        if (e.nested)
          inner.push_back(e.nested.get());
      if (inner.empty() || c.chance(2, 5))
        return *l;
      l = inner[c.idx(inner.size())];
    }
  }

  // every field below f is found by its path
  void walk(Smp::IField *f, std::string const &path) {
    REQUIRE(publication.GetField(path.c_str()) == f,
            "GetField(" << path << ") is another field");
    if (published)
      REQUIRE(component.GetField(path.c_str()) == f,
              "GetField(" << path << ") of the component");
    if (auto *s = dynamic_cast<Smp::IStructureField *>(f)) {
      for (auto *g : *s->GetFields()) {
        REQUIRE(s->GetField(g->GetName()) == g,
                "field " << g->GetName() << " of " << path);
        walk(g, path + "." + g->GetName());
      }
    } else if (auto *a = dynamic_cast<Smp::IArrayField *>(f)) {
      for (Smp::UInt64 i = 0; i < a->GetSize(); ++i)
        walk(a->GetItem(i), path + "[" + std::to_string(i) + "]");
    }
  }

  void checkEntry(Entry const &e, Smp::IField *f, Smp::IObject *parent) {
    auto &a = e.attributes;
    REQUIRE(!e.field || e.field == f, e.name << " is another field");
    REQUIRE(str(f->GetName()) == e.name &&
                str(f->GetDescription()) == e.description,
            "name " << str(f->GetName()) << " description "
                    << str(f->GetDescription()) << " of " << e.name);
    if (parent && !e.member)
      REQUIRE(f->GetParent() == parent, "parent of " << e.name);
    REQUIRE(f->GetView() == a.view && f->IsState() == a.state,
            e.name << ": view " << static_cast<int>(f->GetView()) << " state "
                   << f->IsState());
    REQUIRE(f->IsInput() == (e.flags && a.input) &&
                f->IsOutput() == (e.flags && a.output),
            e.name << ": input " << f->IsInput() << " output "
                   << f->IsOutput());
    auto *simple = dynamic_cast<Smp::ISimpleField *>(f);
    auto *simpleArray = dynamic_cast<Smp::ISimpleArrayField *>(f);
    auto *array = dynamic_cast<Smp::IArrayField *>(f);
    auto *structure = dynamic_cast<Smp::IStructureField *>(f);
    REQUIRE(!!simple == (e.shape == Shape::Simple) &&
                !!simpleArray == (e.shape == Shape::SimpleArray) &&
                !!array == (e.shape == Shape::Array) &&
                !!structure == (e.shape == Shape::Structure),
            "shape of " << e.name);
    if (e.type)
      REQUIRE(f->GetType() && f->GetType()->GetUuid() == e.type->uuid,
              "type of " << e.name << " is not " << e.type->text);
    if (simple)
      REQUIRE(simple->GetPrimitiveTypeKind() == e.kind &&
                  simple->GetValue().GetType() == e.kind,
              "kind of " << e.name);
    if (simpleArray && !e.type)
      REQUIRE(simpleArray->GetSize() == e.size, "size of " << e.name);
    if (simpleArray && simpleArray->GetSize() > 0)
      REQUIRE(simpleArray->GetValue(0).GetType() == e.kind,
              "kind of the items of " << e.name);
  }

  void check(Level const &level, Smp::IObject *parent) {
    auto *all = level.publication->GetFields();
    REQUIRE(all->size() == level.entries.size(),
            all->size() << " fields instead of " << level.entries.size());
    std::vector<Smp::IField *> seen;
    std::size_t i = 0;
    for (auto *f : *all) {
      REQUIRE(f && all->at(i) == f, "at(" << i << ")");
      seen.push_back(f);
      ++i;
    }
    REQUIRE(i == level.entries.size(), "iteration gives " << i << " fields");
    REQUIRE(!all->at(i) && !all->at(i + 7), "a field beyond the last one");
    // fields of one kind are in the order they were published
    for (int member = 0; member < 2; ++member) {
      std::size_t at = 0;
      for (auto &e : level.entries) {
        if (e.member != (member == 1))
          continue;
        auto *f = all->at(e.name.c_str());
        REQUIRE(f, e.name << " is not found");
        auto k = static_cast<std::size_t>(
            std::find(seen.begin(), seen.end(), f) - seen.begin());
        REQUIRE(k < seen.size() && k >= at, e.name << " is out of order");
        at = k + 1;
        checkEntry(e, f, parent);
        if (e.nested) {
          if (auto *s = dynamic_cast<Smp::IStructureField *>(f))
            REQUIRE(s->GetFields()->size() == e.nested->entries.size(),
                    "fields of structure " << e.name);
          else if (auto *a = dynamic_cast<Smp::IArrayField *>(f)) {
            REQUIRE(a->GetSize() == e.nested->entries.size(),
                    "items of array " << e.name);
            auto r = outcome([&] { (void)a->GetItem(a->GetSize()); });
            REQUIRE(r == "InvalidArrayIndex", "an item beyond: " << r);
          }
          check(*e.nested, e.nested->array ? nullptr : f);
        }
      }
    }
    // anonymous arrays are excepted: their items are found by position
    if (&level == &root)
      for (auto *f : seen)
        walk(f, f->GetName());
    for (auto *n : {"zz", "", "aa", "[9]"})
      if (!level.find(n))
        REQUIRE(!all->at(n), "at(" << n << ")");
    REQUIRE(!all->at(static_cast<Smp::String8>(nullptr)), "at(null)");
  }

  void missing() {
    std::string p;
    for (auto n = c.range(1, 4); n--;) {
      static const char *const parts[] = {"a",   "b",   "c",  ".a",  ".b",
                                          "[0]", "[1]", "zz", ".zz", "[99]"};
      p += parts[c.idx(10)];
    }
    // found if the fields lead there
    Smp::IField *at = nullptr;
    std::size_t i = 0;
    bool lost = false;
    while (i < p.size() && !lost) {
      bool item = p[i] == '[';
      std::size_t j = i + (item || p[i] == '.' ? 1 : 0);
      auto start = p[i] == '.' ? i + 1 : i;
      while (j < p.size() && p[j] != '.' && p[j] != '[')
        ++j;
      auto segment = p.substr(start, j - start);
      i = j;
      if (!at) {
        if (item)
          lost = true;
        else
          at = publication.GetFields()->at(segment.c_str());
      } else if (auto *s = dynamic_cast<Smp::IStructureField *>(at)) {
        at = s->GetField(segment.c_str());
      } else if (auto *a = dynamic_cast<Smp::IArrayField *>(at)) {
        if (!item || segment.back() != ']')
          at = nullptr;
        else {
          auto k = std::stoul(segment.substr(1));
          at = k < a->GetSize() ? a->GetItem(k) : nullptr;
        }
      } else {
        at = nullptr;
      }
      lost = lost || !at;
    }
    if (lost)
      at = nullptr;
    NOTE(c, "GetField(" << p << ")");
    Smp::IField *got = nullptr;
    bool viaComponent = published && c.flip();
    try {
      got = viaComponent ? component.GetField(p.c_str())
                         : publication.GetField(p.c_str());
    } catch (const Smp::InvalidFieldName &e) {
      REQUIRE(!at, "InvalidFieldName for an existing field");
      REQUIRE(str(e.GetFieldName()) == p,
              "InvalidFieldName names " << str(e.GetFieldName()));
      c.label("no such field");
      return;
    }
    REQUIRE(got == at && got, "another field");
    c.label("found by path");
    c.nontrivial();
  }

  void run() {
    while (c.more(40)) {
      Case::Span span(c);
      auto &level = pick();
      switch (c.weighted({10, 6, 4, 5, 5, 1, 1, 1})) {
      case 0:
        publishField(level);
        break;
      case 1:
        publishMember(level);
        break;
      case 2:
        publishArray(level);
        break;
      case 3:
        publishNested(level);
        break;
      case 4:
        missing();
        break;
      case 5:
        if (!published && c.flip()) {
          NOTE(c, "publish the component");
          component.Publish(&publication);
          published = true;
          REQUIRE(component.GetFields() == publication.GetFields(),
                  "fields of the component");
        }
        break;
      case 6: {
        auto r = outcome(
            [&] { (void)publication.GetField(c.flip() ? nullptr : ""); });
        REQUIRE(r == "InvalidFieldName", "no path: " << r);
        break;
      }
      default:
        NOTE(c, "unpublish " << (&level == &root ? "all" : "nested"));
        level.publication->Unpublish();
        level.entries.clear();
        c.label("unpublished");
      }
      check(root, owner);
    }
  }
};

void histories(Case &c) {
  History h(c);
  h.run();
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C32";
  s.rule = "a field was found by a generated path, or its name was taken";
  s.subs = {{"histories", histories, 60000, 300000}};
  s.assumptions = {"published fields and addresses are not null",
                   "members live as long as their publication"};
  return s;
}
