//! sources: full
// C35: registered types are kept once, and lay a published field out.
#include "fx_fields.h"
#include "fx_model.h"
#include <Smp/AccessKind.h>
#include <Smp/ComponentStateKind.h>
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
#include <Smp/Publication/DuplicateLiteral.h>
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IClassType.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/TypeAlreadyRegistered.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Smp/Services/TimeKind.h>
#include <Smp/SimulatorStateKind.h>
#include <Xsmp/Publication/Type.h>
#include <cmath>
#include <deque>
#include <map>
#include <memory>

using fx::outcome;
using fx::str;
using pbt::Case;
using K = Smp::PrimitiveTypeKind;
namespace P = Smp::Publication;

namespace {
using U = Smp::Uuids;
struct Predefined {
  Smp::Uuid uuid;
  K kind;
  const char *name;
  int literals; // 0 .. n - 1; -1: no enumeration
};
const Predefined predefined[] = {
    {U::Uuid_Char8, K::PTK_Char8, "Char8", -1},
    {U::Uuid_String8, K::PTK_String8, "String8", -1},
    {U::Uuid_Bool, K::PTK_Bool, "Bool", -1},
    {U::Uuid_Int8, K::PTK_Int8, "Int8", -1},
    {U::Uuid_Int16, K::PTK_Int16, "Int16", -1},
    {U::Uuid_Int32, K::PTK_Int32, "Int32", -1},
    {U::Uuid_Int64, K::PTK_Int64, "Int64", -1},
    {U::Uuid_UInt8, K::PTK_UInt8, "UInt8", -1},
    {U::Uuid_UInt16, K::PTK_UInt16, "UInt16", -1},
    {U::Uuid_UInt32, K::PTK_UInt32, "UInt32", -1},
    {U::Uuid_UInt64, K::PTK_UInt64, "UInt64", -1},
    {U::Uuid_Float32, K::PTK_Float32, "Float32", -1},
    {U::Uuid_Float64, K::PTK_Float64, "Float64", -1},
    {U::Uuid_Duration, K::PTK_Duration, "Duration", -1},
    {U::Uuid_DateTime, K::PTK_DateTime, "DateTime", -1},
    {U::Uuid_Void, K::PTK_None, "Void", -1},
    {U::Uuid_EventId, K::PTK_Int64, "EventId", -1},
    {U::Uuid_LogMessageKind, K::PTK_Int32, "LogMessageKind", -1},
    {U::Uuid_PrimitiveTypeKind, K::PTK_Int32, "PrimitiveTypeKind", 16},
    {U::Uuid_TimeKind, K::PTK_Int32, "TimeKind", 4},
    {U::Uuid_ViewKind, K::PTK_Int32, "ViewKind", 4},
    {U::Uuid_ParameterDirectionKind, K::PTK_Int32, "ParameterDirectionKind", 4},
    {U::Uuid_ComponentStateKind, K::PTK_Int32, "ComponentStateKind", 5},
    {U::Uuid_AccessKind, K::PTK_Int32, "AccessKind", 3},
    {U::Uuid_SimulatorStateKind, K::PTK_Int32, "SimulatorStateKind", 10}};

const K kinds[] = {
    K::PTK_None,    K::PTK_Char8,    K::PTK_Bool,     K::PTK_Int8,
    K::PTK_UInt8,   K::PTK_Int16,    K::PTK_UInt16,   K::PTK_Int32,
    K::PTK_UInt32,  K::PTK_Int64,    K::PTK_UInt64,   K::PTK_Float32,
    K::PTK_Float64, K::PTK_Duration, K::PTK_DateTime, K::PTK_String8};

// identifiers that differ in one place only
Smp::Uuid custom(std::size_t i) {
  Smp::Uuid u{0x10203040U, 0x1122U, 0x3344U, 0x5566U, 0x778899aabbccULL};
  switch (i % 11) {
  case 0:
    break;
  case 1:
    u.Data1 ^= 1U;
    break;
  case 2:
    u.Data1 ^= 0x80000000U;
    break;
  case 3:
  case 4:
  case 5:
    u.Data2[i - 3] ^= 0x100U;
    break;
  case 6:
    std::swap(u.Data2[0], u.Data2[1]);
    break;
  case 7:
    u.Data3[5] ^= 1U;
    break;
  case 8:
    u.Data3[0] ^= 0x80U;
    break;
  case 9:
    std::swap(u.Data3[1], u.Data3[2]);
    break;
  default:
    u = Smp::Uuid{0, 0, 0, 0, 0};
  }
  return u;
}

enum class Form {
  Primitive,
  Float,
  Integer,
  Enumeration,
  Array,
  String,
  Structure,
  Class
};
const char *const forms[] = {"primitive", "float",  "integer",   "enumeration",
                             "array",     "string", "structure", "class"};

struct Ty;
struct Member {
  std::string name, description;
  const Ty *type = nullptr;
  Smp::UInt64 offset = 0;
  Smp::ViewKind view = Smp::ViewKind::VK_All;
  bool state = true, input = false, output = false;
};
struct Ty {
  Form form = Form::Primitive;
  Smp::Uuid uuid;
  std::string name, description, unit;
  K kind = K::PTK_None;
  P::IType *type = nullptr;
  Smp::Float64 low = 0, high = 0;
  Smp::Int64 least = 0, most = 0;
  bool lowIn = false, highIn = false;
  std::map<Smp::Int32, std::string> literals;
  const Ty *item = nullptr;
  P::IType *itemType = nullptr;
  Smp::UInt64 itemSize = 0, count = 0;
  bool simple = false;
  Smp::Int64 length = 0;
  std::vector<Member> members;
  Smp::UInt64 size = 0, alignment = 1; // of an instance
};

Smp::UInt64 sizeOf(K k) {
  switch (k) {
  case K::PTK_Bool:
  case K::PTK_Char8:
  case K::PTK_Int8:
  case K::PTK_UInt8:
    return 1;
  case K::PTK_Int16:
  case K::PTK_UInt16:
    return 2;
  case K::PTK_Int32:
  case K::PTK_UInt32:
  case K::PTK_Float32:
    return 4;
  default:
    return 8;
  }
}

// ---------------------------------------------------------------------------
struct Registry {
  Case &c;
  fx::Node component{"component", 1};
  Smp::IObject *owner =
      static_cast<Smp::IObject *>(static_cast<Xsmp::Model *>(&component));
  Xsmp::Publication::TypeRegistry types{owner};
  std::map<Smp::Uuid, Ty> model;

  explicit Registry(Case &k) : c(k) {
    for (auto &p : predefined) {
      Ty t;
      t.uuid = p.uuid;
      t.kind = p.kind;
      t.name = p.name;
      t.type = types.GetType(p.uuid);
      REQUIRE(t.type, "no type " << p.name);
      t.description = str(t.type->GetDescription());
      t.form = p.literals >= 0 ? Form::Enumeration : Form::Primitive;
      if (p.uuid == U::Uuid_EventId || p.uuid == U::Uuid_LogMessageKind)
        t.form = Form::Integer;
      if (p.uuid == U::Uuid_EventId) {
        t.least = std::numeric_limits<Smp::Int64>::min();
        t.most = std::numeric_limits<Smp::Int64>::max();
      } else if (p.uuid == U::Uuid_LogMessageKind)
        t.most = std::numeric_limits<Smp::Int32>::max();
      for (int i = 0; i < p.literals; ++i)
        t.literals[i] = "";
      model[p.uuid] = t;
    }
  }

  Smp::Uuid uuid() {
    return c.chance(1, 5) ? predefined[c.idx(std::size(predefined))].uuid
                          : custom(c.idx(11));
  }
  bool validName(std::string const &n) const {
    return !n.empty() && n != "1a" && n != "a b" && n != "_a" && n != "a.b";
  }
  std::string name() {
    static const char *const names[] = {"a", "B",  "Type1", "T_", "x2",
                                        "",  "1a", "a b",   "_a", "a.b"};
    return names[c.chance(1, 6) ? 5 + c.idx(5) : c.idx(5)];
  }

  void add() {
    Ty t;
    t.form = static_cast<Form>(1 + c.idx(7));
    t.uuid = uuid();
    t.name = name();
    t.description = c.str(6, "abc ");
    auto n = t.name, d = t.description; // the registry keeps its own texts
    std::vector<std::string> reasons;
    if (!validName(t.name))
      reasons.push_back("InvalidObjectName");
    auto before = model.find(t.uuid);
    if (before != model.end())
      reasons.push_back("TypeAlreadyRegistered");
    const P::IType *named = nullptr;
    Smp::Uuid otherUuid{};
    int memory = 0;
    std::function<P::IType *()> call;
    switch (t.form) {
    case Form::Float:
    case Form::Integer: {
      bool f = t.form == Form::Float;
      static const K ints[] = {K::PTK_Int8,   K::PTK_Int16, K::PTK_Int32,
                               K::PTK_Int64,  K::PTK_UInt8, K::PTK_UInt16,
                               K::PTK_UInt32, K::PTK_UInt64};
      if (c.chance(1, 4))
        t.kind = kinds[c.idx(16)];
      else if (f)
        t.kind = c.flip() ? K::PTK_Float32 : K::PTK_Float64;
      else
        t.kind = ints[c.idx(8)];
      bool ok = f ? t.kind == K::PTK_Float32 || t.kind == K::PTK_Float64
                  : std::find(std::begin(ints), std::end(ints), t.kind) !=
                        std::end(ints);
      if (!ok)
        reasons.push_back("InvalidPrimitiveType");
      t.unit = c.str(3, "ms/");
      t.low = c.floating<double>();
      t.high = c.floating<double>();
      t.lowIn = c.flip();
      t.highIn = c.flip();
      t.least = c.integer<Smp::Int64>();
      t.most = c.integer<Smp::Int64>();
      call = [&, f]() -> P::IType * {
        auto u = t.unit;
        return f ? types.AddFloatType(n.c_str(), d.c_str(), t.uuid, t.low,
                                      t.high, t.lowIn, t.highIn, u.c_str(),
                                      t.kind)
                 : types.AddIntegerType(n.c_str(), d.c_str(), t.uuid, t.least,
                                        t.most, u.c_str(), t.kind);
      };
      break;
    }
    case Form::Enumeration: {
      static const int sizes[] = {4, 1, 2, 8, 0, 3, -1, 16, 5, -4};
      memory = sizes[c.chance(1, 5) ? 4 + c.idx(6) : c.idx(4)];
      t.kind = memory == 1   ? K::PTK_Int8
               : memory == 2 ? K::PTK_Int16
               : memory == 4 ? K::PTK_Int32
                             : K::PTK_Int64;
      if (memory != 1 && memory != 2 && memory != 4 && memory != 8)
        reasons.push_back("InvalidPrimitiveType");
      call = [&]() -> P::IType * {
        return types.AddEnumerationType(n.c_str(), d.c_str(), t.uuid,
                                        static_cast<Smp::Int16>(memory));
      };
      break;
    }
    case Form::Array: {
      otherUuid = uuid();
      auto i = model.find(otherUuid);
      if (i == model.end())
        reasons.push_back("TypeNotRegistered");
      else
        t.itemType = i->second.type;
      if (otherUuid == U::Uuid_String8 || otherUuid == U::Uuid_Void)
        reasons.push_back("IncompatibleType");
      t.itemSize = c.u(40);
      t.count = c.u(6);
      t.simple = c.flip();
      call = [&]() -> P::IType * {
        return types.AddArrayType(n.c_str(), d.c_str(), t.uuid, otherUuid,
                                  static_cast<Smp::Int64>(t.itemSize),
                                  static_cast<Smp::Int64>(t.count), t.simple);
      };
      break;
    }
    case Form::String:
      t.kind = K::PTK_String8;
      t.length = static_cast<Smp::Int64>(c.u(100));
      call = [&]() -> P::IType * {
        return types.AddStringType(n.c_str(), d.c_str(), t.uuid, t.length);
      };
      break;
    case Form::Structure:
      call = [&]() -> P::IType * {
        return types.AddStructureType(n.c_str(), d.c_str(), t.uuid);
      };
      break;
    default: {
      otherUuid = c.chance(1, 3) ? U::Uuid_Void : uuid();
      if (c.chance(1, 8))
        otherUuid = t.uuid;
      auto i = model.find(otherUuid);
      if (otherUuid == U::Uuid_Void) {
      } else if (otherUuid == t.uuid)
        reasons.push_back("IncompatibleType");
      else if (i == model.end())
        reasons.push_back("TypeNotRegistered");
      else if (i->second.form != Form::Class)
        reasons.push_back("IncompatibleType");
      else
        c.label("derived class");
      call = [&]() -> P::IType * {
        return types.AddClassType(n.c_str(), d.c_str(), t.uuid, otherUuid);
      };
    }
    }
    NOTE(c, "add " << forms[static_cast<int>(t.form)] << " " << t.name
                   << " under " << t.uuid << " kind "
                   << static_cast<int>(t.kind) << " other " << otherUuid);
    std::string r;
    try {
      r = outcome([&] {
        try {
          t.type = call();
        } catch (const P::TypeAlreadyRegistered &e) {
          named = e.GetType();
          throw;
        }
      });
    } catch (const std::bad_alloc &) {
      r = "bad_alloc";
    }
    // the registry may not refer to the texts
    std::fill(n.begin(), n.end(), '?');
    std::fill(d.begin(), d.end(), '?');
    if (reasons.empty()) {
      REQUIRE(r.empty(), "a valid type gives " << r);
      REQUIRE(t.type, "no type is given");
      model[t.uuid] = t;
      c.label(forms[static_cast<int>(t.form)]);
      return;
    }
    REQUIRE(std::find(reasons.begin(), reasons.end(), r) != reasons.end(),
            "gives " << (r.empty() ? "a type" : r) << " instead of "
                     << reasons[0]);
    c.label(r);
    c.nontrivial();
    if (r == "TypeAlreadyRegistered")
      REQUIRE(named == before->second.type, "another type is said registered");
  }

  Ty *pick(Form f, bool orClass = false) {
    std::vector<Ty *> all;
    for (auto &[u, t] : model)
      if (t.form == f || (orClass && t.form == Form::Class))
        all.push_back(&t);
    return all.empty() ? nullptr : all[c.idx(all.size())];
  }

  void literal() {
    auto *t = pick(Form::Enumeration);
    bool own = false;
    for (auto &p : predefined)
      own = own || p.uuid == t->uuid;
    auto value =
        static_cast<Smp::Int32>(c.flip() ? c.u(18) : c.integer<Smp::Int32>());
    auto there = t->literals.find(value);
    if (own && there == t->literals.end())
      return;
    auto n = c.str(4, "abL_");
    NOTE(c, "add literal " << n << " = " << value << " to " << t->name
                           << " under " << t->uuid);
    auto *e = dynamic_cast<P::IEnumerationType *>(t->type);
    REQUIRE(e, "not an enumeration");
    Smp::Int32 named = 0;
    std::string namedText;
    auto r = outcome([&] {
      try {
        e->AddLiteral(n.c_str(), "", value);
      } catch (const P::DuplicateLiteral &x) {
        named = x.GetLiteralValue();
        namedText = str(x.GetLiteralName());
        throw;
      }
    });
    if (there == t->literals.end()) {
      REQUIRE(r.empty(), "a new literal gives " << r);
      t->literals[value] = n;
    } else {
      REQUIRE(r == "DuplicateLiteral" && named == value,
              "a used literal value gives " << r << " " << named);
      if (!own)
        REQUIRE(namedText == there->second || namedText == n,
                "literal " << namedText);
      c.label(r);
      c.nontrivial();
    }
  }

  void check(Smp::Uuid const &u) {
    auto *found = types.GetType(u);
    auto i = model.find(u);
    if (i == model.end()) {
      REQUIRE(!found, "a type under " << u);
      return;
    }
    auto &t = i->second;
    REQUIRE(found == t.type, "another type under " << u);
    REQUIRE(str(found->GetName()) == t.name &&
                str(found->GetDescription()) == t.description,
            "name " << str(found->GetName()) << " description "
                    << str(found->GetDescription()) << " of " << t.name);
    REQUIRE(found->GetUuid() == u, "identifier of " << t.name);
    REQUIRE(found->GetPrimitiveTypeKind() == t.kind,
            "kind " << static_cast<int>(found->GetPrimitiveTypeKind()) << " of "
                    << t.name);
    REQUIRE(found->GetParent() == &types, "parent of " << t.name);
    REQUIRE(
        !!dynamic_cast<P::IEnumerationType *>(found) ==
                (t.form == Form::Enumeration) &&
            !!dynamic_cast<P::IArrayType *>(found) == (t.form == Form::Array) &&
            !!dynamic_cast<P::IStructureType *>(found) ==
                (t.form == Form::Structure || t.form == Form::Class) &&
            !!dynamic_cast<P::IClassType *>(found) == (t.form == Form::Class),
        "interfaces of " << t.name);
    if (auto *f = dynamic_cast<Xsmp::Publication::FloatType *>(found)) {
      auto same = [](double a, double b) {
        return std::memcmp(&a, &b, sizeof a) == 0;
      };
      REQUIRE(same(f->getMinimum(), t.low) && same(f->getMaximum(), t.high) &&
                  f->IsMinInclusive() == t.lowIn &&
                  f->IsMaxInclusive() == t.highIn &&
                  str(f->getUnit()) == t.unit,
              "attributes of float " << t.name);
    } else
      REQUIRE(t.form != Form::Float, "no float " << t.name);
    if (auto *f = dynamic_cast<Xsmp::Publication::IntegerType *>(found))
      REQUIRE(f->getMinimum() == t.least && f->getMaximum() == t.most &&
                  str(f->getUnit()) == t.unit,
              "attributes of integer " << t.name);
    else
      REQUIRE(t.form != Form::Integer, "no integer " << t.name);
    if (auto *f = dynamic_cast<Xsmp::Publication::StringType *>(found))
      REQUIRE(f->GetLength() == t.length, "length of string " << t.name);
    else
      REQUIRE(t.form != Form::String, "no string " << t.name);
    if (t.form == Form::Array) {
      auto *a = dynamic_cast<P::IArrayType *>(found);
      REQUIRE(a->GetSize() == t.count && a->GetItemType() == t.itemType,
              "size or items of array " << t.name);
      auto *x = dynamic_cast<Xsmp::Publication::ArrayType *>(found);
      REQUIRE(x && x->IsSimpleArray() == t.simple &&
                  x->GetItemSize() == t.itemSize,
              "attributes of array " << t.name);
    }
  }

  void all() {
    for (std::size_t i = 0; i < 11; ++i)
      check(custom(i));
    for (auto &p : predefined)
      check(p.uuid);
    check(Smp::Uuid{7, 7, 7, 7, 7});
    for (auto k : kinds) {
      auto *t = types.GetType(k);
      REQUIRE(t && t->GetPrimitiveTypeKind() == k,
              "type of kind " << static_cast<int>(k));
      for (auto &p : predefined)
        if (p.kind == k && (p.literals < 0) && p.uuid != U::Uuid_EventId &&
            p.uuid != U::Uuid_LogMessageKind)
          REQUIRE(t == model[p.uuid].type, "type of kind " << p.name);
    }
    REQUIRE(types.GetParent() == owner, "parent of the registry");
  }

  // a field of an enumeration takes its literals and no other value
  void enumeration() {
    auto *t = pick(Form::Enumeration);
    if (t->kind != K::PTK_Int32)
      return;
    Smp::Int32 memory = 0x5a5a5a5a;
    Xsmp::Publication::Publication publication{owner, &types};
    t->type->Publish(&publication, "f", "", &memory);
    auto *f = dynamic_cast<Smp::ISimpleField *>(publication.GetField("f"));
    REQUIRE(f, "no simple field of an enumeration");
    for (int i = 0; i < 12; ++i) {
      auto v = i < 8 || t->literals.empty()
                   ? static_cast<Smp::Int32>(c.range(-2, 18))
               : i == 8 ? std::prev(t->literals.end())->first
                        : c.integer<Smp::Int32>();
      auto old = memory;
      auto r = outcome([&] { f->SetValue({K::PTK_Int32, v}); });
      bool valid = t->literals.count(v);
      REQUIRE(r == (valid ? "" : "InvalidFieldValue") &&
                  memory == (valid ? v : old),
              "value " << v << " of " << t->name << " gives " << r
                       << " and leaves " << memory);
    }
    c.label("values");
  }

  void run() {
    all();
    while (c.more(60)) {
      Case::Span span(c);
      switch (c.weighted({12, 4, 1})) {
      case 0:
        add();
        break;
      case 1:
        literal();
        break;
      default:
        enumeration();
      }
      if (c.chance(1, 8))
        all();
    }
    all();
  }
};

void registrations(Case &c) {
  Registry r(c);
  r.run();
}

// ---------------------------------------------------------------------------
struct Writer : Smp::IStorageWriter {
  std::string data;
  void Store(void *a, Smp::UInt64 n) override {
    data.append(static_cast<char *>(a), n);
  }
  Smp::String8 GetStateVectorFileName() const override { return ""; }
  Smp::String8 GetStateVectorFilePath() const override { return ""; }
};
struct Reader : Smp::IStorageReader {
  std::string const &data;
  std::size_t at = 0;
  explicit Reader(std::string const &d) : data(d) {}
  void Restore(void *a, Smp::UInt64 n) override {
    REQUIRE(at + n <= data.size(), "more is read than was written");
    std::memcpy(a, data.data() + at, n);
    at += n;
  }
  Smp::String8 GetStateVectorFileName() const override { return ""; }
  Smp::String8 GetStateVectorFilePath() const override { return ""; }
};

// a simple value in memory
struct Leaf {
  Smp::ISimpleField *field = nullptr;
  Smp::ISimpleArrayField *array = nullptr;
  Smp::UInt64 index = 0, count = 0, step = 0;
  const Ty *type = nullptr;
  Smp::UInt64 offset = 0;
  bool state = true;
  std::string path;
};

struct Layout {
  static constexpr std::size_t room = 4096;
  Case &c;
  fx::Node component{"component", 1};
  Smp::IObject *owner =
      static_cast<Smp::IObject *>(static_cast<Xsmp::Model *>(&component));
  Xsmp::Publication::TypeRegistry types{owner};
  Xsmp::Publication::Publication publication{owner, &types};
  std::deque<Ty> all;
  alignas(16) char memory[room];
  char shadow[room];
  std::vector<Leaf> leaves;
  std::vector<Smp::IField *> roots;
  Smp::UInt64 used = 0;

  explicit Layout(Case &k) : c(k) {
    for (auto &p : predefined)
      if (p.literals < 0 && p.kind != K::PTK_None && p.kind != K::PTK_String8) {
        Ty t;
        t.uuid = p.uuid;
        t.kind = p.kind;
        t.name = p.name;
        t.type = types.GetType(p.uuid);
        t.size = t.alignment = sizeOf(p.kind);
        all.push_back(t);
      }
    for (std::size_t i = 0; i < room; ++i)
      memory[i] = shadow[i] = 0;
  }
  static Smp::UInt64 align(Smp::UInt64 v, Smp::UInt64 a) {
    return (v + a - 1) / a * a;
  }
  const Ty *some(bool composed = true) {
    // recent types first
    if (composed && all.size() > 17 && c.chance(3, 5))
      return &all[17 + c.idx(all.size() - 17)];
    return &all[c.idx(all.size())];
  }

  void define() {
    Ty t;
    auto number = all.size();
    t.uuid = Smp::Uuid{static_cast<std::uint32_t>(number), 1, 2, 3, 4};
    t.name = "T" + std::to_string(number);
    switch (c.weighted({2, 2, 4, 1, 4, 4})) {
    case 0: {
      t.form = Form::Enumeration;
      static const int sizes[] = {4, 1, 2, 8};
      static const K k[] = {K::PTK_Int32, K::PTK_Int8, K::PTK_Int16,
                            K::PTK_Int64};
      auto i = c.chance(2, 3) ? 0 : c.idx(4);
      t.kind = k[i];
      t.size = t.alignment = sizes[i];
      auto *e = types.AddEnumerationType(t.name.c_str(), "", t.uuid,
                                         static_cast<Smp::Int16>(sizes[i]));
      t.type = e;
      for (auto n = 1 + c.u(4); n; --n)
        t.literals[static_cast<Smp::Int32>(c.range(-5, 20))] = "L";
      for (auto &[v, x] : t.literals)
        e->AddLiteral("L", "", v);
      break;
    }
    case 1:
      t.form = Form::String;
      t.kind = K::PTK_String8;
      t.length = static_cast<Smp::Int64>(c.u(12));
      t.size = static_cast<Smp::UInt64>(t.length) + 1;
      t.type = types.AddStringType(t.name.c_str(), "", t.uuid, t.length);
      break;
    case 2:
    case 4: {
      t.form = Form::Array;
      t.item = some();
      t.simple = c.flip();
      t.count = c.u(5);
      t.alignment = t.item->alignment;
      t.itemSize = align(t.item->size, t.alignment);
      if (c.chance(1, 3))
        t.itemSize += t.alignment * (1 + c.u(2));
      t.size = t.itemSize * t.count;
      t.type = types.AddArrayType(t.name.c_str(), "", t.uuid, t.item->uuid,
                                  static_cast<Smp::Int64>(t.itemSize),
                                  static_cast<Smp::Int64>(t.count), t.simple);
      break;
    }
    case 3:
      t.form = Form::Float;
      t.kind = c.flip() ? K::PTK_Float32 : K::PTK_Float64;
      t.size = t.alignment = sizeOf(t.kind);
      t.type = types.AddFloatType(t.name.c_str(), "", t.uuid, 0, 1, true, true,
                                  "", t.kind);
      break;
    default: {
      t.form = c.flip() ? Form::Structure : Form::Class;
      auto n = c.u(5);
      std::vector<std::size_t> order;
      for (std::size_t i = 0; i < n; ++i) {
        Member m;
        m.name = std::string(1, static_cast<char>('a' + i));
        m.description = c.str(3, "de");
        m.type = some();
        m.view = static_cast<Smp::ViewKind>(c.idx(4));
        m.state = !c.chance(1, 4);
        m.input = c.chance(1, 4);
        m.output = c.chance(1, 4);
        t.members.push_back(m);
        order.insert(order.begin() + static_cast<long>(c.idx(i + 1)), i);
      }
      // the members lie in another order than they are added
      for (auto i : order) {
        auto &m = t.members[i];
        t.alignment = std::max(t.alignment, m.type->alignment);
        m.offset =
            align(t.size + (c.chance(1, 4) ? c.u(9) : 0), m.type->alignment);
        t.size = m.offset + m.type->size;
      }
      t.size = align(t.size, t.alignment);
      P::IStructureType *s =
          t.form == Form::Structure
              ? types.AddStructureType(t.name.c_str(), "", t.uuid)
              : types.AddClassType(t.name.c_str(), "", t.uuid, U::Uuid_Void);
      for (auto &m : t.members) {
        auto mn = m.name, md = m.description;
        s->AddField(mn.c_str(), md.c_str(), m.type->uuid,
                    static_cast<Smp::Int64>(m.offset), m.view, m.state, m.input,
                    m.output);
        std::fill(mn.begin(), mn.end(), '?');
        std::fill(md.begin(), md.end(), '?');
      }
      t.type = s;
    }
    }
    if (t.size > room / 4)
      throw pbt::Discard();
    NOTE(c, "type " << t.name << ": " << forms[static_cast<int>(t.form)]
                    << " of " << t.size << " bytes"
                    << (t.item ? " items " + t.item->name : "")
                    << (t.simple ? " simple" : ""));
    for (auto &m : t.members)
      NOTE(c, "  " << m.name << ": " << m.type->name << " at " << m.offset
                   << (m.state ? " state" : ""));
    all.push_back(t);
  }

  struct Flags {
    Smp::ViewKind view;
    bool state, input, output;
  };

  void walk(Smp::IField *f, Ty const &t, std::string const &path,
            std::string const &name, std::string const &description,
            Smp::IObject *parent, Smp::UInt64 offset, Flags flags,
            bool stored) {
    REQUIRE(f, "no field " << path);
    REQUIRE(str(f->GetName()) == name &&
                str(f->GetDescription()) == description,
            "name " << str(f->GetName()) << " description "
                    << str(f->GetDescription()) << " of " << path);
    REQUIRE(f->GetType() == t.type, "type of " << path);
    REQUIRE(f->GetParent() == parent, "parent of " << path);
    REQUIRE(f->GetView() == flags.view && f->IsState() == flags.state &&
                f->IsInput() == flags.input && f->IsOutput() == flags.output,
            path << ": view " << static_cast<int>(f->GetView()) << " state "
                 << f->IsState() << " input " << f->IsInput() << " output "
                 << f->IsOutput());
    REQUIRE(publication.GetField(path.c_str()) == f,
            "GetField(" << path << ") is another field");
    stored = stored && flags.state;
    auto *simple = dynamic_cast<Smp::ISimpleField *>(f);
    auto *simpleArray = dynamic_cast<Smp::ISimpleArrayField *>(f);
    auto *array = dynamic_cast<Smp::IArrayField *>(f);
    auto *structure = dynamic_cast<Smp::IStructureField *>(f);
    bool isSimpleArray =
        t.form == Form::Array && t.simple && t.item->kind != K::PTK_None;
    REQUIRE(
        !!simple == (t.kind != K::PTK_None) && !!simpleArray == isSimpleArray &&
            !!array == (t.form == Form::Array && !isSimpleArray) &&
            !!structure == (t.form == Form::Structure || t.form == Form::Class),
        "shape of " << path);
    if (simple) {
      REQUIRE(simple->GetPrimitiveTypeKind() == t.kind, "kind of " << path);
      leaves.push_back({simple, nullptr, 0, 0, 0, &t, offset, stored, path});
    } else if (simpleArray) {
      REQUIRE(simpleArray->GetSize() == t.count, "size of " << path);
      for (Smp::UInt64 i = 0; i < t.count; ++i)
        leaves.push_back({nullptr, simpleArray, i, t.count, t.itemSize, t.item,
                          offset + i * t.itemSize, stored,
                          path + " " + std::to_string(i)});
      auto r = outcome([&] { (void)simpleArray->GetValue(t.count); });
      REQUIRE(r == "InvalidArrayIndex", "beyond " << path << ": " << r);
    } else if (array) {
      REQUIRE(array->GetSize() == t.count, "size of " << path);
      for (Smp::UInt64 i = 0; i < t.count; ++i) {
        auto n = "[" + std::to_string(i) + "]";
        walk(array->GetItem(i), *t.item, path + n, n, "", f,
             offset + i * t.itemSize, flags, stored);
      }
      auto r = outcome([&] { (void)array->GetItem(t.count); });
      REQUIRE(r == "InvalidArrayIndex", "beyond " << path << ": " << r);
    } else {
      REQUIRE(structure->GetFields()->size() == t.members.size(),
              "number of fields of " << path);
      std::size_t i = 0;
      for (auto &m : t.members) {
        auto *g = structure->GetFields()->at(i++);
        REQUIRE(structure->GetField(m.name.c_str()) == g,
                "field " << m.name << " of " << path);
        walk(
            g, *m.type, path + "." + m.name, m.name, m.description, f,
            offset + m.offset,
            {m.view, m.state, m.input || flags.input, m.output || flags.output},
            stored);
      }
    }
  }

  void publish() {
    auto const &t = *some();
    Flags f{static_cast<Smp::ViewKind>(c.idx(4)), !c.chance(1, 4),
            c.chance(1, 4), c.chance(1, 4)};
    auto offset = align(used + c.u(9), t.alignment);
    if (offset + t.size > room)
      return;
    used = offset + t.size;
    auto name = "f" + std::to_string(roots.size());
    NOTE(c, "publish " << name << " of " << t.name << " at " << offset
                       << (f.state ? " state" : "") << (f.input ? " input" : "")
                       << (f.output ? " output" : ""));
    if (c.flip())
      t.type->Publish(&publication, name.c_str(), "d", memory + offset, f.view,
                      f.state, f.input, f.output);
    else
      publication.PublishField(name.c_str(), "d", memory + offset, t.uuid,
                               f.view, f.state, f.input, f.output);
    auto *field = publication.GetField(name.c_str());
    roots.push_back(field);
    walk(field, t, name, name, "d", owner, offset, f, true);
  }

  // the value a leaf has in memory
  Smp::AnySimple read(Leaf const &l, const char *from) {
    auto *p = from + l.offset;
    Smp::AnySimple a;
    auto k = l.type->kind;
    auto as = [&](auto v) {
      std::memcpy(&v, p, sizeof v);
      a.SetValue(k, v);
    };
    switch (k) {
    case K::PTK_Bool:
      a.SetValue(k, static_cast<Smp::Bool>(*p != 0));
      break;
    case K::PTK_Char8:
      as(Smp::Char8{});
      break;
    case K::PTK_Int8:
      as(Smp::Int8{});
      break;
    case K::PTK_UInt8:
      as(Smp::UInt8{});
      break;
    case K::PTK_Int16:
      as(Smp::Int16{});
      break;
    case K::PTK_UInt16:
      as(Smp::UInt16{});
      break;
    case K::PTK_Int32:
      as(Smp::Int32{});
      break;
    case K::PTK_UInt32:
      as(Smp::UInt32{});
      break;
    case K::PTK_UInt64:
      as(Smp::UInt64{});
      break;
    case K::PTK_Float32:
      as(Smp::Float32{});
      break;
    case K::PTK_Float64:
      as(Smp::Float64{});
      break;
    case K::PTK_String8:
      a.SetValue(k, static_cast<Smp::String8>(p));
      break;
    default:
      as(Smp::Int64{});
    }
    return a;
  }
  // the bytes a value takes
  void write(Leaf const &l, Smp::AnySimple const &v, char *to) {
    auto *p = to + l.offset;
    auto as = [&](auto x) { std::memcpy(p, &x, sizeof x); };
    switch (l.type->kind) {
    case K::PTK_Bool:
      *p = static_cast<Smp::Bool>(v) ? 1 : 0;
      break;
    case K::PTK_Char8:
      as(static_cast<Smp::Char8>(v));
      break;
    case K::PTK_Int8:
      as(static_cast<Smp::Int8>(v));
      break;
    case K::PTK_UInt8:
      as(static_cast<Smp::UInt8>(v));
      break;
    case K::PTK_Int16:
      as(static_cast<Smp::Int16>(v));
      break;
    case K::PTK_UInt16:
      as(static_cast<Smp::UInt16>(v));
      break;
    case K::PTK_Int32:
      as(static_cast<Smp::Int32>(v));
      break;
    case K::PTK_UInt32:
      as(static_cast<Smp::UInt32>(v));
      break;
    case K::PTK_UInt64:
      as(static_cast<Smp::UInt64>(v));
      break;
    case K::PTK_Float32:
      as(static_cast<Smp::Float32>(v));
      break;
    case K::PTK_Float64:
      as(static_cast<Smp::Float64>(v));
      break;
    case K::PTK_String8: {
      auto s = static_cast<Smp::String8>(v);
      auto n =
          std::min(std::strlen(s), static_cast<std::size_t>(l.type->length));
      std::memcpy(p, s, n);
      p[n] = 0;
      break;
    }
    default:
      as(static_cast<Smp::Int64>(v));
    }
  }
  Smp::AnySimple value(Leaf const &l) {
    auto raw = c.flip() ? c.u(40) : c.integer<uint64_t>();
    if (l.type->form == Form::Enumeration) {
      auto i = l.type->literals.begin();
      std::advance(i, static_cast<long>(c.idx(l.type->literals.size())));
      raw = static_cast<uint64_t>(static_cast<int64_t>(i->first));
    }
    return fx::value(l.type->kind, raw);
  }

  void compare() {
    for (std::size_t i = 0; i < room; ++i)
      if (memory[i] != shadow[i]) {
        std::string at;
        for (auto &l : leaves)
          if (i >= l.offset && i < l.offset + l.type->size)
            at = " in " + l.path;
        FAILURE("byte " << i << " is " << int(memory[i]) << " instead of "
                        << int(shadow[i]) << at);
      }
  }
  bool same(Smp::AnySimple const &a, Smp::AnySimple const &b) {
    return a.GetType() == b.GetType() &&
           (a == b ||
            (a.GetType() == K::PTK_Float32 &&
             std::isnan(static_cast<Smp::Float32>(a)) &&
             std::isnan(static_cast<Smp::Float32>(b))) ||
            (a.GetType() == K::PTK_Float64 &&
             std::isnan(static_cast<Smp::Float64>(a)) &&
             std::isnan(static_cast<Smp::Float64>(b))));
  }
  void readAll() {
    for (auto &l : leaves) {
      auto v = l.field ? l.field->GetValue() : l.array->GetValue(l.index);
      REQUIRE(same(v, read(l, shadow)),
              "value of " << l.path << " at " << l.offset);
    }
  }

  void set() {
    auto &l = leaves[c.idx(leaves.size())];
    auto v = value(l);
    NOTE(c, "set " << l.path);
    if (l.field)
      l.field->SetValue(v);
    else
      l.array->SetValue(l.index, v);
    write(l, v, shadow);
  }
  void setAll() {
    auto n = c.idx(leaves.size());
    if (!leaves[n].array || !leaves[n].count)
      return;
    auto first = n - leaves[n].index;
    std::vector<Smp::AnySimple> v(leaves[n].count);
    for (std::size_t i = 0; i < v.size(); ++i)
      v[i] = value(leaves[first + i]);
    NOTE(c, "set all values of " << leaves[first].path);
    leaves[n].array->SetValues(v.size(), v.data());
    for (std::size_t i = 0; i < v.size(); ++i)
      write(leaves[first + i], v[i], shadow);
    std::vector<Smp::AnySimple> back(v.size());
    leaves[n].array->GetValues(back.size(), back.data());
    for (std::size_t i = 0; i < v.size(); ++i)
      REQUIRE(same(back[i], read(leaves[first + i], shadow)),
              "values of " << leaves[first].path);
  }
  void refuse() {
    auto &l = leaves[c.idx(leaves.size())];
    if (l.type->form != Form::Enumeration || l.type->kind != K::PTK_Int32)
      return;
    auto v = static_cast<Smp::Int32>(c.range(-6, 22));
    if (l.type->literals.count(v))
      return;
    NOTE(c, "set " << l.path << " to " << v);
    Smp::AnySimple a{K::PTK_Int32, v};
    auto r = outcome([&] {
      if (l.field)
        l.field->SetValue(a);
      else
        l.array->SetValue(l.index, a);
    });
    REQUIRE(r == (l.field ? "InvalidFieldValue" : "InvalidArrayValue"),
            "no literal: " << r);
    c.label(r);
  }
  // the model writes its memory
  void poke() {
    auto &l = leaves[c.idx(leaves.size())];
    NOTE(c, "write " << l.path << " in memory");
    write(l, value(l), shadow);
    std::memcpy(memory + l.offset, shadow + l.offset, l.type->size);
  }
  void store() {
    auto &root = roots[c.idx(roots.size())];
    NOTE(c, "store and restore " << root->GetName());
    Writer w;
    root->Store(&w);
    auto name = std::string(root->GetName());
    char saved[room];
    std::memcpy(saved, shadow, room);
    Smp::UInt64 least = 0;
    for (auto &l : leaves) {
      auto v = value(l);
      write(l, v, shadow);
      write(l, v, memory);
      if (l.state && l.path.compare(0, name.size(), name) == 0 &&
          l.path.find_first_of("0123456789", name.size()) != name.size())
        least += l.type->size;
    }
    compare();
    REQUIRE(w.data.size() >= least,
            "only " << w.data.size() << " bytes of " << least << " are stored");
    Reader r(w.data);
    root->Restore(&r);
    REQUIRE(r.at == w.data.size(), "not all is read");
    for (auto &l : leaves) {
      bool inside =
          l.path.compare(0, name.size(), name) == 0 &&
          l.path.find_first_of("0123456789", name.size()) != name.size();
      auto *want = inside && l.state ? saved : shadow;
      REQUIRE(same(read(l, memory), read(l, want)),
              l.path << (want == saved ? " is not restored"
                                       : " is changed by a restoration"));
      if (inside && !l.state)
        c.label("not stored");
    }
    // the bytes between values are nobody's
    std::memcpy(shadow, memory, room);
  }

  void unknown() {
    // a structure with a field of a type that is not registered yet
    auto *s = types.AddStructureType("Unknown", "", Smp::Uuid{9, 9, 9, 9, 9});
    s->AddField("ok", "", U::Uuid_Int32, 0);
    bool forbidden = c.flip();
    auto missing = Smp::Uuid{8, 8, 8, 8, 8};
    auto u = forbidden ? (c.flip() ? U::Uuid_Void : U::Uuid_String8) : missing;
    s->AddField("bad", "", u, 8);
    auto n = publication.GetFields()->size();
    auto r = outcome([&] {
      publication.PublishField("unknown", "", memory, Smp::Uuid{9, 9, 9, 9, 9},
                               Smp::ViewKind::VK_All, true, false, c.flip());
    });
    if (forbidden)
      REQUIRE(r == "IncompatibleType" || r == "InvalidFieldType",
              "a field without value gives " << r);
    else
      REQUIRE(r == "TypeNotRegistered", "an unknown type gives " << r);
    REQUIRE(publication.GetFields()->size() == n,
            "it is published all the same");
    c.label(r);
    if (!forbidden) {
      types.AddIntegerType("Late", "", missing, 0, 1, "", K::PTK_Int16);
      publication.PublishField("unknown", "", memory + room - 16,
                               Smp::Uuid{9, 9, 9, 9, 9});
      REQUIRE(publication.GetField("unknown.bad"), "a type registered later");
    }
  }

  void run() {
    for (auto n = 2 + c.u(7); n; --n)
      define();
    for (auto n = 1 + c.u(2); n; --n)
      publish();
    if (c.chance(1, 6))
      unknown();
    if (leaves.empty())
      return;
    bool deep = false;
    for (auto &l : leaves)
      deep = deep || std::count_if(l.path.begin(), l.path.end(), [](char x) {
                       return x == '.' || x == '[' || x == ' ';
                     }) > 1;
    if (deep)
      c.nontrivial();
    while (c.more(25)) {
      Case::Span span(c);
      switch (c.weighted({6, 3, 4, 2, 2})) {
      case 0:
        set();
        break;
      case 1:
        setAll();
        break;
      case 2:
        poke();
        break;
      case 3:
        refuse();
        break;
      default:
        store();
      }
      compare();
      if (c.chance(1, 4))
        readAll();
    }
    readAll();
  }
};

void layouts(Case &c) {
  Layout l(c);
  l.run();
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C35";
  s.rule = "a registration was refused, or a field lies two levels deep";
  s.subs = {{"registrations", registrations, 90000, 900000},
            {"layouts", layouts, 90000, 900000}};
  s.assumptions = {"a structure type has distinct field names and no cycle",
                   "offsets and item sizes suit the alignment of the items",
                   "the length of a string type is not negative",
                   "a class type published as a field has no base class",
                   "values of enumerations of 1, 2 or 8 bytes are literals"};
  return s;
}
