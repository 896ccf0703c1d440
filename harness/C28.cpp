//! sources: full src-gen/Xsmp/Tests/Types/*.cpp
// C28: operations, properties and requests: what is published can be invoked
// with exactly the values its types allow, and reaches the component once.
#include "fx.h"
#include "fx_fields.h"
#include <Smp/AccessKind.h>
#include <Smp/IDynamicInvocation.h>
#include <Smp/IOperation.h>
#include <Smp/IParameter.h>
#include <Smp/IProperty.h>
#include <Smp/IRequest.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Xsmp/Component.h>
#include <Xsmp/Object.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/Request.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/Request.h>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <set>

using fx::outcome;
using fx::str;
using pbt::Case;
using K = Smp::PrimitiveTypeKind;
using D = Smp::Publication::ParameterDirectionKind;
using A = Smp::AccessKind;

namespace {
const K kinds[] = {K::PTK_Bool,     K::PTK_Char8,    K::PTK_Int8,
                   K::PTK_UInt8,    K::PTK_Int16,    K::PTK_UInt16,
                   K::PTK_Int32,    K::PTK_UInt32,   K::PTK_Int64,
                   K::PTK_UInt64,   K::PTK_Float32,  K::PTK_Float64,
                   K::PTK_Duration, K::PTK_DateTime, K::PTK_String8};

// --- the types: what the registry was told
struct Type {
  Smp::Publication::IType *type = nullptr;
  Smp::Uuid uuid{};
  std::string name;
  K kind = K::PTK_None;
  enum { Plain, Integer, Float, String, Enum, None } what = Plain;
  __int128 min = 0, max = 0;
  double fmin = 0, fmax = 0;
  bool minInclusive = true, maxInclusive = true;
  size_t length = 0;
  std::set<int64_t> literals;
};
__int128 integerOf(Smp::AnySimple const &v) {
  switch (v.type) {
  case K::PTK_Int8:
    return v.value.int8Value;
  case K::PTK_Int16:
    return v.value.int16Value;
  case K::PTK_Int32:
    return v.value.int32Value;
  case K::PTK_Int64:
    return v.value.int64Value;
  case K::PTK_UInt8:
    return v.value.uInt8Value;
  case K::PTK_UInt16:
    return v.value.uInt16Value;
  case K::PTK_UInt32:
    return v.value.uInt32Value;
  case K::PTK_UInt64:
    return v.value.uInt64Value;
  default:
    FAILURE("not an integer");
  }
}
// "", "type" or "value"
const char *judge(Type const &t, Smp::AnySimple const &v) {
  if (v.type != t.kind)
    return "type";
  switch (t.what) {
  case Type::Integer: {
    auto i = integerOf(v);
    return i < t.min || i > t.max ? "value" : "";
  }
  case Type::Enum: {
    auto i = integerOf(v);
    bool known = false;
    for (auto l : t.literals)
      known = known || l == i;
    return known ? "" : "value";
  }
  case Type::Float: {
    double d = v.type == K::PTK_Float32
                   ? static_cast<double>(v.value.float32Value)
                   : v.value.float64Value;
    bool low = t.minInclusive ? d >= t.fmin : d > t.fmin;
    bool high = t.maxInclusive ? d <= t.fmax : d < t.fmax;
    return low && high ? "" : "value";
  }
  case Type::String: {
    auto s = static_cast<Smp::String8>(v);
    return s && std::strlen(s) > t.length ? "value" : "";
  }
  default:
    return "";
  }
}
Smp::AnySimple integerValue(K k, __int128 i) {
  return fx::value(k, static_cast<uint64_t>(i));
}
bool fits(K k, __int128 i) {
  auto in = [i](auto x) {
    using T = decltype(x);
    return i >= static_cast<__int128>(std::numeric_limits<T>::min()) &&
           i <= static_cast<__int128>(std::numeric_limits<T>::max());
  };
  switch (k) {
  case K::PTK_Int8:
    return in(Smp::Int8{});
  case K::PTK_Int16:
    return in(Smp::Int16{});
  case K::PTK_Int32:
    return in(Smp::Int32{});
  case K::PTK_Int64:
    return in(Smp::Int64{});
  case K::PTK_UInt8:
    return in(Smp::UInt8{});
  case K::PTK_UInt16:
    return in(Smp::UInt16{});
  case K::PTK_UInt32:
    return in(Smp::UInt32{});
  case K::PTK_UInt64:
    return in(Smp::UInt64{});
  default:
    return false;
  }
}
// a value to be given where t is expected
Smp::AnySimple valueFor(Case &c, Type const &t) {
  if (c.chance(1, 10)) { // of another kind, or none
    if (c.chance(1, 4))
      return {};
    return fx::value(kinds[c.idx(std::size(kinds))], c.u(~0ull));
  }
  switch (t.what) {
  case Type::Integer: {
    __int128 i = 0;
    switch (c.weighted({3, 3, 2, 2})) {
    case 0:
      i = t.min + c.range(-2, 2);
      break;
    case 1:
      i = t.max + c.range(-2, 2);
      break;
    case 2:
      return fx::value(t.kind, c.u(~0ull));
    default:
      i = c.range(-3, 3);
    }
    return fits(t.kind, i) ? integerValue(t.kind, i)
                           : fx::value(t.kind, c.u(~0ull));
  }
  case Type::Enum: {
    if (c.chance(1, 4) || t.literals.empty())
      return fx::value(t.kind, c.u(~0ull));
    auto it = t.literals.begin();
    std::advance(it, c.idx(t.literals.size()));
    __int128 i = *it;
    if (c.chance(1, 4))
      i += c.pick({-1, 1, 2});
    if (c.chance(1, 8))
      i += c.pick({__int128{256}, __int128{65536}, __int128{1} << 32});
    return fits(t.kind, i) ? integerValue(t.kind, i)
                           : fx::value(t.kind, c.u(~0ull));
  }
  case Type::Float: {
    double d = 0;
    switch (c.weighted({3, 3, 1, 2, 2})) {
    case 0:
      d = t.fmin;
      break;
    case 1:
      d = t.fmax;
      break;
    case 2:
      d = c.flip() ? HUGE_VAL : -HUGE_VAL;
      break;
    case 3:
      d = static_cast<double>(c.range(-40, 40)) / 4;
      break;
    default:
      d = c.floating<double>(false);
    }
    if (c.chance(1, 3)) { // the neighbours
      double to = c.flip() ? HUGE_VAL : -HUGE_VAL;
      if (t.kind == K::PTK_Float32)
        d = std::nextafter(static_cast<float>(d), static_cast<float>(to));
      else
        d = std::nextafter(d, to);
    }
    if (std::isnan(d))
      d = 0;
    Smp::AnySimple v;
    if (t.kind == K::PTK_Float32)
      v.SetValue(t.kind, static_cast<Smp::Float32>(d));
    else
      v.SetValue(t.kind, d);
    return v;
  }
  case Type::String: {
    auto n = t.length + static_cast<size_t>(c.range(0, 2));
    if (n && c.flip())
      n = static_cast<size_t>(c.range(0, n));
    else if (n)
      --n;
    auto s = std::string(std::min<size_t>(n, 300), 'a');
    for (auto &x : s)
      x = static_cast<char>(c.range('a', 'e'));
    Smp::AnySimple v;
    v.SetValue(K::PTK_String8, s.c_str());
    return v;
  }
  default:
    return fx::value(t.kind, c.u(~0ull));
  }
}

// --- the component: records the requests it gets
struct Component : public Xsmp::Component {
  using Xsmp::Component::Component;
  std::vector<Smp::IRequest *> invoked;
  std::function<void(Smp::IRequest *)> handler;
  void Invoke(Smp::IRequest *request) override {
    invoked.push_back(request);
    if (handler)
      handler(request);
  }
};

struct Parameter {
  std::string name, description;
  size_t type;
  D direction;
};
struct Operation {
  std::string name, description;
  Smp::ViewKind view;
  std::vector<Parameter> parameters; // in, out and inout
  std::unique_ptr<Parameter> result;
  Smp::Publication::IPublishOperation *publisher = nullptr;
};
struct Property {
  std::string name, description;
  size_t type;
  A access;
  Smp::ViewKind view;
};
struct Request {
  Smp::IRequest *request;
  enum { Operation, Get, Set } kind;
  std::string name; // of the operation or property
  std::vector<Smp::AnySimple> values;
  Smp::AnySimple result;
};
const Smp::ViewKind views[] = {Smp::ViewKind::VK_None, Smp::ViewKind::VK_Debug,
                               Smp::ViewKind::VK_Expert, Smp::ViewKind::VK_All};

struct World {
  Case &c;
  Component component{"component"};
  Xsmp::Object plain{"plain"}; // an object that cannot be invoked
  bool passive;                // it is the one that publishes
  Smp::IObject *owner;
  std::unique_ptr<Xsmp::Publication::TypeRegistry> registry;
  std::unique_ptr<Xsmp::Publication::Publication> publication;
  std::vector<Type> types;
  std::vector<Operation> operations;
  std::vector<Property> properties;
  std::vector<Request> requests;
  bool byComponent = false; // create the requests through the component
  unsigned nextUuid = 1;

  explicit World(Case &x)
      : c(x), passive(x.chance(1, 8)),
        owner(passive ? static_cast<Smp::IObject *>(&plain) : &component) {
    registry = std::make_unique<Xsmp::Publication::TypeRegistry>(&component);
    publication =
        std::make_unique<Xsmp::Publication::Publication>(owner, registry.get());
    if (passive)
      NOTE(c, "the publisher cannot be invoked");
    else
      component.Publish(publication.get());
    for (auto k : kinds) {
      Type t;
      t.type = registry->GetType(k);
      REQUIRE(t.type, "no type of a primitive kind");
      t.uuid = t.type->GetUuid();
      t.name = t.type->GetName();
      t.kind = k;
      types.push_back(std::move(t));
    }
  }
  ~World() {
    for (auto &r : requests)
      remove(r.request);
  }

  void remove(Smp::IRequest *r) {
    if (passive)
      publication->DeleteRequest(r);
    else
      component.DeleteRequest(r);
  }

  // ------------------------------------------------------------ types
  Smp::Uuid newUuid() {
    if (c.chance(1, 12) && !types.empty())
      return types[c.idx(types.size())].uuid; // already used
    auto n = nextUuid++;
    return Smp::Uuid{static_cast<Smp::UInt32>(n), 0x1234, 1, 2,
                     static_cast<Smp::UInt64>(n)};
  }
  void addType() {
    Case::Span s(c);
    Type t;
    t.uuid = newUuid();
    bool used = registry->GetType(t.uuid) != nullptr;
    auto *before = registry->GetType(t.uuid);
    t.name = "Type" + std::to_string(types.size());
    bool badName = c.chance(1, 16);
    if (badName)
      t.name = c.pick({"", "1a", "a b", "_x"});
    std::string bad; // the exception due to the arguments
    std::string err;
    switch (c.weighted({4, 4, 3, 4, 3, 2})) {
    case 0: {
      t.what = Type::Integer;
      t.kind = kinds[c.idx(std::size(kinds))];
      if (!fits(t.kind, 0)) {
        if (c.chance(2, 3))
          t.kind = K::PTK_Int32;
        else
          bad = "InvalidPrimitiveType";
      }
      auto a = c.integer<Smp::Int64>(), b = c.integer<Smp::Int64>();
      if (c.flip()) {
        a = c.range(-50, 50);
        b = c.range(-50, 50);
      }
      if (c.chance(1, 4)) // so that unsigned values are often in range
        b = std::numeric_limits<Smp::Int64>::max();
      t.min = std::min(a, b);
      t.max = std::max(a, b);
      err = outcome([&] {
        t.type = registry->AddIntegerType(t.name.c_str(), "d", t.uuid,
                                          std::min(a, b), std::max(a, b), "m",
                                          t.kind);
      });
      NOTE(c, "integer type " << types.size() << " [" << std::min(a, b) << ", "
                              << std::max(a, b) << "] kind "
                              << static_cast<int>(t.kind) << " " << err);
      break;
    }
    case 1: {
      t.what = Type::Float;
      t.kind = c.chance(1, 10) ? kinds[c.idx(std::size(kinds))]
               : c.flip()      ? K::PTK_Float32
                               : K::PTK_Float64;
      if (t.kind != K::PTK_Float32 && t.kind != K::PTK_Float64)
        bad = "InvalidPrimitiveType";
      double a = static_cast<double>(c.range(-40, 40)) / 4,
             b = c.chance(1, 4) ? HUGE_VAL
                                : static_cast<double>(c.range(-40, 40)) / 4;
      if (c.chance(1, 5))
        a += 1e-9; // not representable as a Float32
      t.fmin = std::min(a, b);
      t.fmax = std::max(a, b);
      t.minInclusive = c.flip();
      t.maxInclusive = c.flip();
      err = outcome([&] {
        t.type =
            registry->AddFloatType(t.name.c_str(), "d", t.uuid, t.fmin, t.fmax,
                                   t.minInclusive, t.maxInclusive, "m", t.kind);
      });
      NOTE(c, "float type " << types.size() << (t.minInclusive ? " [" : " ]")
                            << t.fmin << ", " << t.fmax
                            << (t.maxInclusive ? "]" : "[") << " kind "
                            << static_cast<int>(t.kind) << " " << err);
      break;
    }
    case 2: {
      t.what = Type::String;
      t.kind = K::PTK_String8;
      t.length = c.range(0, 8);
      err = outcome([&] {
        t.type = registry->AddStringType(t.name.c_str(), "d", t.uuid,
                                         static_cast<Smp::Int64>(t.length));
      });
      NOTE(c,
           "string type " << types.size() << " of " << t.length << " " << err);
      break;
    }
    case 3: {
      t.what = Type::Enum;
      auto size = static_cast<Smp::Int16>(c.pick({1, 2, 4, 4, 8, 3, 0}));
      t.kind = size == 1   ? K::PTK_Int8
               : size == 2 ? K::PTK_Int16
               : size == 4 ? K::PTK_Int32
                           : K::PTK_Int64;
      if (size == 3 || size == 0)
        bad = "InvalidPrimitiveType";
      Smp::Publication::IEnumerationType *e = nullptr;
      err = outcome([&] {
        e = registry->AddEnumerationType(t.name.c_str(), "d", t.uuid, size);
        t.type = registry->GetType(t.uuid);
      });
      NOTE(c,
           "enumeration " << types.size() << " of size " << size << " " << err);
      for (unsigned i = 0; e && c.more(5) && i < 8; ++i) {
        auto v = static_cast<Smp::Int32>(
            c.chance(1, 8) ? c.integer<Smp::Int32>() : c.range(-3, 8));
        if (!fits(t.kind, v))
          v = 1;
        auto n = "L" + std::to_string(i);
        auto got = outcome([&] { e->AddLiteral(n.c_str(), "", v); });
        std::string want = t.literals.count(v) ? "DuplicateLiteral" : "";
        NOTE(c, "literal " << v << " " << got);
        REQUIRE(got == want,
                "AddLiteral(" << v << "): " << got << " expected " << want);
        t.literals.insert(v);
      }
      break;
    }
    case 4: { // no simple type
      t.what = Type::None;
      auto item = c.chance(1, 4) ? Smp::Uuid{77, 1, 1, 1, 1}
                                 : types[c.idx(types.size())].uuid;
      if (!registry->GetType(item))
        bad = "TypeNotRegistered";
      else if (item == Smp::Uuids::Uuid_String8)
        bad = "IncompatibleType";
      std::string sender;
      err = outcome([&] {
        try {
          t.type = registry->AddArrayType(t.name.c_str(), "d", t.uuid, item, 8,
                                          2, true);
        } catch (const Smp::Exception &e) {
          // the sender of an exception is an object that exists
          if (auto const *o = e.GetSender())
            sender = str(o->GetName());
          throw;
        }
      });
      NOTE(c, "array type " << types.size() << " " << err << " " << sender);
      break;
    }
    default: {
      t.what = Type::None;
      std::string sender;
      auto base = c.weighted({3, 1, 1, 1});
      Smp::Uuid baseUuid = base == 0   ? Smp::Uuids::Uuid_Void
                           : base == 1 ? t.uuid
                           : base == 2 ? Smp::Uuid{77, 1, 1, 1, 1}
                                       : types[c.idx(types.size())].uuid;
      if (base == 1 || base == 3)
        bad = "IncompatibleType";
      if (base == 2)
        bad = "TypeNotRegistered";
      for (auto const &x : types) // a class is a valid base
        if (base == 3 && x.uuid == baseUuid && x.name.substr(0, 5) == "Class")
          bad = "";
      if (!badName)
        t.name = "Class" + std::to_string(types.size());
      err = outcome([&] {
        try {
          t.type =
              registry->AddClassType(t.name.c_str(), "d", t.uuid, baseUuid);
        } catch (const Smp::Exception &e) {
          if (auto const *o = e.GetSender())
            sender = str(o->GetName());
          throw;
        }
      });
      NOTE(c, "class type " << types.size() << " " << err << " " << sender);
    }
    }
    // a type that is refused for several reasons may give any of them
    std::set<std::string> want;
    if (used)
      want.insert("TypeAlreadyRegistered");
    if (badName)
      want.insert("InvalidObjectName");
    if (!bad.empty())
      want.insert(bad);
    if (want.empty())
      want.insert("");
    REQUIRE(want.count(err),
            "adding a type: " << err << " expected " << *want.begin());
    c.label(err.empty() ? "type" : err);
    if (!err.empty()) {
      REQUIRE(registry->GetType(t.uuid) == before,
              "a refused type is registered");
      return;
    }
    REQUIRE(t.type && registry->GetType(t.uuid) == t.type,
            "GetType does not give the type added");
    REQUIRE(str(t.type->GetName()) == t.name && t.type->GetUuid() == t.uuid &&
                str(t.type->GetDescription()) == "d" &&
                t.type->GetPrimitiveTypeKind() == t.kind,
            "the type added has other attributes");
    types.push_back(std::move(t));
  }
  size_t anyType() {
    return c.chance(1, 3)
               ? c.idx(types.size())
               : types.size() - 1 - c.idx(std::min<size_t>(types.size(), 6));
  }

  // ------------------------------------------------------------ publication
  std::string operationName() {
    return c.pick({"op", "run", "get_p", "set_p", "get_q", "p", "Op"});
  }
  void drop(std::function<bool(Request const &)> f) {
    for (size_t i = requests.size(); i--;)
      if (f(requests[i])) {
        remove(requests[i].request);
        requests.erase(requests.begin() + static_cast<long>(i));
      }
  }
  Operation *operation(std::string const &n) {
    for (auto &o : operations)
      if (o.name == n)
        return &o;
    return nullptr;
  }
  Property *property(std::string const &n) {
    for (auto &p : properties)
      if (p.name == n)
        return &p;
    return nullptr;
  }
  void publishOperation() {
    Case::Span s(c);
    auto name = operationName();
    if (c.chance(1, 12)) {
      name = c.pick({"", "1", "a b"});
      auto err = outcome(
          [&] { publication->PublishOperation(name.c_str(), "", views[0]); });
      REQUIRE(err == "InvalidObjectName", "invalid name: " << err);
      return;
    }
    Operation o;
    o.name = name;
    o.description = c.str(6, "abc");
    o.view = views[c.idx(4)];
    if (auto *old = operation(name)) {
      // published again: replaces the old one
      c.label("operation replaced");
      drop([&](Request const &r) {
        return r.kind == Request::Operation && r.name == name;
      });
      auto i = old - operations.data();
      operations.erase(operations.begin() + i);
      o.publisher = publication->PublishOperation(
          name.c_str(), o.description.c_str(), o.view);
      operations.insert(operations.begin() + i, std::move(o));
    } else {
      o.publisher = publication->PublishOperation(
          name.c_str(), o.description.c_str(), o.view);
      operations.push_back(std::move(o));
    }
    NOTE(c, "operation " << name);
    auto n = c.range(0, 5);
    for (unsigned i = 0; i < n; ++i)
      publishParameter(*operation(name));
  }
  void publishParameter(Operation &o) {
    Case::Span s(c);
    REQUIRE(o.publisher, "no operation");
    Parameter p;
    p.name = c.pick({"a", "b", "x", "y", "z", "result", "A"});
    p.description = c.str(4, "abc");
    p.type = anyType();
    if (types[p.type].what == Type::None && !c.chance(1, 6))
      p.type = c.idx(std::size(kinds));
    p.direction =
        c.pick({D::PDK_In, D::PDK_In, D::PDK_Out, D::PDK_InOut, D::PDK_Return});
    auto uuid = types[p.type].uuid;
    std::set<std::string> want;
    if (c.chance(1, 16)) {
      uuid = Smp::Uuid{99, 9, 9, 9, 9};
      want.insert("TypeNotRegistered");
    }
    bool null = false;
    if (c.chance(1, 16)) {
      null = c.flip();
      p.name = c.pick({"", "1", "a b"});
      want.insert("InvalidObjectName");
    }
    if (p.direction == D::PDK_Return && o.result)
      want.insert("InvalidParameterDirection");
    for (auto const &q : o.parameters)
      if (q.name == p.name)
        want.insert("DuplicateName");
    if (o.result && o.result->name == p.name)
      want.insert("DuplicateName");
    if (want.empty())
      want.insert("");
    auto err = outcome([&] {
      o.publisher->PublishParameter(null ? nullptr : p.name.c_str(),
                                    p.description.c_str(), uuid, p.direction);
    });
    NOTE(c, "parameter " << (null ? "null" : p.name) << " of type " << p.type
                         << " direction " << static_cast<int>(p.direction)
                         << " " << err);
    REQUIRE(want.count(err),
            "PublishParameter: " << err << " expected " << *want.begin());
    if (!err.empty()) {
      c.label(err);
      return;
    }
    // requests made before have other parameters
    drop([&](Request const &r) {
      return r.kind == Request::Operation && r.name == o.name;
    });
    if (p.direction == D::PDK_Return)
      o.result = std::make_unique<Parameter>(p);
    else
      o.parameters.push_back(p);
  }
  void publishProperty() {
    Case::Span s(c);
    Property p;
    p.name = c.pick({"p", "q", "p", "op", "p2"});
    p.description = c.str(6, "abc");
    p.type = anyType();
    if (types[p.type].what == Type::None)
      p.type = c.idx(std::size(kinds));
    p.access = c.pick(
        {A::AK_ReadWrite, A::AK_ReadWrite, A::AK_ReadOnly, A::AK_WriteOnly});
    p.view = views[c.idx(4)];
    auto uuid = types[p.type].uuid;
    std::set<std::string> want;
    if (c.chance(1, 16)) {
      uuid = Smp::Uuid{99, 9, 9, 9, 9};
      want.insert("TypeNotRegistered");
    }
    if (c.chance(1, 16)) {
      p.name = c.pick({"", "1", "a b"});
      want.insert("InvalidObjectName");
    }
    if (want.empty())
      want.insert("");
    auto err = outcome([&] {
      publication->PublishProperty(p.name.c_str(), p.description.c_str(), uuid,
                                   p.access, p.view);
    });
    NOTE(c, "property " << p.name << " of type " << p.type << " access "
                        << static_cast<int>(p.access) << " " << err);
    REQUIRE(want.count(err),
            "PublishProperty: " << err << " expected " << *want.begin());
    if (!err.empty())
      return;
    if (auto *old = property(p.name)) {
      c.label("property replaced");
      drop([&](Request const &r) {
        return r.kind != Request::Operation && r.name == p.name;
      });
      *old = p;
    } else
      properties.push_back(p);
  }
  void checkPublished() {
    auto const *ops =
        byComponent ? component.GetOperations() : publication->GetOperations();
    REQUIRE(ops && ops->size() == operations.size(),
            "there are " << ops->size() << " operations instead of "
                         << operations.size());
    for (size_t i = 0; i < operations.size(); ++i) {
      auto const &o = operations[i];
      auto *r = ops->at(i);
      REQUIRE(r && r == ops->at(o.name.c_str()),
              "operation " << o.name << " is not found by name and index");
      REQUIRE(str(r->GetName()) == o.name &&
                  str(r->GetDescription()) == o.description &&
                  r->GetView() == o.view && r->GetParent() == owner,
              "operation " << o.name << " has other attributes");
      auto const *ps = r->GetParameters();
      REQUIRE(ps->size() == o.parameters.size(),
              "operation " << o.name << " has " << ps->size()
                           << " parameters instead of " << o.parameters.size());
      auto same = [&](Smp::IParameter *got, Parameter const &want) {
        REQUIRE(got, "no parameter " << want.name);
        REQUIRE(str(got->GetName()) == want.name &&
                    str(got->GetDescription()) == want.description &&
                    got->GetType() == types[want.type].type &&
                    got->GetDirection() == want.direction &&
                    got->GetParent() == r,
                "parameter " << want.name << " has other attributes");
        REQUIRE(r->GetParameter(want.name.c_str()) == got,
                "GetParameter(" << want.name << ") gives another one");
      };
      for (size_t k = 0; k < o.parameters.size(); ++k)
        same(ps->at(k), o.parameters[k]);
      if (o.result)
        same(r->GetReturnParameter(), *o.result);
      else
        REQUIRE(!r->GetReturnParameter(), "there is a return parameter");
      REQUIRE(!r->GetParameter("nothing") && !r->GetParameter(nullptr),
              "GetParameter gives a parameter that does not exist");
    }
    auto const *props =
        byComponent ? component.GetProperties() : publication->GetProperties();
    REQUIRE(props && props->size() == properties.size(), "properties");
    for (size_t i = 0; i < properties.size(); ++i) {
      auto const &p = properties[i];
      auto *r = props->at(i);
      REQUIRE(r && r == props->at(p.name.c_str()), "property " << p.name);
      REQUIRE(str(r->GetName()) == p.name &&
                  str(r->GetDescription()) == p.description &&
                  r->GetView() == p.view && r->GetParent() == owner &&
                  r->GetAccess() == p.access &&
                  r->GetType() == types[p.type].type,
              "property " << p.name << " has other attributes");
    }
  }

  // ------------------------------------------------------------ requests
  bool invokable(Operation const &o) {
    for (auto const &p : o.parameters)
      if (types[p.type].what == Type::None)
        return false;
    return !o.result || types[o.result->type].what != Type::None;
  }
  void createRequest() {
    Case::Span s(c);
    auto name = c.pick({"op", "run", "get_p", "set_p", "get_q", "set_q",
                        "get_op", "set_op", "p", "Op", "get_", "set_", "get_p2",
                        "get", "", "xget_p"});
    std::string chosen;
    if (!operations.empty() && c.flip()) // most often one that exists
      chosen = operations[c.idx(operations.size())].name;
    else if (!properties.empty() && c.flip())
      chosen = (c.flip() ? "get_" : "set_") +
               properties[c.idx(properties.size())].name;
    if (!chosen.empty())
      name = chosen.c_str();
    bool null = !name[0] && c.flip();
    auto const *n = null ? nullptr : name;
    Smp::IRequest *r = nullptr;
    auto *o = operation(name);
    bool byOperation = o && c.chance(1, 3);
    r = byOperation   ? publication->GetOperations()->at(name)->CreateRequest()
        : byComponent ? component.CreateRequest(n)
                      : publication->CreateRequest(n);
    NOTE(c, "CreateRequest(" << (null ? "null" : name) << ") "
                             << (r ? "" : "none"));
    Request q{r, Request::Operation, name, {}, {}};
    bool want = false;
    if (o) {
      want = invokable(*o);
      if (!want)
        c.label("not invokable");
      q.values.resize(o->parameters.size());
    } else if (std::string(name).substr(0, 4) == "get_" ||
               std::string(name).substr(0, 4) == "set_") {
      bool get = name[0] == 'g';
      if (auto *p = property(name + 4)) {
        want = p->access != (get ? A::AK_WriteOnly : A::AK_ReadOnly);
        q.kind = get ? Request::Get : Request::Set;
        q.name = p->name;
        if (!get)
          q.values.resize(1);
        c.label(!want ? "refused by access" : get ? "getter" : "setter");
      }
    }
    REQUIRE(!!r == want, "CreateRequest(" << name << ") gives "
                                          << (r ? "a request" : "none"));
    if (!r)
      return;
    REQUIRE(str(r->GetOperationName()) == name, "name of the request");
    REQUIRE(r->GetParameterCount() == static_cast<int>(q.values.size()),
            "the request has " << r->GetParameterCount()
                               << " parameters instead of " << q.values.size());
    if (q.kind == Request::Operation) {
      for (size_t i = 0; i < o->parameters.size(); ++i)
        REQUIRE(r->GetParameterIndex(o->parameters[i].name.c_str()) ==
                    static_cast<int>(i),
                "index of " << o->parameters[i].name);
      REQUIRE(r->GetParameterIndex("nothing") == -1 &&
                  r->GetParameterIndex(nullptr) == -1,
              "index of a parameter that does not exist");
    }
    requests.push_back(std::move(q));
    checkRequest(requests.back());
  }
  Type const *typeOf(Request const &r, size_t i) {
    if (r.kind == Request::Operation)
      return &types[operation(r.name)->parameters[i].type];
    return &types[property(r.name)->type];
  }
  Type const *resultOf(Request const &r) { // null: void
    if (r.kind == Request::Operation) {
      auto *o = operation(r.name);
      return o->result ? &types[o->result->type] : nullptr;
    }
    return r.kind == Request::Get ? &types[property(r.name)->type] : nullptr;
  }
  // the request holds what it was given
  void checkRequest(Request const &r) {
    for (size_t i = 0; i < r.values.size(); ++i) {
      auto v = r.request->GetParameterValue(static_cast<int>(i));
      REQUIRE(fx::show(v) == fx::show(r.values[i]),
              "parameter " << i << " is " << fx::show(v) << " instead of "
                           << fx::show(r.values[i]));
    }
    if (resultOf(r)) {
      auto v = r.request->GetReturnValue();
      REQUIRE(fx::show(v) == fx::show(r.result),
              "the return value is " << fx::show(v) << " instead of "
                                     << fx::show(r.result));
    } else {
      auto err = outcome([&] { (void)r.request->GetReturnValue(); });
      REQUIRE(err == "VoidOperation", "return value of void: " << err);
    }
  }
  void setParameter(Request &r) {
    auto n = static_cast<int>(r.values.size());
    auto i = c.chance(1, 8) ? c.pick({-1, n, n + 1, 1 << 30}) : 0;
    if (i == 0 && n)
      i = static_cast<int>(c.idx(static_cast<size_t>(n)));
    if (i < 0 || i >= n) {
      auto err = outcome([&] { r.request->SetParameterValue(i, {}); });
      auto err2 = outcome([&] { (void)r.request->GetParameterValue(i); });
      REQUIRE(err == "InvalidParameterIndex" && err2 == err,
              "index " << i << " of " << n << ": " << err << ", " << err2);
      return;
    }
    auto const &t = *typeOf(r, static_cast<size_t>(i));
    auto v = valueFor(c, t);
    auto err = outcome([&] { r.request->SetParameterValue(i, v); });
    std::string j = judge(t, v);
    std::string want = j == "type"    ? "InvalidAnyType"
                       : j == "value" ? "InvalidParameterValue"
                                      : "";
    NOTE(c,
         r.name << ": parameter " << i << " = " << fx::show(v) << " " << err);
    REQUIRE(err == want, "parameter " << i << " = " << fx::show(v)
                                      << " of type " << t.name << ": " << err
                                      << " expected " << want);
    c.label(want.empty() ? "value accepted" : want.c_str());
    if (want.empty()) {
      r.values[static_cast<size_t>(i)] = v;
      if (t.what != Type::Plain)
        c.nontrivial();
    }
  }
  // what the implementation of an operation does
  void setResult(Request &r) {
    auto const *t = resultOf(r);
    if (!t) {
      auto err = outcome([&] { r.request->SetReturnValue({}); });
      REQUIRE(err == "VoidOperation", "SetReturnValue of void: " << err);
      return;
    }
    auto v = valueFor(c, *t);
    auto err = outcome([&] { r.request->SetReturnValue(v); });
    std::string j = judge(*t, v);
    std::string want = j == "type"    ? "InvalidAnyType"
                       : j == "value" ? "InvalidReturnValue"
                                      : "";
    NOTE(c, r.name << ": result = " << fx::show(v) << " " << err);
    REQUIRE(err == want, "result " << fx::show(v) << " of type " << t->name
                                   << ": " << err << " expected " << want);
    c.label(want.empty() ? "result accepted" : want.c_str());
    if (want.empty())
      r.result = v;
  }
  void invoke() { // through the operation
    if (operations.empty())
      return;
    auto &o = operations[c.idx(operations.size())];
    auto *op = publication->GetOperations()->at(o.name.c_str());
    Request *r = nullptr;
    if (!requests.empty() && !c.chance(1, 10))
      r = &requests[c.idx(requests.size())];
    if (r && c.chance(3, 4)) // its own operation
      for (auto &x : operations)
        if (r->kind == Request::Operation && x.name == r->name)
          op = publication->GetOperations()->at(x.name.c_str());
    std::string opName = op->GetName();
    bool mine = r && std::string(r->request->GetOperationName()) == opName;
    std::string want;
    if (!mine || passive)
      want = "InvalidOperationName";
    else {
      auto const &model = *operation(opName);
      if (r->values.size() != model.parameters.size())
        want = "InvalidParameterCount";
      else if (r->kind == Request::Operation)
        for (size_t i = 0; i < model.parameters.size(); ++i)
          if (model.parameters[i].direction != D::PDK_Out &&
              r->values[i].type != types[model.parameters[i].type].kind)
            want = "InvalidParameterType";
    }
    if (mine && r->kind != Request::Operation)
      return; // a property request and an operation of the same name
    // what the component does with it
    component.invoked.clear();
    auto behave = c.weighted({3, 3, 1});
    component.handler = [&](Smp::IRequest *q) {
      REQUIRE(q == r->request, "the component gets another request");
      if (behave == 1) {
        setResult(*r);
        for (unsigned i = 0; i < 2 && !r->values.empty(); ++i)
          setParameter(*r); // an output parameter
      } else if (behave == 2)
        throw 42;
    };
    auto err = outcome([&] { op->Invoke(r ? r->request : nullptr); });
    component.handler = {};
    if (want.empty() && behave == 2)
      want = "int 42";
    NOTE(c, "Invoke " << opName << " with " << (r ? r->name : "null") << " "
                      << err);
    REQUIRE(err == want, "Invoke " << opName << " with "
                                   << (r ? r->name : "null") << ": " << err
                                   << " expected " << want);
    bool reached = want.empty() || want == "int 42";
    REQUIRE(component.invoked.size() == (reached ? 1U : 0U),
            "the component was invoked " << component.invoked.size()
                                         << " times");
    c.label(reached ? "invoked" : want.c_str());
    if (reached && r->values.size() > 1)
      c.nontrivial();
  }
  void useProperty() {
    if (properties.empty())
      return;
    auto &p = properties[c.idx(properties.size())];
    auto *r = publication->GetProperties()->at(p.name.c_str());
    auto const &t = types[p.type];
    component.invoked.clear();
    auto v = valueFor(c, t);
    std::string j = judge(t, v);
    if (c.flip()) {
      Smp::AnySimple got;
      component.handler = [&](Smp::IRequest *q) {
        REQUIRE(str(q->GetOperationName()) == "get_" + p.name,
                "getter named " << q->GetOperationName());
        REQUIRE(q->GetParameterCount() == 0, "parameters of a getter");
        q->SetReturnValue(v);
      };
      auto err = outcome([&] { got = r->GetValue(); });
      component.handler = {};
      std::string want = passive || p.access == A::AK_WriteOnly
                             ? "InvalidAccessKind"
                         : j == "type"  ? "InvalidAnyType"
                         : j == "value" ? "InvalidReturnValue"
                                        : "";
      NOTE(c, "get " << p.name << " (" << fx::show(v) << ") " << err);
      REQUIRE(err == want,
              "GetValue of " << p.name << ": " << err << " expected " << want);
      REQUIRE(component.invoked.size() ==
                  (passive || p.access == A::AK_WriteOnly ? 0U : 1U),
              "the component was invoked " << component.invoked.size()
                                           << " times");
      if (want.empty())
        REQUIRE(fx::show(got) == fx::show(v),
                "GetValue gives " << fx::show(got) << " instead of "
                                  << fx::show(v));
      c.label(want.empty() ? "property read" : "property read refused");
    } else {
      Smp::AnySimple got;
      component.handler = [&](Smp::IRequest *q) {
        REQUIRE(str(q->GetOperationName()) == "set_" + p.name,
                "setter named " << q->GetOperationName());
        REQUIRE(q->GetParameterCount() == 1, "parameters of a setter");
        REQUIRE(q->GetParameterIndex(p.name.c_str()) == 0, "its index");
        got = q->GetParameterValue(0);
      };
      auto err = outcome([&] { r->SetValue(v); });
      component.handler = {};
      std::string want = passive || p.access == A::AK_ReadOnly
                             ? "InvalidAccessKind"
                         : j == "type"  ? "InvalidAnyType"
                         : j == "value" ? "InvalidParameterValue"
                                        : "";
      NOTE(c, "set " << p.name << " (" << fx::show(v) << ") " << err);
      REQUIRE(err == want,
              "SetValue of " << p.name << ": " << err << " expected " << want);
      REQUIRE(component.invoked.size() == (want.empty() ? 1U : 0U),
              "the component was invoked " << component.invoked.size()
                                           << " times");
      if (want.empty())
        REQUIRE(fx::show(got) == fx::show(v),
                "SetValue gives " << fx::show(got) << " instead of "
                                  << fx::show(v));
      c.label(want.empty() ? "property written" : "property write refused");
    }
  }
  void run() {
    byComponent = !passive && c.flip();
    for (auto n = c.range(1, 6); n--;)
      addType();
    for (auto n = c.range(1, 3); n--;)
      publishOperation();
    for (auto n = c.range(0, 3); n--;)
      publishProperty();
    while (c.more(40)) {
      Case::Span s(c);
      switch (c.weighted({3, 6, 3, 6, 15, 24, 6, 15, 12, 3, 1})) {
      case 0:
        addType();
        break;
      case 1:
        publishOperation();
        break;
      case 2:
        if (!operations.empty())
          publishParameter(operations[c.idx(operations.size())]);
        break;
      case 3:
        publishProperty();
        break;
      case 4:
        if (requests.size() < 12)
          createRequest();
        break;
      case 5:
        if (!requests.empty())
          setParameter(requests[c.idx(requests.size())]);
        break;
      case 6:
        if (!requests.empty())
          setResult(requests[c.idx(requests.size())]);
        break;
      case 7:
        invoke();
        break;
      case 8:
        useProperty();
        break;
      case 10:
        NOTE(c, "Unpublish");
        drop([](Request const &) { return true; });
        publication->Unpublish();
        operations.clear();
        properties.clear();
        checkPublished();
        break;
      default:
        if (!requests.empty()) {
          auto i = c.idx(requests.size());
          NOTE(c, "DeleteRequest " << requests[i].name);
          remove(requests[i].request);
          requests.erase(requests.begin() + static_cast<long>(i));
        } else
          remove(nullptr);
      }
      for (auto const &r : requests)
        checkRequest(r);
    }
    checkPublished();
  }
};
void histories(Case &c) {
  World w(c);
  w.run();
}

// --- structured values through the parameters of a request
namespace T = Xsmp::Tests::Types;
template <class X> constexpr K kindOf() {
  if constexpr (std::is_same_v<X, bool>)
    return K::PTK_Bool;
  else if constexpr (std::is_same_v<X, Smp::Char8>)
    return K::PTK_Char8;
  else if constexpr (std::is_same_v<X, Smp::Float32>)
    return K::PTK_Float32;
  else if constexpr (std::is_same_v<X, Smp::Float64>)
    return K::PTK_Float64;
  else if constexpr (std::is_enum_v<X>)
    return K::PTK_Int32;
  else if constexpr (std::is_signed_v<X>)
    return sizeof(X) == 1   ? K::PTK_Int8
           : sizeof(X) == 2 ? K::PTK_Int16
           : sizeof(X) == 4 ? K::PTK_Int32
                            : K::PTK_Int64;
  else
    return sizeof(X) == 1   ? K::PTK_UInt8
           : sizeof(X) == 2 ? K::PTK_UInt16
           : sizeof(X) == 4 ? K::PTK_UInt32
                            : K::PTK_UInt64;
}
// visit the simple items of a value: f(name, item)
template <class X, class F>
std::enable_if_t<std::is_arithmetic_v<X> || std::is_enum_v<X>>
leaves(X &v, std::string const &n, F &f) {
  f(n, v);
}
template <size_t N, class F>
void leaves(Xsmp::String<N> &v, std::string const &n, F &f) {
  f(n, v);
}
template <class X, size_t N, class... O, class F>
void leaves(Xsmp::Array<X, N, O...> &v, std::string const &n, F &f) {
  for (size_t i = 0; i < N; ++i)
    leaves(v[i], n + "[" + std::to_string(i) + "]", f);
}
template <class F> void leaves(T::Vector &v, std::string const &n, F &f) {
  leaves(v.x, n + ".x", f);
  leaves(v.y, n + ".y", f);
  leaves(v.z, n + ".z", f);
}
template <class F>
void leaves(T::SimpleStructure &v, std::string const &n, F &f) {
  leaves(v.boolean, n + ".boolean", f);
  leaves(v.char8, n + ".char8", f);
  leaves(v.enum1, n + ".enum1", f);
  leaves(v.string1, n + ".string1", f);
  leaves(v.float1, n + ".float1", f);
  leaves(v.integer1, n + ".integer1", f);
}
template <class X> Smp::AnySimple any(X const &v) {
  Smp::AnySimple a;
  if constexpr (std::is_enum_v<X>)
    a.SetValue(K::PTK_Int32, static_cast<Smp::Int32>(v));
  else if constexpr (std::is_arithmetic_v<X>)
    a.SetValue(kindOf<X>(), v);
  else
    a.SetValue(K::PTK_String8, v.c_str());
  return a;
}
struct Randomly {
  Case &c;
  bool good = true; // do the limits of the types hold?
  template <class X> void operator()(std::string const &n, X &v) {
    if constexpr (std::is_same_v<X, bool>)
      v = c.flip();
    else if constexpr (std::is_enum_v<X>) {
      if (c.chance(1, 20)) {
        v = static_cast<X>(c.range(3, 9));
        good = false;
      } else
        v = c.pick({T::Enum1::L1, T::Enum1::L2, T::Enum1::L3});
    } else if constexpr (std::is_floating_point_v<X>) {
      v = c.floating<X>(false);
      if (v != v)
        v = 1;
      if (n.size() > 6 && n.substr(n.size() - 6) == "float1") {
        v = std::abs(v);
        if (!(v >= std::numeric_limits<X>::min() &&
              v <= std::numeric_limits<X>::max()))
          v = static_cast<X>(0.5);
        if (c.chance(1, 20)) {
          v = -v;
          good = false;
        }
      }
    } else if constexpr (std::is_integral_v<X>)
      v = c.integer<X>();
    else
      v = c.str(10, "abcxyz").c_str();
  }
};
// a request that has some parameters only
struct SomeRequest : public Smp::IRequest {
  std::vector<std::pair<std::string, Smp::AnySimple>> values;
  Smp::AnySimple result;
  Smp::String8 GetOperationName() const override { return "some"; }
  Smp::Int32 GetParameterCount() const override {
    return static_cast<Smp::Int32>(values.size());
  }
  Smp::Int32 GetParameterIndex(Smp::String8 n) const override {
    for (size_t i = 0; i < values.size(); ++i)
      if (values[i].first == n)
        return static_cast<Smp::Int32>(i);
    return -1;
  }
  void SetParameterValue(Smp::Int32 i, Smp::AnySimple v) override {
    values.at(static_cast<size_t>(i)).second = v;
  }
  Smp::AnySimple GetParameterValue(Smp::Int32 i) const override {
    return values.at(static_cast<size_t>(i)).second;
  }
  void SetReturnValue(Smp::AnySimple v) override { result = v; }
  Smp::AnySimple GetReturnValue() const override { return result; }
};
struct Owner : public Component {
  using Component::Component;
  Xsmp::Publication::TypeRegistry *types = nullptr;
  Owner *GetSimulator() { return this; }
  Xsmp::Publication::TypeRegistry *GetTypeRegistry() { return types; }
};
template <class X> void structuredAs(Case &c, Smp::Uuid uuid) {
  Owner o{"owner"};
  Xsmp::Publication::TypeRegistry registry{&o};
  o.types = &registry;
  fx::registerTypes(&registry);
  Xsmp::Publication::Publication publication{&o, &registry};
  o.Publish(&publication);
  auto *op = publication.PublishOperation("op", "", views[0]);
  const std::string names[] = {"a", "b", "ab"};
  auto n = static_cast<size_t>(c.range(1, 3));
  auto simple = c.idx(n + 1); // a simple parameter among them
  for (size_t i = 0; i < n; ++i) {
    if (i == simple)
      op->PublishParameter("s", "", Smp::Uuids::Uuid_Int16, D::PDK_In);
    op->PublishParameter(names[i].c_str(), "", uuid, D::PDK_InOut);
  }
  Xsmp::Publication::Request full(publication.GetOperations()->at("op"),
                                  &registry);
  // the parameters are the items in their order
  std::vector<std::string> expected;
  for (size_t i = 0; i < n; ++i) {
    if (i == simple)
      expected.push_back("s");
    X v{};
    auto collect = [&](std::string const &l, auto const &) {
      expected.push_back(l);
    };
    leaves(v, names[i], collect);
  }
  REQUIRE(full.GetParameterCount() == static_cast<int>(expected.size()),
          "the request has " << full.GetParameterCount()
                             << " parameters instead of " << expected.size());
  for (size_t i = 0; i < expected.size(); ++i)
    REQUIRE(full.GetParameterIndex(expected[i].c_str()) == static_cast<int>(i),
            "index of " << expected[i] << ": "
                        << full.GetParameterIndex(expected[i].c_str()));
  REQUIRE(full.GetParameterIndex("a[99]") == -1, "an index of an item outside");

  std::map<std::string, Smp::AnySimple> held;
  while (c.more(6)) {
    Case::Span span(c);
    auto const &name = names[c.idx(n)];
    X v{};
    Randomly r{c};
    leaves(v, name, r);
    NOTE(c, "set " << name << (r.good ? "" : " out of the limits"));
    auto err = outcome(
        [&] { Xsmp::Request::set<X>(&o, &full, name.c_str(), uuid, v); });
    REQUIRE(err == (r.good ? "" : "InvalidParameterValue"),
            "set " << name << ": " << err);
    if (!r.good) { // some are set: set them again
      c.label("out of the limits");
      continue;
    }
    auto remember = [&](std::string const &l, auto const &x) {
      held[l] = any(x);
    };
    leaves(v, name, remember);
    for (size_t i = 0; i < expected.size(); ++i) {
      auto it = held.find(expected[i]);
      auto got = fx::show(full.GetParameterValue(static_cast<int>(i)));
      if (expected[i].substr(0, name.size() + 1) == name + "." ||
          expected[i].substr(0, name.size() + 1) == name + "[")
        REQUIRE(it != held.end() && got == fx::show(it->second),
                expected[i] << " is " << got << " after set");
    }
    auto back = Xsmp::Request::get<X>(&o, &full, name.c_str(), uuid);
    auto compare = [&](std::string const &l, auto const &x) {
      REQUIRE(fx::show(any(x)) == fx::show(held[l]),
              l << " is read as " << fx::show(any(x)) << " instead of "
                << fx::show(held[l]));
    };
    leaves(back, name, compare);
    c.label("round trip");
    c.nontrivial();
  }
  // a request that has some of the parameters
  X given{}, byDefault{};
  {
    Randomly r{c}, r2{c};
    leaves(given, "p", r);
    leaves(byDefault, "p", r2);
  }
  SomeRequest some;
  bool all = true;
  auto mode = c.idx(4);
  auto offer = [&](std::string const &l, auto const &x) {
    if (mode == 0 || (mode != 1 && c.chance(3, 4)))
      some.values.emplace_back(l, any(x));
    else
      all = false;
  };
  leaves(given, "p", offer);
  if (c.flip())
    std::reverse(some.values.begin(), some.values.end());
  if (c.flip())
    some.values.emplace_back("p", Smp::AnySimple{}); // no item of it
  c.label(all ? "all given" : some.values.size() < 2 ? "none" : "some given");
  auto before = some.values.size();
  X got{};
  auto err = outcome(
      [&] { got = Xsmp::Request::get<X>(&o, &some, "p", uuid, byDefault); });
  REQUIRE(err.empty(), "get with a default: " << err);
  std::map<std::string, std::string> want;
  auto fromDefault = [&](std::string const &l, auto const &x) {
    auto i = some.GetParameterIndex(l.c_str());
    want[l] = fx::show(i == -1 ? any(x) : some.GetParameterValue(i));
  };
  leaves(byDefault, "p", fromDefault);
  auto check = [&](std::string const &l, auto const &x) {
    REQUIRE(fx::show(any(x)) == want[l], l << " is read as " << fx::show(any(x))
                                           << " instead of " << want[l]);
  };
  leaves(got, "p", check);
  bool threw = false;
  try {
    got = Xsmp::Request::get<X>(&o, &some, "p", uuid);
  } catch (const Smp::Exception &) {
    threw = true;
  }
  REQUIRE(threw == !all,
          "get without default " << (threw ? "throws" : "does not throw"));
  if (all)
    leaves(got, "p", check);
  threw = false;
  try {
    Xsmp::Request::set<X>(&o, &some, "p", uuid, byDefault);
  } catch (const Smp::Exception &) {
    threw = true;
  }
  REQUIRE(threw == !all, "set " << (threw ? "throws" : "does not throw"));
  REQUIRE(some.values.size() == before, "parameters appear");
}
// one simple value
template <class X> void simpleAs(Case &c, K kind) {
  Owner o{"owner"};
  SomeRequest r;
  X v{}, d{};
  Randomly rnd{c};
  rnd("v", v);
  rnd("d", d);
  r.values.emplace_back("x", Smp::AnySimple{});
  r.values.emplace_back("v", Smp::AnySimple{});
  if (c.flip())
    std::swap(r.values[0], r.values[1]);
  auto stored = any(v);
  if (stored.type != kind) // Duration, DateTime
    stored.type = kind;
  auto err = outcome([&] { Xsmp::Request::set<X>(&o, &r, "v", kind, v); });
  REQUIRE(err.empty(), "set: " << err);
  REQUIRE(
      fx::show(r.GetParameterValue(r.GetParameterIndex("v"))) ==
          fx::show(stored),
      "set stores " << fx::show(r.GetParameterValue(r.GetParameterIndex("v"))));
  REQUIRE(fx::show(r.GetParameterValue(r.GetParameterIndex("x"))) ==
              fx::show(Smp::AnySimple{}),
          "another parameter is set");
  auto same = [](X const &a, X const &b) {
    return fx::show(any(a)) == fx::show(any(b));
  };
  REQUIRE(same(Xsmp::Request::get<X>(&o, &r, "v", kind), v), "get");
  REQUIRE(same(Xsmp::Request::get<X>(&o, &r, "v", kind, d), v),
          "get with a default of a given parameter");
  REQUIRE(same(Xsmp::Request::get<X>(&o, &r, "none", kind, d), d),
          "get with a default");
  Xsmp::Request::setReturnValue<X>(&r, kind, v);
  REQUIRE(fx::show(r.result) == fx::show(stored), "setReturnValue");
  // another kind, or no value
  Smp::AnySimple other;
  if (c.flip())
    other = fx::value(kinds[c.idx(std::size(kinds))], c.u(~0ull));
  r.SetParameterValue(r.GetParameterIndex("v"), other);
  std::string want = other.type == kind ? "" : "InvalidParameterType";
  err = outcome([&] { (void)Xsmp::Request::get<X>(&o, &r, "v", kind); });
  if (kind == K::PTK_String8 || !want.empty() || !std::is_enum_v<X>)
    REQUIRE(err == want, "get of another kind: " << err);
  err = outcome([&] { (void)Xsmp::Request::get<X>(&o, &r, "v", kind, d); });
  REQUIRE(err == want, "get of another kind with a default: " << err);
  bool threw = false;
  try {
    if (c.flip())
      (void)Xsmp::Request::get<X>(&o, &r, "none", kind);
    else
      Xsmp::Request::set<X>(&o, &r, "none", kind, v);
  } catch (const Smp::Exception &) {
    threw = true;
  }
  REQUIRE(threw, "a parameter that does not exist is used");
  REQUIRE(r.values.size() == 2, "parameters appear");
  c.label("simple");
  c.nontrivial();
}
void structured(Case &c) {
  switch (c.idx(26)) {
  case 0:
    return structuredAs<T::Vector>(c, T::Uuid_Vector);
  case 1:
    return structuredAs<T::VectorArray>(c, T::Uuid_VectorArray);
  case 2:
    return structuredAs<T::VectorMatrix>(c, T::Uuid_VectorMatrix);
  case 3:
    return structuredAs<T::Int32Matrix>(c, T::Uuid_Int32Matrix);
  case 4:
    return structuredAs<T::SimpleInt8Matrix>(c, T::Uuid_SimpleInt8Matrix);
  case 5:
    return structuredAs<T::SimpleString1Array>(c, T::Uuid_SimpleString1Array);
  case 6:
    return structuredAs<T::String1Array>(c, T::Uuid_String1Array);
  case 7:
    return structuredAs<T::SimpleStructure>(c, T::Uuid_SimpleStructure);
  case 8:
    return structuredAs<T::BoolArray>(c, T::Uuid_BoolArray);
  case 9:
    return structuredAs<T::SimpleEnum1Array>(c, T::Uuid_SimpleEnum1Array);
  case 10:
    return structuredAs<T::Enum1Array>(c, T::Uuid_Enum1Array);
  case 11:
    return structuredAs<T::SimpleFloat32Array>(c, T::Uuid_SimpleFloat32Array);
  case 12:
    return structuredAs<T::UInt64Array>(c, T::Uuid_UInt64Array);
  case 13:
    return simpleAs<bool>(c, K::PTK_Bool);
  case 14:
    return simpleAs<Smp::Char8>(c, K::PTK_Char8);
  case 15:
    return simpleAs<Smp::Int8>(c, K::PTK_Int8);
  case 16:
    return simpleAs<Smp::UInt8>(c, K::PTK_UInt8);
  case 17:
    return simpleAs<Smp::Int16>(c, K::PTK_Int16);
  case 18:
    return simpleAs<Smp::UInt32>(c, K::PTK_UInt32);
  case 19:
    return simpleAs<Smp::Int64>(c, K::PTK_Int64);
  case 20:
    return simpleAs<Smp::UInt64>(c, K::PTK_UInt64);
  case 21:
    return simpleAs<Smp::Float32>(c, K::PTK_Float32);
  case 22:
    return simpleAs<Smp::Float64>(c, K::PTK_Float64);
  case 23:
    return simpleAs<Smp::Duration>(c, K::PTK_Duration);
  case 24:
    return simpleAs<T::Enum1>(c, K::PTK_Int32);
  default:
    return simpleAs<T::String1>(c, K::PTK_String8);
  }
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C28";
  s.rule = "a value was accepted by a type with limits, an operation with two "
           "parameters or more was invoked, or a value went through a request "
           "and back";
  s.subs = {{"histories", histories, 20000, 250000},
            {"structured", structured, 8000, 100000}};
  s.assumptions = {"no NaN is given to a bounded float type",
                   "requests are deleted before their operation or property "
                   "is published again"};
  return s;
}
