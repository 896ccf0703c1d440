//! sources: full src-gen/Xsmp/Tests/Types/*.cpp
// C30: an exception says what happened: who, which name, which values.
#include "fx_fields.h"
#include "fx_model.h"
#include "fx_sim.h"
#include <Smp/CannotDelete.h>
#include <Smp/CannotRemove.h>
#include <Smp/CannotRestore.h>
#include <Smp/CannotStore.h>
#include <Smp/ContainerFull.h>
#include <Smp/DuplicateName.h>
#include <Smp/DuplicateUuid.h>
#include <Smp/EventSinkAlreadySubscribed.h>
#include <Smp/EventSinkNotSubscribed.h>
#include <Smp/FieldAlreadyConnected.h>
#include <Smp/IOperation.h>
#include <Smp/IParameter.h>
#include <Smp/IRequest.h>
#include <Smp/InvalidAnyType.h>
#include <Smp/InvalidArrayIndex.h>
#include <Smp/InvalidArraySize.h>
#include <Smp/InvalidArrayValue.h>
#include <Smp/InvalidComponentState.h>
#include <Smp/InvalidEventSink.h>
#include <Smp/InvalidFieldName.h>
#include <Smp/InvalidFieldType.h>
#include <Smp/InvalidFieldValue.h>
#include <Smp/InvalidLibrary.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/InvalidObjectType.h>
#include <Smp/InvalidOperationName.h>
#include <Smp/InvalidParameterCount.h>
#include <Smp/InvalidParameterIndex.h>
#include <Smp/InvalidParameterType.h>
#include <Smp/InvalidParameterValue.h>
#include <Smp/InvalidReturnValue.h>
#include <Smp/InvalidSimulatorState.h>
#include <Smp/InvalidTarget.h>
#include <Smp/LibraryNotFound.h>
#include <Smp/NotContained.h>
#include <Smp/NotReferenced.h>
#include <Smp/Publication/DuplicateLiteral.h>
#include <Smp/Publication/IEnumerationType.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Publication/InvalidPrimitiveType.h>
#include <Smp/Publication/TypeAlreadyRegistered.h>
#include <Smp/Publication/TypeNotRegistered.h>
#include <Smp/ReferenceFull.h>
#include <Smp/Services/EntryPointAlreadySubscribed.h>
#include <Smp/Services/EntryPointNotSubscribed.h>
#include <Smp/Services/InvalidCycleTime.h>
#include <Smp/Services/InvalidEventId.h>
#include <Smp/Services/InvalidEventName.h>
#include <Smp/Services/InvalidEventTime.h>
#include <Smp/Services/InvalidSimulationTime.h>
#include <Smp/VoidOperation.h>
#include <Xsmp/Duration.h>
#include <Xsmp/Exception.h>
#include <Xsmp/Factory.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Publication/Request.h>
#include <Xsmp/Request.h>
#include <cstring>
#include <exception>
#include <functional>
#include <memory>
#include <sstream>

using fx::Node;
using fx::outcome;
using fx::str;
using pbt::Case;
using K = Smp::PrimitiveTypeKind;
namespace X = Xsmp::Exception;
namespace T = fx::T;

namespace {
/// any value of a kind; dates and durations within what can be printed (C12)
Smp::AnySimple anyValue(pbt::Case &c, Smp::PrimitiveTypeKind k) {
  auto raw = c.u(~0ull);
  if (k == Smp::PrimitiveTypeKind::PTK_DateTime ||
      k == Smp::PrimitiveTypeKind::PTK_Duration)
    raw = static_cast<uint64_t>(static_cast<int64_t>(raw) / 16);
  return fx::value(k, raw);
}

const K kinds[] = {
    K::PTK_Bool,     K::PTK_Char8,    K::PTK_Int8,    K::PTK_UInt8,
    K::PTK_Int16,    K::PTK_UInt16,   K::PTK_Int32,   K::PTK_UInt32,
    K::PTK_Int64,    K::PTK_UInt64,   K::PTK_Float32, K::PTK_Float64,
    K::PTK_Duration, K::PTK_DateTime, K::PTK_String8, K::PTK_None};
constexpr auto none = Smp::ViewKind::VK_None;

// texts that are gone when the exception is examined
struct Texts {
  std::vector<std::unique_ptr<char[]>> all;
  // what the exception shall give: the text, or <null>
  Smp::String8 make(std::string const &s) {
    all.push_back(std::make_unique<char[]>(s.size() + 1));
    std::memcpy(all.back().get(), s.c_str(), s.size() + 1);
    return all.back().get();
  }
  Smp::String8 draw(Case &c, std::string &expected, bool nullable = true) {
    if (nullable && c.chance(1, 8)) {
      expected = "<null>";
      return nullptr;
    }
    expected = c.str(c.flip() ? 8 : 60, "abcXYZ 0_[]./%<>\n");
    return make(expected);
  }
};

std::exception_ptr thrownBy(std::function<void()> const &f,
                            int line = __builtin_LINE()) {
  try {
    f();
  } catch (const pbt::Fail &) {
    throw;
  } catch (const pbt::Discard &) {
    throw;
  } catch (...) {
    return std::current_exception();
  }
  FAILURE("nothing is thrown by the call of line " << line);
}
std::string path(const Smp::IObject *o) { return Xsmp::Helper::GetPath(o); }
template <class V> std::string printed(V const &v) {
  std::ostringstream os;
  os << v;
  return os.str();
}
// the exception has the type, is complete and mentions what it is about
template <class E>
void expect(Case &c, std::exception_ptr p, const Smp::IObject *sender,
            std::string const &name, std::vector<std::string> const &mentions,
            std::function<void(E const &)> const &getters) {
  c.label(name);
  try {
    std::rethrow_exception(p);
  } catch (const E &e) {
    const Smp::Exception &base = e;
    REQUIRE(str(base.GetName()) == name,
            "the name is " << str(base.GetName()) << " instead of " << name);
    REQUIRE(base.GetSender() == sender, name << ": another sender");
    REQUIRE(base.GetDescription() && base.GetMessage() && base.what(),
            name << ": null texts");
    std::string message = base.GetMessage();
    NOTE(c, name << ": " << message);
    REQUIRE(!std::string(base.GetDescription()).empty(),
            name << ": no description");
    REQUIRE(std::string(base.what()) ==
                name + "(" + base.GetDescription() + "): " + message,
            name << ": what() is " << base.what());
    for (auto const &m : mentions)
      REQUIRE(message.find(m) != std::string::npos,
              name << ": \"" << message << "\" does not mention " << m);
    REQUIRE(dynamic_cast<const std::exception *>(&base),
            name << ": not a std::exception");
    if (getters)
      getters(e);
    // the sender is alive
    for (const Smp::IObject *o = base.GetSender(); o; o = o->GetParent())
      REQUIRE(o->GetName(), "an unnamed sender");
    return;
  } catch (const pbt::Fail &) {
    throw;
  } catch (const pbt::Discard &) {
    throw;
  } catch (const Smp::Exception &e) {
    FAILURE("the exception is " << str(e.GetName()) << " ("
                                << str(e.GetMessage()) << ") and not of type "
                                << name);
  } catch (const std::exception &e) {
    FAILURE("the exception is " << e.what());
  }
  FAILURE("not an Smp exception");
}

std::string objectName(Case &c) {
  static const std::string first = "abcXYZ";
  std::string s(1, first[c.idx(first.size())]);
  return s + c.str(6, "abcXYZ019_");
}
struct Objects { // a branch of objects, from the root to the leaf
  std::vector<std::unique_ptr<Xsmp::Object>> all;
  Objects(Case &c) {
    for (auto n = c.range(1, 4); n--;) {
      auto name = objectName(c);
      all.push_back(std::make_unique<Xsmp::Object>(
          name.c_str(), "", all.empty() ? nullptr : all.back().get()));
    }
  }
  const Smp::IObject *pick(Case &c, bool nullable = true) {
    if (nullable && c.chance(1, 6))
      return nullptr;
    return all[c.idx(all.size())].get();
  }
};
struct Sim : Smp::IObject {}; // only for its type

Smp::Uuid uuid(Case &c) {
  Smp::Uuid u;
  u.Data1 = static_cast<Smp::UInt32>(c.u(0xffffffff));
  u.Data2[0] = static_cast<Smp::UInt16>(c.u(0xffff));
  u.Data2[1] = static_cast<Smp::UInt16>(c.u(0xffff));
  u.Data2[2] = static_cast<Smp::UInt16>(c.u(0xffff));
  for (auto &b : u.Data3)
    b = static_cast<Smp::UInt8>(c.u(0xff));
  return u;
}
K kind(Case &c) { return kinds[c.idx(16)]; }
K otherKind(Case &c, K k) {
  K o;
  do
    o = kind(c);
  while (o == k);
  return o;
}

// --- what is given to an exception is what it reports
void carried(Case &c) {
  Objects objects(c);
  Texts texts;
  auto *sender = objects.pick(c);
  std::string a, b;
  auto gone = [&](std::function<void()> const &f) {
    auto p = thrownBy(f);
    for (auto &t : texts.all)
      std::memset(t.get(), 'X', std::strlen(t.get()));
    texts.all.clear();
    return p;
  };
  c.nontrivial();
  switch (c.idx(24)) {
  case 0: {
    auto *s = texts.draw(c, a, false);
    expect<Smp::CannotStore>(c, gone([&] { X::throwCannotStore(sender, s); }),
                             sender, "CannotStore", {a}, nullptr);
    break;
  }
  case 1: {
    auto *s = texts.draw(c, a, false);
    expect<Smp::CannotRestore>(c,
                               gone([&] { X::throwCannotRestore(sender, s); }),
                               sender, "CannotRestore", {a}, nullptr);
    break;
  }
  case 2: {
    auto *s = texts.draw(c, a);
    auto *t = texts.draw(c, b, false);
    expect<Smp::InvalidObjectName>(
        c, gone([&] { X::throwInvalidObjectName(sender, s, t); }), sender,
        "InvalidObjectName", {a, b}, [&](auto &e) {
          REQUIRE(str(e.GetInvalidName()) == a,
                  "invalid name " << str(e.GetInvalidName()));
        });
    break;
  }
  case 3: {
    auto *s = texts.draw(c, a);
    auto *o = objects.pick(c);
    expect<Smp::DuplicateName>(
        c, gone([&] { X::throwDuplicateName(sender, s, o); }), sender,
        "DuplicateName", {a, path(o)}, [&](auto &e) {
          REQUIRE(str(e.GetDuplicateName()) == a,
                  "duplicate name " << str(e.GetDuplicateName()));
        });
    break;
  }
  case 4: {
    Node n(objectName(c), 0);
    auto got = static_cast<Smp::ComponentStateKind>(c.u(4));
    auto want = static_cast<Smp::ComponentStateKind>(c.u(4));
    expect<Smp::InvalidComponentState>(
        c, gone([&] { X::throwInvalidComponentState(&n, got, want); }), &n,
        "InvalidComponentState", {path(&n), printed(got), printed(want)},
        [&](auto &e) {
          REQUIRE(e.GetInvalidState() == got && e.GetExpectedState() == want,
                  "states " << printed(e.GetInvalidState()) << " "
                            << printed(e.GetExpectedState()));
        });
    break;
  }
  case 5: {
    Node n(objectName(c), 0);
    bool to = c.flip();
    expect<Smp::InvalidObjectType>(
        c, gone([&] {
          if (to)
            X::throwInvalidObjectType<fx::Special>(sender, &n);
          else
            X::throwInvalidObjectType(sender, &n, typeid(Smp::IEventSink));
        }),
        sender, "InvalidObjectType",
        {path(&n), "fx::Node", to ? "fx::Special" : "Smp::IEventSink"},
        [&](auto &e) {
          REQUIRE(e.GetInvalidObject() == &n, "another object");
        });
    break;
  }
  case 6:
  case 7:
  case 8: {
    Xsmp::EventSource<Smp::Int32> source{"source", "", objects.all[0].get(),
                                         K::PTK_Int32};
    Xsmp::EventSink<> sink{"sink", "", objects.all.back().get(),
                           [](Smp::IObject *) {}};
    std::vector<std::string> m{path(&source), path(&sink)};
    auto check = [&](auto &e) {
      REQUIRE(e.GetEventSource() == &source && e.GetEventSink() == &sink,
              "another source or sink");
    };
    switch (c.idx(3)) {
    case 0:
      expect<Smp::InvalidEventSink>(
          c, gone([&] { X::throwInvalidEventSink(sender, &source, &sink); }),
          sender, "InvalidEventSink", m, check);
      break;
    case 1:
      expect<Smp::EventSinkAlreadySubscribed>(
          c, gone([&] {
            X::throwEventSinkAlreadySubscribed(sender, &source, &sink);
          }),
          sender, "EventSinkAlreadySubscribed", m, check);
      break;
    default:
      expect<Smp::EventSinkNotSubscribed>(
          c,
          gone([&] { X::throwEventSinkNotSubscribed(sender, &source, &sink); }),
          sender, "EventSinkNotSubscribed", m, check);
    }
    break;
  }
  case 9: {
    auto *s = texts.draw(c, a);
    expect<Smp::InvalidOperationName>(
        c, gone([&] { X::throwInvalidOperationName(sender, s); }), sender,
        "InvalidOperationName", {a}, [&](auto &e) {
          REQUIRE(str(e.GetOperationName()) == a,
                  "operation " << str(e.GetOperationName()));
        });
    break;
  }
  case 10: {
    auto *s = texts.draw(c, a, false);
    auto *t = texts.draw(c, b, false);
    auto k1 = kind(c), k2 = kind(c);
    expect<Smp::InvalidParameterType>(
        c, gone([&] { X::throwInvalidParameterType(sender, s, t, k1, k2); }),
        sender, "InvalidParameterType", {a, b, printed(k1), printed(k2)},
        [&](auto &e) {
          REQUIRE(str(e.GetOperationName()) == a &&
                      str(e.GetParameterName()) == b,
                  "names " << str(e.GetOperationName()) << " "
                           << str(e.GetParameterName()));
          REQUIRE(e.GetInvalidType() == k1 && e.GetExpectedType() == k2,
                  "types " << e.GetInvalidType() << " " << e.GetExpectedType());
        });
    break;
  }
  case 11: {
    auto size = c.integer<Smp::Int64>(), index = c.integer<Smp::Int64>();
    expect<Smp::InvalidArrayIndex>(
        c, gone([&] {
          X::throwInvalidArrayIndex(sender, static_cast<Smp::UInt64>(size),
                                    static_cast<Smp::UInt64>(index));
        }),
        sender, "InvalidArrayIndex",
        {std::to_string(size), std::to_string(index), path(sender)},
        [&](auto &e) {
          REQUIRE(e.GetArraySize() == size && e.GetInvalidIndex() == index,
                  "size " << e.GetArraySize() << " index "
                          << e.GetInvalidIndex());
        });
    break;
  }
  case 12: {
    auto *s = texts.draw(c, a);
    expect<Smp::Services::InvalidEventName>(
        c, gone([&] { X::throwInvalidEventName(sender, s); }), sender,
        "InvalidEventName", {a}, nullptr);
    break;
  }
  case 13: {
    auto id = c.integer<Smp::Int64>();
    expect<Smp::Services::InvalidEventId>(
        c, gone([&] { X::throwInvalidEventId(sender, id); }), sender,
        "InvalidEventId", {std::to_string(id)}, [&](auto &e) {
          REQUIRE(e.GetInvalidEventId() == id, "id " << e.GetInvalidEventId());
        });
    break;
  }
  case 14: {
    // the smallest duration has no opposite: it cannot be printed (C12)
    auto time = [&] {
      return std::max(c.integer<Smp::Int64>(),
                      -std::numeric_limits<Smp::Int64>::max());
    };
    Smp::Int64 t1 = time(), t2 = time(), t3 = time();
    std::string s1 = printed(Xsmp::Duration{t1}),
                s2 = printed(Xsmp::Duration{t2});
    switch (c.idx(3)) {
    case 0:
      expect<Smp::Services::InvalidCycleTime>(
          c, gone([&] { X::throwInvalidCycleTime(sender, t1); }), sender,
          "InvalidCycleTime", {s1}, nullptr);
      break;
    case 1:
      expect<Smp::Services::InvalidEventTime>(
          c, gone([&] { X::throwInvalidEventTime(sender, t1, t2); }), sender,
          "InvalidEventTime", {s1, s2}, nullptr);
      break;
    default:
      expect<Smp::Services::InvalidSimulationTime>(
          c, gone([&] { X::throwInvalidSimulationTime(sender, t1, t2, t3); }),
          sender, "InvalidSimulationTime", {}, [&](auto &e) {
            REQUIRE(e.GetCurrentTime() == t1 && e.GetProvidedTime() == t2 &&
                        e.GetMaximumTime() == t3,
                    "times " << e.GetCurrentTime() << " " << e.GetProvidedTime()
                             << " " << e.GetMaximumTime());
          });
    }
    break;
  }
  case 15: {
    Xsmp::EntryPoint ep{"ep", "", objects.all.back().get(), [] {}};
    auto *s = texts.draw(c, a, false);
    auto check = [&](auto &e) {
      REQUIRE(e.GetEntryPoint() == &ep && str(e.GetEventName()) == a,
              "entry point " << path(e.GetEntryPoint()) << " event "
                             << str(e.GetEventName()));
    };
    if (c.flip())
      expect<Smp::Services::EntryPointNotSubscribed>(
          c, gone([&] { X::throwEntryPointNotSubscribed(sender, &ep, s); }),
          sender, "EntryPointNotSubscribed", {path(&ep), a}, check);
    else
      expect<Smp::Services::EntryPointAlreadySubscribed>(
          c, gone([&] { X::throwEntryPointAlreadySubscribed(sender, &ep, s); }),
          sender, "EntryPointAlreadySubscribed", {path(&ep), a}, check);
    break;
  }
  case 16: {
    auto *s = texts.draw(c, a);
    expect<Smp::InvalidFieldName>(
        c, gone([&] { X::throwInvalidFieldName(sender, s); }), sender,
        "InvalidFieldName", {a, path(sender)}, [&](auto &e) {
          REQUIRE(str(e.GetFieldName()) == a,
                  "field " << str(e.GetFieldName()));
        });
    break;
  }
  case 17: {
    auto u = uuid(c);
    if (c.flip())
      expect<Smp::Publication::TypeNotRegistered>(
          c, gone([&] { X::throwTypeNotRegistered(sender, u); }), sender,
          "TypeNotRegistered", {printed(u)},
          [&](auto &e) { REQUIRE(e.GetUuid() == u, "another uuid"); });
    else
      expect<Smp::InvalidFieldType>(
          c, gone([&] { X::throwInvalidFieldType(sender, u); }), sender,
          "InvalidFieldType", {printed(u), path(sender)}, nullptr);
    break;
  }
  case 18: {
    sender = objects.pick(c, false);
    auto index = c.integer<Smp::Int32>(), count = c.integer<Smp::Int32>();
    if (c.chance(1, 4))
      expect<Smp::VoidOperation>(
          c, gone([&] { X::throwVoidOperation(sender); }), sender,
          "VoidOperation", {path(sender)}, [&](auto &e) {
            REQUIRE(str(e.GetOperationName()) == sender->GetName(),
                    "operation " << str(e.GetOperationName()));
          });
    else
      expect<Smp::InvalidParameterIndex>(
          c, gone([&] { X::throwInvalidParameterIndex(sender, index, count); }),
          sender, "InvalidParameterIndex",
          {std::to_string(index), std::to_string(count), path(sender)},
          [&](auto &e) {
            REQUIRE(e.GetParameterIndex() == index &&
                        e.GetParameterCount() == count &&
                        str(e.GetOperationName()) == sender->GetName(),
                    "operation " << str(e.GetOperationName()) << " index "
                                 << e.GetParameterIndex() << " count "
                                 << e.GetParameterCount());
          });
    break;
  }
  case 19: {
    auto k1 = kind(c), k2 = kind(c);
    auto *s = texts.draw(c, a);
    switch (c.idx(3)) {
    case 0:
      expect<Smp::InvalidAnyType>(
          c, gone([&] { X::throwInvalidAnyType(sender, k1, k2); }), sender,
          "InvalidAnyType", {printed(k1), printed(k2)}, [&](auto &e) {
            REQUIRE(e.GetExpectedType() == k1 && e.GetInvalidType() == k2,
                    "expected " << e.GetExpectedType() << " invalid "
                                << e.GetInvalidType());
          });
      break;
    case 1:
      expect<Smp::InvalidFieldType>(
          c, gone([&] { X::throwInvalidFieldType(sender, k1); }), sender,
          "InvalidFieldType", {printed(k1), path(sender)}, nullptr);
      break;
    default:
      expect<Smp::Publication::InvalidPrimitiveType>(
          c, gone([&] { X::throwInvalidPrimitiveType(sender, s, k1); }), sender,
          "InvalidPrimitiveType", {a, printed(k1)}, [&](auto &e) {
            REQUIRE(str(e.GetTypeName()) == a && e.GetType() == k1,
                    "type " << str(e.GetTypeName()) << " " << e.GetType());
          });
    }
    break;
  }
  case 20: {
    sender = objects.pick(c, false);
    auto v = anyValue(c, kind(c));
    auto shown = fx::show(v);
    auto *s = texts.draw(c, a, false);
    std::exception_ptr p;
    if (c.flip()) {
      {
        auto held = v;
        p = gone([&] { X::throwInvalidReturnValue(sender, held); });
      }
      expect<Smp::InvalidReturnValue>(
          c, p, sender, "InvalidReturnValue", {printed(v), path(sender)},
          [&](auto &e) {
            REQUIRE(fx::show(e.GetValue()) == shown &&
                        str(e.GetOperationName()) == sender->GetName(),
                    "value " << fx::show(e.GetValue()) << " operation "
                             << str(e.GetOperationName()));
          });
    } else {
      {
        auto held = v;
        p = gone([&] { X::throwInvalidParameterValue(sender, s, held); });
      }
      expect<Smp::InvalidParameterValue>(
          c, p, sender, "InvalidParameterValue", {printed(v), path(sender), a},
          [&](auto &e) {
            REQUIRE(fx::show(e.GetValue()) == shown &&
                        str(e.GetParameterName()) == a,
                    "value " << fx::show(e.GetValue()) << " parameter "
                             << str(e.GetParameterName()));
          });
    }
    break;
  }
  case 21: {
    auto *s = texts.draw(c, a);
    auto *t = texts.draw(c, b, false);
    auto check = [&](auto &e) {
      REQUIRE(str(e.GetLibraryName()) == a,
              "library " << str(e.GetLibraryName()));
    };
    if (c.flip())
      expect<Smp::LibraryNotFound>(
          c, gone([&] { X::throwLibraryNotFound(sender, s, t); }), sender,
          "LibraryNotFound", {b}, check);
    else
      expect<Smp::InvalidLibrary>(
          c, gone([&] { X::throwInvalidLibrary(sender, s, t); }), sender,
          "InvalidLibrary", {b}, check);
    break;
  }
  case 22: {
    auto *s = texts.draw(c, a);
    auto v = c.integer<Smp::Int32>();
    auto state = static_cast<Smp::SimulatorStateKind>(c.u(11));
    if (c.flip())
      expect<Smp::Publication::DuplicateLiteral>(
          c, gone([&] { X::throwDuplicateLiteral(sender, s, v); }), sender,
          "DuplicateLiteral", {a, std::to_string(v)}, [&](auto &e) {
            REQUIRE(str(e.GetLiteralName()) == a && e.GetLiteralValue() == v,
                    "literal " << str(e.GetLiteralName()) << " "
                               << e.GetLiteralValue());
          });
    else
      expect<Smp::InvalidSimulatorState>(
          c, gone([&] { X::throwInvalidSimulatorState(sender, state); }),
          sender, "InvalidSimulatorState", {printed(state)}, [&](auto &e) {
            REQUIRE(e.GetInvalidState() == state,
                    "state " << printed(e.GetInvalidState()));
          });
    break;
  }
  default: { // any name and any number of message parts
    auto *s = texts.draw(c, a, false);
    auto *t = texts.draw(c, b, false);
    if (b.empty())
      b = "d", t = texts.make(b);
    auto n = c.integer<Smp::Int64>();
    auto u = uuid(c);
    auto *o = objects.pick(c);
    auto p = gone([&] { X::throwException(sender, s, t, "<", n, u, o, ">"); });
    auto m = "<" + std::to_string(n) + printed(u) + path(o) + ">";
    expect<Smp::Exception>(c, p, sender, a, {m}, [&](auto &e) {
      REQUIRE(str(e.GetDescription()) == b && str(e.GetMessage()) == m,
              "message " << str(e.GetMessage()));
    });
  }
  }
}

// --- values of the wrong type
template <class V> K natural() {
  if constexpr (std::is_same_v<V, bool>)
    return K::PTK_Bool;
  else if constexpr (std::is_same_v<V, Smp::Char8>)
    return K::PTK_Char8;
  else if constexpr (std::is_same_v<V, Smp::Int8>)
    return K::PTK_Int8;
  else if constexpr (std::is_same_v<V, Smp::Int16>)
    return K::PTK_Int16;
  else if constexpr (std::is_same_v<V, Smp::Int32>)
    return K::PTK_Int32;
  else if constexpr (std::is_same_v<V, Smp::Int64>)
    return K::PTK_Int64;
  else if constexpr (std::is_same_v<V, Smp::UInt8>)
    return K::PTK_UInt8;
  else if constexpr (std::is_same_v<V, Smp::UInt16>)
    return K::PTK_UInt16;
  else if constexpr (std::is_same_v<V, Smp::UInt32>)
    return K::PTK_UInt32;
  else if constexpr (std::is_same_v<V, Smp::UInt64>)
    return K::PTK_UInt64;
  else if constexpr (std::is_same_v<V, Smp::Float32>)
    return K::PTK_Float32;
  else if constexpr (std::is_same_v<V, Smp::Float64>)
    return K::PTK_Float64;
  else
    return K::PTK_String8;
}
template <class V> void wrongAs(Case &c) {
  auto held = kind(c);
  auto v = c.flip() ? anyValue(c, held) : fx::value(held, c.u(300));
  NOTE(c, "value " << fx::show(v) << " as " << natural<V>());
  if (c.chance(1, 3)) { // an event sink
    static V got;       // not used
    Xsmp::EventSink<V> sink{"sink", "", static_cast<Smp::IObject *>(nullptr),
                            [](Smp::IObject *, V x) { got = x; }, natural<V>()};
    try {
      sink.Notify(nullptr, v);
    } catch (const Smp::InvalidAnyType &e) {
      c.nontrivial();
      c.label("notified with a wrong type");
      REQUIRE(e.GetExpectedType() == natural<V>() && e.GetInvalidType() == held,
              "Notify: expected " << e.GetExpectedType() << " invalid "
                                  << e.GetInvalidType());
    }
    Xsmp::EventSink<> other{"sink", "", static_cast<Smp::IObject *>(nullptr),
                            [](Smp::IObject *) {}};
    try {
      other.Notify(nullptr, v);
      REQUIRE(held == K::PTK_None, "a sink without argument accepts " << held);
    } catch (const Smp::InvalidAnyType &e) {
      REQUIRE(e.GetExpectedType() == K::PTK_None && e.GetInvalidType() == held,
              "Notify without argument: expected "
                  << e.GetExpectedType() << " invalid " << e.GetInvalidType());
    }
    return;
  }
  try {
    [[maybe_unused]] V x = static_cast<V>(v);
  } catch (const Smp::InvalidAnyType &e) {
    c.nontrivial();
    c.label("read with a wrong type");
    REQUIRE(e.GetExpectedType() == natural<V>() && e.GetInvalidType() == held,
            "read: expected " << e.GetExpectedType() << " invalid "
                              << e.GetInvalidType());
  }
  if constexpr (std::is_same_v<V, Smp::String8>) {
    if (held != K::PTK_String8) {
      try {
        (void)v.MoveString();
        FAILURE("the text of " << held << " is moved");
      } catch (const Smp::InvalidAnyType &e) {
        REQUIRE(e.GetExpectedType() == K::PTK_String8 &&
                    e.GetInvalidType() == held,
                "MoveString: expected " << e.GetExpectedType() << " invalid "
                                        << e.GetInvalidType());
      }
    }
  }
  // written as another kind: both are named
  V raw{};
  if constexpr (!std::is_same_v<V, Smp::String8>)
    raw = static_cast<V>(c.u(~0ull));
  auto k = kind(c);
  Smp::AnySimple w;
  try {
    w.SetValue(k, raw);
  } catch (const Smp::InvalidAnyType &e) {
    auto n = natural<V>();
    c.label("written with a wrong type");
    REQUIRE((e.GetExpectedType() == k && e.GetInvalidType() == n) ||
                (e.GetExpectedType() == n && e.GetInvalidType() == k),
            "written " << n << " as " << k << ": expected "
                       << e.GetExpectedType() << " invalid "
                       << e.GetInvalidType());
  }
}
void wrongTypes(Case &c) {
  switch (c.idx(13)) {
  case 0:
    return wrongAs<bool>(c);
  case 1:
    return wrongAs<Smp::Char8>(c);
  case 2:
    return wrongAs<Smp::Int8>(c);
  case 3:
    return wrongAs<Smp::Int16>(c);
  case 4:
    return wrongAs<Smp::Int32>(c);
  case 5:
    return wrongAs<Smp::Int64>(c);
  case 6:
    return wrongAs<Smp::UInt8>(c);
  case 7:
    return wrongAs<Smp::UInt16>(c);
  case 8:
    return wrongAs<Smp::UInt32>(c);
  case 9:
    return wrongAs<Smp::UInt64>(c);
  case 10:
    return wrongAs<Smp::Float32>(c);
  case 11:
    return wrongAs<Smp::Float64>(c);
  default:
    return wrongAs<Smp::String8>(c);
  }
}

// --- the operations raise exceptions about what was really wrong
struct Owner : public Node {
  using Node::Node;
  Xsmp::Publication::TypeRegistry *types = nullptr;
  // what Xsmp::Request asks for
  Owner *GetSimulator() { return this; }
  Xsmp::Publication::TypeRegistry *GetTypeRegistry() { return types; }
};
struct Fixture {
  Case &c;
  Xsmp::Object top;
  Xsmp::Publication::TypeRegistry types;
  Owner owner;
  Xsmp::Publication::Publication publication;
  Texts texts;
  explicit Fixture(Case &k)
      : c(k), top(objectName(k).c_str()), types(&top), owner(objectName(k), 0),
        publication(&owner, &types) {
    owner.types = &types;
    fx::registerTypes(&types);
  }
  Smp::Uuid primitive(K k) { return types.GetType(k)->GetUuid(); }
};

void ofFields(Case &c) {
  Fixture f(c);
  fx::TypedFields typed(&f.types, &f.owner);
  fx::PublishedFields published;
  published.publish(&f.publication);
  fx::Walk walk;
  for (auto *x : typed.list())
    walk.visit(x, true, "");
  for (auto *x : *f.publication.GetFields())
    walk.visit(x, true, "");
  switch (c.idx(7)) {
  case 0:
  case 1: { // a value of another kind
    auto const &leaf = walk.leaves[c.idx(walk.leaves.size())];
    auto k = fx::kind(leaf);
    auto v = anyValue(c, otherKind(c, k));
    NOTE(c, leaf.path << " of kind " << k << " set to " << fx::show(v));
    std::exception_ptr p;
    try {
      fx::set(leaf, v);
    } catch (...) {
      p = std::current_exception();
    }
    if (!p)
      break; // C24 checks that
    c.nontrivial();
    bool array = false;
    try {
      std::rethrow_exception(p);
    } catch (const Smp::InvalidArrayValue &) {
      array = true;
    } catch (const Smp::InvalidAnyType &e) {
      c.label("InvalidAnyType of a field");
      // dates and durations are read as the integers they are
      REQUIRE((e.GetExpectedType() == k ||
               ((k == K::PTK_Duration || k == K::PTK_DateTime) &&
                e.GetExpectedType() == K::PTK_Int64)) &&
                  e.GetInvalidType() == v.type,
              "expected " << e.GetExpectedType() << " invalid "
                          << e.GetInvalidType());
      break;
    } catch (...) {
    }
    if (array)
      expect<Smp::InvalidArrayValue>(
          c, p, leaf.field, "InvalidArrayValue",
          {path(leaf.field), std::to_string(leaf.index)}, [&](auto &e) {
            REQUIRE(e.GetInvalidValueIndex() == leaf.index,
                    "index " << e.GetInvalidValueIndex());
            REQUIRE(fx::show(e.GetInvalidValue()) == fx::show(v),
                    "value " << fx::show(e.GetInvalidValue()));
          });
    else
      expect<Smp::InvalidFieldValue>(
          c, p, leaf.field, "InvalidFieldValue", {path(leaf.field)},
          [&](auto &e) {
            REQUIRE(fx::show(e.GetInvalidFieldValue()) == fx::show(v),
                    "value " << fx::show(e.GetInvalidFieldValue()));
          });
    break;
  }
  case 2: { // indexes and sizes
    std::vector<Smp::ISimpleArrayField *> simple;
    for (auto &l : walk.leaves)
      if (l.index == 0)
        simple.push_back(dynamic_cast<Smp::ISimpleArrayField *>(l.field));
    auto *a = simple[c.idx(simple.size())];
    auto size = static_cast<Smp::Int64>(a->GetSize());
    auto index = size + static_cast<Smp::Int64>(c.u(c.flip() ? 2 : 1u << 30));
    bool set = c.flip();
    c.nontrivial();
    if (c.flip())
      expect<Smp::InvalidArrayIndex>(
          c, thrownBy([&] {
            if (set)
              a->SetValue(static_cast<Smp::UInt64>(index), a->GetValue(0));
            else
              (void)a->GetValue(static_cast<Smp::UInt64>(index));
          }),
          a, "InvalidArrayIndex",
          {path(a), std::to_string(index), std::to_string(size)}, [&](auto &e) {
            REQUIRE(e.GetInvalidIndex() == index && e.GetArraySize() == size,
                    "index " << e.GetInvalidIndex() << " size "
                             << e.GetArraySize());
          });
    else {
      std::vector<Smp::AnySimple> values(static_cast<size_t>(size) + 4);
      auto n = size + 1 + static_cast<Smp::Int64>(c.u(2));
      if (c.flip())
        n = static_cast<Smp::Int64>(c.u(static_cast<uint64_t>(size - 1)));
      expect<Smp::InvalidArraySize>(
          c, thrownBy([&] {
            if (set)
              a->SetValues(static_cast<Smp::UInt64>(n), values.data());
            else
              a->GetValues(static_cast<Smp::UInt64>(n), values.data());
          }),
          a, "InvalidArraySize",
          {path(a), std::to_string(n), std::to_string(size)}, [&](auto &e) {
            REQUIRE(e.GetInvalidSize() == n && e.GetArraySize() == size,
                    "invalid " << e.GetInvalidSize() << " size "
                               << e.GetArraySize());
          });
    }
    break;
  }
  case 3: { // items of an array of structures
    Smp::IArrayField *arrays[] = {
        &typed.vectors, &typed.array,
        dynamic_cast<Smp::IArrayField *>(f.publication.GetField("p_array")),
        dynamic_cast<Smp::IArrayField *>(f.publication.GetField("p_items"))};
    auto *a = arrays[c.idx(4)];
    auto size = static_cast<Smp::Int64>(a->GetSize());
    auto index = size + static_cast<Smp::Int64>(c.u(c.flip() ? 2 : 1u << 30));
    c.nontrivial();
    expect<Smp::InvalidArrayIndex>(
        c, thrownBy([&] { (void)a->GetItem(static_cast<Smp::UInt64>(index)); }),
        a, "InvalidArrayIndex",
        {path(a), std::to_string(index), std::to_string(size)}, [&](auto &e) {
          REQUIRE(e.GetInvalidIndex() == index && e.GetArraySize() == size,
                  "index " << e.GetInvalidIndex() << " size "
                           << e.GetArraySize());
        });
    break;
  }
  case 4: { // connections
    auto *out =
        dynamic_cast<Smp::IDataflowField *>(f.publication.GetField("p_i32"));
    Smp::IDataflowField *outs[] = {&typed.out, out, &typed.vectors,
                                   &typed.simpleOut};
    auto *source = outs[c.idx(4)];
    Smp::IField *targets[] = {&typed.plain, &typed.in, &typed.vector,
                              f.publication.GetField("p_array")};
    auto *target = targets[c.idx(4)];
    c.nontrivial();
    auto check = [&](auto &e) {
      REQUIRE(e.GetSource() == source && e.GetTarget() == target,
              "source " << path(e.GetSource()) << " target "
                        << path(e.GetTarget()));
    };
    if (c.flip())
      expect<Smp::InvalidTarget>(
          c, thrownBy([&] { source->Connect(target); }),
          dynamic_cast<Smp::IObject *>(source), "InvalidTarget",
          {path(dynamic_cast<Smp::IObject *>(source)), path(target)}, check);
    else {
      Xsmp::Field<Smp::UInt64>::input input{&f.types, Smp::Uuids::Uuid_UInt64,
                                            "input", "", &f.owner};
      source = &typed.out;
      target = &input;
      source->Connect(target);
      expect<Smp::FieldAlreadyConnected>(
          c, thrownBy([&] { source->Connect(target); }), &typed.out,
          "FieldAlreadyConnected", {path(&typed.out), path(target)}, check);
    }
    break;
  }
  case 5: { // a name
    std::string a;
    auto *s = f.texts.draw(c, a, false);
    auto p = thrownBy([&] { (void)f.publication.GetField(s); });
    f.texts.all.clear();
    c.nontrivial();
    expect<Smp::InvalidFieldName>(c, p, &f.owner, "InvalidFieldName",
                                  {a, path(&f.owner)}, [&](auto &e) {
                                    REQUIRE(str(e.GetFieldName()) == a,
                                            "field " << str(e.GetFieldName()));
                                  });
    break;
  }
  default: { // fields that cannot be published
    auto u = uuid(c);
    Smp::Uuid bad[] = {u, Smp::Uuids::Uuid_String8, Smp::Uuids::Uuid_Void};
    auto which = c.idx(3);
    auto depth = c.idx(3);
    NOTE(c, "type " << which << " at depth " << depth);
    c.nontrivial();
    Smp::Uuid type = bad[which];
    std::string shape = "flat";
    for (size_t i = 0; i < depth; ++i) {
      auto next = u;
      next.Data1 += static_cast<Smp::UInt32>(i + 1);
      auto *s =
          f.types.AddStructureType(("S" + std::to_string(i)).c_str(), "", next);
      if (c.flip())
        s->AddField("good", "", Smp::Uuids::Uuid_Int32, 0);
      s->AddField("bad", "", type, 0);
      type = next;
    }
    Smp::Int64 memory[8]{};
    std::exception_ptr p = thrownBy([&] {
      if (depth == 0 && c.chance(1, 3)) {
        auto *array = f.publication.PublishArray("raws", "");
        array->PublishField("x", "", memory, type);
      } else if (depth == 0 && c.chance(1, 3)) {
        auto *st = f.publication.PublishStructure("members", "");
        st->PublishField("x", "", memory, type);
      } else
        f.publication.PublishField("field", "", memory, type, none, true,
                                   c.flip(), c.flip());
    });
    try {
      std::rethrow_exception(p);
    } catch (const Smp::Exception &e) {
      c.label(str(e.GetName()) + " in depth " + std::to_string(depth));
      for (const Smp::IObject *o = e.GetSender(); o; o = o->GetParent())
        REQUIRE(!str(o->GetName()).empty(), "an unnamed sender");
      auto *notRegistered =
          dynamic_cast<const Smp::Publication::TypeNotRegistered *>(&e);
      REQUIRE(which != 0 || (notRegistered && notRegistered->GetUuid() == u),
              "published with an unknown type: " << e.GetName());
    }
  }
  }
}

void ofRequests(Case &c) {
  Fixture f(c);
  c.nontrivial();
  std::string name = objectName(c), param = objectName(c);
  auto *op = f.publication.PublishOperation(name.c_str(), "", none);
  auto n = c.range(1, 4);
  std::vector<K> of;
  for (int i = 0; i < n; ++i) {
    of.push_back(kinds[c.idx(15)]);
    op->PublishParameter((param + std::to_string(i)).c_str(), "",
                         f.primitive(of.back()),
                         Smp::Publication::ParameterDirectionKind::PDK_In);
  }
  K returned = kinds[c.idx(15)];
  bool isVoid = c.flip();
  if (!isVoid)
    op->PublishParameter("result", "", f.primitive(returned),
                         Smp::Publication::ParameterDirectionKind::PDK_Return);
  auto *operation = f.publication.GetOperations()->at(name.c_str());
  std::unique_ptr<Smp::IRequest> request{
      f.publication.CreateRequest(name.c_str())};
  REQUIRE(request, "no request");
  switch (c.idx(6)) {
  case 0: { // kinds
    auto i = c.idx(of.size());
    auto v = anyValue(c, otherKind(c, of[i]));
    expect<Smp::InvalidAnyType>(
        c,
        thrownBy([&] { request->SetParameterValue(static_cast<int>(i), v); }),
        operation, "InvalidAnyType", {printed(of[i]), printed(v.type)},
        [&](auto &e) {
          REQUIRE(e.GetExpectedType() == of[i] && e.GetInvalidType() == v.type,
                  "expected " << e.GetExpectedType() << " invalid "
                              << e.GetInvalidType());
        });
    break;
  }
  case 1: { // the return value
    if (isVoid)
      expect<Smp::VoidOperation>(
          c, thrownBy([&] {
            if (c.flip())
              (void)request->GetReturnValue();
            else
              request->SetReturnValue(fx::value(kind(c), 1));
          }),
          operation, "VoidOperation", {path(operation)}, [&](auto &e) {
            REQUIRE(str(e.GetOperationName()) == name,
                    "operation " << str(e.GetOperationName()));
          });
    else {
      auto v = anyValue(c, otherKind(c, returned));
      expect<Smp::InvalidAnyType>(
          c, thrownBy([&] { request->SetReturnValue(v); }), operation,
          "InvalidAnyType", {printed(returned), printed(v.type)}, [&](auto &e) {
            REQUIRE(e.GetExpectedType() == returned &&
                        e.GetInvalidType() == v.type,
                    "expected " << e.GetExpectedType() << " invalid "
                                << e.GetInvalidType());
          });
    }
    break;
  }
  case 2: { // indexes
    auto index = c.flip() ? static_cast<int>(n + static_cast<int>(c.u(3)))
                          : -1 - static_cast<int>(c.u(c.flip() ? 2 : 1 << 30));
    expect<Smp::InvalidParameterIndex>(
        c, thrownBy([&] {
          if (c.flip())
            (void)request->GetParameterValue(index);
          else
            request->SetParameterValue(index, fx::value(of[0], 1));
        }),
        operation, "InvalidParameterIndex",
        {std::to_string(index), std::to_string(n), path(operation)},
        [&](auto &e) {
          REQUIRE(e.GetParameterIndex() == index &&
                      e.GetParameterCount() == n &&
                      str(e.GetOperationName()) == name,
                  "index " << e.GetParameterIndex() << " of "
                           << e.GetParameterCount() << " in "
                           << str(e.GetOperationName()));
        });
    break;
  }
  case 3: { // values out of the limits of a type
    auto u = uuid(c);
    auto lo = static_cast<Smp::Int64>(c.range(-50, 50)),
         hi = lo + static_cast<Smp::Int64>(c.u(20));
    f.types.AddIntegerType("Limited", "", u, lo, hi, "", K::PTK_Int32);
    auto *op2 = f.publication.PublishOperation("limited", "", none);
    op2->PublishParameter(param.c_str(), "", u,
                          Smp::Publication::ParameterDirectionKind::PDK_In);
    op2->PublishParameter("result", "", u,
                          Smp::Publication::ParameterDirectionKind::PDK_Return);
    auto *operation2 = f.publication.GetOperations()->at("limited");
    std::unique_ptr<Smp::IRequest> request2{
        f.publication.CreateRequest("limited")};
    auto bad = static_cast<Smp::Int32>(c.flip() ? hi + 1 + c.range(0, 5)
                                                : lo - 1 - c.range(0, 5));
    Smp::AnySimple v{K::PTK_Int32, bad};
    if (c.flip())
      expect<Smp::InvalidParameterValue>(
          c, thrownBy([&] { request2->SetParameterValue(0, v); }), operation2,
          "InvalidParameterValue", {std::to_string(bad), param}, [&](auto &e) {
            REQUIRE(fx::show(e.GetValue()) == fx::show(v) &&
                        str(e.GetParameterName()) == param,
                    "value " << fx::show(e.GetValue()) << " of "
                             << str(e.GetParameterName()));
          });
    else
      expect<Smp::InvalidReturnValue>(
          c, thrownBy([&] { request2->SetReturnValue(v); }), operation2,
          "InvalidReturnValue", {std::to_string(bad), path(operation2)},
          [&](auto &e) {
            REQUIRE(fx::show(e.GetValue()) == fx::show(v) &&
                        str(e.GetOperationName()) == "limited",
                    "value " << fx::show(e.GetValue()) << " of "
                             << str(e.GetOperationName()));
          });
    break;
  }
  case 4: { // the helper of the components, parameters that are missing
    Owner *o = &f.owner;
    Smp::IComponent *component = o;
    std::string missing = objectName(c) + "_";
    std::exception_ptr p;
    std::string what = missing;
    switch (c.idx(4)) {
    case 0:
      p = thrownBy([&] {
        (void)Xsmp::Request::get<Smp::Int32>(component, request.get(),
                                             missing.c_str(), K::PTK_Int32);
      });
      break;
    case 1:
      p = thrownBy([&] {
        Xsmp::Request::set<Smp::Int32>(component, request.get(),
                                       missing.c_str(), K::PTK_Int32, 3);
      });
      break;
    case 2:
      p = thrownBy([&] {
        (void)Xsmp::Request::get<T::VectorArray>(
            o, request.get(), missing.c_str(), T::Uuid_VectorArray);
      });
      what += "[0].x";
      break;
    default:
      p = thrownBy([&] {
        Xsmp::Request::set<T::SimpleInt32Array>(
            o, request.get(), missing.c_str(), T::Uuid_SimpleInt32Array, {});
      });
      what += "[0]";
    }
    try {
      std::rethrow_exception(p);
    } catch (const Smp::Exception &e) {
      std::string m = e.GetMessage();
      c.label("missing parameter");
      REQUIRE(m.find(what) != std::string::npos &&
                  m.find(name) != std::string::npos,
              "\"" << m << "\" does not name " << what << " and " << name);
      REQUIRE(e.GetSender() == component, "another sender");
      REQUIRE(str(e.GetName()) != missing, "named as the parameter");
    }
    break;
  }
  default: { // a parameter that was never set, read by the helper
    auto i = c.idx(of.size());
    auto p0 = param + std::to_string(i);
    auto want = otherKind(c, K::PTK_None);
    Smp::IComponent *component = &f.owner;
    if (want != K::PTK_Int16)
      want = K::PTK_Int32;
    auto get = [&] {
      if (want == K::PTK_Int16)
        (void)Xsmp::Request::get<Smp::Int16>(component, request.get(),
                                             p0.c_str(), want);
      else
        (void)Xsmp::Request::get<Smp::Int32>(component, request.get(),
                                             p0.c_str(), want);
    };
    bool set = of[i] != want && c.flip();
    if (set)
      request->SetParameterValue(static_cast<int>(i), fx::value(of[i], 1));
    expect<Smp::InvalidParameterType>(
        c, thrownBy(get), component, "InvalidParameterType", {name, p0},
        [&](auto &e) {
          REQUIRE(str(e.GetOperationName()) == name &&
                      str(e.GetParameterName()) == p0 &&
                      e.GetInvalidType() == (set ? of[i] : K::PTK_None) &&
                      e.GetExpectedType() == want,
                  str(e.GetOperationName())
                      << " " << str(e.GetParameterName()) << " invalid "
                      << e.GetInvalidType() << " expected "
                      << e.GetExpectedType());
        });
    // an item of a structured parameter
    auto *op3 = f.publication.PublishOperation("structured", "", none);
    op3->PublishParameter("v", "", T::Uuid_Vector,
                          Smp::Publication::ParameterDirectionKind::PDK_In);
    op3->PublishParameter("a", "", T::Uuid_SimpleInt16Array,
                          Smp::Publication::ParameterDirectionKind::PDK_In);
    // operations with structured parameters cannot be invoked: their component
    // builds the request
    auto request3 = std::make_unique<Xsmp::Publication::Request>(
        f.publication.GetOperations()->at("structured"), &f.types);
    bool array = c.flip();
    auto p = thrownBy([&] {
      if (array)
        (void)Xsmp::Request::get<T::SimpleInt16Array>(
            &f.owner, request3.get(), "a", T::Uuid_SimpleInt16Array);
      else
        (void)Xsmp::Request::get<T::Vector>(&f.owner, request3.get(), "v",
                                            T::Uuid_Vector);
    });
    expect<Smp::InvalidParameterType>(
        c, p, &f.owner, "InvalidParameterType",
        {array ? "a[0]" : "v.x", "structured"}, [&](auto &e) {
          REQUIRE(e.GetInvalidType() == K::PTK_None,
                  "invalid " << e.GetInvalidType());
        });
  }
  }
}

void ofObjects(Case &c) {
  Fixture f(c);
  c.nontrivial();
  switch (c.idx(9)) {
  case 0: { // lifecycle
    Node n(objectName(c), 1);
    auto steps = c.u(3);
    auto state = Smp::ComponentStateKind::CSK_Created;
    fx::World world(false);
    if (steps > 0) {
      n.Publish(&f.publication);
      state = Smp::ComponentStateKind::CSK_Publishing;
    }
    if (steps > 1) {
      n.Configure(world.logger, nullptr);
      state = Smp::ComponentStateKind::CSK_Configured;
    }
    if (steps > 2) {
      n.Connect(world.isim());
      state = Smp::ComponentStateKind::CSK_Connected;
    }
    auto call = c.idx(4);
    static const Smp::ComponentStateKind from[] = {
        Smp::ComponentStateKind::CSK_Created,
        Smp::ComponentStateKind::CSK_Publishing,
        Smp::ComponentStateKind::CSK_Configured,
        Smp::ComponentStateKind::CSK_Connected};
    if (call == steps || (call == 1 && steps == 0))
      break; // allowed
    expect<Smp::InvalidComponentState>(
        c, thrownBy([&] {
          switch (call) {
          case 0:
            return n.Publish(&f.publication);
          case 1:
            return n.Configure(world.logger, nullptr);
          case 2:
            return n.Connect(world.isim());
          default:
            return n.Disconnect();
          }
        }),
        &n, "InvalidComponentState",
        {path(&n), printed(state), printed(from[call])}, [&](auto &e) {
          REQUIRE(e.GetInvalidState() == state &&
                      e.GetExpectedState() == from[call],
                  "state " << printed(e.GetInvalidState()) << " expected "
                           << printed(e.GetExpectedState()));
        });
    break;
  }
  case 1: { // containers
    auto lower = static_cast<Smp::Int64>(c.u(3)),
         upper = lower + static_cast<Smp::Int64>(c.u(2));
    Xsmp::Container<Node> container{objectName(c).c_str(), "",
                                    static_cast<Xsmp::Composite *>(&f.owner),
                                    lower, upper};
    Smp::IContainer &con = container;
    std::vector<Node *> held;
    for (int i = 0; i < upper; ++i) {
      held.push_back(new Node("n" + std::to_string(i), i, &f.owner));
      con.AddComponent(held.back());
    }
    Node other("other", 50, &f.owner);
    auto called = std::string(con.GetName());
    if (c.flip())
      expect<Smp::ContainerFull>(
          c, thrownBy([&] { con.AddComponent(&other); }), &con, "ContainerFull",
          {path(&con), std::to_string(upper)}, [&](auto &e) {
            REQUIRE(e.GetContainerSize() == upper &&
                        e.GetContainerName() == called,
                    "container " << str(e.GetContainerName()) << " of size "
                                 << e.GetContainerSize());
          });
    if (c.flip())
      expect<Smp::NotContained>(
          c, thrownBy([&] { con.DeleteComponent(&other); }), &con,
          "NotContained", {path(&con), path(&other)}, [&](auto &e) {
            REQUIRE(e.GetComponent() == &other &&
                        e.GetContainerName() == called,
                    "another component or container");
          });
    while (static_cast<Smp::Int64>(held.size()) > lower) {
      con.DeleteComponent(held.back());
      held.pop_back();
    }
    if (!held.empty()) {
      auto *victim = held[c.idx(held.size())];
      expect<Smp::CannotDelete>(
          c, thrownBy([&] { con.DeleteComponent(victim); }), &con,
          "CannotDelete", {path(&con), path(victim), std::to_string(lower)},
          [&](auto &e) {
            REQUIRE(e.GetComponent() == victim && e.GetLowerLimit() == lower &&
                        e.GetContainerName() == called,
                    "lower limit " << e.GetLowerLimit());
          });
    }
    break;
  }
  case 2: { // references
    auto lower = static_cast<Smp::Int64>(c.u(3)),
         upper = lower + static_cast<Smp::Int64>(c.u(2));
    Xsmp::Reference<fx::Special> reference{
        objectName(c).c_str(), "", static_cast<Xsmp::Aggregate *>(&f.owner),
        lower, upper};
    Smp::IReference &ref = reference;
    std::vector<std::unique_ptr<fx::Special>> all;
    for (int i = 0; i < upper; ++i) {
      all.push_back(std::make_unique<fx::Special>("n" + std::to_string(i), i));
      ref.AddComponent(all.back().get());
    }
    fx::Special other("other", 50);
    Node wrong("wrong", 51);
    auto called = std::string(ref.GetName());
    expect<Smp::ReferenceFull>(
        c, thrownBy([&] { ref.AddComponent(&other); }), &ref, "ReferenceFull",
        {path(&ref), std::to_string(upper)}, [&](auto &e) {
          REQUIRE(e.GetReferenceSize() == upper &&
                      e.GetReferenceName() == called,
                  "reference " << str(e.GetReferenceName()) << " of size "
                               << e.GetReferenceSize());
        });
    expect<Smp::NotReferenced>(
        c, thrownBy([&] { ref.RemoveComponent(&other); }), &ref,
        "NotReferenced", {path(&ref), path(&other)}, [&](auto &e) {
          REQUIRE(e.GetComponent() == &other && e.GetReferenceName() == called,
                  "another component or reference");
        });
    while (static_cast<Smp::Int64>(all.size()) > lower) {
      ref.RemoveComponent(all.back().get());
      all.pop_back();
    }
    if (lower < upper)
      expect<Smp::InvalidObjectType>(
          c, thrownBy([&] { ref.AddComponent(&wrong); }), &ref,
          "InvalidObjectType", {path(&wrong), "fx::Node", "fx::Special"},
          [&](auto &e) {
            REQUIRE(e.GetInvalidObject() == &wrong, "another object");
          });
    if (!all.empty()) {
      auto *victim = all[c.idx(all.size())].get();
      expect<Smp::CannotRemove>(
          c, thrownBy([&] { ref.RemoveComponent(victim); }), &ref,
          "CannotRemove", {path(&ref), path(victim), std::to_string(lower)},
          [&](auto &e) {
            REQUIRE(e.GetComponent() == victim && e.GetLowerLimit() == lower &&
                        e.GetReferenceName() == called,
                    "lower limit " << e.GetLowerLimit());
          });
    }
    break;
  }
  case 3: { // names
    std::string a;
    auto *s = f.texts.draw(c, a);
    std::unique_ptr<Xsmp::Object> object;
    std::exception_ptr p;
    try {
      object = std::make_unique<Xsmp::Object>(s, "", &f.top);
    } catch (...) {
      p = std::current_exception();
    }
    f.texts.all.clear();
    if (p)
      expect<Smp::InvalidObjectName>(
          c, p, &f.top, "InvalidObjectName", {a}, [&](auto &e) {
            REQUIRE(str(e.GetInvalidName()) == a,
                    "invalid name " << str(e.GetInvalidName()));
          });
    break;
  }
  case 4: { // types
    auto u = uuid(c);
    std::string a;
    auto name = objectName(c);
    auto *first = f.types.AddStringType(name.c_str(), "", u, 5);
    auto other = objectName(c);
    if (c.flip())
      expect<Smp::Publication::TypeAlreadyRegistered>(
          c, thrownBy([&] { f.types.AddStringType(other.c_str(), "", u, 5); }),
          &f.types, "TypeAlreadyRegistered", {other, printed(u)}, [&](auto &e) {
            REQUIRE(str(e.GetTypeName()) == other && e.GetType() == first,
                    "type " << str(e.GetTypeName()));
          });
    else if (c.flip()) {
      u.Data1 ^= 1;
      auto k = K::PTK_String8;
      bool integer = c.flip();
      if (c.flip())
        k = integer ? K::PTK_Float32 : K::PTK_Int64;
      expect<Smp::Publication::InvalidPrimitiveType>(
          c, thrownBy([&] {
            if (integer)
              f.types.AddIntegerType(other.c_str(), "", u, 0, 1, "", k);
            else
              f.types.AddFloatType(other.c_str(), "", u, 0, 1, true, true, "",
                                   k);
          }),
          &f.types, "InvalidPrimitiveType", {other, printed(k)}, [&](auto &e) {
            REQUIRE(str(e.GetTypeName()) == other && e.GetType() == k,
                    "type " << str(e.GetTypeName()) << " " << e.GetType());
          });
    } else {
      u.Data1 ^= 1;
      auto *e1 = f.types.AddEnumerationType(other.c_str(), "", u, 4);
      std::vector<Smp::Int32> values;
      for (auto n = c.range(1, 4); n--;) {
        auto v = c.integer<Smp::Int32>();
        bool known = false;
        for (auto x : values)
          known = known || x == v;
        if (known)
          continue;
        e1->AddLiteral(("l" + std::to_string(values.size())).c_str(), "", v);
        values.push_back(v);
      }
      auto i = c.idx(values.size());
      auto literal = "l" + std::to_string(i);
      expect<Smp::Publication::DuplicateLiteral>(
          c, thrownBy([&] { e1->AddLiteral("another", "", values[i]); }), e1,
          "DuplicateLiteral", {literal, std::to_string(values[i])},
          [&](auto &e) {
            REQUIRE(str(e.GetLiteralName()) == literal &&
                        e.GetLiteralValue() == values[i],
                    "literal " << str(e.GetLiteralName()) << " "
                               << e.GetLiteralValue());
          });
    }
    break;
  }
  case 5: { // events
    Xsmp::EventSource<> source{"source", "",
                               static_cast<Smp::IObject *>(&f.owner)};
    Xsmp::EventSink<> sink{"sink", "", static_cast<Smp::IObject *>(&f.top),
                           [](Smp::IObject *) {}};
    Xsmp::EventSink<Smp::Int8> wrong{
        "wrong", "", static_cast<Smp::IObject *>(&f.top),
        [](Smp::IObject *, Smp::Int8) {}, K::PTK_Int8};
    Smp::IEventSink *about = &sink;
    auto check = [&](auto &e) {
      REQUIRE(e.GetEventSource() == &source && e.GetEventSink() == about,
              "another source or sink");
    };
    expect<Smp::EventSinkNotSubscribed>(
        c, thrownBy([&] { source.Unsubscribe(about); }), &source,
        "EventSinkNotSubscribed", {path(&source), path(about)}, check);
    source.Subscribe(about);
    expect<Smp::EventSinkAlreadySubscribed>(
        c, thrownBy([&] { source.Subscribe(about); }), &source,
        "EventSinkAlreadySubscribed", {path(&source), path(about)}, check);
    about = &wrong;
    expect<Smp::InvalidEventSink>(c, thrownBy([&] { source.Subscribe(about); }),
                                  &source, "InvalidEventSink",
                                  {path(&source), path(about)}, check);
    break;
  }
  case 6: { // the simulator
    fx::World world(false);
    std::string a;
    auto *s = f.texts.make(a = "/nowhere/" + objectName(c) + ".so");
    if (c.flip()) {
      auto p = thrownBy([&] { world.sim.LoadLibrary(s); });
      f.texts.all.clear();
      expect<Smp::LibraryNotFound>(
          c, p, world.object(), "LibraryNotFound", {}, [&](auto &e) {
            REQUIRE(str(e.GetLibraryName()).find(a) != std::string::npos,
                    "library " << str(e.GetLibraryName()));
          });
    } else {
      world.sim.Connect();
      auto state = world.sim.GetState();
      auto *service =
          new fx::SilentLogger("late", "", world.root(), &world.sim);
      auto p = std::exception_ptr();
      bool model = c.flip();
      std::unique_ptr<Node> late;
      if (model)
        late = std::make_unique<Node>("late", 1, world.root(), &world.sim);
      try {
        if (model)
          world.sim.AddModel(late.get());
        else
          world.sim.AddService(service);
      } catch (...) {
        p = std::current_exception();
      }
      if (!p) { // accepted in this state
        late.release();
        if (model)
          delete static_cast<Smp::IComponent *>(service);
        break;
      }
      expect<Smp::InvalidSimulatorState>(
          c, p, world.object(), "InvalidSimulatorState", {printed(state)},
          [&](auto &e) {
            REQUIRE(e.GetInvalidState() == state,
                    "state " << printed(e.GetInvalidState()));
          });
      delete static_cast<Smp::IComponent *>(service);
    }
    break;
  }
  case 7: { // the scheduler
    fx::World world;
    Xsmp::EntryPoint ep{"ep", "", world.object(), [] {}};
    auto *scheduler = world.scheduler;
    auto id = c.integer<Smp::Int64>();
    if (id >= -2 && id < 100) // -2: the end of time, the scheduler's own event
      id += 102;
    NOTE(c, "event " << id);
    expect<Smp::Services::InvalidEventId>(
        c, thrownBy([&] {
          switch (c.idx(4)) {
          case 0:
            return scheduler->RemoveEvent(id);
          case 1:
            return scheduler->SetEventCycleTime(id, 5);
          case 2:
            return scheduler->SetEventRepeat(id, 5);
          default:
            return scheduler->SetEventSimulationTime(id, 5);
          }
        }),
        scheduler, "InvalidEventId", {std::to_string(id)}, [&](auto &e) {
          REQUIRE(e.GetInvalidEventId() == id, "id " << e.GetInvalidEventId());
        });
    auto time = -1 - static_cast<Smp::Int64>(c.u(1u << 20));
    expect<Smp::Services::InvalidEventTime>(
        c, thrownBy([&] { scheduler->AddSimulationTimeEvent(&ep, time); }),
        scheduler, "InvalidEventTime", {printed(Xsmp::Duration{time})},
        nullptr);
    expect<Smp::Services::InvalidCycleTime>(
        c, thrownBy([&] {
          scheduler->AddSimulationTimeEvent(&ep, 5, time, c.flip() ? 1 : -1);
        }),
        scheduler, "InvalidCycleTime", {printed(Xsmp::Duration{time})},
        nullptr);
    break;
  }
  default: { // the event manager
    fx::World world;
    Xsmp::EntryPoint ep{"ep", "", world.object(), [] {}};
    auto *events = world.events;
    auto name = "event " + objectName(c);
    auto id = events->QueryEventId(name.c_str());
    auto check = [&](auto &e) {
      REQUIRE(e.GetEntryPoint() == &ep && e.GetEventName() == name,
              "entry point " << path(e.GetEntryPoint()) << " event "
                             << str(e.GetEventName()));
    };
    expect<Smp::Services::EntryPointNotSubscribed>(
        c, thrownBy([&] { events->Unsubscribe(id, &ep); }), events,
        "EntryPointNotSubscribed", {path(&ep), name}, check);
    events->Subscribe(id, &ep);
    expect<Smp::Services::EntryPointAlreadySubscribed>(
        c, thrownBy([&] { events->Subscribe(id, &ep); }), events,
        "EntryPointAlreadySubscribed", {path(&ep), name}, check);
    events->Unsubscribe(id, &ep);
    auto unknown = id + 1 + static_cast<Smp::Int64>(c.u(1000));
    expect<Smp::Services::InvalidEventId>(
        c, thrownBy([&] {
          switch (c.idx(3)) {
          case 0:
            return events->Subscribe(unknown, &ep);
          case 1:
            return events->Unsubscribe(unknown, &ep);
          default:
            return events->Emit(unknown, true);
          }
        }),
        events, "InvalidEventId", {std::to_string(unknown)}, [&](auto &e) {
          REQUIRE(e.GetInvalidEventId() == unknown,
                  "id " << e.GetInvalidEventId());
        });
    expect<Smp::Services::InvalidEventName>(
        c,
        thrownBy([&] { (void)events->QueryEventId(c.flip() ? "" : nullptr); }),
        events, "InvalidEventName", {}, nullptr);
  }
  }
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C30";
  s.rule = "an exception was raised and everything it reports was compared "
           "with what was wrong";
  s.subs = {{"carried", carried, 100000, 3000000, 100},
            {"types", wrongTypes, 100000, 3000000, 100},
            {"fields", ofFields, 15000, 400000, 100},
            {"requests", ofRequests, 20000, 500000, 100},
            {"objects", ofObjects, 15000, 400000, 100}};
  s.assumptions = {
      "senders, components and fields named by an exception are alive when it "
      "is examined, except the objects whose constructor raised it",
      "structure types have distinct, valid field names",
      "typed fields (members of a component) are created with the identifier "
      "of their type: a constructor that fails cannot name a living sender",
      "which of the two kinds of a value written as another kind is called "
      "expected is not specified"};
  return s;
}
