// C16: an event reaches exactly the sinks subscribed to its source.
#include "fx_model.h"
#include <Xsmp/Duration.h>
#include <array>
#include <cmath>
#include <cstring>
#include <functional>

using fx::Node;
using fx::outcome;
using pbt::Case;
using pbt::show;
using Kind = Smp::PrimitiveTypeKind;

namespace {
enum class Colour : Smp::Int16 { red = -3, green = 0, blue = 700 };
struct Text {
  Smp::Char8 internalString[8];
};
using Chars = std::array<Smp::Char8, 5>;

template <class T> T value(Case &c) {
  if constexpr (std::is_same_v<T, bool>)
    return c.flip();
  else if constexpr (std::is_same_v<T, Colour>)
    return std::vector<Colour>{Colour::red, Colour::green,
                               Colour::blue}[c.idx(3)];
  else if constexpr (std::is_same_v<T, Text> || std::is_same_v<T, Chars>) {
    T t;
    std::memset(&t, 0, sizeof t);
    auto *p = reinterpret_cast<char *>(&t);
    for (auto n = c.range(0, sizeof(T) - 1); n--;)
      *p++ = static_cast<char>(c.range(1, 255));
    return t;
  } else if constexpr (std::is_floating_point_v<T>)
    return c.floating<T>(true);
  else
    return c.integer<T>();
}
template <class T> bool equal(const T &a, const T &b) {
  if constexpr (std::is_same_v<T, Text> || std::is_same_v<T, Chars>)
    return std::strcmp(reinterpret_cast<const char *>(&a),
                       reinterpret_cast<const char *>(&b)) == 0;
  else if constexpr (std::is_floating_point_v<T>)
    return std::memcmp(&a, &b, sizeof(T)) == 0 || (a == b && a != 0) ||
           (std::isnan(a) && std::isnan(b));
  else
    return a == b;
}

struct World;
// one source / one sink, of any argument type
struct Source {
  Kind kind;
  std::unique_ptr<Xsmp::detail::AbstractEventSource> object;
  std::function<void(Case &, int how, Smp::IObject *sender)> emit;
  std::set<size_t> subscribed; // the model
};
struct Sink {
  Kind kind;
  std::unique_ptr<Smp::IEventSink> object;
};
struct Frame { // an emission under way
  size_t source;
  Smp::IObject *sender;
  const void *value;
  std::set<size_t> atStart, removed, added;
  std::map<size_t, int> count;
};
struct World {
  Case &c;
  std::vector<Source> sources;
  std::vector<Sink> sinks;
  std::vector<Frame> frames;
  unsigned actions = 0;
  explicit World(Case &x) : c(x) {}

  void subscribe(size_t s, size_t k) {
    auto &src = sources[s];
    auto got = outcome([&] { src.object->Subscribe(sinks[k].object.get()); });
    std::string want = src.kind != sinks[k].kind ? "InvalidEventSink"
                       : src.subscribed.count(k) ? "EventSinkAlreadySubscribed"
                                                 : "";
    REQUIRE(got == want, "Subscribe: " << got << " expected " << want);
    if (!want.empty()) {
      c.label(want == "InvalidEventSink" ? "other type" : "subscribed twice");
      return;
    }
    src.subscribed.insert(k);
    for (auto &f : frames)
      if (f.source == s)
        f.added.insert(k);
  }
  void unsubscribe(size_t s, size_t k) {
    auto &src = sources[s];
    auto got = outcome([&] { src.object->Unsubscribe(sinks[k].object.get()); });
    std::string want = src.subscribed.count(k) ? "" : "EventSinkNotSubscribed";
    REQUIRE(got == want, "Unsubscribe: " << got << " expected " << want);
    if (!want.empty())
      return;
    src.subscribed.erase(k);
    for (auto &f : frames)
      if (f.source == s)
        f.removed.insert(k);
  }
  void emit(size_t s) {
    static Node *const none = nullptr;
    (void)none;
    auto how = static_cast<int>(c.idx(4));
    // the sender is handed through, or is the parent of the source
    Smp::IObject *other = sinks.empty() ? nullptr : sinks[0].object.get();
    Smp::IObject *sender = how < 2    ? sources[s].object->GetParent()
                           : c.flip() ? other
                                      : nullptr;
    frames.push_back({s, sender, nullptr, sources[s].subscribed, {}, {}, {}});
    sources[s].emit(c, how, sender);
    auto f = frames.back();
    frames.pop_back();
    for (auto &[k, n] : f.count)
      REQUIRE(n == 1, "sink " << k << " notified " << n << " times");
    for (auto k : f.atStart)
      if (!f.removed.count(k))
        REQUIRE(f.count.count(k), "sink " << k << " was not notified");
    if (f.atStart.size() > 1)
      c.nontrivial();
    c.label(f.atStart.empty() ? "emit to none" : "emit");
    if (!f.removed.empty())
      c.label("unsubscribed while emitting");
    if (!f.added.empty())
      c.label("subscribed while emitting");
  }
  template <class T> void notified(size_t k, Smp::IObject *sender, const T *v) {
    REQUIRE(!frames.empty(), "sink " << k << " notified without emission");
    auto &f = frames.back();
    REQUIRE(sources[f.source].subscribed.count(k),
            "sink " << k << " notified but not subscribed");
    REQUIRE(sources[f.source].kind == sinks[k].kind,
            "notified of another type");
    REQUIRE(sender == f.sender, "sender differs");
    if constexpr (!std::is_void_v<T>)
      REQUIRE(equal(*v, *static_cast<const T *>(f.value)), "value differs");
    REQUIRE(++f.count[k] == 1, "sink " << k << " notified twice");
    if (actions >= 12 || !c.chance(1, 4))
      return;
    ++actions;
    Case::Span sp(c);
    auto s = c.flip() ? f.source : c.idx(sources.size());
    auto who = c.flip() ? k : c.idx(sinks.size());
    switch (c.weighted({5, 3, 2})) {
    case 0:
      unsubscribe(s, who);
      break;
    case 1:
      subscribe(s, who);
      break;
    default:
      if (frames.size() < 3)
        emit(s);
    }
  }
};

template <class T> void addSource(World &w, Node &n, Kind kind, bool owned) {
  auto i = w.sources.size();
  auto name = "src" + std::to_string(i);
  auto *prov = static_cast<Xsmp::EventProvider *>(&n);
  Smp::IObject *obj = static_cast<Smp::IModel *>(&n);
  w.sources.emplace_back();
  auto &s = w.sources.back();
  s.kind = kind;
  if constexpr (std::is_void_v<T>) {
    auto o = owned
                 ? std::make_unique<Xsmp::EventSource<>>(name.c_str(), "", prov)
                 : std::make_unique<Xsmp::EventSource<>>(name.c_str(), "", obj);
    s.emit = [p = o.get()](Case &, int how, Smp::IObject *sender) {
      switch (how) {
      case 0:
        return p->Emit();
      case 1:
        return (*p)();
      case 2:
        return p->Emit(sender);
      default:
        return (*p)(sender);
      }
    };
    s.object = std::move(o);
  } else {
    auto o = owned ? std::make_unique<Xsmp::EventSource<T>>(name.c_str(), "",
                                                            prov, kind)
                   : std::make_unique<Xsmp::EventSource<T>>(name.c_str(), "",
                                                            obj, kind);
    s.emit = [p = o.get(), &w](Case &c, int how, Smp::IObject *sender) {
      T v = value<T>(c);
      w.frames.back().value = &v;
      switch (how) {
      case 0:
        return p->Emit(v);
      case 1:
        return (*p)(v);
      case 2:
        return p->Emit(sender, v);
      default:
        return (*p)(sender, v);
      }
    };
    s.object = std::move(o);
  }
  REQUIRE(s.object->GetEventArgType() == kind, "type of the source");
  REQUIRE(n.GetEventSource(name.c_str()) == (owned ? s.object.get() : nullptr),
          "GetEventSource");
}
template <class T> void addSink(World &w, Node &n, Kind kind, bool owned) {
  auto k = w.sinks.size();
  auto name = "snk" + std::to_string(k);
  auto *cons = static_cast<Xsmp::EventConsumer *>(&n);
  Smp::IObject *obj = static_cast<Smp::IModel *>(&n);
  w.sinks.emplace_back();
  auto &s = w.sinks.back();
  s.kind = kind;
  if constexpr (std::is_void_v<T>) {
    auto cb = [k, &w](Smp::IObject *sender) {
      w.notified<void>(k, sender, nullptr);
    };
    s.object =
        owned ? std::make_unique<Xsmp::EventSink<>>(name.c_str(), "", cons, cb)
              : std::make_unique<Xsmp::EventSink<>>(name.c_str(), "", obj, cb);
  } else {
    auto cb = [k, &w](Smp::IObject *sender, T v) {
      w.notified<T>(k, sender, &v);
    };
    s.object = owned ? std::make_unique<Xsmp::EventSink<T>>(name.c_str(), "",
                                                            cons, cb, kind)
                     : std::make_unique<Xsmp::EventSink<T>>(name.c_str(), "",
                                                            obj, cb, kind);
  }
  REQUIRE(s.object->GetEventArgType() == kind, "type of the sink");
  REQUIRE(n.GetEventSink(name.c_str()) == (owned ? s.object.get() : nullptr),
          "GetEventSink");
}

template <class F> void withType(unsigned t, F &&f) {
  switch (t) {
  case 0:
    return f(static_cast<void *>(nullptr), Kind::PTK_None);
  case 1:
    return f(static_cast<Smp::Bool *>(nullptr), Kind::PTK_Bool);
  case 2:
    return f(static_cast<Smp::Int8 *>(nullptr), Kind::PTK_Int8);
  case 3:
    return f(static_cast<Smp::UInt16 *>(nullptr), Kind::PTK_UInt16);
  case 4:
    return f(static_cast<Smp::Int32 *>(nullptr), Kind::PTK_Int32);
  case 5:
    return f(static_cast<Smp::UInt64 *>(nullptr), Kind::PTK_UInt64);
  case 6:
    return f(static_cast<Smp::Float32 *>(nullptr), Kind::PTK_Float32);
  case 7:
    return f(static_cast<Smp::Float64 *>(nullptr), Kind::PTK_Float64);
  case 8:
    return f(static_cast<Smp::Char8 *>(nullptr), Kind::PTK_Char8);
  case 9:
    return f(static_cast<Smp::Int64 *>(nullptr), Kind::PTK_Duration);
  case 10:
    return f(static_cast<Smp::Int64 *>(nullptr), Kind::PTK_DateTime);
  case 11:
    return f(static_cast<Colour *>(nullptr), Kind::PTK_Int16);
  case 12:
    return f(static_cast<Text *>(nullptr), Kind::PTK_String8);
  default:
    return f(static_cast<Chars *>(nullptr), Kind::PTK_String8);
  }
}

void events(Case &c) {
  Node a("a", 1), b("b", 2);
  World w(c);
  unsigned types[2] = {static_cast<unsigned>(c.idx(14)),
                       static_cast<unsigned>(c.idx(14))};
  // strings of different lengths are cut, which the model does not follow
  if (types[0] >= 12 && types[1] >= 12)
    types[1] = types[0];
  for (auto n = c.range(1, 3); n--;)
    withType(types[c.weighted({3, 1})], [&](auto *p, Kind k) {
      addSource<std::remove_pointer_t<decltype(p)>>(w, c.flip() ? a : b, k,
                                                    c.flip());
    });
  for (auto n = c.range(1, 6); n--;)
    withType(types[c.weighted({3, 1})], [&](auto *p, Kind k) {
      addSink<std::remove_pointer_t<decltype(p)>>(w, c.flip() ? a : b, k,
                                                  c.flip());
    });
  while (c.more(30)) {
    Case::Span sp(c);
    auto s = c.idx(w.sources.size());
    auto k = c.idx(w.sinks.size());
    switch (c.weighted({5, 2, 4})) {
    case 0:
      w.subscribe(s, k);
      break;
    case 1:
      w.unsubscribe(s, k);
      break;
    default:
      w.actions = 0;
      w.emit(s);
    }
  }
}

// Notify called directly converts its argument, or refuses it
void notify(Case &c) {
  Node a("a", 1);
  bool called = false;
  auto *obj = static_cast<Smp::IModel *>(&a);
  if (c.flip()) {
    Xsmp::EventSink<> sink("s", "", static_cast<Smp::IObject *>(obj),
                           [&](Smp::IObject *) { called = true; });
    Smp::AnySimple v;
    if (c.flip())
      v = Smp::AnySimple(Kind::PTK_Int32, Smp::Int32{1});
    auto got = outcome([&] { sink.Notify(obj, v); });
    bool ok = v.GetType() == Kind::PTK_None;
    REQUIRE(got == (ok ? "" : "InvalidAnyType") && called == ok,
            "Notify without argument: " << got);
    return;
  }
  Smp::Int16 seen = 0;
  Xsmp::EventSink<Smp::Int16> sink(
      "s", "", static_cast<Smp::IObject *>(obj),
      [&](Smp::IObject *, Smp::Int16 x) {
        called = true;
        seen = x;
      },
      Kind::PTK_Int16);
  auto x = c.integer<Smp::Int64>();
  c.nontrivial();
  auto got =
      outcome([&] { sink.Notify(obj, Smp::AnySimple(Kind::PTK_Int64, x)); });
  bool ok = x >= INT16_MIN && x <= INT16_MAX;
  REQUIRE(got.empty() == ok && called == ok && (!ok || seen == x),
          "Notify(" << x << "): " << got << " seen " << seen);
  called = false;
  got = outcome([&] { sink.Notify(obj, Smp::AnySimple{}); });
  REQUIRE(!got.empty() && !called, "Notify with no value");
}
} // namespace

pbt::Suite pbt_suite() {
  return {"C16",
          "an emission that reaches at least two sinks, or a direct "
          "notification with a value",
          {{"events", events, 240000, 1500000, 260},
           {"notify", notify, 60000, 300000, 12}},
          {},
          {}};
}
