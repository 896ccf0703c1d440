//! sources: full src-gen/Xsmp/Tests/Types/*.cpp src/Xsmp/Tests/ModelWith*.cpp src-gen/Xsmp/Tests/ModelWith*.cpp examples/project1/src/Example/*.cpp examples/project1/src-gen/Example/*.cpp examples/project1/src-gen/xsmp_example_project1.cpp
//! inc: examples/project1/src examples/project1/src-gen
// C33: a model written for the generator shows one state, whichever route of
// the simulator reads or changes it.
#include "fx.h"
#include "fx_fields.h"
#include "fx_sim.h"
#include "fx_types.h"
#include <Example/Counter.h>
#include <Example/CounterManager.h>
#include <Smp/IEntryPoint.h>
#include <Smp/IEventSink.h>
#include <Smp/IEventSource.h>
#include <Smp/IField.h>
#include <Smp/IModel.h>
#include <Smp/IOperation.h>
#include <Smp/IParameter.h>
#include <Smp/IProperty.h>
#include <Smp/IRequest.h>
#include <Smp/ISimpleField.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/Tests/ModelWithArrayFields.h>
#include <Xsmp/Tests/ModelWithEvents.h>
#include <Xsmp/Tests/ModelWithOperations.h>
#include <Xsmp/Tests/ModelWithProperties.h>
#include <Smp/Publication/IType.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <map>
#include <memory>
#include <set>
#include <xsmp_example_project1.h>

using fx::outcome;
using fx::str;
using pbt::Case;
using K = Smp::PrimitiveTypeKind;
using State = Smp::SimulatorStateKind;

namespace {
struct Dir {
  std::string path;
  Dir() {
    char t[] = "/tmp/xsmp-c33-XXXXXX";
    path = mkdtemp(t);
  }
  ~Dir() {
    std::error_code e;
    std::filesystem::remove_all(path, e);
  }
};
struct RequestOf {
  Smp::IDynamicInvocation *d;
  Smp::IRequest *r;
  RequestOf(Smp::IDynamicInvocation *d, std::string const &name)
      : d(d), r(d->CreateRequest(name.c_str())) {
    REQUIRE(r, "no request for " << name);
  }
  ~RequestOf() { d->DeleteRequest(r); }
  Smp::IRequest *operator->() { return r; }
};

// ---------------------------------------------------------------- counters
// a component with a source of Int32 events
struct Emitter : Xsmp::Model, Xsmp::EventProvider {
  Xsmp::EventSource<Smp::Int32> source;
  Emitter(Smp::String8 name, Smp::IComposite *parent, Smp::ISimulator *sim)
      : Model(name, "", parent, sim),
        source("source", "", static_cast<Xsmp::EventProvider *>(this),
               K::PTK_Int32) {}
};
struct CounterModel {
  Example::Counter *it;
  std::string path;
  int64_t count = 0;
  bool connected = false;
  unsigned subscribed = 0; // bit mask of user events
};
struct ManagerModel {
  Example::CounterManager *it;
  std::string name;
  std::vector<size_t> kids;
};
struct Pending {
  size_t counter;
  int64_t at, cycle;
  int64_t repeat; // further occurrences, -1: for ever
};
constexpr int64_t LIMIT = 20000000;

struct Assembly {
  fx::World w{false};
  Dir dir;
  std::vector<CounterModel> counters;
  std::vector<ManagerModel> managers;
  Emitter *emitter = nullptr;
  std::vector<Pending> pending;
  std::vector<size_t> initial;
  Smp::Services::EventId ids[2] = {};
  int64_t now = 0;
  struct Saved {
    std::vector<int64_t> counts;
    std::vector<unsigned> subscribed;
    std::vector<Pending> pending;
    int64_t now;
  };
  std::vector<Saved> saved;
  bool standby = false;

  Smp::IModel *create(Smp::Uuid const &uuid, std::string const &name,
                      Smp::IComposite *parent) {
    auto *c = w.sim.CreateInstance(uuid, name.c_str(), "some", parent);
    REQUIRE(c, "no instance of " << name);
    REQUIRE(str(c->GetName()) == name && str(c->GetDescription()) == "some",
            "the instance has another name or description");
    REQUIRE(c->GetState() == Smp::ComponentStateKind::CSK_Created,
            "the instance is not in state Created");
    REQUIRE(c->GetUuid() == uuid, "the instance has another Uuid");
    REQUIRE(c->GetParent() == parent, "the instance has another parent");
    auto *m = dynamic_cast<Smp::IModel *>(c);
    REQUIRE(m, "the instance is no model");
    return m;
  }
  void counter(Case &c, int manager) {
    auto name = "c" + std::to_string(counters.size());
    CounterModel m;
    Smp::IComposite *parent = w.root();
    if (manager >= 0)
      parent = managers[manager].it;
    auto *model = create(Example::Uuid_Counter, name, parent);
    m.it = dynamic_cast<Example::Counter *>(model);
    REQUIRE(m.it, "the instance is no counter");
    NOTE(c, "counter " << name << " in "
                       << (manager < 0 ? "the simulator"
                                       : managers[manager].name));
    if (manager < 0) {
      w.sim.AddModel(model);
      m.path = name;
    } else {
      managers[manager].it->counters.AddComponent(m.it);
      managers[manager].kids.push_back(counters.size());
      m.path = managers[manager].name + "/" + name;
    }
    counters.push_back(m);
  }
  Smp::IObject *resolve(Case &c, std::string const &path) {
    auto *r = w.sim.GetResolver();
    Smp::IObject *o = nullptr;
    std::string full = path;
    switch (c.weighted({2, 1, 1})) {
    case 0:
      o = r->ResolveAbsolute((full = "/" + path).c_str());
      break;
    case 1:
      o = r->ResolveRelative((full = "../" + path).c_str(), emitter);
      break;
    default: {
      auto cut = path.find('/');
      if (managers.empty() || path.compare(0, cut, managers[0].name) != 0)
        o = r->ResolveRelative((full = "../" + path).c_str(), emitter);
      else
        o = r->ResolveRelative((full = path.substr(cut + 1)).c_str(),
                               managers[0].it);
    }
    }
    REQUIRE(o, full << " is not resolved");
    return o;
  }
  int64_t sum(ManagerModel const &m) {
    int64_t s = 0;
    for (auto k : m.kids)
      s += counters[k].count;
    return s;
  }
};

void check(Case &c, Assembly &a) {
  for (auto &m : a.counters) {
    auto *f = dynamic_cast<Smp::ISimpleField *>(m.it->GetField("count"));
    REQUIRE(f, "counter " << m.path << " has no field count");
    auto v = f->GetValue();
    REQUIRE(v.type == K::PTK_Int32 && v.value.int32Value == m.count,
            "counter " << m.path << " is " << v.value.int32Value
                       << " instead of " << m.count);
    if (a.standby)
      REQUIRE(a.resolve(c, m.path + "/count") == f,
              m.path << "/count is another object than the field");
  }
  for (auto &m : a.managers) {
    auto want = a.sum(m);
    auto *ps = m.it->GetProperties();
    REQUIRE(ps && ps->size() == 3, "the manager has not three properties");
    Smp::AnySimple v;
    Smp::AnySimple avg;
    switch (c.weighted({1, 1})) {
    case 0: {
      v = ps->at("sum")->GetValue();
      avg = ps->at("average")->GetValue();
      break;
    }
    default: {
      RequestOf r(m.it, "get_sum");
      m.it->Invoke(r.r);
      v = r->GetReturnValue();
      RequestOf q(m.it, "get_average");
      m.it->Invoke(q.r);
      avg = q->GetReturnValue();
    }
    }
    REQUIRE(v.type == K::PTK_Int32 && v.value.int32Value == want,
            "sum of " << m.name << " is " << v.value.int32Value
                      << " instead of " << want);
    double wantAvg = m.kids.empty() ? 0
                                    : static_cast<double>(want) /
                                          static_cast<double>(m.kids.size());
    REQUIRE(avg.type == K::PTK_Float64 && avg.value.float64Value == wantAvg,
            "average of " << m.name << " is " << avg.value.float64Value
                          << " instead of " << wantAvg);
  }
}

// everything due until the end of the run, and when it happens
void advance(Assembly &a, int64_t end) {
  for (auto &p : a.pending)
    while (p.at <= end) {
      ++a.counters[p.counter].count;
      if (p.repeat == 0) {
        p.at = INT64_MAX;
        break;
      }
      if (p.repeat > 0)
        --p.repeat;
      p.at += p.cycle;
    }
  a.pending.erase(std::remove_if(a.pending.begin(), a.pending.end(),
                                 [](auto &p) { return p.at == INT64_MAX; }),
                  a.pending.end());
  a.now = end;
}

void counters(Case &c) {
  Assembly a;
  REQUIRE(Initialise_xsmp_example_project1(&a.w.sim,
                                           a.w.sim.GetTypeRegistry()),
          "the package is not initialised");
  struct Finaliser {
    ~Finaliser() { Finalise_xsmp_example_project1(); }
  } finaliser;
  REQUIRE(Initialise_xsmp_example_project1(&a.w.sim,
                                           a.w.sim.GetTypeRegistry()),
          "the package is not initialised twice");
  auto nm = c.range(1, 2);
  for (int i = 0; i < nm; ++i) {
    auto name = "manager" + std::to_string(i);
    auto *model =
        a.create(Example::Uuid_CounterManager, name, a.w.root());
    auto *it = dynamic_cast<Example::CounterManager *>(model);
    REQUIRE(it, "the instance is no counter manager");
    a.w.sim.AddModel(model);
    a.managers.push_back({it, name, {}});
  }
  auto nc = c.range(0, 5);
  for (int i = 0; i < nc; ++i)
    a.counter(c, static_cast<int>(c.range(-1, nm - 1)));
  a.emitter = new Emitter("emitter", a.w.root(), &a.w.sim);
  a.w.sim.AddModel(a.emitter);
  auto pick = [&]() -> size_t { return c.idx(a.counters.size()); };
  // entry points executed at initialisation
  if (!a.counters.empty())
    while (c.more(3)) {
      auto k = pick();
      a.w.sim.AddInitEntryPoint(&a.counters[k].it->IncrementCount);
      a.initial.push_back(k);
      NOTE(c, "initial increment of " << a.counters[k].path);
    }
  bool early = !a.counters.empty() && c.chance(1, 3);
  if (early) { // published and changed before it is connected
    a.w.sim.Publish();
    a.counters[0].it->GetFields();
    a.w.sim.Configure();
  }
  a.w.sim.Connect();
  REQUIRE(a.w.sim.GetState() == State::SSK_Standby, "not in standby");
  a.standby = true;
  for (auto k : a.initial)
    ++a.counters[k].count;
  for (int i = 0; i < 2; ++i)
    a.ids[i] =
        a.w.events->QueryEventId(("user event " + std::to_string(i)).c_str());
  check(c, a);
  unsigned routes = 0;
  while (c.more(20)) {
    Case::Span span(c);
    auto op = c.weighted({4, 4, 3, 3, 3, 3, 3, 3, 3, 4, 2, 2, 1, 2});
    if (a.counters.empty() && op != 12 && op != 10)
      continue;
    switch (op) {
    case 0: { // the entry point
      auto &m = a.counters[pick()];
      Smp::IEntryPoint *ep = nullptr;
      switch (c.weighted({1, 1, 1})) {
      case 0:
        ep = &m.it->IncrementCount;
        break;
      case 1:
        ep = dynamic_cast<Smp::IEntryPoint *>(
            a.resolve(c, m.path + "/IncrementCount"));
        break;
      default:
        ep = m.it->GetEntryPoint("IncrementCount");
      }
      REQUIRE(ep == &m.it->IncrementCount, "another entry point");
      NOTE(c, "execute " << m.path << "/IncrementCount");
      ep->Execute();
      ++m.count;
      break;
    }
    case 1: { // the operation
      auto &m = a.counters[pick()];
      NOTE(c, "reset " << m.path);
      if (c.flip()) {
        RequestOf r(m.it, "ResetCount");
        REQUIRE(r->GetParameterCount() == 0, "ResetCount has parameters");
        m.it->Invoke(r.r);
      } else {
        auto *op = m.it->GetOperations()->at("ResetCount");
        REQUIRE(op, "no operation ResetCount");
        auto *r = op->CreateRequest();
        op->Invoke(r);
        op->DeleteRequest(r);
      }
      m.count = 0;
      break;
    }
    case 2: { // the field
      auto &m = a.counters[pick()];
      auto v = static_cast<Smp::Int32>(c.range(-LIMIT, LIMIT));
      NOTE(c, "set " << m.path << " to " << v);
      Smp::ISimpleField *f;
      if (c.flip())
        f = dynamic_cast<Smp::ISimpleField *>(a.resolve(c, m.path + "/count"));
      else
        f = dynamic_cast<Smp::ISimpleField *>(m.it->GetFields()->at("count"));
      REQUIRE(f, "no field");
      f->SetValue({K::PTK_Int32, v});
      m.count = v;
      break;
    }
    case 3: { // the property of the manager
      auto &m = a.managers[c.idx(a.managers.size())];
      auto v = static_cast<Smp::Int32>(c.range(-LIMIT, LIMIT));
      NOTE(c, "set all of " << m.name << " to " << v);
      if (c.flip()) {
        m.it->GetProperties()->at("count")->SetValue({K::PTK_Int32, v});
      } else {
        RequestOf r(m.it, "set_count");
        r->SetParameterValue(0, {K::PTK_Int32, v});
        m.it->Invoke(r.r);
      }
      for (auto k : m.kids)
        a.counters[k].count = v;
      break;
    }
    case 4: { // an event sink called directly
      auto &m = a.counters[pick()];
      auto v = static_cast<Smp::Int32>(c.range(-1000, 1000));
      if (std::abs(m.count) > LIMIT)
        break;
      NOTE(c, "notify " << m.path << "/Add of " << v);
      auto *s = dynamic_cast<Smp::IEventSink *>(a.resolve(c, m.path + "/Add"));
      REQUIRE(s == &m.it->Add && s == m.it->GetEventSink("Add"),
              "another sink");
      s->Notify(a.emitter, {K::PTK_Int32, v});
      m.count += v;
      break;
    }
    case 5: { // connected to the source, or no more
      auto &m = a.counters[pick()];
      NOTE(c, (m.connected ? "unsubscribe " : "subscribe ") << m.path);
      auto *source = a.emitter->GetEventSource("source");
      REQUIRE(source == &a.emitter->source, "another event source");
      if (m.connected)
        source->Unsubscribe(&m.it->Add);
      else
        source->Subscribe(&m.it->Add);
      m.connected = !m.connected;
      break;
    }
    case 6: { // an event of the source
      auto v = static_cast<Smp::Int32>(c.range(-1000, 1000));
      bool skip = false;
      for (auto &m : a.counters)
        skip = skip || std::abs(m.count) > LIMIT;
      if (skip)
        break;
      NOTE(c, "emit " << v);
      a.emitter->source.Emit(v);
      for (auto &m : a.counters)
        if (m.connected)
          m.count += v;
      break;
    }
    case 7: { // subscribed to a user event, or no more
      auto &m = a.counters[pick()];
      auto e = c.idx(2);
      NOTE(c, "event " << e << " toggles " << m.path);
      if (m.subscribed >> e & 1)
        a.w.events->Unsubscribe(a.ids[e], &m.it->IncrementCount);
      else
        a.w.events->Subscribe(a.ids[e], &m.it->IncrementCount);
      m.subscribed ^= 1U << e;
      break;
    }
    case 8: { // a user event
      auto e = c.idx(2);
      NOTE(c, "user event " << e);
      a.w.events->Emit(a.ids[e]);
      for (auto &m : a.counters)
        m.count += m.subscribed >> e & 1;
      break;
    }
    case 9: { // a scheduled entry point
      auto k = pick();
      Pending p{k, 2 * c.range(0, 250), 2 * c.range(1, 100),
                c.weighted({2, 3, 1}) == 1 ? c.range(1, 5) : 0};
      if (c.chance(1, 6))
        p.repeat = -1;
      NOTE(c, "schedule " << a.counters[k].path << " in " << p.at << " every "
                          << p.cycle << ", " << p.repeat << " times");
      a.w.scheduler->AddSimulationTimeEvent(&a.counters[k].it->IncrementCount,
                                            p.at, p.repeat ? p.cycle : 0,
                                            p.repeat);
      p.at += a.now;
      a.pending.push_back(p);
      break;
    }
    case 10: { // a run: events have even times, runs end at odd ones
      auto d = 2 * c.range(0, 300) + 1 - (a.now & 1);
      NOTE(c, "run for " << d);
      if (d == 0)
        break;
      a.w.sim.Run(d);
      REQUIRE(a.w.sim.GetState() == State::SSK_Standby, "not in standby");
      advance(a, a.now + d);
      REQUIRE(a.w.timeKeeper->GetSimulationTime() == a.now,
              "the simulation time is " << a.w.timeKeeper->GetSimulationTime()
                                        << " instead of " << a.now);
      break;
    }
    case 11: { // stored
      auto file = a.dir.path + "/" + std::to_string(a.saved.size());
      NOTE(c, "store");
      a.w.sim.Store(file.c_str());
      Assembly::Saved s{{}, {}, a.pending, a.now};
      for (auto &m : a.counters)
        s.counts.push_back(m.count), s.subscribed.push_back(m.subscribed);
      a.saved.push_back(s);
      break;
    }
    case 12: { // another counter, later
      if (a.counters.size() > 7)
        break;
      auto k = static_cast<int>(
          c.range(0, static_cast<int64_t>(a.managers.size()) - 1));
      a.counter(c, k);
      a.w.sim.Reconnect(a.managers[k].it);
      REQUIRE(a.w.sim.GetState() == State::SSK_Standby, "not in standby");
      REQUIRE(a.counters.back().it->GetState() ==
                  Smp::ComponentStateKind::CSK_Connected,
              "the counter is not connected");
      a.saved.clear(); // files of other models
      break;
    }
    default: { // restored
      if (a.saved.empty())
        break;
      auto k = c.idx(a.saved.size());
      auto file = a.dir.path + "/" + std::to_string(k);
      if (!std::filesystem::exists(file))
        break;
      NOTE(c, "restore " << k);
      a.w.sim.Restore(file.c_str());
      for (size_t i = 0; i < a.counters.size(); ++i)
        a.counters[i].count = a.saved[k].counts[i],
        a.counters[i].subscribed = a.saved[k].subscribed[i];
      a.pending = a.saved[k].pending;
      a.now = a.saved[k].now;
      REQUIRE(a.w.timeKeeper->GetSimulationTime() == a.now,
              "the simulation time is not restored");
      break;
    }
    }
    ++routes;
    check(c, a);
  }
  if (routes >= 3)
    c.nontrivial();
}
// ------------------------------------------------------------- test models
const K kinds[] = {K::PTK_Bool,    K::PTK_Char8,   K::PTK_DateTime,
                   K::PTK_Duration, K::PTK_Float32, K::PTK_Float64,
                   K::PTK_Int16,   K::PTK_Int32,   K::PTK_Int64,
                   K::PTK_Int8,    K::PTK_String8, K::PTK_UInt16,
                   K::PTK_UInt32,  K::PTK_UInt64,  K::PTK_UInt8};
const char *const prefixes[] = {"bool",  "char8",  "dateTime", "duration",
                                "float32", "float64", "int16",  "int32",
                                "int64", "int8",   "string8",  "uint16",
                                "uint32", "uint64", "uint8"};
constexpr size_t kindCount = sizeof(kinds) / sizeof(kinds[0]);

Smp::AnySimple anyOf(Case &c, K k) {
  uint64_t raw = 0;
  switch (c.weighted({3, 1, 1})) {
  case 0:
    raw = c.u(UINT64_MAX);
    break;
  case 1:
    raw = static_cast<uint64_t>(c.range(-3, 3));
    break;
  default:
    raw = 1ULL << c.range(0, 63);
    raw -= c.u(1);
  }
  return fx::value(k, raw);
}
std::string text(Smp::AnySimple const &v) {
  switch (v.type) {
  case K::PTK_None:
    return "nothing";
  case K::PTK_Bool:
    return v.value.boolValue ? "true" : "false";
  case K::PTK_Char8:
    return "char " + std::to_string(static_cast<int>(v.value.char8Value));
  case K::PTK_Int8:
    return std::to_string(static_cast<int>(v.value.int8Value));
  case K::PTK_UInt8:
    return std::to_string(static_cast<unsigned>(v.value.uInt8Value));
  case K::PTK_Int16:
    return std::to_string(v.value.int16Value);
  case K::PTK_UInt16:
    return std::to_string(v.value.uInt16Value);
  case K::PTK_Int32:
    return std::to_string(v.value.int32Value);
  case K::PTK_UInt32:
    return std::to_string(v.value.uInt32Value);
  case K::PTK_Int64:
    return std::to_string(v.value.int64Value);
  case K::PTK_Duration:
    return "duration " + std::to_string(v.value.durationValue);
  case K::PTK_DateTime:
    return "date " + std::to_string(v.value.dateTimeValue);
  case K::PTK_UInt64:
    return std::to_string(v.value.uInt64Value);
  case K::PTK_Float32: {
    char b[64];
    snprintf(b, sizeof b, "float %a", v.value.float32Value);
    return b;
  }
  case K::PTK_Float64: {
    char b[64];
    snprintf(b, sizeof b, "double %a", v.value.float64Value);
    return b;
  }
  case K::PTK_String8:
    return "'" + str(static_cast<Smp::String8>(v)) + "'";
  default:
    return "?";
  }
}
#define SAME(GOT, WANT, WHAT)                                                  \
  do {                                                                         \
    Smp::AnySimple const &g_ = (GOT), &w_ = (WANT);                            \
    REQUIRE(g_.type == w_.type && text(g_) == text(w_),                        \
            WHAT << " is " << text(g_) << " of kind "                          \
                 << static_cast<int>(g_.type) << " instead of " << text(w_));  \
  } while (0)

// results and sinks of every kind
using Seen = std::vector<std::pair<std::string, Smp::AnySimple>>;
struct Operations : Xsmp::Tests::ModelWithOperations {
  using ModelWithOperations::ModelWithOperations;
  std::map<std::string, Smp::AnySimple> results;
  std::vector<std::string> calls;
  const Smp::AnySimple &next(const char *name) {
    calls.emplace_back(name);
    return results[name];
  }
  void voidOperation() override { calls.emplace_back("void"); }
#define OP(T, NAME, MEMBER)                                                    \
  T NAME##Operation() override { return next(#NAME).value.MEMBER; }
  OP(Smp::Bool, bool, boolValue)
  OP(Smp::Char8, char8, char8Value)
  OP(Smp::DateTime, dateTime, dateTimeValue)
  OP(Smp::Duration, duration, durationValue)
  OP(Smp::Float32, float32, float32Value)
  OP(Smp::Float64, float64, float64Value)
  OP(Smp::Int16, int16, int16Value)
  OP(Smp::Int32, int32, int32Value)
  OP(Smp::Int64, int64, int64Value)
  OP(Smp::Int8, int8, int8Value)
  OP(Smp::String8, string8, string8Value)
  OP(Smp::UInt16, uint16, uInt16Value)
  OP(Smp::UInt32, uint32, uInt32Value)
  OP(Smp::UInt64, uint64, uInt64Value)
  OP(Smp::UInt8, uint8, uInt8Value)
#undef OP
};
struct Events;
struct Received {
  Events *by;
  std::string name;
  const Smp::IObject *sender;
  Smp::AnySimple value;
};
std::vector<Received> received;
struct Events : Xsmp::Tests::ModelWithEvents {
  using ModelWithEvents::ModelWithEvents;
  void _void_esi(Smp::IObject *s) override {
    received.push_back({this, "void", s, {}});
  }
#define SINK(T, NAME, KIND)                                                    \
  void _##NAME##_esi(Smp::IObject *s, T v) override {                          \
    Smp::AnySimple a;                                                          \
    a.SetValue(K::KIND, v);                                                    \
    received.push_back({this, #NAME, s, a});                                   \
  }
  SINK(Smp::Bool, bool, PTK_Bool)
  SINK(Smp::Char8, char8, PTK_Char8)
  SINK(Smp::DateTime, dateTime, PTK_DateTime)
  SINK(Smp::Duration, duration, PTK_Duration)
  SINK(Smp::Float32, float32, PTK_Float32)
  SINK(Smp::Float64, float64, PTK_Float64)
  SINK(Smp::Int16, int16, PTK_Int16)
  SINK(Smp::Int32, int32, PTK_Int32)
  SINK(Smp::Int64, int64, PTK_Int64)
  SINK(Smp::Int8, int8, PTK_Int8)
  SINK(Smp::String8, string8, PTK_String8)
  SINK(Smp::UInt16, uint16, PTK_UInt16)
  SINK(Smp::UInt32, uint32, PTK_UInt32)
  SINK(Smp::UInt64, uint64, PTK_UInt64)
  SINK(Smp::UInt8, uint8, PTK_UInt8)
#undef SINK
  // 0..14: the kinds, 15: no argument; -1: with the parent as sender
  void emit(size_t k, Smp::IObject *sender, Smp::AnySimple const &v) {
    switch (k) {
#define EMIT(I, NAME, MEMBER)                                                  \
  case I:                                                                      \
    sender ? NAME##_eso.Emit(sender, v.value.MEMBER)                           \
           : NAME##_eso.Emit(v.value.MEMBER);                                  \
    break;
      EMIT(0, bool, boolValue)
      EMIT(1, char8, char8Value)
      EMIT(2, dateTime, dateTimeValue)
      EMIT(3, duration, durationValue)
      EMIT(4, float32, float32Value)
      EMIT(5, float64, float64Value)
      EMIT(6, int16, int16Value)
      EMIT(7, int32, int32Value)
      EMIT(8, int64, int64Value)
      EMIT(9, int8, int8Value)
      EMIT(10, string8, string8Value)
      EMIT(11, uint16, uInt16Value)
      EMIT(12, uint32, uInt32Value)
      EMIT(13, uint64, uInt64Value)
      EMIT(14, uint8, uInt8Value)
#undef EMIT
    default:
      sender ? void_eso.Emit(sender) : void_eso.Emit();
    }
  }
};

void operations(Case &c) {
  fx::World w(false);
  fx::registerTypes(w.sim.GetTypeRegistry());
  auto *m = new Operations("m", "", w.root(), &w.sim);
  w.sim.AddModel(m);
  auto *n = new Operations("n", "", w.root(), &w.sim);
  w.sim.AddModel(n);
  w.sim.Connect();
  unsigned done = 0;
  while (c.more(12)) {
    Case::Span span(c);
    auto *it = c.flip() ? m : n;
    auto k = c.idx(kindCount + 1);
    bool none = k == kindCount;
    std::string prefix = none ? "void" : prefixes[k];
    auto name = prefix + "Operation";
    Smp::AnySimple want;
    if (!none)
      want = it->results[prefix] = anyOf(c, kinds[k]);
    NOTE(c, "invoke " << name << ", which returns " << text(want));
    auto *op = it->GetOperations()->at(name.c_str());
    REQUIRE(op, "no operation " << name);
    auto *ret = op->GetReturnParameter();
    REQUIRE(!ret == none, name << " has or has not a result");
    if (ret)
      REQUIRE(ret->GetType()->GetPrimitiveTypeKind() == kinds[k],
              "the result of " << name << " has another kind");
    REQUIRE(w.sim.GetResolver()->ResolveAbsolute(
                ((it == m ? "/m/" : "/n/") + name).c_str()) == op,
            name << " is not resolved");
    Smp::AnySimple got;
    auto before = m->calls.size() + n->calls.size();
    if (c.flip()) {
      RequestOf r(it, name);
      REQUIRE(str(r->GetOperationName()) == name, "another operation");
      it->Invoke(r.r);
      got = none ? Smp::AnySimple{} : r->GetReturnValue();
    } else {
      auto *r = op->CreateRequest();
      op->Invoke(r);
      got = none ? Smp::AnySimple{} : r->GetReturnValue();
      op->DeleteRequest(r);
    }
    REQUIRE(m->calls.size() + n->calls.size() == before + 1 &&
                it->calls.back() == prefix,
            name << " was not called once");
    SAME(got, want, "the result");
    ++done;
  }
  if (done > 1)
    c.nontrivial();
}

void events(Case &c) {
  fx::World w(false);
  fx::registerTypes(w.sim.GetTypeRegistry());
  std::vector<Events *> models;
  auto n = c.range(1, 3);
  for (int i = 0; i < n; ++i) {
    models.push_back(
        new Events(("m" + std::to_string(i)).c_str(), "", w.root(), &w.sim));
    w.sim.AddModel(models.back());
  }
  w.sim.Connect();
  // the sinks of a source, in order
  std::map<std::pair<size_t, size_t>, std::vector<size_t>> links;
  unsigned seen = 0;
  auto nameOf = [](size_t k, bool sink) {
    return std::string(k == kindCount ? "void" : prefixes[k]) +
           (sink ? "_esi" : "_eso");
  };
  auto kindOf = [](size_t k) { return k == kindCount ? K::PTK_None : kinds[k]; };
  while (c.more(24)) {
    Case::Span span(c);
    auto from = c.idx(models.size());
    auto to = c.idx(models.size());
    auto k = c.idx(kindCount + 1);
    auto *source = models[from]->GetEventSource(nameOf(k, false).c_str());
    REQUIRE(source, "no source " << nameOf(k, false));
    switch (c.weighted({3, 1, 3, 1})) {
    case 0: { // subscribed, to the right sink or another one
      auto j = c.chance(1, 4) ? c.idx(kindCount + 1) : k;
      auto *sink = models[to]->GetEventSink(nameOf(j, true).c_str());
      REQUIRE(sink, "no sink " << nameOf(j, true));
      auto &l = links[{from, k}];
      std::string want;
      if (std::find(l.begin(), l.end(), to) != l.end() && j == k)
        want = "EventSinkAlreadySubscribed";
      else if (j != k)
        want = "InvalidEventSink";
      auto got = outcome([&] { source->Subscribe(sink); });
      NOTE(c, "m" << from << "/" << nameOf(k, false) << " -> m" << to << "/"
                  << nameOf(j, true) << ": " << got);
      REQUIRE(got == want, "Subscribe: '" << got << "' instead of '" << want
                                          << "'");
      if (want.empty())
        l.push_back(to);
      break;
    }
    case 1: {
      auto *sink = models[to]->GetEventSink(nameOf(k, true).c_str());
      auto &l = links[{from, k}];
      auto it = std::find(l.begin(), l.end(), to);
      std::string want = it == l.end() ? "EventSinkNotSubscribed" : "";
      auto got = outcome([&] { source->Unsubscribe(sink); });
      REQUIRE(got == want, "Unsubscribe: '" << got << "' instead of '" << want
                                            << "'");
      if (it != l.end())
        l.erase(it);
      break;
    }
    case 2: {
      Smp::AnySimple v;
      if (k < kindCount)
        v = anyOf(c, kinds[k]);
      Smp::IObject *sender = c.flip() ? models[to] : nullptr;
      received.clear();
      NOTE(c, "m" << from << "/" << nameOf(k, false) << " emits " << text(v));
      models[from]->emit(k, sender, v);
      auto &l = links[{from, k}];
      REQUIRE(received.size() == l.size(), received.size()
                                               << " notifications instead of "
                                               << l.size());
      Smp::IObject *want =
          sender ? sender : static_cast<Smp::IObject *>(models[from]);
      std::multiset<const Events *> reached;
      std::multiset<const Events *> wanted;
      for (size_t i = 0; i < l.size(); ++i) {
        auto &r = received[i];
        reached.insert(r.by);
        wanted.insert(models[l[i]]);
        REQUIRE(r.name + "_esi" == nameOf(k, true),
                "notification " << i << " reached another sink");
        REQUIRE(r.sender == want, "the sender is another one");
        SAME(r.value, v, "the value");
      }
      REQUIRE(reached == wanted, "another set of sinks is notified");
      seen += l.size();
      break;
    }
    default: { // the sink itself
      auto j = c.chance(1, 3) ? c.idx(kindCount + 1) : k;
      Smp::AnySimple v;
      if (j < kindCount)
        v = anyOf(c, kinds[j]);
      auto *sink = models[to]->GetEventSink(nameOf(k, true).c_str());
      REQUIRE(sink->GetEventArgType() == kindOf(k), "another argument");
      received.clear();
      auto got = outcome([&] { sink->Notify(models[from], v); });
      NOTE(c, "m" << to << "/" << nameOf(k, true) << " notified of " << text(v)
                  << ": " << got);
      if (j == k) {
        REQUIRE(got.empty() && received.size() == 1, "Notify: '" << got << "'");
        REQUIRE(received[0].by == models[to] &&
                    received[0].name + "_esi" == nameOf(k, true) &&
                    received[0].sender == models[from],
                "another sink or sender");
        SAME(received[0].value, v, "the value");
        ++seen;
      } else if (k < kindCount && j < kindCount) {
        // converted, or refused, but never silently something else
      }
      break;
    }
    }
  }
  if (seen > 1)
    c.nontrivial();
}

struct Properties : Xsmp::Tests::ModelWithProperties {
  using ModelWithProperties::ModelWithProperties;
};
void properties(Case &c) {
  fx::World w(false);
  Dir dir;
  fx::registerTypes(w.sim.GetTypeRegistry());
  Properties *m[2];
  for (int i = 0; i < 2; ++i)
    w.sim.AddModel(m[i] = new Properties(i ? "n" : "m", "", w.root(), &w.sim));
  w.sim.Connect();
  static const char *const types[] = {"enum", "string", "int", "float"};
  static const K kindOf[] = {K::PTK_Int32, K::PTK_String8, K::PTK_Int32,
                             K::PTK_Float64};
  // model of the values: of each instance, and of the class
  using Values = std::array<Smp::AnySimple, 4>;
  Values values[3];
  auto generate = [&](size_t t, bool &valid) {
    valid = true;
    switch (t) {
    case 0: {
      auto i = static_cast<Smp::Int32>(c.range(-1, 3));
      valid = i >= 0 && i <= 2;
      return Smp::AnySimple(K::PTK_Int32, i);
    }
    case 1: {
      auto s = c.str(12, "abc");
      valid = s.size() <= 10;
      return Smp::AnySimple(K::PTK_String8, s.c_str());
    }
    default:
      return anyOf(c, kindOf[t]);
    }
  };
  auto field = [&](size_t i, bool isStatic, size_t t) {
    auto name =
        std::string(isStatic ? "static_" : "") + types[t] + "_field";
    auto *f = dynamic_cast<Smp::ISimpleField *>(m[i]->GetField(name.c_str()));
    REQUIRE(f, "no field " << name);
    REQUIRE(w.sim.GetResolver()->ResolveAbsolute(
                ((i ? "/n/" : "/m/") + name).c_str()) == f,
            name << " is not resolved");
    return f;
  };
  // the fields start with known values
  for (size_t i = 0; i < 3; ++i)
    for (size_t t = 0; t < 4; ++t) {
      bool valid;
      do
        values[i][t] = generate(t, valid);
      while (!valid);
      field(i % 2, i == 2, t)->SetValue(values[i][t]);
    }
  auto verify = [&](Case &c) {
    for (size_t i = 0; i < 2; ++i)
      for (size_t t = 0; t < 4; ++t)
        for (int s = 0; s < 2; ++s) {
          auto &want = values[s ? 2 : i][t];
          SAME(field(i, s, t)->GetValue(), want,
               (s ? "static " : "") << types[t] << " field");
        }
  };
  std::vector<std::array<Values, 3>> saved;
  unsigned done = 0;
  while (c.more(16)) {
    Case::Span span(c);
    auto i = c.idx(2);
    bool isStatic = c.flip();
    auto t = c.idx(4);
    auto access = c.idx(3); // read and write, read only, write only
    auto name =
        std::string(access == 1 ? "readonly_" : access == 2 ? "writeonly_" : "") +
        (isStatic ? "static_" : "") + types[t] + "_property";
    auto *p = m[i]->GetProperties()->at(name.c_str());
    REQUIRE(p, "no property " << name);
    auto &value = values[isStatic ? 2 : i][t];
    switch (c.weighted({4, 4, 1, 1})) {
    case 0: {
      if (access == 2) {
        auto got = outcome([&] { p->GetValue(); });
        REQUIRE(got == "InvalidAccessKind", "GetValue of " << name << ": '"
                                                           << got << "'");
        break;
      }
      NOTE(c, "get " << name);
      if (c.flip()) {
        SAME(p->GetValue(), value, name);
      } else {
        RequestOf r(m[i], "get_" + name);
        m[i]->Invoke(r.r);
        SAME(r->GetReturnValue(), value, name);
      }
      ++done;
      break;
    }
    case 1: {
      bool valid;
      auto v = generate(t, valid);
      std::string got;
      bool direct = c.flip();
      if (direct) {
        got = outcome([&] { p->SetValue(v); });
      } else if (access == 1) {
        REQUIRE(m[i]->CreateRequest(("set_" + name).c_str()) == nullptr,
                "a request to write " << name);
        break;
      } else {
        RequestOf r(m[i], "set_" + name);
        got = outcome([&] {
          r->SetParameterValue(0, v);
          m[i]->Invoke(r.r);
        });
      }
      NOTE(c, "set " << name << " to " << text(v) << ": " << got);
      if (access == 1)
        REQUIRE(got == "InvalidAccessKind", "SetValue of " << name << ": '"
                                                           << got << "'");
      else
        REQUIRE(got.empty() == valid, "setting " << name << ": '" << got
                                                 << "'");
      if (access != 1 && valid) {
        value = v;
        ++done;
      }
      break;
    }
    case 2: {
      NOTE(c, "store");
      w.sim.Store((dir.path + "/" + std::to_string(saved.size())).c_str());
      saved.push_back({values[0], values[1], values[2]});
      break;
    }
    default: {
      if (saved.empty())
        break;
      auto k = c.idx(saved.size());
      NOTE(c, "restore " << k);
      w.sim.Restore((dir.path + "/" + std::to_string(k)).c_str());
      for (int j = 0; j < 3; ++j)
        values[j] = saved[k][j];
    }
    }
    verify(c);
  }
  if (done > 2)
    c.nontrivial();
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C33";
  s.rule = "three operations or more by different routes";
  s.subs = {{"counters", counters, 18000, 250000, 20},
            {"operations", operations, 8000, 100000},
            {"events", events, 8000, 100000, 24},
            {"properties", properties, 6000, 60000}};
  return s;
}
