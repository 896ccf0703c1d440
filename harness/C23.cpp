//! sources: full src-gen/Xsmp/Tests/Types/*.cpp
//! opt: -O1
// C23: state vectors of a simulation.
// Generated scripts of operations on the fields, events, subscriptions, clocks
// and models of a simulation are performed before a Store, after it (in the
// same simulation, or in a new one) and after the Restore. The restored
// simulation must show the stored values, keep the values that are not part of
// the state, and then behave like a simulation that was never disturbed.
#include "fx.h"
#include "fx_fields.h"
#include "fx_sim.h"
#include "fx_types.h"
#include <Smp/IPersist.h>
#include <Smp/Services/IScheduler.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Model.h>
#include <Xsmp/Persist.h>
#include <Xsmp/Persist/SmpIObject.h>
#include <Xsmp/Persist/StdMap.h>
#include <Xsmp/Persist/StdString.h>
#include <filesystem>
#include <fstream>
#include <memory>
#include <unistd.h>

using pbt::Case;
using EM = Smp::Services::IEventManager;
using S = Smp::SimulatorStateKind;

namespace {
constexpr int eps = 5;        // entry points per model
constexpr int userEvents = 5; // user events
constexpr Smp::DateTime epoch0 = 1'000'000'000'000;

struct Op {
  enum Kind {
    Set,
    Force,
    Fail,
    Custom,
    Post,
    Change,
    Subscribe,
    Emit,
    Query,
    Clock,
    Run,
    Initialise,
    count
  } kind;
  uint64_t a, b, c, d, e;
};
const char *const names[] = {"Set",       "Force", "Fail",  "Custom",
                             "Post",      "Change", "Subscribe", "Emit",
                             "Query",     "Clock", "Run",   "Initialise"};
using Script = std::vector<Op>;
Script script(Case &c, unsigned max) {
  Script s;
  while (c.more(max)) {
    Case::Span span(c);
    auto kind = static_cast<Op::Kind>(
        c.weighted({6, 2, 2, 3, 9, 3, 3, 2, 1, 1, 4, 1}));
    s.push_back({kind, c.range(0, 1 << 16), c.range(0, 40), c.range(0, 20),
                 c.range(0, 20), c.range(0, 8)});
  }
  return s;
}
std::string text(Script const &s) {
  std::string r;
  for (auto const &o : s)
    r += std::string(names[o.kind]) + " " + std::to_string(o.a) + "," +
         std::to_string(o.b) + "," + std::to_string(o.c) + "," +
         std::to_string(o.d) + "," + std::to_string(o.e) + "; ";
  return r;
}

struct Sim;
struct Points : Xsmp::EntryPointPublisher {
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> list;
};
// typed fields, failures
struct Typed : Xsmp::Model,
               Xsmp::FallibleModel,
               Xsmp::Composite,
               Points {
  fx::TypedFields f;
  Xsmp::Container<Smp::IModel> kids;
  Typed(Smp::String8 name, Smp::IComposite *parent, Smp::ISimulator *sim)
      : Model(name, "", parent, sim),
        f(sim->GetTypeRegistry(), static_cast<Smp::IModel *>(this)),
        kids("kids", "", this, 0, -1) {}
  void Publish(Smp::IPublication *p) override {
    Model::Publish(p);
    for (auto *x : f.list())
      p->PublishField(x);
  }
};
// fields published by address
struct Published : Xsmp::Model, Points {
  fx::PublishedFields f;
  using Model::Model;
  void Publish(Smp::IPublication *p) override {
    Model::Publish(p);
    f.publish(p);
  }
};
// a state of its own, and a field
struct Custom : Xsmp::Service, Smp::IPersist, Points {
  std::map<int, std::string> map;
  const Smp::IEntryPoint *chosen = nullptr;
  Smp::Int32 field = 0, temporary = 0;
  Smp::ISimulator *sim;
  Custom(Smp::String8 name, Smp::IComposite *parent, Smp::ISimulator *s)
      : Service(name, "", parent, s), sim(s) {}
  void Publish(Smp::IPublication *p) override {
    Service::Publish(p);
    p->PublishField("field", "", &field);
    p->PublishField("temporary", "", &temporary, Smp::ViewKind::VK_None, false);
  }
  void Store(Smp::IStorageWriter *w) override {
    Xsmp::Persist::Store(sim, static_cast<Smp::IService *>(this), w, map,
                         chosen);
  }
  void Restore(Smp::IStorageReader *r) override {
    Xsmp::Persist::Restore(sim, static_cast<Smp::IService *>(this), r, map,
                           chosen);
  }
};

struct Snapshot {
  std::vector<std::string> state, other;
};

struct Sim {
  std::string dir;
  fx::World w{false};
  Typed *root, *nested;
  Published *published;
  Custom *custom;
  fx::Walk walk;
  std::vector<Smp::IEntryPoint *> points;
  std::vector<Smp::Services::EventId> ids;
  std::vector<std::string> trace;
  bool storeAtStandby = false;
  std::string storeOutcome;
  unsigned executed = 0;

  explicit Sim(std::string const &d) : dir(d) {
    auto *s = w.isim();
    fx::registerTypes(s->GetTypeRegistry());
    auto *parent = w.root();
    s->AddModel(root = new Typed("typed", parent, s));
    root->kids.AddComponent(nested = new Typed("nested", root, s));
    root->kids.AddComponent(published =
                                new Published("published", "", root, s));
    s->AddService(custom = new Custom("custom", parent, s));
    add(root);
    add(nested);
    add(published);
    add(custom);
    s->Publish();
    s->Configure();
    s->Connect();
    for (Smp::IComponent *c : std::initializer_list<Smp::IComponent *>{
             static_cast<Smp::IModel *>(root),
             static_cast<Smp::IModel *>(nested),
             static_cast<Smp::IModel *>(published),
             static_cast<Smp::IService *>(custom)})
      for (auto *f : *c->GetFields())
        walk.visit(f, true, std::string(c->GetName()) + "/");
    w.timeKeeper->SetEpochTime(epoch0);
    w.timeKeeper->SetMissionStartTime(epoch0);
    // stores when the simulation comes back to standby
    custom->list.push_back(std::make_unique<Xsmp::EntryPoint>(
        "store", "", static_cast<Xsmp::EntryPointPublisher *>(custom), [this] {
          if (storeAtStandby) {
            storeAtStandby = false;
            storeOutcome = fx::outcome([this] { w.sim.Store(dir.c_str()); });
          }
        }));
    w.events->Subscribe(EM::SMP_EnterStandbyId, custom->list.back().get());
  }
  void add(Points *p) {
    for (int i = 0; i < eps; ++i) {
      auto k = static_cast<int>(points.size());
      p->list.push_back(std::make_unique<Xsmp::EntryPoint>(
          ("ep" + std::to_string(i)).c_str(), "",
          static_cast<Xsmp::EntryPointPublisher *>(p),
          [this, k] { execute(k); }));
      points.push_back(p->list.back().get());
    }
  }
  void execute(int k) {
    ++executed;
    trace.push_back("ep" + std::to_string(k) + " at " +
                    std::to_string(w.timeKeeper->GetSimulationTime()) +
                    " mission " +
                    std::to_string(w.timeKeeper->GetMissionTime()) +
                    " field " + std::to_string(published->f.i32));
    published->f.i32 = published->f.i32 % 1000 * 3 + k;
    if (k % 6 == 5 && executed % 3 == 0)
      trace.push_back("immediate " +
                      std::to_string(w.scheduler->AddImmediateEvent(
                          points[static_cast<size_t>(k - 1)])));
    if (k % 7 == 6)
      w.sim.Hold(k != 6);
  }
  void run(Script const &s) {
    for (auto const &o : s) {
      auto result = fx::outcome([&] { perform(o); });
      trace.push_back(std::string(names[o.kind]) + " -> " + result);
    }
  }
  void perform(Op const &o) {
    auto pick = [](auto &list, uint64_t i) -> auto & {
      return list[i % list.size()];
    };
    auto user = [&](uint64_t i) {
      return w.events->QueryEventId(
          ("user" + std::to_string(i % userEvents)).c_str());
    };
    switch (o.kind) {
    case Op::Set: {
      auto &l = pick(walk.leaves, o.a);
      fx::set(l, fx::value(fx::kind(l), o.b));
      break;
    }
    case Op::Force: {
      auto *f = pick(walk.forcible, o.a).first;
      switch (o.c % 3) {
      case 0:
        f->Force(fx::value(f->GetPrimitiveTypeKind(), o.b));
        break;
      case 1:
        f->Freeze();
        break;
      default:
        f->Unforce();
      }
      break;
    }
    case Op::Fail: {
      auto *f = pick(walk.failures, o.a).first;
      if (o.b % 3)
        f->Fail();
      else
        f->Unfail();
      break;
    }
    case Op::Custom:
      switch (o.c % 4) {
      case 0:
        custom->map[static_cast<int>(o.a % 8)] = std::string(o.b, 'x');
        break;
      case 1:
        custom->map.erase(static_cast<int>(o.a % 8));
        break;
      case 2:
        custom->chosen = o.b % 4 ? pick(points, o.a) : nullptr;
        break;
      default:
        custom->field = static_cast<int>(o.b);
        custom->temporary = static_cast<int>(o.c);
      }
      break;
    case Op::Post: {
      auto *p = pick(points, o.a);
      auto d = static_cast<Smp::Duration>(o.b);
      auto cycle = static_cast<Smp::Duration>(o.c);
      auto repeat = static_cast<Smp::Int64>(o.d) - 1;
      if (repeat && !cycle)
        cycle = 1;
      auto *t = w.timeKeeper;
      Smp::Services::EventId id = -1;
      switch (o.e) {
      case 0:
        id = w.scheduler->AddImmediateEvent(p);
        break;
      case 1:
      case 2:
        id = w.scheduler->AddMissionTimeEvent(p, t->GetMissionTime() + d, cycle,
                                              repeat);
        break;
      case 3:
      case 4:
        id = w.scheduler->AddEpochTimeEvent(p, t->GetEpochTime() + d, cycle,
                                            repeat);
        break;
      case 5: // in ten hours
        id = w.scheduler->AddZuluTimeEvent(
            p, t->GetZuluTime() + 36'000'000'000'000 + d, cycle, repeat);
        break;
      default:
        id = w.scheduler->AddSimulationTimeEvent(p, d, cycle, repeat);
      }
      ids.push_back(id);
      trace.push_back("event " + std::to_string(id));
      break;
    }
    case Op::Change: {
      if (ids.empty())
        break;
      auto id = pick(ids, o.a);
      switch (o.e % 5) {
      case 0:
        w.scheduler->RemoveEvent(id);
        break;
      case 1:
        w.scheduler->SetEventSimulationTime(id,
                                            static_cast<Smp::Duration>(o.b));
        break;
      case 2:
        w.scheduler->SetEventCycleTime(id, static_cast<Smp::Duration>(o.c));
        break;
      case 3:
        w.scheduler->SetEventRepeat(id, static_cast<Smp::Int64>(o.d) - 1);
        break;
      default:
        w.scheduler->SetEventMissionTime(
            id,
            w.timeKeeper->GetMissionTime() + static_cast<Smp::Duration>(o.b));
      }
      break;
    }
    case Op::Subscribe:
      if (o.c % 3)
        w.events->Subscribe(user(o.b), pick(points, o.a));
      else
        w.events->Unsubscribe(user(o.b), pick(points, o.a));
      break;
    case Op::Emit:
      w.events->Emit(user(o.b));
      break;
    case Op::Query:
      trace.push_back("id " +
                      std::to_string(w.events->QueryEventId(
                          ("name" + std::to_string(o.c)).c_str())));
      break;
    case Op::Clock: {
      auto *t = w.timeKeeper;
      auto d = static_cast<Smp::Duration>(o.b);
      switch (o.e % 3) {
      case 0:
        t->SetEpochTime(t->GetEpochTime() + d);
        break;
      case 1:
        t->SetMissionStartTime(t->GetMissionStartTime() - d);
        break;
      default:
        t->SetMissionTime(t->GetMissionTime() + d);
      }
      break;
    }
    case Op::Run:
      w.sim.Run(static_cast<Smp::Duration>(o.b));
      break;
    case Op::Initialise:
      w.sim.Initialise();
      break;
    default:
      break;
    }
  }
  Snapshot snapshot() {
    Snapshot s;
    for (auto const &l : walk.leaves)
      (l.state ? s.state : s.other)
          .push_back(l.path + " = " + fx::show(fx::get(l)));
    for (auto const &f : walk.failures)
      (f.second ? s.state : s.other)
          .push_back(std::string(f.first->GetName()) +
                     (f.first->IsFailed() ? " failed" : " working"));
    for (auto const &f : walk.forcible)
      (f.second ? s.state : s.other)
          .push_back(std::string(f.first->GetName()) +
                     (f.first->IsForced() ? " forced" : " free"));
    auto *t = w.timeKeeper;
    s.state.push_back("simulation time " +
                      std::to_string(t->GetSimulationTime()));
    s.state.push_back("epoch time " + std::to_string(t->GetEpochTime()));
    s.state.push_back("mission time " + std::to_string(t->GetMissionTime()));
    s.state.push_back("mission start " +
                      std::to_string(t->GetMissionStartTime()));
    for (auto const &m : custom->map)
      s.state.push_back("custom " + std::to_string(m.first) + ": " + m.second);
    s.state.push_back(
        "chosen " +
        (custom->chosen ? std::string(custom->chosen->GetName()) : ""));
    return s;
  }
  // the end of the state before a Store
  void last(Script const &s, bool hooked, Op const &o) {
    run(s);
    if (!hooked)
      storeOutcome = fx::outcome([this] { w.sim.Store(dir.c_str()); });
    else {
      storeAtStandby = true;
      run({o});
      if (storeAtStandby) { // aborted run
        storeAtStandby = false;
        storeOutcome = "not stored";
      }
    }
    trace.push_back("stored");
  }
};

struct Dir {
  std::string path;
  Dir() {
    char t[] = "/tmp/c23.XXXXXX";
    path = mkdtemp(t);
  }
  ~Dir() { std::filesystem::remove_all(path); }
};

void same(std::vector<std::string> const &got,
          std::vector<std::string> const &want, const char *what) {
  for (size_t i = 0; i < got.size() || i < want.size(); ++i) {
    auto g = i < got.size() ? got[i] : "(nothing)";
    auto x = i < want.size() ? want[i] : "(nothing)";
    REQUIRE(g == x, what << ": '" << g << "' instead of '" << x << "'");
  }
}

void states(Case &c) {
  Dir d;
  auto s1 = script(c, 25), s2 = script(c, 20), s3 = script(c, 25);
  s3.push_back({Op::Run, 0, 40, 0, 0, 0});
  bool hooked = c.chance(1, 4);
  Op lastRun{Op::Run, 0, static_cast<uint64_t>(c.range(0, 40)), 0, 0, 0};
  bool fresh = c.flip();
  NOTE(c, "before: " << text(s1)
                     << (hooked ? "stored when Run(" +
                                      std::to_string(lastRun.b) + ") is held; "
                                : ""));
  NOTE(c, (fresh ? "in a new simulation: " : "disturbance: ") << text(s2));

  auto a = std::make_unique<Sim>(d.path + "/a");
  a->last(s1, hooked, lastRun);
  REQUIRE(a->storeOutcome.empty(), "Store: " << a->storeOutcome);
  auto stored = a->snapshot();
  auto ids = a->ids;
  auto executed = a->executed;
  if (fresh) {
    a = std::make_unique<Sim>(d.path + "/a");
  }
  a->run(s2);
  // faults
  auto fault = c.weighted({4, 1, 1, 1, 1});
  if (fault) {
    auto before = a->snapshot();
    std::string o;
    const char *what = "", *want = "CannotRestore";
    if (fault == 1) {
      what = "no file";
      o = fx::outcome([&] { a->w.sim.Restore((d.path + "/none").c_str()); });
    } else if (fault == 2) {
      what = "truncated";
      std::filesystem::create_directory(d.path + "/cut");
      std::filesystem::copy(d.path + "/a/simulator.bin",
                            d.path + "/cut/simulator.bin");
      auto size = std::filesystem::file_size(d.path + "/cut/simulator.bin");
      auto cut = c.idx(size);
      NOTE(c, "truncated at byte " << cut << " of " << size);
      std::filesystem::resize_file(d.path + "/cut/simulator.bin", cut);
      o = fx::outcome([&] { a->w.sim.Restore((d.path + "/cut").c_str()); });
    } else if (fault == 3) {
      what = "no directory";
      want = "CannotStore";
      std::ofstream(d.path + "/file") << "x";
      o = fx::outcome([&] { a->w.sim.Store((d.path + "/file").c_str()); });
    } else {
      what = "disk full";
      want = "CannotStore";
      std::filesystem::create_directory(d.path + "/full");
      std::filesystem::create_symlink("/dev/full",
                                      d.path + "/full/simulator.bin");
      o = fx::outcome([&] { a->w.sim.Store((d.path + "/full").c_str()); });
    }
    NOTE(c, "fault: " << what);
    REQUIRE(o == want, what << ": '" << o << "' instead of " << want);
    REQUIRE(a->w.isim()->GetState() == S::SSK_Standby,
            what << ": state " << fx::stateName(a->w.isim()->GetState()));
    if (fault != 2)
      same(a->snapshot().state, before.state, "state after the fault");
    same(a->snapshot().other, before.other, "other values after the fault");
  }
  auto transient = a->snapshot().other;
  auto o = fx::outcome([&] { a->w.sim.Restore((d.path + "/a").c_str()); });
  REQUIRE(o.empty(), "Restore: " << o);
  REQUIRE(a->w.isim()->GetState() == S::SSK_Standby,
          "state " << fx::stateName(a->w.isim()->GetState()));
  auto restored = a->snapshot();
  same(restored.state, stored.state, "restored state");
  same(restored.other, transient, "not part of the state");

  // the same simulation, undisturbed
  auto b = std::make_unique<Sim>(d.path + "/b");
  b->last(s1, hooked, lastRun);
  a->trace.clear();
  b->trace.clear();
  a->ids = ids;
  a->executed = executed;
  a->run(s3);
  b->run(s3);
  if (s3.size())
    NOTE(c, "after: " << text(s3));
  same(a->trace, b->trace, "after the restore");
  same(a->snapshot().state, b->snapshot().state, "state after the restore");
  unsigned runs = 0;
  for (auto const &t : b->trace)
    runs += t.rfind("ep", 0) == 0;
  if (s1.size() >= 3 && runs >= 2)
    c.nontrivial();
  if (hooked)
    c.label("stored by a subscriber");
  if (fault)
    c.label("fault");
  if (runs)
    c.label("events after the restore");
}

// ------------------------------------------------------------- zulu events
// a time keeper whose zulu time is set by the test
struct Clock : Xsmp::Service, Smp::Services::ITimeKeeper {
  using Service::Service;
  std::atomic<Smp::DateTime> now{0};
  Smp::Duration GetSimulationTime() const override { return 0; }
  Smp::DateTime GetMissionStartTime() const override { return 0; }
  Smp::DateTime GetEpochTime() const override { return 0; }
  Smp::Duration GetMissionTime() const override { return 0; }
  Smp::DateTime GetZuluTime() const override { return now; }
  void SetEpochTime(Smp::DateTime) override {}
  void SetMissionStartTime(Smp::DateTime) override {}
  void SetMissionTime(Smp::Duration) override {}
  void SetSimulationTime(Smp::Duration) override {}
};
struct ZuluSim {
  Xsmp::Simulator sim;
  Clock *clock;
  Smp::Services::IScheduler *scheduler;
  std::mutex mutex;
  std::vector<int> trace;
  struct Owner : Xsmp::Service, Points {
    using Service::Service;
  } *owner;
  ZuluSim() {
    auto *root =
        static_cast<Smp::IComposite *>(static_cast<Smp::ISimulator *>(&sim));
    sim.AddService(new fx::SilentLogger("XsmpLogger", "", root, &sim));
    sim.AddService(clock = new Clock("XsmpTimeKeeper", "", root, &sim));
    sim.AddService(
        new Xsmp::Services::XsmpResolver("XsmpResolver", "", root, &sim));
    sim.AddService(new Xsmp::Services::XsmpEventManager("XsmpEventManager", "",
                                                        root, &sim));
    sim.AddService(new Xsmp::Services::XsmpLinkRegistry("XsmpLinkRegistry", "",
                                                        root, &sim));
    auto *x = new Xsmp::Services::XsmpScheduler("XsmpScheduler", "", root, &sim);
    sim.AddService(x);
    scheduler = x;
    sim.AddService(owner = new Owner("owner", "", root, &sim));
    for (int i = 0; i < eps; ++i)
      owner->list.push_back(std::make_unique<Xsmp::EntryPoint>(
          ("ep" + std::to_string(i)).c_str(), "",
          static_cast<Xsmp::EntryPointPublisher *>(owner), [this, i] {
            std::scoped_lock lck{mutex};
            trace.push_back(i);
          }));
    sim.Connect();
  }
  std::vector<int> executed(size_t n) {
    // the last executions, then nothing else
    for (int i = 0; i < 4000; ++i) {
      {
        std::scoped_lock lck{mutex};
        if (trace.size() > n)
          return trace;
        if (trace.size() == n && i)
          break;
      }
      if (i)
        std::this_thread::sleep_for(std::chrono::microseconds(i < 20 ? 50 : 1000));
    }
    std::this_thread::sleep_for(std::chrono::microseconds(100));
    std::scoped_lock lck{mutex};
    return trace;
  }
};
void zulu(Case &c) {
  Dir d;
  struct Event {
    int64_t time, cycle, repeat;
    int ep;
  };
  // of the stored simulation, by identifier
  std::map<Smp::Services::EventId, Event> events;
  auto post = [&](ZuluSim &s, bool keep) {
    while (c.more(8)) {
      Case::Span span(c);
      Event e{c.range(1, 30), c.range(1, 12), c.range(0, 4),
              static_cast<int>(c.idx(eps))};
      auto id = s.scheduler->AddZuluTimeEvent(
          s.owner->list[static_cast<size_t>(e.ep)].get(), e.time, e.cycle,
          e.repeat);
      NOTE(c, (keep ? "" : "other ") << "event " << id << ": ep" << e.ep
                                     << " at " << e.time << " cycle "
                                     << e.cycle << " repeat " << e.repeat);
      if (keep)
        events[id] = e;
    }
  };
  auto a = std::make_unique<ZuluSim>();
  post(*a, true);
  auto o = fx::outcome([&] { a->sim.Store(d.path.c_str()); });
  REQUIRE(o.empty(), "Store: " << o);
  if (c.flip())
    a = std::make_unique<ZuluSim>();
  post(*a, false);
  o = fx::outcome([&] { a->sim.Restore(d.path.c_str()); });
  REQUIRE(o.empty(), "Restore: " << o);
  std::vector<int> want;
  int64_t now = 0;
  unsigned changes = 0;
  while (now < 100) {
    // changes of the restored events
    while (!events.empty() && c.chance(1, 3)) {
      Case::Span span(c);
      auto it = std::next(events.begin(), static_cast<long>(c.idx(events.size())));
      ++changes;
      if (c.flip()) {
        NOTE(c, "at " << now << " remove " << it->first);
        o = fx::outcome([&] { a->scheduler->RemoveEvent(it->first); });
        events.erase(it);
      } else {
        auto t = now + c.range(1, 20);
        NOTE(c, "at " << now << " move " << it->first << " to " << t);
        o = fx::outcome(
            [&] { a->scheduler->SetEventZuluTime(it->first, t); });
        it->second.time = t;
      }
      REQUIRE(o.empty(), "change: " << o);
    }
    now += c.range(1, 40);
    // executions until now, by time and identifier
    while (true) {
      auto next = events.end();
      for (auto it = events.begin(); it != events.end(); ++it)
        if (next == events.end() || it->second.time < next->second.time)
          next = it;
      if (next == events.end() || next->second.time > now)
        break;
      want.push_back(next->second.ep);
      if (next->second.repeat-- == 0)
        events.erase(next);
      else
        next->second.time += next->second.cycle;
    }
    a->clock->now = now;
    auto got = a->executed(want.size());
    REQUIRE(got == want, "at " << now << ": " << got.size()
                               << " executions instead of " << want.size()
                               << ", or another order");
  }
  if (want.size() >= 3)
    c.nontrivial();
  if (changes)
    c.label("changed");
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s{"C23",
               "states: at least three operations before the store, and two "
               "entry points executed after the restore; zulu: at least three "
               "executions",
               {{"states", states, 8000, 800000, 60},
                {"zulu", zulu, 20000, 1000000, 60}},
               {},
               {}};
  return s;
}
