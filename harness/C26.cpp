//! sources: full
//! san: thread
//! opt: -O1
// C26: the event manager gives every event name one identifier, and Emit calls
// exactly the entry points subscribed when it was called, in order.
#include "fx.h"
#include "fx_sim.h"
#include <Smp/Services/IEventManager.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <thread>

using fx::outcome;
using pbt::Case;
using EM = Smp::Services::IEventManager;
using Id = Smp::Services::EventId;

namespace {
struct Predefined {
  const char *name;
  Id id;
};
// (SMP_EnterAborting is not emitted nor subscribed: the simulator emits it)
const Predefined predefined[] = {
    {EM::SMP_LeaveConnecting, EM::SMP_LeaveConnectingId},
    {EM::SMP_EnterInitialising, EM::SMP_EnterInitialisingId},
    {EM::SMP_LeaveInitialising, EM::SMP_LeaveInitialisingId},
    {EM::SMP_EnterStandby, EM::SMP_EnterStandbyId},
    {EM::SMP_LeaveStandby, EM::SMP_LeaveStandbyId},
    {EM::SMP_EnterExecuting, EM::SMP_EnterExecutingId},
    {EM::SMP_LeaveExecuting, EM::SMP_LeaveExecutingId},
    {EM::SMP_EnterStoring, EM::SMP_EnterStoringId},
    {EM::SMP_LeaveStoring, EM::SMP_LeaveStoringId},
    {EM::SMP_EnterRestoring, EM::SMP_EnterRestoringId},
    {EM::SMP_LeaveRestoring, EM::SMP_LeaveRestoringId},
    {EM::SMP_EnterExiting, EM::SMP_EnterExitingId},
    {EM::SMP_EnterAborting, EM::SMP_EnterAbortingId},
    {EM::SMP_EpochTimeChanged, EM::SMP_EpochTimeChangedId},
    {EM::SMP_MissionTimeChanged, EM::SMP_MissionTimeChangedId},
    {EM::SMP_EnterReconnecting, EM::SMP_EnterReconnectingId},
    {EM::SMP_LeaveReconnecting, EM::SMP_LeaveReconnectingId},
    {EM::SMP_PreSimTimeChange, EM::SMP_PreSimTimeChangeId},
    {EM::SMP_PostSimTimeChange, EM::SMP_PostSimTimeChangeId}};

// one emission under way
struct Frame {
  Id id;
  std::vector<size_t> expected; // the subscribers when Emit was called
  size_t pos = 0;
  bool threw = false;
};
struct Events {
  Case &c;
  // the simulator still emits SMP_EnterExiting when it is destroyed
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> eps;
  fx::World w;
  bool done = false;
  std::map<std::string, Id> known;         // names -> identifiers
  std::vector<Id> ids;                     // the identifiers used here
  std::map<Id, std::vector<size_t>> subscribed; // the model
  std::vector<Frame> frames;
  unsigned actions = 0;
  bool aborted = false;

  explicit Events(Case &x) : c(x) {
    for (auto const &p : predefined)
      known.emplace(p.name, p.id);
    auto n = c.range(1, 6);
    for (size_t i = 0; i < n; ++i)
      eps.push_back(std::make_unique<Xsmp::EntryPoint>(
          ("ep" + std::to_string(i)).c_str(), "", w.object(),
          [this, i] { executed(i); }));
  }

  std::string name() {
    switch (c.weighted({6, 3, 2, 1, 1})) {
    case 0: // a small pool of names that look alike
      return c.pick({"a", "b", "ab", "aa", "A", "a b", "a/b", "SMP_", "abc",
                     "SMP_EnterStandby2", "SMP_enterStandby"});
    case 1: { // a known one
      auto it = known.begin();
      std::advance(it, c.idx(known.size()));
      return it->first;
    }
    case 2:
      return c.str(12, "ab1_");
    case 3:
      return std::string(c.range(1, 300), c.flip() ? 'x' : 'y');
    default:
      return "";
    }
  }
  Id id() {
    switch (c.weighted({12, 2, 1})) {
    case 0:
      if (!ids.empty())
        return ids[c.idx(ids.size())];
      [[fallthrough]];
    case 1: {
      auto i = predefined[c.idx(std::size(predefined))].id;
      if (i == EM::SMP_EnterAbortingId)
        i = EM::SMP_EnterStandbyId;
      return i;
    }
    default:
      return c.flip() ? c.integer<Id>()
                      : static_cast<Id>(c.range(0, known.size() + 4)) - 1;
    }
  }
  bool valid(Id id) const {
    return std::any_of(known.begin(), known.end(),
                       [id](auto &p) { return p.second == id; });
  }

  void query() {
    Case::Span s(c);
    auto n = name();
    bool null = n.empty() && c.flip();
    Id got{};
    auto err = outcome(
        [&] { got = w.events->QueryEventId(null ? nullptr : n.c_str()); });
    NOTE(c, "QueryEventId(" << (null ? "null" : "\"" + n + "\"") << ") -> "
                            << err << got);
    if (n.empty()) {
      REQUIRE(err == "InvalidEventName", "an empty name: " << err);
      c.label("empty name");
      return;
    }
    REQUIRE(err.empty(), "QueryEventId(" << n << ") throws " << err);
    if (auto it = known.find(n); it != known.end()) {
      REQUIRE(got == it->second, n << " is " << got << ", was " << it->second);
      c.label("known name");
    } else {
      REQUIRE(!valid(got), "the new event " << n << " has the identifier "
                                             << got << " of another one");
      known.emplace(n, got);
      c.label("new name");
    }
    if (got != EM::SMP_EnterAbortingId)
      ids.push_back(got);
  }
  void subscribe(Id e, size_t k) {
    NOTE(c, "Subscribe(" << e << ", ep" << k << ")");
    auto err = outcome([&] { w.events->Subscribe(e, eps[k].get()); });
    auto it = subscribed.find(e);
    bool already = it != subscribed.end() &&
                   std::count(it->second.begin(), it->second.end(), k);
    const char *want = !valid(e) ? "InvalidEventId"
                       : already ? "EntryPointAlreadySubscribed"
                                 : "";
    REQUIRE(err == want, "Subscribe(" << e << ", ep" << k << "): " << err
                                      << " expected " << want);
    c.label(*want ? want : "subscribe");
    if (!*want)
      subscribed[e].push_back(k);
  }
  void unsubscribe(Id e, size_t k) {
    NOTE(c, "Unsubscribe(" << e << ", ep" << k << ")");
    auto err = outcome([&] { w.events->Unsubscribe(e, eps[k].get()); });
    auto &list = subscribed[e];
    auto it = std::find(list.begin(), list.end(), k);
    const char *want = !valid(e)          ? "InvalidEventId"
                       : it == list.end() ? "EntryPointNotSubscribed"
                                          : "";
    REQUIRE(err == want, "Unsubscribe(" << e << ", ep" << k << "): " << err
                                        << " expected " << want);
    c.label(*want ? want : "unsubscribe");
    if (!*want)
      list.erase(it);
  }
  void emit(Id e) {
    auto sync = c.chance(3, 4);
    NOTE(c, "Emit(" << e << ") {");
    auto depth = frames.size();
    frames.push_back({e, subscribed[e]});
    auto err = outcome([&] {
      sync ? w.events->Emit(e) : w.events->Emit(e, false);
    });
    REQUIRE(frames.size() == depth + 1, "frames");
    auto f = frames.back();
    frames.pop_back();
    NOTE(c, "} " << err);
    auto want = valid(e) ? "" : "InvalidEventId";
    REQUIRE(err == want,
            "Emit(" << e << "): " << err << " expected " << want);
    REQUIRE(f.pos == f.expected.size(),
            "Emit(" << e << ") executed " << f.pos << " entry points of "
                    << f.expected.size());
    if (f.expected.size() > 1)
      c.nontrivial();
    if (f.expected != subscribed[e])
      c.label("changed while emitting");
    if (f.threw)
      c.label("exception");
    if (depth)
      c.label("nested");
    auto state = w.sim.GetState();
    REQUIRE(state == (aborted ? Smp::SimulatorStateKind::SSK_Aborting
                              : Smp::SimulatorStateKind::SSK_Standby),
            "state " << fx::stateName(state));
  }
  void executed(size_t k) {
    if (done)
      return;
    NOTE(c, "ep" << k);
    REQUIRE(!frames.empty(), "ep" << k << " executed without emission");
    auto &f = frames.back();
    REQUIRE(f.pos < f.expected.size(),
            "ep" << k << " executed after the last subscriber of " << f.id);
    REQUIRE(f.expected[f.pos] == k, "ep" << k << " executed instead of ep"
                                         << f.expected[f.pos]);
    ++f.pos;
    auto e = f.id;
    if (actions < 20 && c.chance(1, 3)) {
      ++actions;
      Case::Span sp(c);
      auto event = c.chance(3, 4) ? e : id();
      auto who = c.chance(1, 3) ? k : c.idx(eps.size());
      switch (c.weighted({5, 4, 3, 1})) {
      case 0:
        unsubscribe(event, who);
        break;
      case 1:
        subscribe(event, who);
        break;
      case 2:
        if (frames.size() < 3)
          emit(event);
        break;
      default:
        query();
      }
    }
    if (c.chance(1, 40)) {
      frames.back().threw = true;
      aborted = true;
      NOTE(c, "throw");
      switch (c.idx(3)) {
      case 0:
        w.events->Unsubscribe(-5, eps[k].get()); // throws an Smp exception
        break;
      case 1:
        throw std::runtime_error("two");
      default:
        throw 3;
      }
    }
  }
  void run() {
    while (c.more(40)) {
      Case::Span sp(c);
      switch (c.weighted({4, 8, 4, 6})) {
      case 0:
        query();
        break;
      case 1:
        subscribe(id(), c.idx(eps.size()));
        break;
      case 2:
        unsubscribe(id(), c.idx(eps.size()));
        break;
      default:
        emit(id());
      }
    }
    // every event is still what it was
    for (auto const &[n, i] : known)
      REQUIRE(w.events->QueryEventId(n.c_str()) == i, n << " has changed");
    actions = 1000;
    for (auto const &e : std::map<Id, std::vector<size_t>>(subscribed))
      if (valid(e.first))
        emit(e.first);
    done = true;
  }
};
void histories(Case &c) {
  Events e(c);
  try {
    e.run();
  } catch (...) {
    e.done = true;
    throw;
  }
}

// ---------------------------------------------------------------------------
// several threads
struct Worker {
  std::string error;
  std::map<std::string, Id> ids;
  std::vector<std::pair<int, size_t>> subscribed; // event, entry point; in order
};
void threads(Case &c) {
  auto n = static_cast<size_t>(c.range(2, 4));
  struct Step {
    int op; // 0 query, 1 subscribe, 2 unsubscribe, 3 emit, 4 meet the others
    int event;
    size_t ep;
  };
  constexpr size_t perThread = 2;
  auto events = static_cast<int>(c.range(1, 4));
  auto rounds = c.range(1, 4);
  NOTE(c, n << " threads, " << events << " events, " << rounds << " rounds");
  std::vector<std::vector<Step>> plans(n);
  for (unsigned r = 0; r < rounds; ++r)
    for (size_t t = 0; t < n; ++t) {
      auto &p = plans[t];
      p.push_back({4, 0, 0});
      // a name that no thread has used before
      p.push_back({0, events + static_cast<int>(r), 0});
      p.push_back({1, events + static_cast<int>(r), c.idx(perThread)});
      while (c.more(8))
        p.push_back({static_cast<int>(c.weighted({2, 5, 3, 5})),
                     static_cast<int>(c.idx(static_cast<size_t>(events))),
                     c.idx(perThread)});
    }
  auto eventName = [](int e) { return "event" + std::to_string(e); };

  fx::World w;
  std::vector<Worker> workers(n);
  // executions of an entry point, per thread that emits
  static thread_local size_t me;
  me = n;
  struct Ep {
    std::vector<std::atomic<int>> by;
    std::unique_ptr<Xsmp::EntryPoint> ep;
    explicit Ep(size_t k) : by(k) {}
  };
  std::vector<std::unique_ptr<Ep>> eps;
  std::vector<size_t> order;
  for (size_t i = 0; i < n * perThread; ++i) {
    auto e = std::make_unique<Ep>(n + 1);
    auto *p = e.get();
    e->ep = std::make_unique<Xsmp::EntryPoint>(
        ("ep" + std::to_string(i)).c_str(), "", w.object(),
        [p, &order, n, i] {
          ++p->by[me];
          if (me == n)
            order.push_back(i);
        });
    eps.push_back(std::move(e));
  }
  std::atomic<size_t> arrived{0};
  auto worker = [&](size_t t) {
    me = t;
    auto &self = workers[t];
    size_t meetings = 0;
    std::ostringstream err;
    auto idOf = [&](int e) {
      auto i = w.events->QueryEventId(eventName(e).c_str());
      auto [it, fresh] = self.ids.emplace(eventName(e), i);
      if (!fresh && it->second != i)
        err << eventName(e) << " is " << it->second << " and " << i << "; ";
      return i;
    };
    for (auto const &s : plans[t]) {
      auto k = t * perThread + s.ep;
      std::pair<int, size_t> key{s.event, k};
      auto it = std::find(self.subscribed.begin(), self.subscribed.end(), key);
      bool on = it != self.subscribed.end();
      try {
        switch (s.op) {
        case 0:
          idOf(s.event);
          break;
        case 1: {
          auto got = outcome(
              [&] { w.events->Subscribe(idOf(s.event), eps[k]->ep.get()); });
          std::string want = on ? "EntryPointAlreadySubscribed" : "";
          if (got != want)
            err << "Subscribe(" << eventName(s.event) << ", ep" << k
                << "): " << got << " expected " << want << "; ";
          if (!on)
            self.subscribed.push_back(key);
          break;
        }
        case 2: {
          auto got = outcome(
              [&] { w.events->Unsubscribe(idOf(s.event), eps[k]->ep.get()); });
          std::string want = on ? "" : "EntryPointNotSubscribed";
          if (got != want)
            err << "Unsubscribe(" << eventName(s.event) << ", ep" << k
                << "): " << got << " expected " << want << "; ";
          if (on)
            self.subscribed.erase(it);
          break;
        }
        case 3: {
          int before[perThread];
          for (size_t j = 0; j < perThread; ++j)
            before[j] = eps[t * perThread + j]->by[t];
          w.events->Emit(idOf(s.event));
          for (size_t j = 0; j < perThread; ++j) {
            auto e = t * perThread + j;
            auto want =
                std::count(self.subscribed.begin(), self.subscribed.end(),
                           std::pair<int, size_t>{s.event, e});
            auto got = eps[e]->by[t] - before[j];
            if (got != want)
              err << "Emit(" << eventName(s.event) << ") executed ep" << e
                  << " " << got << " times instead of " << want << "; ";
          }
          break;
        }
        default:
          ++arrived;
          ++meetings;
          for (unsigned spins = 0; arrived < meetings * n;)
            if (++spins > 1000)
              std::this_thread::yield();
        }
      } catch (const std::exception &e) {
        err << "step " << s.op << " on " << eventName(s.event) << ": "
            << e.what() << "; ";
      }
    }
    self.error = err.str();
  };
  std::vector<std::thread> ts;
  for (size_t t = 1; t < n; ++t)
    ts.emplace_back(worker, t);
  worker(0);
  me = n;
  for (auto &t : ts)
    t.join();

  std::map<std::string, Id> all;
  std::set<Id> used;
  for (auto const &p : predefined)
    used.insert(p.id);
  for (size_t t = 0; t < n; ++t) {
    REQUIRE(workers[t].error.empty(), "thread " << t << ": "
                                                << workers[t].error);
    for (auto const &[name, id] : workers[t].ids) {
      auto [it, fresh] = all.emplace(name, id);
      REQUIRE(it->second == id, name << " is " << it->second << " and " << id);
      if (fresh)
        REQUIRE(used.insert(id).second,
                name << " has the identifier " << id << " of another event");
    }
  }
  // the subscriptions left are those of the threads, each in its order
  size_t total = 0;
  for (int e = 0; e < events + static_cast<int>(rounds); ++e) {
    order.clear();
    w.events->Emit(w.events->QueryEventId(eventName(e).c_str()));
    auto seen = order;
    for (size_t t = 0; t < n; ++t) {
      std::vector<size_t> want;
      std::vector<size_t> got;
      for (auto const &[event, k] : workers[t].subscribed)
        if (event == e)
          want.push_back(k);
      for (auto k : seen)
        if (k / perThread == t)
          got.push_back(k);
      total += want.size();
      REQUIRE(got == want, "the subscriptions of thread "
                               << t << " to " << eventName(e) << " are wrong");
    }
  }
  if (total > n)
    c.nontrivial();
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C26";
  s.rule = "an emission reached two entry points or more, or several threads "
           "left more subscriptions than threads";
  s.subs = {{"histories", histories, 6000, 60000},
            {"threads", threads, 1500, 20000}};
  s.flaky = true;
  s.assumptions = {"thread schedules are those the operating system produces"};
  return s;
}
