//! sources: full
//! san: thread
//! opt: -O1
// C20: zulu events, concurrently with simulation events and with operations of
// other threads.
// Generated plans (what entry points do at each execution, what an independent
// thread does, how each run is stopped) are played in real time on the real
// services. Every operation and every execution is recorded, and the history
// is checked against the rules of the scheduler.
#include "fx.h"
#include "fx_sim.h"
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/Model.h>
#include <atomic>
#include <chrono>
#include <filesystem>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <unistd.h>

using pbt::Case;
using I = Smp::Int64;

namespace {
constexpr I us = 1000, ms = 1000 * us;
constexpr I farAway = 30'000 * ms;
constexpr int slots = 4;

enum Op {
  AddZulu,
  AddSim,
  Imm,
  SetZulu,
  SetSim,
  Remove,
  SetRepeat,
  SetCycle,
  Next,
  Sleep,
  HoldNow,
  HoldLater,
  // entries of the history only
  Exec,
  End,
  RunBegin,
  RunEnd
};
const char *const opName[] = {"AddZulu", "AddSim",    "AddImmediate",
                              "SetZulu", "SetSim",    "Remove",
                              "SetRepeat", "SetCycle", "Next",
                              "sleep",   "Hold(true)", "Hold(false)",
                              "executes", "end of execution", "Run", "end of Run"};
struct Action {
  Op op = Next;
  int slot = 0;
  I dt = 0, cycle = 0, repeat = 0;
  unsigned ref = 0;
};
using Script = std::vector<Action>;

std::string text(Action const &a) {
  std::ostringstream o;
  o << opName[a.op] << "(";
  switch (a.op) {
  case AddZulu:
  case AddSim:
    o << "ep" << a.slot << ", +" << a.dt / us << "us, cycle " << a.cycle / us
      << "us, repeat " << a.repeat;
    break;
  case Imm:
    o << "ep" << a.slot;
    break;
  case SetZulu:
  case SetSim:
    o << "#" << a.ref << ", +" << a.dt / us << "us";
    break;
  case Remove:
    o << "#" << a.ref;
    break;
  case SetRepeat:
    o << "#" << a.ref << ", " << a.repeat;
    break;
  case SetCycle:
    o << "#" << a.ref << ", " << a.cycle / us << "us";
    break;
  case Sleep:
    o << a.dt / us << "us";
    break;
  default:
    break;
  }
  o << ")";
  return o.str();
}
std::string text(Script const &s) {
  std::string r;
  for (auto const &a : s)
    r += (r.empty() ? "" : "; ") + text(a);
  return r;
}

struct Plan {
  std::vector<Script> on[slots];
  Script before;      // in Standby
  Script independent; // by another thread, meanwhile
  struct Run {
    I delay;    // of the stopper
    int how;    // 0 Hold(true) by a zulu event, 1 by a simulation event posted
                // by a zulu event, 2 Hold(false) and a simulation event
    double speed;
    I pause; // standby time afterwards
  };
  std::vector<Run> runs;
};

const char *const inProgress = "in progress";
enum Who { Handler, Other };
struct Entry {
  Op op;
  Who who;
  I id = -1;
  I time = 0; // absolute (zulu or simulation) time
  I cycle = 0, repeat = 0;
  std::string result;
  I zulu = 0, zuluAfter = 0, sim = 0;
  Smp::SimulatorStateKind state{};
  bool zuluThread = false;
};

struct World {
  Plan const &plan;
  fx::World w;
  std::mutex mutex; // of the history
  std::vector<Entry> log;
  std::vector<I> created;
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> ep;
  // used by the executed entry points only, which exclude each other
  unsigned done[slots] = {};
  std::atomic<int> inside{0};
  std::atomic<bool> overlap{false};
  std::thread::id main = std::this_thread::get_id();
  std::unique_ptr<Xsmp::EntryPoint> stopZulu, stopSim, laterSim, nothing;

  explicit World(Plan const &p) : plan(p) {
    for (int i = 0; i < slots; ++i)
      ep.push_back(std::make_unique<Xsmp::EntryPoint>(
          ("ep" + std::to_string(i)).c_str(), "", w.object(),
          [this, i] { execute(i); }));
    auto make = [&](const char *name, std::function<void()> f) {
      return std::make_unique<Xsmp::EntryPoint>(name, "", w.object(),
                                                std::move(f));
    };
    stopZulu = make("stopZulu", [this] {
      if (!retry(*stopZulu))
        w.sim.Hold(true);
    });
    nothing = make("nothing", [] {});
    stopSim = make("stopSim", [this] {
      if (retry(*stopSim))
        return;
      // posted while the simulation waits for its next event
      w.scheduler->AddSimulationTimeEvent(stopZulu.get(), 100 * us);
    });
    laterSim = make("laterSim", [this] {
      if (retry(*laterSim))
        return;
      w.sim.Hold(false);
      w.scheduler->AddSimulationTimeEvent(nothing.get(), 100 * us);
    });
  }
  void postZulu(Xsmp::EntryPoint const &e, I delay) {
    // the time may be in the past if this thread is not scheduled meanwhile
    while (fx::outcome([&] {
             w.scheduler->AddZuluTimeEvent(&e, zulu() + delay);
           }) != "")
      ;
  }
  // the stopper is executed before the simulation has started: wait
  bool retry(Xsmp::EntryPoint const &e) {
    if (!running || w.sim.GetState() == Smp::SimulatorStateKind::SSK_Executing)
      return false;
    postZulu(e, 300 * us);
    return true;
  }
  std::atomic<bool> running{false};
  I zulu() { return w.timeKeeper->GetZuluTime(); }
  I simTime() { return w.timeKeeper->GetSimulationTime(); }

  void record(Entry e) {
    std::scoped_lock l(mutex);
    if (log.size() < 20000)
      log.push_back(std::move(e));
  }
  size_t size() {
    std::scoped_lock l(mutex);
    return log.size();
  }
  I pick(unsigned ref) {
    std::scoped_lock l(mutex);
    return created.empty() ? 1000000 : created[ref % created.size()];
  }
  void post(Entry e, I id) {
    e.id = id;
    std::scoped_lock l(mutex);
    created.push_back(id);
    log.push_back(std::move(e));
  }
  void play(Action const &a, Who who) {
    auto &s = *w.scheduler;
    auto const *p = ep[static_cast<size_t>(a.slot)].get();
    Entry e{a.op, who};
    e.cycle = a.cycle;
    e.repeat = a.repeat;
    if (a.op == Sleep) {
      std::this_thread::sleep_for(std::chrono::nanoseconds(a.dt));
      return;
    }
    if (a.op == HoldNow || a.op == HoldLater) {
      w.sim.Hold(a.op == HoldNow);
      record(e);
      return;
    }
    e.id = pick(a.ref);
    e.zulu = zulu();
    e.sim = simTime();
    I id = -1;
    if (who == Other && a.op > Imm && a.op < Next) {
      e.result = inProgress;
      record(e);
    }
    e.result = fx::outcome([&] {
      switch (a.op) {
      case AddZulu:
        e.time = e.zulu + a.dt;
        id = s.AddZuluTimeEvent(p, e.time, a.cycle, a.repeat);
        break;
      case AddSim:
        e.time = e.sim + a.dt; // at least
        id = s.AddSimulationTimeEvent(p, a.dt, a.cycle, a.repeat);
        break;
      case Imm:
        e.time = e.sim;
        id = s.AddImmediateEvent(p);
        break;
      case SetZulu:
        e.time = e.zulu + a.dt;
        s.SetEventZuluTime(e.id, e.time);
        break;
      case SetSim:
        e.time = e.sim + a.dt;
        s.SetEventSimulationTime(e.id, a.dt);
        break;
      case Remove:
        s.RemoveEvent(e.id);
        break;
      case SetRepeat:
        s.SetEventRepeat(e.id, a.repeat);
        break;
      case SetCycle:
        s.SetEventCycleTime(e.id, a.cycle);
        break;
      default:
        s.GetNextScheduledEventTime();
        s.GetCurrentEventId();
      }
    });
    e.zuluAfter = zulu();
    if (a.op <= Imm && e.result.empty())
      post(e, id);
    else
      record(e);
  }
  void execute(int slot) {
    if (inside.fetch_add(1) != 0)
      overlap = true;
    Entry e{Exec, Handler};
    e.id = w.scheduler->GetCurrentEventId();
    e.zulu = zulu();
    e.sim = simTime();
    e.state = w.sim.GetState();
    e.zuluThread = std::this_thread::get_id() != main;
    record(e);
    auto n = done[slot]++;
    if (n < plan.on[slot].size())
      for (auto const &a : plan.on[slot][n])
        play(a, Handler);
    e.op = End;
    record(e);
    if (inside.fetch_sub(1) != 1)
      overlap = true;
  }
};

// the state of an event, according to the history
struct Ev {
  bool zulu = false, immediate = false, alive = true;
  bool unknown = false; // changed by another thread: only weak rules apply
  I next = 0, cycle = 0, repeat = 0;
  I exact = 0;      // "next" is exact (and not a lower bound)
  size_t since = 0; // index of the last change in the history
  size_t removedAt = 0;
};

struct Verdict {
  std::string error;
  size_t at = 0; // index of the faulty entry
  std::map<I, Ev> ev;
  unsigned zuluExec = 0, simExec = 0, moved = 0, removed = 0, sameTime = 0;
};

Verdict check(std::vector<Entry> const &log) {
  Verdict v;
  auto &ev = v.ev;
  // posted events, the other thread may record an event after its execution
  std::map<I, Entry> posted;
  for (auto const &e : log)
    if (e.op <= Imm && e.result.empty() && !posted.emplace(e.id, e).second)
      v.error = "two events have the identifier " + std::to_string(e.id);
  auto create = [&](Entry const &e, size_t at) {
    auto &x = ev[e.id];
    x.zulu = e.op == AddZulu;
    x.immediate = e.op == Imm;
    x.next = e.time;
    x.cycle = e.op == Imm ? 0 : e.cycle;
    x.repeat = e.op == Imm ? 0 : e.repeat;
    x.since = at;
  };
  I current = -1;
  bool moved = false;
  size_t lastEnd = 0;
  size_t lastExec = 0; // index of the last Exec entry
  auto name = [](I id) { return "event " + std::to_string(id); };
  for (size_t i = 0; i < log.size() && v.error.empty(); ++i) {
    auto const &e = log[i];
    v.at = i;
    switch (e.op) {
    case AddZulu:
    case AddSim:
    case Imm:
      if (!e.result.empty()) {
        bool cycle = e.op != Imm && e.repeat != 0 && e.cycle <= 0;
        bool past = e.op == AddZulu && e.time <= e.zuluAfter;
        if (!(e.result == "InvalidCycleTime" && cycle) &&
            !(e.result == "InvalidEventTime" && past))
          v.error = std::string(opName[e.op]) + " throws " + e.result;
        break;
      }
      if (e.op == AddZulu && e.time < e.zulu)
        v.error = "zulu event accepted in the past";
      if (e.op != Imm && e.repeat != 0 && e.cycle <= 0)
        v.error = "cyclic event accepted without cycle time";
      if (!ev.count(e.id))
        create(e, i);
      else
        ev[e.id].since = i;
      break;
    case Exec: {
      auto it = ev.find(e.id);
      if (it == ev.end() && posted.count(e.id) &&
          posted[e.id].who == Other) {
        create(posted[e.id], 0);
        it = ev.find(e.id);
        it->second.since = log.size(); // not comparable
      }
      if (it == ev.end()) {
        v.error = "an unknown event is executed: " + std::to_string(e.id);
        break;
      }
      auto &x = it->second;
      if (current != -1) {
        v.error = name(e.id) + " is executed during " + name(current);
        break;
      }
      if (!x.alive &&
          !(x.unknown && x.removedAt && lastExec < x.removedAt)) {
        v.error = name(e.id) + " is executed after its removal or its last "
                               "repetition";
        break;
      }
      if (x.zulu != e.zuluThread) {
        v.error = name(e.id) + " is executed by the thread of the other kind";
        break;
      }
      auto now = x.zulu ? e.zulu : e.sim;
      if (now < x.next && !x.unknown) {
        v.error = name(e.id) + " is executed " +
                  std::to_string((x.next - now) / us) + "us before its time";
        break;
      }
      // a handler that holds the simulation stops it at once: the events of
      // another thread are not considered
      if (!x.zulu && e.state != Smp::SimulatorStateKind::SSK_Executing) {
        v.error = name(e.id) + " (simulation time) is executed in " +
                  fx::stateName(e.state) + " state";
        break;
      }
      // order: no other event of the same kind shall precede
      for (auto const &[id, y] : ev) {
        if (id == e.id || !y.alive || y.unknown || x.unknown ||
            y.zulu != x.zulu || y.since >= lastEnd || x.since >= lastEnd)
          continue;
        bool before =
            x.zulu ? std::make_pair(y.next, id) < std::make_pair(x.next, e.id)
            : y.immediate != x.immediate ? y.immediate
            : y.immediate
                ? id < e.id
                : y.exact && x.exact && std::make_pair(y.next, id) <
                                            std::make_pair(x.next, e.id);
        if (y.zulu && y.next == x.next)
          ++v.sameTime;
        if (before && (x.zulu || x.exact)) {
          v.error = name(e.id) + " is executed before " + name(id) +
                    ", which is pending and precedes it";
          break;
        }
      }
      ++(x.zulu ? v.zuluExec : v.simExec);
      current = e.id;
      moved = false;
      lastExec = i;
      break;
    }
    case End: {
      auto &x = ev[e.id];
      current = -1;
      lastEnd = i;
      if (!x.alive)
        break;
      x.immediate = false;
      if (x.repeat == 0)
        x.alive = false;
      else {
        if (x.repeat > 0)
          --x.repeat;
        if (!moved)
          x.next += x.cycle;
        x.since = i ? i - 1 : 0; // before lastEnd
      }
      break;
    }
    case SetZulu:
    case SetSim:
    case Remove:
    case SetRepeat:
    case SetCycle: {
      auto it = ev.find(e.id);
      if (it == ev.end())
        break; // posted by the other thread and not recorded yet
      auto &x = it->second;
      if (e.who == Other) {
        x.unknown = true;
        if (e.op == Remove && e.result.empty()) {
          x.alive = false;
          x.removedAt = i;
        }
        break;
      }
      if (x.unknown) {
        if (e.op == Remove && e.result.empty())
          x.alive = false;
        // the current event is repeated despite its removal
        if (e.op == SetRepeat && e.result.empty()) {
          x.alive = true;
          x.repeat = e.repeat;
        }
        break;
      }
      std::string want;
      if (!x.alive || (e.op == SetZulu && !x.zulu) ||
          (e.op == SetSim && x.zulu))
        want = "InvalidEventId";
      else if ((e.op == SetRepeat && e.repeat != 0 && x.cycle <= 0) ||
               (e.op == SetCycle && x.repeat != 0 && e.cycle <= 0))
        want = "InvalidCycleTime";
      if (e.result != want) {
        v.error = std::string(opName[e.op]) + " of " + name(e.id) + " gives '" +
                  e.result + "', expected '" + want + "'";
        break;
      }
      if (!want.empty())
        break;
      x.since = i;
      switch (e.op) {
      case Remove:
        ++v.removed;
        if (current == e.id)
          x.repeat = 0;
        else
          x.alive = false;
        break;
      case SetRepeat:
        x.repeat = e.repeat;
        break;
      case SetCycle:
        x.cycle = e.cycle;
        break;
      default: {
        ++v.moved;
        bool past = x.zulu ? e.time < e.zulu : e.time < e.sim;
        if (!past && x.zulu && e.time <= e.zuluAfter) {
          x.unknown = true; // in the past or not: depends on the instant
          break;
        }
        if (past) {
          if (current == e.id)
            x.repeat = 0;
          else
            x.alive = false;
          break;
        }
        x.immediate = false;
        x.next = e.time;
        if (current == e.id)
          moved = true;
      }
      }
      break;
    }
    default:
      break;
    }
  }
  return v;
}

Action action(Case &c, bool handler) {
  Action a;
  a.op = static_cast<Op>(handler
                             ? c.weighted({6, 5, 2, 5, 3, 5, 2, 2, 1, 3, 1, 1})
                             : c.weighted({10, 4, 1, 0, 0, 3, 0, 0, 2, 6, 0,
                                           0}));
  a.slot = static_cast<int>(c.idx(slots));
  a.repeat = c.chance(1, 2) ? 0 : c.range(-1, 3);
  a.cycle = a.repeat == 0 ? 0 : c.range(1, 8) * 100 * us;
  switch (a.op) {
  case AddZulu:
    a.dt = c.chance(1, 6) ? farAway : c.range(1, 12) * 200 * us;
    break;
  case SetZulu:
    a.dt = c.chance(1, 6)   ? -1000 * us
           : c.chance(1, 6) ? farAway
                            : c.range(1, 10) * 200 * us;
    break;
  case AddSim:
  case SetSim:
    a.dt = a.op == SetSim && c.chance(1, 6) ? -1
           : c.chance(1, 6)                 ? farAway
                                            : c.range(0, 10) * 100 * us;
    break;
  case SetRepeat:
    a.repeat = c.range(-1, 3);
    break;
  case SetCycle:
    a.cycle = c.range(-1, 8) * 100 * us;
    break;
  case Sleep:
    a.dt = c.range(0, 8) * 50 * us;
    break;
  default:
    break;
  }
  a.ref = static_cast<unsigned>(c.idx(10));
  return a;
}
Script script(Case &c, unsigned max, bool handler) {
  Script s;
  while (s.size() < max && c.more(max)) {
    Case::Span sp(c);
    s.push_back(action(c, handler));
  }
  return s;
}

void sleepNs(I ns) { std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }

void histories(Case &c) {
  Plan p;
  for (int i = 0; i < slots; ++i) {
    Case::Span sp(c);
    auto n = static_cast<unsigned>(c.range(0, 3));
    for (unsigned k = 0; k < n; ++k) {
      p.on[i].push_back(script(c, 3, true));
      NOTE(c, "ep" << i << " execution " << k << ": " << text(p.on[i].back()));
    }
  }
  p.before = script(c, 5, false);
  for (auto op : {AddZulu, AddSim, AddZulu})
    if (c.chance(2, 3)) {
      Case::Span sp(c);
      auto a = action(c, false);
      a.op = op;
      a.dt = op == AddZulu && c.chance(1, 4)
                 ? farAway
                 : c.range(1, 8) * (op == AddSim ? 100 : 200) * us;
      p.before.push_back(a);
      // an event that moves another one
      if (op == AddSim && c.chance(1, 3)) {
        auto &on = p.on[a.slot];
        if (on.empty())
          on.emplace_back();
        auto m = action(c, true);
        m.op = SetZulu;
        m.dt = c.range(1, 10) * 200 * us;
        on.front().push_back(m);
        NOTE(c, "ep" << a.slot << " execution 0, then: " << text(m));
      }
    }
  NOTE(c, "standby: " << text(p.before));
  p.independent = script(c, 6, false);
  NOTE(c, "other thread: " << text(p.independent));
  auto runs = c.chance(1, 5) ? 0 : c.range(1, 2);
  for (I i = 0; i < runs; ++i) {
    Plan::Run r{c.range(1, 8) * 300 * us, static_cast<int>(c.idx(4)),
                c.pick(std::vector<double>{1., 1., 4., 100., 0.5}),
                c.range(0, 4) * 200 * us};
    NOTE(c, "Run stopped after " << r.delay / us << "us by "
                                 << (r.how == 0   ? "a zulu event"
                                     : r.how == 1 ? "a posted simulation event"
                                     : r.how == 2 ? "Hold(false)"
                                                  : "a simulation event")
                                 << ", speed " << r.speed << ", pause "
                                 << r.pause / us << "us");
    p.runs.push_back(r);
  }

  World w(p);
  auto finish = [&] {
    auto v = check(w.log);
    if (!v.error.empty()) {
      auto t0 = w.log.front().zulu;
      for (size_t i = v.at > 20 ? v.at - 20 : 0; i <= v.at; ++i) {
        auto const &e = w.log[i];
        NOTE(c, "history " << i << ": " << (e.who == Other ? "[other] " : "")
                           << opName[e.op] << " #" << e.id << " time "
                           << (e.op == AddZulu || e.op == SetZulu
                                   ? e.time - t0
                                   : e.time)
                           << " cycle " << e.cycle << " repeat " << e.repeat
                           << " -> '" << e.result << "' zulu " << e.zulu - t0
                           << " sim " << e.sim);
      }
    }
    REQUIRE(v.error.empty(), v.error);
    REQUIRE(!w.overlap, "two entry points are executed at the same time");
    return v;
  };
  for (auto const &a : p.before)
    w.play(a, Other);
  std::thread other([&] {
    for (auto const &a : p.independent)
      w.play(a, Other);
  });
  std::string early;
  for (auto const &r : p.runs) {
    w.w.scheduler->SetTargetSpeed(r.speed);
    w.running = true;
    if (r.how == 3)
      w.w.scheduler->AddSimulationTimeEvent(w.stopZulu.get(), r.delay);
    else
      w.postZulu(r.how == 0   ? *w.stopZulu
               : r.how == 1 ? *w.stopSim
                            : *w.laterSim,
               r.delay);
    auto sim0 = w.simTime(), zulu0 = w.zulu();
    auto from = w.size();
    w.w.sim.Run();
    w.running = false;
    sleepNs(r.pause);
    std::scoped_lock l(w.mutex);
    for (auto i = from; i < w.log.size(); ++i) {
      auto const &e = w.log[i];
      // the simulation is not faster than requested
      if (e.op == Exec && !e.zuluThread &&
          static_cast<double>(e.sim - sim0) >
              r.speed * static_cast<double>(e.zulu - zulu0 + ms))
        early = "simulation time " + std::to_string((e.sim - sim0) / us) +
                "us after the start is reached " +
                std::to_string((e.zulu - zulu0) / us) +
                "us after the start, at speed " + std::to_string(r.speed);
    }
  }
  other.join();
  auto state = w.w.sim.GetState();

  // the zulu events repeated for ever are removed
  auto pending = [&](bool forEver) {
    std::vector<Entry> log;
    {
      std::scoped_lock l(w.mutex);
      log = w.log;
    }
    auto v = check(log);
    std::vector<I> r;
    for (auto const &[id, e] : v.ev)
      if (e.zulu && e.alive && v.error.empty() &&
          (forEver ? e.repeat < 0
                   : !e.unknown && e.next < w.zulu() + farAway / 2))
        r.push_back(id);
    return r;
  };
  std::vector<I> late;
  for (int round = 0; round < 400; ++round) {
    for (auto id : pending(true)) {
      Entry e{Remove, Other};
      e.id = id;
      e.result = inProgress;
      w.record(e);
      e.result = fx::outcome([&] { w.w.scheduler->RemoveEvent(id); });
      w.record(e);
    }
    late = pending(false);
    if (late.empty())
      break;
    sleepNs(round < 20 ? ms : 10 * ms);
  }
  w.w.sim.Exit();
  auto n = w.size();
  auto v = finish();
  REQUIRE(early.empty(), early);
  REQUIRE(state == Smp::SimulatorStateKind::SSK_Standby,
          "the simulator is in " << fx::stateName(state)
                                 << " state, last error: "
                                 << w.w.logger->lastError());
  REQUIRE(late.empty(), "zulu event " << late.front() << " was not executed "
                                      << (w.zulu() - v.ev[late.front()].next) /
                                             us
                                      << "us after its time");
  REQUIRE(w.size() == n, "an event is executed after Exit");
  if (v.zuluExec >= 2)
    c.nontrivial();
  if (v.simExec && v.zuluExec)
    c.label("zulu and simulation events");
  if (v.moved)
    c.label("event moved by an event");
  if (v.removed)
    c.label("event removed by an event");
}

// ---- the states in which zulu events are executed --------------------------
using EM = Smp::Services::IEventManager;
struct Points : Xsmp::Model, Xsmp::EntryPointPublisher {
  using Model::Model;
  const Smp::Uuid &GetUuid() const override {
    static const Smp::Uuid u{1, 2, 3, 4, 5};
    return u;
  }
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> list;
};
struct Interval { // of a state in which no event is executed
  Smp::SimulatorStateKind state{};
  I from = 0, to = std::numeric_limits<I>::max();
};
struct Start {
  I id = 0, time = 0;
};
struct Post { // what the subscriber of an event does
  I dt = 0, cycle = 0, sleep = 0;
};
struct States {
  std::unique_ptr<fx::World> world = std::make_unique<fx::World>(false);
  fx::World &w = *world;
  std::string dir;
  Points *points;
  std::mutex mutex;
  std::vector<Interval> intervals;
  std::vector<Start> starts;
  std::map<I, std::vector<I>> due; // of the events posted once
  std::set<I> cyclic;
  std::vector<Post> posts; // for the next event
  std::atomic<I> ticks{0};
  std::atomic<bool> abort{false};
  std::atomic<I> tickId{0};

  Xsmp::EntryPoint *make(const char *name, std::function<void()> f) {
    points->list.push_back(std::make_unique<Xsmp::EntryPoint>(
        name, "", static_cast<Xsmp::EntryPointPublisher *>(points),
        std::move(f)));
    return points->list.back().get();
  }
  I zulu() { return w.timeKeeper->GetZuluTime(); }
  void post(Xsmp::EntryPoint const *e, Post const &p) {
    for (I more = 0;; more += 10 * us) {
      auto t = zulu() + p.dt + more;
      try {
        auto id =
            w.scheduler->AddZuluTimeEvent(e, t, p.cycle, p.cycle ? -1 : 0);
        std::scoped_lock l(mutex);
        if (p.cycle)
          cyclic.insert(id);
        else
          due[id].push_back(t);
        return;
      } catch (Smp::Exception const &) {
        // the time is in the past: this thread was not scheduled meanwhile
      }
    }
  }
  Xsmp::EntryPoint *work = nullptr;
  // the components are deleted first: they use the other members
  ~States() { world.reset(); }
  explicit States(std::string d) : dir(std::move(d)) {
    points = new Points("points", "", w.root(), w.isim());
    w.sim.AddModel(points);
    work = make("work", [this] {
      auto t = zulu();
      auto id = w.scheduler->GetCurrentEventId();
      {
        std::scoped_lock l(mutex);
        if (starts.size() < 100000)
          starts.push_back({id, t});
      }
      if (id == tickId)
        ++ticks;
      if (abort.exchange(false))
        w.sim.Abort();
    });
    w.sim.Connect();
    auto enter = [&](I event, const char *name, Smp::SimulatorStateKind s) {
      w.events->Subscribe(event, make(name, [this, s] {
                            {
                              auto t = zulu();
                              std::scoped_lock l(mutex);
                              intervals.push_back({s, t});
                            }
                            auto now = std::move(posts);
                            posts.clear();
                            for (auto const &p : now) {
                              post(work, p);
                              sleepNs(p.sleep);
                            }
                          }));
    };
    auto leave = [&](I event, const char *name) {
      w.events->Subscribe(event, make(name, [this] {
                            auto t = zulu();
                            std::scoped_lock l(mutex);
                            if (!intervals.empty())
                              intervals.back().to = t;
                          }));
    };
    using S = Smp::SimulatorStateKind;
    enter(EM::SMP_EnterStoringId, "enterStoring", S::SSK_Storing);
    leave(EM::SMP_LeaveStoringId, "leaveStoring");
    enter(EM::SMP_EnterRestoringId, "enterRestoring", S::SSK_Restoring);
    leave(EM::SMP_LeaveRestoringId, "leaveRestoring");
    enter(EM::SMP_EnterInitialisingId, "enterInitialising",
          S::SSK_Initialising);
    leave(EM::SMP_LeaveInitialisingId, "leaveInitialising");
    enter(EM::SMP_EnterReconnectingId, "enterReconnecting",
          S::SSK_Reconnecting);
    leave(EM::SMP_LeaveReconnectingId, "leaveReconnecting");
    enter(EM::SMP_EnterExitingId, "enterExiting", S::SSK_Exiting);
    enter(EM::SMP_EnterAbortingId, "enterAborting", S::SSK_Aborting);
  }
  // an event that was due in such a state is not executed in it
  std::string wrong(int &inside) {
    std::scoped_lock l(mutex);
    std::ostringstream o;
    for (auto const &i : intervals) {
      std::map<I, I> before; // first start of a cyclic event in the interval
      for (auto const &[id, list] : due)
        for (auto t : list)
          inside += t >= i.from && t < i.to;
      for (auto const &s : starts) {
        if (s.time < i.from || s.time >= i.to)
          continue;
        bool bad = false;
        if (auto it = due.find(s.id); it != due.end() && !cyclic.count(s.id)) {
          bad = true;
          for (auto t : it->second)
            bad &= t >= i.from;
        } else if (cyclic.count(s.id) && !due.count(s.id)) {
          // the first one may have been about to start
          bad = !before.emplace(s.id, s.time).second;
        }
        if (bad) {
          o << "event " << s.id << " is executed "
            << (s.time - i.from) / us << "us after the begin of the "
            << fx::stateName(i.state) << " state, before its end";
          return o.str();
        }
      }
    }
    return "";
  }
};
struct ScratchDir {
  std::string path = (std::filesystem::temp_directory_path() /
                      ("c20-" + std::to_string(::getpid()))).string();
  ScratchDir() {
    std::filesystem::remove_all(path);
    std::filesystem::create_directories(path);
  }
  ~ScratchDir() { std::filesystem::remove_all(path); }
};

void states(Case &c) {
  enum Kind { Store, Restore, Run, Init, Reconnect, Wait, Exit, Abort };
  const char *const names[] = {"Store", "Restore", "Run", "Initialise",
                               "Reconnect", "wait", "Exit", "Abort"};
  ScratchDir d;
  States w(d.path);
  w.post(w.work, {200 * us, 500 * us, 0});
  {
    std::scoped_lock l(w.mutex);
    w.tickId = *w.cyclic.begin();
  }
  bool stored = false, over = false;
  int steps = 0;
  std::string stuck;
  while (c.more(10) && !over) {
    pbt::Case::Span s(c);
    auto kind = static_cast<Kind>(c.weighted({3, 3, 3, 1, 2, 2, 1, 1}));
    if (kind == Restore && !stored)
      kind = Store;
    std::vector<Post> posts;
    while (c.more(3)) {
      Post p;
      p.dt = c.pick({I{0}, 50 * us, 300 * us, ms, 2 * ms});
      p.cycle = c.chance(1, 6) ? c.pick({100 * us, 400 * us}) : 0;
      p.sleep = c.pick({I{0}, 100 * us, 500 * us, 1500 * us});
      posts.push_back(p);
    }
    NOTE(c, names[kind]);
    for (auto const &p : posts)
      NOTE(c, "  posts zulu event in " << p.dt / us << "us, cycle "
                                       << p.cycle / us << "us, then waits "
                                       << p.sleep / us << "us");
    ++steps;
    switch (kind) {
    case Run:
    case Wait:
      for (auto const &p : posts) {
        w.post(w.work, p);
        if (kind == Wait)
          sleepNs(p.sleep);
      }
      if (kind == Run)
        w.w.sim.Run(c.pick({100 * us, ms, 3 * ms}));
      break;
    case Store:
      w.posts = posts;
      w.w.sim.Store(d.path.c_str());
      stored = true;
      break;
    case Restore:
      w.posts = posts;
      w.w.sim.Restore(d.path.c_str());
      break;
    case Init:
      w.posts = posts;
      w.w.sim.Initialise();
      break;
    case Reconnect:
      w.posts = posts;
      w.w.sim.Reconnect(w.points);
      break;
    case Exit:
      w.posts = posts;
      w.w.sim.Exit();
      over = true;
      break;
    case Abort:
      w.posts = posts;
      if (c.flip()) {
        NOTE(c, "  by a zulu event during a run");
        w.abort = true;
        w.w.sim.Run(2 * ms);
        // not yet: the event was late
        for (int i = 0; i < 2000 && w.abort; ++i)
          sleepNs(ms);
      } else
        w.w.sim.Abort();
      over = true;
      break;
    }
    auto state = w.w.sim.GetState();
    if (over) {
      // an event may have been about to start (the entry point of Abort too)
      if (kind == Exit) {
        std::unique_lock l(w.mutex);
        auto n = w.starts.size();
        l.unlock();
        sleepNs(2 * ms);
        l.lock();
        REQUIRE(w.starts.size() == n, "an event is executed after Exit");
      } else
        sleepNs(2 * ms);
      continue;
    }
    REQUIRE(state == Smp::SimulatorStateKind::SSK_Standby,
            "the simulator is in " << fx::stateName(state) << " state after "
                                   << names[kind]);
    // the event that is repeated for ever continues
    I before = w.ticks;
    for (int i = 0; i < 8000 && w.ticks == before; ++i)
      sleepNs(i < 50 ? 100 * us : ms);
    REQUIRE(w.ticks != before,
            "the event repeated every 500us is not executed any more after "
                << names[kind]);
  }
  // the scheduler executes nothing any more
  if (w.w.sim.GetState() == Smp::SimulatorStateKind::SSK_Standby)
    w.w.sim.Exit();
  int inside = 0;
  auto bad = w.wrong(inside);
  REQUIRE(bad.empty(), bad);
  if (inside > 0)
    c.nontrivial();
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s{"C20",
               "at least two zulu events are executed (histories), a zulu event "
               "is due in a state in which none is executed (states)",
               {{"histories", histories, 15000, 500000, 60},
                {"states", states, 5000, 150000, 60}},
               {"the events changed by an independent thread are subject to "
                "the weak rules only (existence, exclusion, no execution after "
                "the removal but one)"},
               {}};
  s.flaky = true;
  s.hangSeconds = 12;
  return s;
}
