//! sources: full
//! san: thread
//! opt: -O1
// C27: simulation, epoch, mission and zulu time keep their relations, whatever
// clock changes are made and while the simulation runs.
#include "fx.h"
#include "fx_sim.h"
#include <Smp/Services/IEventManager.h>
#include <Smp/Services/IScheduler.h>
#include <atomic>
#include <chrono>
#include <limits>
#include <memory>
#include <thread>

using fx::outcome;
using pbt::Case;
using EM = Smp::Services::IEventManager;
using S = Smp::SimulatorStateKind;
using I = Smp::Int64;

namespace {
constexpr I big = I{1} << 60;

// zulu time now: nanoseconds since 2000-01-01 12:00 (MJD2000 + 0.5)
I zuluNow() {
  return std::chrono::duration_cast<std::chrono::nanoseconds>(
             std::chrono::system_clock::now().time_since_epoch())
             .count() -
         I{946'728'000} * 1'000'000'000;
}

struct Clocks {
  Case &c;
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> eps; // must outlive the world
  fx::World w;
  // the model
  I sim = 0, epoch = 0, start = 0; // epoch: of the current simulation time
  enum Where { Outside, Pre, Post } where = Outside;
  I epochEvents = 0, missionEvents = 0;
  int depth = 0;
  unsigned actions = 0, posted = 0, executed = 0;
  bool done = false, held = false, leftInPre = false,
       bySubscriber = false;

  explicit Clocks(Case &x) : c(x) {
    w.scheduler->SetTargetSpeed(100);
    on(EM::SMP_EpochTimeChangedId, [this] {
      ++epochEvents;
      check("in EpochTimeChanged");
      nested();
    });
    on(EM::SMP_MissionTimeChangedId, [this] {
      ++missionEvents;
      check("in MissionTimeChanged");
      nested();
    });
    on(EM::SMP_PreSimTimeChangeId, [this] {
      where = Pre;
      check("in PreSimTimeChange");
      for (auto n = c.range(0, 2); n--;)
        act();
      where = Outside;
    });
    on(EM::SMP_PostSimTimeChangeId, [this] {
      auto next = w.scheduler->GetNextScheduledEventTime();
      if (next != sim)
        bySubscriber = false;
      advance(next);
      where = Post;
      check("in PostSimTimeChange");
      if (c.chance(1, 3))
        act();
      where = Outside;
    });
    for (int i = 0; i < 4; ++i)
      eps.push_back(std::make_unique<Xsmp::EntryPoint>(
          ("event" + std::to_string(i)).c_str(), "", w.object(), [this] {
            if (done)
              return;
            ++executed;
            check("in an event");
            if (c.chance(1, 2))
              act();
          }));
  }
  template <class F> void on(Smp::Services::EventId id, F f) {
    eps.push_back(std::make_unique<Xsmp::EntryPoint>(
        ("on" + std::to_string(id)).c_str(), "", w.object(), [this, f] {
          if (!done)
            f();
        }));
    w.events->Subscribe(id, eps.back().get());
  }
  void nested() {
    if (depth < 3 && c.chance(1, 6)) {
      ++depth;
      act();
      --depth;
    }
  }
  // simulation time moves to t
  void advance(I t) {
    REQUIRE(t >= sim, "simulation time goes back from " << sim << " to " << t);
    epoch += t - sim;
    sim = t;
  }
  void check(const char *when) {
    auto const *k = static_cast<Smp::Services::ITimeKeeper *>(w.timeKeeper);
    auto s = k->GetSimulationTime(), e = k->GetEpochTime(),
         m = k->GetMissionTime(), b = k->GetMissionStartTime();
    REQUIRE(s == sim, "simulation time is " << s << " instead of " << sim << " "
                                            << when);
    REQUIRE(e == epoch, "epoch time is " << e << " instead of " << epoch << " "
                                         << when);
    REQUIRE(b == start, "mission start time is " << b << " instead of " << start
                                                 << " " << when);
    REQUIRE(m == epoch - start, "mission time is "
                                    << m << " instead of " << epoch - start
                                    << " " << when);
    auto z0 = zuluNow();
    auto z = k->GetZuluTime();
    auto z1 = zuluNow();
    REQUIRE(z0 <= z && z <= z1,
            "zulu time is " << z << ", not in " << z0 << " .. " << z1);
  }
  I value() {
    switch (c.weighted({4, 4, 2, 2})) {
    case 0:
      return c.range(-20, 20);
    case 1:
      return c.integer<I>() % big;
    case 2:
      return c.pick({epoch, sim, start, epoch - start});
    default:
      return c.pick({big, -big, I{0}, I{1}, I{-1}, I{1'000'000'000},
                     I{86'400'000'000'000}});
    }
  }
  static bool safe(I v) { return v >= -big && v <= big; }

  void act() {
    if (actions >= 60)
      return;
    ++actions;
    Case::Span sp(c);
    auto e0 = epochEvents, m0 = missionEvents;
    switch (c.weighted({3, 3, 3, where == Pre ? 10u : 2u, 3, 1})) {
    case 0: {
      auto v = value();
      if (!safe(v))
        return;
      NOTE(c, "SetEpochTime(" << v << ")");
      epoch = v;
      w.timeKeeper->SetEpochTime(v);
      if (!depth) {
        REQUIRE(epochEvents >= e0 + 1, "no EpochTimeChanged event");
        c.label("epoch time set");
      }
      break;
    }
    case 1: {
      auto v = value();
      if (!safe(v))
        return;
      NOTE(c, "SetMissionStartTime(" << v << ")");
      start = v;
      w.timeKeeper->SetMissionStartTime(v);
      if (!depth) {
        REQUIRE(missionEvents >= m0 + 1, "no MissionTimeChanged event");
        c.label("mission start set");
      }
      break;
    }
    case 2: {
      auto v = value();
      if (!safe(v) || !safe(epoch - v))
        return;
      NOTE(c, "SetMissionTime(" << v << ")");
      start = epoch - v;
      w.timeKeeper->SetMissionTime(v);
      if (!depth) {
        REQUIRE(missionEvents >= m0 + 1, "no MissionTimeChanged event");
        c.label("mission time set");
      }
      break;
    }
    case 3: {
      if (where == Pre && held)
        return; // time will not be changed any more
      auto next = w.scheduler->GetNextScheduledEventTime();
      I v = 0;
      switch (c.weighted({3, 4, 3})) {
      case 0:
        v = c.pick({sim - 1, sim, next, next < big ? next + 1 : next,
                    I{0}, I{-1}, std::numeric_limits<I>::min(),
                    std::numeric_limits<I>::max()});
        break;
      case 1:
        v = next > sim ? sim + static_cast<I>(c.range(
                                   0, std::min<I>(next - sim, I{1} << 40)))
                       : sim;
        break;
      default:
        v = sim + c.range(-5, 30);
      }
      if (where == Pre && v > sim + (I{1} << 41) && v <= next)
        return; // too far
      auto err = outcome([&] { w.timeKeeper->SetSimulationTime(v); });
      auto now = w.timeKeeper->GetSimulationTime();
      NOTE(c, (where == Pre    ? "(Pre) "
               : where == Post ? "(Post) "
                               : "")
                  << "SetSimulationTime(" << v << ") " << err
                  << ", next event at " << next);
      if (where == Pre && v >= sim && v <= next) {
        REQUIRE(err.empty(), "SetSimulationTime(" << v << "): " << err
                                                   << " though it is in "
                                                   << sim << " .. " << next);
        c.label("simulation time set");
        c.nontrivial();
        bySubscriber = true;
        advance(v);
      } else if (where == Pre) {
        REQUIRE(err == "InvalidSimulationTime",
                "SetSimulationTime(" << v << ") outside " << sim << " .. "
                                     << next << ": " << err);
        c.label("InvalidSimulationTime");
      } else
        c.label("not before a time change");
      REQUIRE(now == sim, "SetSimulationTime("
                              << v << ") "
                              << (where == Pre
                                      ? "gives "
                                      : "outside PreSimTimeChange gives ")
                              << now << " instead of " << sim);
      break;
    }
    case 4: {
      if (posted >= 8)
        return;
      ++posted;
      auto t = c.chance(1, 4) ? static_cast<I>(c.range(0, 1ULL << 18))
                              : static_cast<I>(c.range(0, 20)); // relative
      NOTE(c, "AddSimulationTimeEvent(" << t << ")");
      w.scheduler->AddSimulationTimeEvent(
          eps[4 + c.idx(eps.size() - 4)].get(), t);
      break;
    }
    default:
      if (w.sim.GetState() != S::SSK_Executing || where == Post)
        return;
      NOTE(c, "Hold");
      held = true;
      leftInPre = where == Pre;
      w.sim.Hold(true);
      break;
    }
    if (!depth) {
      // exactly one event for each change, those made by subscribers included
      c.label("action");
    }
    check("afterwards");
  }
  void run() {
    auto phases = c.range(1, 4);
    for (unsigned p = 0; p < phases; ++p) {
      Case::Span sp(c);
      while (c.more(10))
        act();
      auto d = static_cast<I>(c.chance(1, 4) ? c.range(1, 1ULL << 18)
                                             : c.range(1, 40));
      NOTE(c, "Run(" << d << ")");
      held = false;
      auto from = sim;
      w.sim.Run(d);
      NOTE(c, "end of run at " << sim);
      REQUIRE(w.sim.GetState() == S::SSK_Standby,
              "state " << fx::stateName(w.sim.GetState()) << ", "
                       << w.logger->lastError());
      if (!held)
        // (it may have been advanced further before the hold)
        REQUIRE(bySubscriber ? sim >= from + d : sim == from + d,
                "Run(" << d << ") ends at " << sim << ", it started at "
                       << from);
      else
        c.label(leftInPre ? "held before a time change" : "held");
      if (sim > from)
        c.nontrivial();
      check("after Run");
    }
    while (c.more(6))
      act();
    done = true;
  }
};
void histories(Case &c) {
  Clocks k(c);
  try {
    k.run();
  } catch (...) {
    k.done = true;
    throw;
  }
}

// ---------------------------------------------------------------------------
// every clock change is announced once, with the new values
void announced(Case &c) {
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> eps;
  fx::World w;
  I epoch = 0, start = 0;
  std::string heard;
  bool done = false;
  auto on = [&](const char *name, Smp::Services::EventId id) {
    eps.push_back(std::make_unique<Xsmp::EntryPoint>(
        name, "", w.object(), [&, name] {
          if (!done)
            heard += std::string(name) + " " +
                     std::to_string(w.timeKeeper->GetEpochTime()) + " " +
                     std::to_string(w.timeKeeper->GetMissionStartTime()) + " " +
                     std::to_string(w.timeKeeper->GetMissionTime()) + ";";
        }));
    w.events->Subscribe(id, eps.back().get());
  };
  on("Epoch", EM::SMP_EpochTimeChangedId);
  on("Mission", EM::SMP_MissionTimeChangedId);
  on("Pre", EM::SMP_PreSimTimeChangeId);
  on("Post", EM::SMP_PostSimTimeChangeId);
  unsigned n = 0;
  while (c.more(12)) {
    Case::Span sp(c);
    auto v = c.flip() ? c.integer<I>() % (big / 2) : c.range(-9, 9);
    heard.clear();
    const char *what = "Mission";
    switch (c.idx(3)) {
    case 0:
      NOTE(c, "SetEpochTime(" << v << ")");
      what = "Epoch";
      epoch = v;
      w.timeKeeper->SetEpochTime(v);
      break;
    case 1:
      NOTE(c, "SetMissionStartTime(" << v << ")");
      start = v;
      w.timeKeeper->SetMissionStartTime(v);
      break;
    default:
      NOTE(c, "SetMissionTime(" << v << ")");
      start = epoch - v;
      w.timeKeeper->SetMissionTime(v);
    }
    auto want = std::string(what) + " " + std::to_string(epoch) + " " +
                std::to_string(start) + " " + std::to_string(epoch - start) +
                ";";
    done = heard != want;
    REQUIRE(heard == want, "announced as \"" << heard << "\" instead of \""
                                             << want << "\"");
    if (++n > 1)
      c.nontrivial();
  }
  done = true;
}

// ---------------------------------------------------------------------------
// the clocks read and set by other threads while the simulation runs
void threads(Case &c) {
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> eps;
  fx::World w;
  w.scheduler->SetTargetSpeed(100);
  auto offset = static_cast<I>(c.integer<I>() % big),
       start = static_cast<I>(c.integer<I>() % big);
  auto step = static_cast<I>(c.range(1, 1000));
  auto count = static_cast<I>(c.range(5, 60));
  auto readers = c.range(1, 3);
  auto setter = c.idx(3); // 0: none, 1: epoch time, 2: mission time
  NOTE(c, "offset " << offset << " start " << start << " step " << step << " x "
                    << count << " readers " << readers << " setter " << setter);
  w.timeKeeper->SetEpochTime(offset);
  w.timeKeeper->SetMissionStartTime(start);
  eps.push_back(std::make_unique<Xsmp::EntryPoint>("tick", "", w.object(), [] {
    std::this_thread::yield();
  }));
  w.scheduler->AddSimulationTimeEvent(eps[0].get(), 0, step, count);
  std::atomic<bool> stop{false};
  std::atomic<int> ready{0};
  std::vector<std::string> errors(readers + 1);
  std::atomic<unsigned> moved{0};
  auto read = [&](size_t t) {
    I last = 0;
    auto *k = w.timeKeeper;
    std::ostringstream err;
    ++ready;
    while (!stop) {
      auto s0 = k->GetSimulationTime();
      auto e = k->GetEpochTime();
      auto m = k->GetMissionTime();
      auto b = k->GetMissionStartTime();
      auto s1 = k->GetSimulationTime();
      if (s0 < last || s1 < s0)
        err << "simulation time " << last << ", " << s0 << ", " << s1 << "; ";
      if (s0 > last)
        ++moved;
      last = s1;
      if (setter != 1 && (e - offset < s0 || e - offset > s1))
        err << "epoch time " << e << " of offset " << offset << " between "
            << s0 << " and " << s1 << "; ";
      if (!setter && (m + start - offset < s0 || m + start - offset > s1))
        err << "mission time " << m << " of start " << start << " between "
            << s0 << " and " << s1 << "; ";
      if (setter != 2 && b != start)
        err << "mission start " << b << "; ";
      if (s0 % step || s1 % step)
        err << "simulation time " << s0 << " or " << s1 << " is no multiple of "
            << step << "; ";
      // (readers without a pause would keep the writers waiting)
      std::this_thread::sleep_for(std::chrono::microseconds{10});
    }
    errors[t] = err.str();
  };
  auto set = [&] {
    auto *k = w.timeKeeper;
    std::ostringstream err;
    ++ready;
    for (I v = -1000; !stop && v < 1000000; v += 7) {
      auto s0 = k->GetSimulationTime();
      if (setter == 1)
        k->SetEpochTime(v);
      else
        k->SetMissionTime(v);
      auto now = setter == 1 ? k->GetEpochTime() : k->GetMissionTime();
      auto s1 = k->GetSimulationTime();
      if (now < v || now - v > s1 - s0)
        err << "time " << now << " after it was set to " << v << " between "
            << s0 << " and " << s1 << "; ";
      std::this_thread::yield();
    }
    errors[readers] = err.str();
  };
  std::vector<std::thread> ts;
  for (size_t t = 0; t < readers; ++t)
    ts.emplace_back(read, t);
  if (setter)
    ts.emplace_back(set);
  while (ready < static_cast<int>(ts.size()))
    std::this_thread::yield();
  w.sim.Run(step * count);
  stop = true;
  for (auto &t : ts)
    t.join();
  for (auto const &e : errors)
    REQUIRE(e.empty(), e.substr(0, 300));
  REQUIRE(w.timeKeeper->GetSimulationTime() == step * count,
          "the run ends at " << w.timeKeeper->GetSimulationTime());
  if (moved > 2)
    c.nontrivial();
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C27";
  s.rule = "simulation time advanced, was set by a subscriber, clocks were set "
           "twice, or other threads saw it move";
  s.subs = {{"histories", histories, 6000, 60000},
            {"announced", announced, 2000, 20000},
            {"threads", threads, 400, 5000}};
  s.assumptions = {"clock values and their sums stay within 2^62 nanoseconds",
                   "subscribers subscribe once the simulator is connected"};
  s.flaky = true;
  return s;
}
