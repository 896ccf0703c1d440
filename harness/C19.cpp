//! sources: full
// C19: the scheduler triggers every simulation, mission and epoch time event
// as many times as asked, at its time and in posting order.
// Scripts (what each entry point does at each of its executions, what happens
// around the changes of simulation time, and what is done between runs) are
// played on the real scheduler and on a reference model; the two histories
// must be the same.
#include "fx.h"
#include "fx_sim.h"
#include <map>
#include <memory>
#include <set>

using pbt::Case;
using I = Smp::Int64;

namespace {
enum Kind {
  Imm,
  Sim,
  Mis,
  Epo,
  SetSim,
  SetMis,
  SetEpo,
  SetCycle,
  SetRepeat,
  Remove,
  Next,
  Current,
  HoldNow,
  HoldLater,
  RunAgain,
  Throw,
  JumpMis,
  JumpEpo,
  KINDS
};
const char *const kindName[] = {
    "AddImmediate", "AddSim",    "AddMission", "AddEpoch", "SetSim",
    "SetMission",   "SetEpoch",  "SetCycle",   "SetRepeat", "Remove",
    "Next",         "Current",   "Hold(true)", "Hold(false)", "Run",
    "throw",        "JumpMission", "JumpEpoch"};

struct Action {
  Kind k = Next;
  int slot = 0;      // entry point
  I dt = 0;          // relative time
  I cycle = 0, repeat = 0;
  unsigned ref = 0; // index of an event among the posted ones
};
using Script = std::vector<Action>;

std::string ref(unsigned r) {
  return r == 9 ? "current" : "#" + std::to_string(r);
}
std::string text(Action const &a) {
  std::ostringstream o;
  o << kindName[a.k] << "(";
  switch (a.k) {
  case Imm:
    o << "ep" << a.slot;
    break;
  case Sim:
  case Mis:
  case Epo:
    o << "ep" << a.slot << ", +" << a.dt << ", cycle " << a.cycle
      << ", repeat " << a.repeat;
    break;
  case SetSim:
  case SetMis:
  case SetEpo:
    o << ref(a.ref) << ", +" << a.dt;
    break;
  case SetCycle:
    o << ref(a.ref) << ", " << a.cycle;
    break;
  case SetRepeat:
    o << ref(a.ref) << ", " << a.repeat;
    break;
  case Remove:
    o << ref(a.ref);
    break;
  default:
    break;
  }
  o << ")";
  return o.str();
}
std::string text(Script const &s) {
  std::string r;
  for (auto const &a : s)
    r += (r.empty() ? "" : "; ") + text(a);
  return r;
}

constexpr int slots = 4;
constexpr I jump = 1'000'000;

struct Plan {
  std::vector<Script> on[slots]; // by execution
  std::map<unsigned, Script> pre, post;
  struct Phase {
    Script before;
    I duration; // < 0: no end
  };
  std::vector<Phase> phases;
};

struct TooLong {};
struct Aborting {};

// what is common to the model and to the real scheduler
struct Player {
  Plan const &plan;
  std::vector<std::string> trace;
  unsigned done[slots] = {};
  unsigned pres = 0, posts = 0, jumps = 0;
  explicit Player(Plan const &p) : plan(p) {}
  virtual ~Player() = default;

  // outcome of an action
  virtual std::string act(Action const &a) = 0;
  virtual std::string now() = 0; // the clocks

  void log(std::string s) {
    if (trace.size() >= 2500)
      throw TooLong{};
    trace.push_back(std::move(s));
  }
  void play(Script const &s, const char *where) {
    for (auto const &a : s) {
      if (a.k == Throw) {
        log(std::string(where) + "throw");
        throw Aborting{};
      }
      auto r = act(a);
      log(std::string(where) + text(a) + " -> " + r);
    }
  }
  void execute(int slot) {
    auto n = done[slot]++;
    log("ep" + std::to_string(slot) + " " + now());
    if (n < plan.on[slot].size())
      play(plan.on[slot][n], "  ");
  }
  void preChange() {
    auto it = plan.pre.find(pres++);
    if (it != plan.pre.end()) {
      log("PreSimTimeChange " + now());
      play(it->second, "  ");
    }
  }
  void postChange() {
    auto it = plan.post.find(posts++);
    if (it != plan.post.end()) {
      log("PostSimTimeChange " + now());
      play(it->second, "  ");
    }
  }
};

// ------------------------------------------------------------------- model
struct Model : Player {
  using Player::Player;
  enum { KSim, KMis, KEpo };
  struct Ev {
    int slot;
    I next, time, cycle, repeat;
    int kind;
  };
  std::map<I, Ev> ev;
  std::set<std::pair<I, I>> table; // (time, id)
  std::set<I> imm;
  std::vector<I> created;
  std::vector<bool> jumpDone;
  I last = -1, current = -1;
  bool moved = false;
  I t = 0, epoch = 0, mission = 0; // the clocks are t + epoch, t + mission
  bool standby = true, aborted = false, stop = false, later = false;
  I hold = -1;
  unsigned changes = 0, held = 0, skipped = 0, movedCurrent = 0, removed = 0,
           sameTime = 0, executed = 0;

  std::string now() override {
    return "at " + std::to_string(t) + " mission " +
           std::to_string(t + mission) + " epoch " + std::to_string(t + epoch);
  }
  I clock(int kind) const {
    return kind == KSim ? t : kind == KMis ? t + mission : t + epoch;
  }
  std::string add(int slot, int kind, I dt, I cycle, I repeat) {
    if (dt < 0)
      return "InvalidEventTime";
    if (repeat != 0 && cycle <= 0)
      return "InvalidCycleTime";
    ev[++last] = {slot, t + dt, clock(kind) + dt, cycle, repeat, kind};
    table.emplace(t + dt, last);
    return "";
  }
  void unschedule(I id) {
    if (!imm.erase(id))
      table.erase({ev[id].next, id});
  }
  void doHold() {
    if (standby || aborted)
      return;
    later = false;
    stop = true;
    standby = true;
    ++held;
  }
  std::string act(Action const &a) override {
    I id = a.ref == 9 && current >= 0 ? current
           : created.empty()          ? 1000000
                                      : created[a.ref % created.size()];
    switch (a.k) {
    case Imm:
      ev[++last] = {a.slot, t, t, 0, 0, KSim};
      imm.insert(last);
      created.push_back(last);
      return "";
    case Sim:
    case Mis:
    case Epo: {
      auto r = add(a.slot, a.k == Sim ? KSim : a.k == Mis ? KMis : KEpo, a.dt,
                   a.cycle, a.repeat);
      if (r.empty())
        created.push_back(last);
      return r;
    }
    case SetSim:
    case SetMis:
    case SetEpo: {
      int kind = a.k == SetSim ? KSim : a.k == SetMis ? KMis : KEpo;
      if (!ev.count(id) || ev[id].kind != kind)
        return "InvalidEventId";
      auto &e = ev[id];
      if (id == current) {
        ++movedCurrent;
        if (a.dt < 0)
          e.repeat = 0;
        else {
          e.next = t + a.dt;
          e.time = clock(kind) + a.dt;
          moved = true;
        }
        return "";
      }
      ++changes;
      unschedule(id);
      if (a.dt < 0) {
        ev.erase(id);
        return "";
      }
      e.next = t + a.dt;
      e.time = clock(kind) + a.dt;
      table.emplace(e.next, id);
      return "";
    }
    case SetCycle:
      if (!ev.count(id))
        return "InvalidEventId";
      if (ev[id].repeat != 0 && a.cycle <= 0)
        return "InvalidCycleTime";
      ev[id].cycle = a.cycle;
      return "";
    case SetRepeat:
      if (!ev.count(id))
        return "InvalidEventId";
      if (a.repeat != 0 && ev[id].cycle <= 0)
        return "InvalidCycleTime";
      ev[id].repeat = a.repeat;
      return "";
    case Remove:
      if (!ev.count(id))
        return "InvalidEventId";
      ++removed;
      if (id == current) {
        ev[id].repeat = 0;
        return "";
      }
      unschedule(id);
      ev.erase(id);
      return "";
    case Next:
      return table.empty() ? "none" : std::to_string(table.begin()->first);
    case Current:
      return position(current);
    case HoldNow:
      doHold();
      return standby ? "standby" : aborted ? "aborting" : "executing";
    case HoldLater:
      if (!standby && !aborted)
        later = true;
      return standby ? "standby" : aborted ? "aborting" : "executing";
    case RunAgain:
      return "";
    case JumpMis:
    case JumpEpo: {
      // the cyclic events of these clocks, and the events that would be moved
      // backwards, are out of the domain
      bool ok = true;
      for (auto const &[i, e] : ev)
        ok = ok && (e.kind == KSim || e.repeat == 0);
      jumpDone.push_back(ok);
      if (!ok)
        return "not done";
      ++changes;
      if (a.k == JumpEpo)
        epoch += jump;
      mission += jump;
      return "";
    }
    default:
      return "?";
    }
  }
  std::string position(I id) const {
    if (id < 0)
      return "none";
    for (size_t i = 0; i < created.size(); ++i)
      if (created[i] == id)
        return "#" + std::to_string(i);
    return "other";
  }
  template <class F> void safely(F &&f) {
    try {
      f();
    } catch (Aborting const &) {
      aborted = true;
      stop = true;
    }
  }
  void trigger(I id) {
    auto const &e = ev[id];
    if (e.kind != KSim && e.time < clock(e.kind)) {
      ++skipped;
    } else {
      current = id;
      moved = false;
      ++executed;
      auto slot = e.slot;
      if (slot < 0) // hold of Run(duration)
        later = !aborted && !standby;
      else
        safely([&] { execute(slot); });
      current = -1;
    }
    auto &f = ev[id];
    if (f.repeat == 0) {
      ev.erase(id);
      return;
    }
    if (f.repeat > 0)
      --f.repeat;
    if (!moved) {
      f.next += f.cycle;
      f.time += f.cycle;
    }
    table.emplace(f.next, id);
  }
  bool immediates() {
    while (true) {
      if (stop)
        return false;
      if (imm.empty())
        return true;
      auto id = *imm.begin();
      imm.erase(imm.begin());
      moved = false;
      trigger(id);
    }
  }
  void loop() {
    if (!immediates())
      return;
    while (true) {
      safely([&] { preChange(); });
      if (later)
        doHold();
      if (stop)
        return;
      if (table.empty() || table.begin()->first > 1'000'000'000)
        throw TooLong{}; // nothing left: would wait for the end of time
      t = std::max(t, table.begin()->first);
      safely([&] { postChange(); });
      if (!immediates())
        return;
      unsigned n = 0;
      while (!table.empty() && table.begin()->first <= t) {
        auto id = table.begin()->second;
        table.erase(table.begin());
        moved = false;
        if (n++)
          ++sameTime;
        trigger(id);
        if (stop || !immediates())
          return;
      }
    }
  }
  void run(I duration) {
    if (!standby || aborted)
      return;
    if (duration >= 0)
      add(-1, KSim, duration, 0, 0);
    hold = duration >= 0 ? last : -1;
    standby = false;
    stop = false;
    loop();
    if (hold >= 0 && ev.count(hold)) {
      unschedule(hold);
      ev.erase(hold);
    }
    hold = -1;
  }
  std::string state() const {
    return aborted ? "Aborting" : standby ? "Standby" : "Executing";
  }
};

// -------------------------------------------------------------------- real
struct Real : Player {
  std::vector<bool> jumpDone;
  fx::World w;
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> ep;
  std::unique_ptr<Xsmp::EntryPoint> pre, post;
  std::vector<I> created;

  Real(Plan const &p, std::vector<bool> j)
      : Player(p), jumpDone(std::move(j)) {
    for (int i = 0; i < slots; ++i)
      ep.push_back(std::make_unique<Xsmp::EntryPoint>(
          ("ep" + std::to_string(i)).c_str(), "", w.object(),
          [this, i] { execute(i); }));
    pre = std::make_unique<Xsmp::EntryPoint>("pre", "", w.object(),
                                             [this] { preChange(); });
    post = std::make_unique<Xsmp::EntryPoint>("post", "", w.object(),
                                              [this] { postChange(); });
    w.events->Subscribe(Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
                        pre.get());
    w.events->Subscribe(Smp::Services::IEventManager::SMP_PostSimTimeChangeId,
                        post.get());
    w.timeKeeper->SetEpochTime(0);
    w.timeKeeper->SetMissionTime(0);
  }
  std::string now() override {
    return "at " + std::to_string(w.timeKeeper->GetSimulationTime()) +
           " mission " + std::to_string(w.timeKeeper->GetMissionTime()) +
           " epoch " + std::to_string(w.timeKeeper->GetEpochTime());
  }
  std::string act(Action const &a) override {
    std::string value;
    auto id = created.empty() ? 1000000 : created[a.ref % created.size()];
    if (a.ref == 9 && w.scheduler->GetCurrentEventId() != -1)
      id = w.scheduler->GetCurrentEventId();
    auto &s = *w.scheduler;
    auto const *e = ep[static_cast<size_t>(a.slot)].get();
    auto r = fx::outcome([&] {
      switch (a.k) {
      case Imm:
        created.push_back(s.AddImmediateEvent(e));
        break;
      case Sim:
        created.push_back(
            s.AddSimulationTimeEvent(e, a.dt, a.cycle, a.repeat));
        break;
      case Mis:
        created.push_back(s.AddMissionTimeEvent(
            e, w.timeKeeper->GetMissionTime() + a.dt, a.cycle, a.repeat));
        break;
      case Epo:
        created.push_back(s.AddEpochTimeEvent(
            e, w.timeKeeper->GetEpochTime() + a.dt, a.cycle, a.repeat));
        break;
      case SetSim:
        s.SetEventSimulationTime(id, a.dt);
        break;
      case SetMis:
        s.SetEventMissionTime(id, w.timeKeeper->GetMissionTime() + a.dt);
        break;
      case SetEpo:
        s.SetEventEpochTime(id, w.timeKeeper->GetEpochTime() + a.dt);
        break;
      case SetCycle:
        s.SetEventCycleTime(id, a.cycle);
        break;
      case SetRepeat:
        s.SetEventRepeat(id, a.repeat);
        break;
      case Remove:
        s.RemoveEvent(id);
        break;
      case Next: {
        auto n = s.GetNextScheduledEventTime();
        value = n > 1'000'000'000 ? "none" : std::to_string(n);
        break;
      }
      case Current: {
        auto c = s.GetCurrentEventId();
        value = "other";
        if (c == -1)
          value = "none";
        for (size_t i = 0; i < created.size(); ++i)
          if (created[i] == c)
            value = "#" + std::to_string(i);
        break;
      }
      case HoldNow:
      case HoldLater: {
        w.sim.Hold(a.k == HoldNow);
        auto st = w.sim.GetState();
        value = st == Smp::SimulatorStateKind::SSK_Standby     ? "standby"
                : st == Smp::SimulatorStateKind::SSK_Executing ? "executing"
                : st == Smp::SimulatorStateKind::SSK_Aborting  ? "aborting"
                                                               : "?";
        break;
      }
      case RunAgain:
        // refused while the simulation is executed (a run of the simulation
        // inside an event that holds it is out of the domain)
        if (w.sim.GetState() != Smp::SimulatorStateKind::SSK_Standby)
          w.sim.Run(5);
        break;
      case JumpMis:
      case JumpEpo:
        if (jumps >= jumpDone.size() || !jumpDone[jumps++]) {
          value = "not done";
          break;
        }
        if (a.k == JumpMis)
          w.timeKeeper->SetMissionTime(w.timeKeeper->GetMissionTime() + jump);
        else
          w.timeKeeper->SetEpochTime(w.timeKeeper->GetEpochTime() + jump);
        break;
      default:
        break;
      }
    });
    return r.empty() ? value : r;
  }
};

// ---------------------------------------------------------------- generator
I small(Case &c) {
  static const I v[] = {0, 0, 1, 1, 2, 3, 5, 8, 13, 20};
  return v[c.idx(std::size(v))];
}
Action action(Case &c, bool standby, bool handler) {
  Action a;
  //          Imm Sim Mis Epo SeS SeM SeE Cyc Rep Rem Nex Cur HoN HoL Run Thr JM JE
  a.k = static_cast<Kind>(
      standby ? c.weighted({3, 10, 4, 4, 4, 2, 2, 2, 3, 3, 2, 1, 1, 1, 0, 0, 1, 1})
              : c.weighted({4, 8, 3, 3, 6, 3, 3, 3, 4, 6, 3, 3, 1,
                            handler ? 0u : 2u, 1, 0, 1, 1}));
  if (a.k == Next && !standby && c.chance(1, 25))
    a.k = Throw;
  a.slot = static_cast<int>(c.idx(slots));
  a.dt = c.chance(1, 16) ? -1 : small(c);
  a.repeat = c.chance(1, 2) ? 0 : c.range(-1, 3);
  a.cycle = a.repeat == 0 && c.chance(3, 4) ? 0
            : c.chance(1, 14)               ? c.range(-1, 0)
                                            : c.range(1, 9);
  if (a.k == SetCycle)
    a.cycle = c.range(-1, 9);
  if (a.k == SetRepeat)
    a.repeat = c.range(-1, 3);
  // 9: the event being executed
  a.ref = !standby && !handler && c.chance(1, 4)
              ? 9
              : static_cast<unsigned>(c.idx(8));
  return a;
}
Script script(Case &c, unsigned max, bool standby, bool handler = false) {
  Script s;
  while (s.size() < max && c.more(max)) {
    Case::Span sp(c);
    s.push_back(action(c, standby, handler));
  }
  return s;
}

void histories(Case &c) {
  Plan p;
  for (int i = 0; i < slots; ++i) {
    Case::Span sp(c);
    unsigned n = static_cast<unsigned>(c.range(0, 3));
    for (unsigned k = 0; k < n; ++k) {
      p.on[i].push_back(script(c, 3, false));
      NOTE(c, "ep" << i << " execution " << k << ": " << text(p.on[i].back()));
    }
  }
  for (auto *m : {&p.pre, &p.post}) {
    while (m->size() < 2 && c.chance(1, 4)) {
      auto k = static_cast<unsigned>(c.idx(6));
      (*m)[k] = script(c, 2, false, true);
      NOTE(c, (m == &p.pre ? "PreSimTimeChange " : "PostSimTimeChange ")
                  << k << ": " << text((*m)[k]));
    }
  }
  unsigned phases = static_cast<unsigned>(c.range(1, 3));
  for (unsigned k = 0; k < phases; ++k) {
    Case::Span sp(c);
    Plan::Phase ph;
    ph.before = script(c, 6, true);
    ph.duration = c.chance(1, 4) ? 0 : c.range(1, 60);
    NOTE(c, "standby: " << text(ph.before));
    NOTE(c, "Run(" << ph.duration << ")");
    p.phases.push_back(ph);
  }

  Model m(p);
  std::vector<std::string> ends;
  auto outside = [&] { // operations done in Standby
    return "state " + m.state() + " " + m.now();
  };
  try {
    for (auto const &ph : p.phases) {
      m.play(ph.before, "");
      m.run(ph.duration);
      m.log("end of run: " + outside() + " " + m.act({Next}) + " " +
            m.act({Current}));
      if (m.aborted)
        break;
    }
    for (unsigned i = 0; i < m.created.size(); ++i) {
      Action a;
      a.k = Remove;
      a.ref = i;
      m.log("end: " + text(a) + " -> " + m.act(a));
    }
  } catch (TooLong const &) {
    throw pbt::Discard{};
  }

  Real r(p, m.jumpDone);
  try {
    for (auto const &ph : p.phases) {
      r.play(ph.before, "");
      r.w.sim.Run(ph.duration);
      r.log(std::string("end of run: state ") +
            fx::stateName(r.w.sim.GetState()) + " " + r.now() + " " +
            r.act({Next}) + " " + r.act({Current}));
      if (r.w.sim.GetState() == Smp::SimulatorStateKind::SSK_Aborting)
        break;
    }
    for (unsigned i = 0; i < r.created.size(); ++i) {
      Action a;
      a.k = Remove;
      a.ref = i;
      r.log("end: " + text(a) + " -> " + r.act(a));
    }
  } catch (TooLong const &) {
    FAILURE("more than 2500 operations where the model has "
            << m.trace.size());
  }
  for (size_t i = 0; i < std::max(m.trace.size(), r.trace.size()); ++i) {
    auto want = i < m.trace.size() ? m.trace[i] : "(nothing)";
    auto got = i < r.trace.size() ? r.trace[i] : "(nothing)";
    if (want != got) {
      std::string before;
      for (size_t k = i > 12 ? i - 12 : 0; k < i; ++k)
        before += "\n    " + m.trace[k];
      FAILURE("after" << before << "\n  the scheduler gives: " << got
                      << "\n  expected: " << want
                      << "\n  last error: " << r.w.logger->lastError());
    }
  }
  if (m.executed >= 3)
    c.nontrivial();
  if (m.changes)
    c.label("pending event changed");
  if (m.movedCurrent)
    c.label("current event moved");
  if (m.skipped)
    c.label("skipped after a clock change");
  if (m.held)
    c.label("held");
  if (m.aborted)
    c.label("aborted");
  if (m.sameTime)
    c.label("several events at the same time");
}
} // namespace

pbt::Suite pbt_suite() {
  return {"C19",
          "at least three events are triggered",
          {{"histories", histories, 20000, 600000, 60}},
          {"times, cycles and durations are small (no overflow of Duration)",
           "the mission and epoch clocks are only set forward beyond the "
           "pending, non cyclic events of these clocks",
           "Hold(false) is not called by a handler of SMP_PreSimTimeChange or "
           "SMP_PostSimTimeChange"},
          {}};
}
