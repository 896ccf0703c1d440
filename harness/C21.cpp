//! sources: full
//! opt: -O1
// C21: states of the simulator.
// Generated histories of operations on a simulator, called from outside, from
// subscribers of its events, from its init entry points and from the steps of
// its components, are compared with a model of the documented state machine.
#include "fx.h"
#include "fx_sim.h"
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/Model.h>
#include <filesystem>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>

using pbt::Case;
using EM = Smp::Services::IEventManager;
using S = Smp::SimulatorStateKind;

namespace {
enum Op {
  Publish,
  Configure,
  Connect,
  Initialise,
  Run,
  RunFor,
  HoldNow,
  HoldLater,
  PreTime, // the event emitted before the simulation time changes
  Store,
  Restore,
  RestoreMissing,
  Reconnect,
  Exit,
  Abort,
  AddInit,
  AddModel,
  AddService,
  AddChild,
  Throw
};
const char *const opName[] = {"Publish",
                              "Configure",
                              "Connect",
                              "Initialise",
                              "Run",
                              "Run(5)",
                              "Hold(true)",
                              "Hold(false)",
                              "Emit(PreSimTimeChange)",
                              "Store",
                              "Restore",
                              "Restore(missing)",
                              "Reconnect",
                              "Exit",
                              "Abort",
                              "AddInitEntryPoint",
                              "AddModel",
                              "AddService",
                              "AddChild",
                              "throw"};
struct Action {
  Op op;
  unsigned ref = 0;
};
using Script = std::vector<Action>;

constexpr int events = 19; // global events
constexpr int inits = 3;   // init entry points
enum Hook { Pub, Cfg, Con, Dis };
const char *const hookName[] = {"publish", "configure", "connect",
                                "disconnect"};

struct Plan {
  bool logger = true;
  // subscribers: two per event
  std::map<int, std::vector<Script>> on; // event*2+k -> script per execution
  std::vector<Script> init[inits];
  std::map<std::pair<int, int>, Script> hook; // component, hook
  Script main;
  unsigned models = 0;
  std::vector<int> children; // parent of the initial children
};

std::string text(Script const &s) {
  std::string r;
  for (auto const &a : s)
    r += std::string(r.empty() ? "" : "; ") + opName[a.op] +
         (a.op >= Reconnect && a.op != Exit && a.op != Abort && a.op != Throw
              ? "(" + std::to_string(a.ref) + ")"
              : "");
  return r;
}

// names of the components: some of them conflict
std::string nameOf(int id, Op op, unsigned ref) {
  if (op == AddModel && ref % 8 == 7)
    return "Handlers"; // a service
  if (op == AddModel && ref % 8 == 6)
    return "m0";
  if (op == AddService && ref % 8 == 7)
    return "m0";
  return "m" + std::to_string(id);
}

// ------------------------------------------------------------------- model
struct Node {
  std::string name;
  int state = 0;
  std::vector<int> kids;
};
struct Model {
  Plan const &p;
  std::vector<std::string> trace;
  size_t abortedAt = 0; // length of the trace when aborted
  S state = S::SSK_Building;
  int last = -1;
  bool aborted = false;
  bool later = false;
  std::map<int, Node> comp;
  std::vector<int> models, services;
  std::vector<int> initList;
  std::map<int, size_t> done;
  size_t initDone[inits] = {};
  int nextId = 0;
  int depth = 0;
  int stored = -1; // number of components when stored
  unsigned transitions = 0, refused = 0, nested = 0, hooks = 0;

  explicit Model(Plan const &p) : p(p) {}
  void log(std::string const &s) { trace.push_back(s); }
  void step(std::string const &s) {
    log(s + " in " + fx::stateName(state) + " state");
  }
  bool enter(S s) {
    if (aborted)
      return false;
    state = s;
    ++transitions;
    return true;
  }
  void emit(int ev) {
    auto saved = last;
    if (ev != EM::SMP_PreSimTimeChangeId)
      last = ev;
    bool hold = ev == EM::SMP_PreSimTimeChangeId && later;
    for (int k = 0; k < 2; ++k) {
      auto h = ev * 2 + k;
      step("on" + std::to_string(h));
      auto n = done[h]++;
      auto it = p.on.find(h);
      if (it != p.on.end() && n < it->second.size() && run(it->second[n]))
        abort();
    }
    if (hold)
      holdNow();
    last = saved;
  }
  void abort() {
    if (aborted)
      return;
    aborted = true;
    abortedAt = trace.size();
    state = S::SSK_Aborting;
  }
  // true if it throws
  bool run(Script const &s) {
    ++depth;
    bool thrown = false;
    for (auto const &a : s) {
      if (a.op == Throw) {
        // the event manager is disconnected from the simulator on exit
        if (state == S::SSK_Exiting)
          continue;
        thrown = true;
        break;
      }
      if (depth > 1)
        ++nested;
      auto r = perform(a);
      log(std::string(opName[a.op]) + " -> '" + r + "' " +
          fx::stateName(state));
    }
    --depth;
    return thrown;
  }
  void hook(int id, Hook h) {
    step(std::string(hookName[h]) + " " + comp[id].name);
    ++hooks;
    auto it = p.hook.find({id, h});
    if (it != p.hook.end())
      run(it->second);
  }
  void visit(int id, int level) {
    if (level == Dis) {
      if (comp[id].state == 3) {
        comp[id].state = 4;
        hook(id, Dis);
      }
    } else
      for (int l = Pub; l <= level; ++l)
        if (comp[id].state == l) {
          comp[id].state = l + 1;
          hook(id, static_cast<Hook>(l));
        }
    kids(id, level);
  }
  void kids(int id, int level) {
    for (size_t i = 0; i < comp[id].kids.size(); ++i)
      visit(comp[id].kids[i], level);
  }
  void all(int level) {
    for (size_t i = 0; i < services.size(); ++i)
      visit(services[i], level);
    for (size_t i = 0; i < models.size(); ++i)
      visit(models[i], level);
  }
  void initialise() {
    if (!enter(S::SSK_Initialising))
      return;
    emit(EM::SMP_EnterInitialisingId);
    for (auto i : initList) {
      step("init" + std::to_string(i));
      auto n = initDone[i]++;
      if (n < p.init[i].size())
        run(p.init[i][n]);
    }
    emit(EM::SMP_LeaveInitialisingId);
    if (enter(S::SSK_Standby))
      emit(EM::SMP_EnterStandbyId);
  }
  void holdNow() {
    if (state != S::SSK_Executing || last == EM::SMP_LeaveExecutingId) {
      ++refused;
      return;
    }
    later = false;
    emit(EM::SMP_LeaveExecutingId);
    if (enter(S::SSK_Standby))
      emit(EM::SMP_EnterStandbyId);
  }
  int add(std::string const &name) {
    auto id = nextId++;
    comp[id].name = name;
    return id;
  }
  bool taken(std::string const &name) {
    static const std::set<std::string> fixed = {"Handlers", "XsmpEventManager",
                                                "XsmpLinkRegistry",
                                                "XsmpResolver", "XsmpLogger"};
    if (fixed.count(name))
      return true;
    for (auto *l : {&models, &services})
      for (auto i : *l)
        if (comp[i].name == name)
          return true;
    return false;
  }
  std::string addRoot(Action const &a) {
    auto id = nextId++;
    auto name = nameOf(id, a.op, a.ref);
    if (state != S::SSK_Building && state != S::SSK_Connecting &&
        state != S::SSK_Standby)
      return "InvalidSimulatorState";
    if (taken(name))
      return "DuplicateName";
    comp[id].name = name;
    (a.op == AddModel ? models : services).push_back(id);
    return "";
  }
  bool standby() {
    if (state == S::SSK_Standby && last != EM::SMP_LeaveStandbyId)
      return true;
    ++refused;
    return false;
  }
  std::string perform(Action const &a) {
    switch (a.op) {
    case Publish:
    case Configure:
      if (state != S::SSK_Building)
        ++refused;
      else
        all(a.op == Publish ? Pub : Cfg);
      return "";
    case Connect:
      if (state != S::SSK_Building) {
        ++refused;
        return "";
      }
      enter(S::SSK_Connecting);
      all(Con);
      emit(EM::SMP_LeaveConnectingId);
      initialise();
      return "";
    case Initialise:
      if (!standby())
        return "";
      emit(EM::SMP_LeaveStandbyId);
      initialise();
      return "";
    case Run:
    case RunFor:
      if (last == EM::SMP_EnterStandbyId) {
        ++refused;
        return "";
      }
      if (!standby())
        return "";
      emit(EM::SMP_LeaveStandbyId);
      if (enter(S::SSK_Executing))
        emit(EM::SMP_EnterExecutingId);
      return "";
    case HoldNow:
      holdNow();
      return "";
    case HoldLater:
      if (state != S::SSK_Executing || last == EM::SMP_LeaveExecutingId)
        ++refused;
      else
        later = true;
      return "";
    case PreTime:
      emit(EM::SMP_PreSimTimeChangeId);
      return "";
    case Store:
      if (!standby())
        return "";
      emit(EM::SMP_LeaveStandbyId);
      if (!enter(S::SSK_Storing))
        return "";
      emit(EM::SMP_EnterStoringId);
      stored = static_cast<int>(comp.size());
      emit(EM::SMP_LeaveStoringId);
      if (enter(S::SSK_Standby))
        emit(EM::SMP_EnterStandbyId);
      return "";
    case Restore:
    case RestoreMissing: {
      // only a file with the same components may be restored
      if (a.op == Restore && stored != static_cast<int>(comp.size()))
        return "not done";
      if (!standby())
        return "";
      emit(EM::SMP_LeaveStandbyId);
      if (!enter(S::SSK_Restoring))
        return "";
      emit(EM::SMP_EnterRestoringId);
      emit(EM::SMP_LeaveRestoringId);
      if (enter(S::SSK_Standby))
        emit(EM::SMP_EnterStandbyId);
      return a.op == RestoreMissing ? "CannotRestore" : "";
    }
    case Reconnect: {
      if (comp.empty())
        return "none";
      auto root =
          std::next(comp.begin(), static_cast<long>(a.ref % comp.size()))
              ->first;
      if (!standby())
        return "";
      emit(EM::SMP_LeaveStandbyId);
      if (!enter(S::SSK_Reconnecting))
        return "";
      emit(EM::SMP_EnterReconnectingId);
      kids(root, Con);
      emit(EM::SMP_LeaveReconnectingId);
      if (enter(S::SSK_Standby))
        emit(EM::SMP_EnterStandbyId);
      return "";
    }
    case Exit:
      if (!standby())
        return "";
      emit(EM::SMP_LeaveStandbyId);
      if (!enter(S::SSK_Exiting))
        return "";
      emit(EM::SMP_EnterExitingId);
      all(Dis);
      return "";
    case Abort:
      abort();
      return "";
    case AddInit:
      if (state == S::SSK_Building || state == S::SSK_Connecting ||
          state == S::SSK_Standby)
        initList.push_back(static_cast<int>(a.ref % inits));
      else
        ++refused;
      return "";
    case AddModel:
    case AddService:
      return addRoot(a);
    case AddChild: {
      auto id = nextId++;
      if (comp.empty())
        return "none";
      auto parent =
          std::next(comp.begin(), static_cast<long>(a.ref % comp.size()))
              ->first;
      auto name = "m" + std::to_string(id);
      comp[id].name = name;
      comp[parent].kids.push_back(id);
      return "";
    }
    default:
      return "";
    }
  }
  void end() {
    if (state == S::SSK_Executing)
      holdNow();
    if (standby())
      perform({Exit});
  }
};

// -------------------------------------------------------------------- real
struct Real;
struct Traced {
  Real &r;
  int id;
  Traced(Real &r, int id) : r(r), id(id) {}
  void hook(Hook h);
  virtual ~Traced() = default;
};
struct M : Xsmp::Model, Xsmp::Composite, Traced {
  Xsmp::Container<Smp::IModel> kids;
  M(const std::string &name, int id, Smp::IComposite *parent,
    Smp::ISimulator *sim, Real &r)
      : Model(name.c_str(), "", parent, sim), Traced{r, id},
        kids("kids", "", this, 0, -1) {}
  void Publish(Smp::IPublication *p) override {
    Model::Publish(p);
    hook(Pub);
  }
  void Configure(Smp::Services::ILogger *l,
                 Smp::Services::ILinkRegistry *r) override {
    Model::Configure(l, r);
    hook(Cfg);
  }
  void Connect(Smp::ISimulator *s) override {
    Model::Connect(s);
    hook(Con);
  }
  void Disconnect() override {
    Model::Disconnect();
    hook(Dis);
  }
};
struct Sv : Xsmp::Service, Xsmp::Composite, Traced {
  Xsmp::Container<Smp::IModel> kids;
  Sv(const std::string &name, int id, Smp::IComposite *parent,
     Smp::ISimulator *sim, Real &r)
      : Service(name.c_str(), "", parent, sim), Traced{r, id},
        kids("kids", "", this, 0, -1) {}
  void Publish(Smp::IPublication *p) override {
    Service::Publish(p);
    hook(Pub);
  }
  void Configure(Smp::Services::ILogger *l,
                 Smp::Services::ILinkRegistry *r) override {
    Service::Configure(l, r);
    hook(Cfg);
  }
  void Connect(Smp::ISimulator *s) override {
    Service::Connect(s);
    hook(Con);
  }
  void Disconnect() override {
    Service::Disconnect();
    hook(Dis);
  }
};
struct Handlers : Xsmp::Service, Xsmp::EntryPointPublisher {
  using Service::Service;
  std::vector<std::unique_ptr<Xsmp::EntryPoint>> list;
};

struct Real {
  Plan const &p;
  std::vector<std::string> trace;
  Xsmp::Simulator *sim = nullptr;
  Handlers *handlers = nullptr;
  Xsmp::Services::XsmpEventManager *em = nullptr;
  std::map<int, Xsmp::Container<Smp::IModel> *> kids;
  std::map<int, Smp::IComponent *> comp;
  std::map<int, std::string> name;
  std::map<int, size_t> done;
  size_t initDone[inits] = {};
  std::vector<Smp::IEntryPoint *> init;
  int nextId = 0;
  int stored = -1;
  std::string dir;
  bool badOrder = false;

  Smp::IComposite *root() {
    return static_cast<Smp::IComposite *>(static_cast<Smp::ISimulator *>(sim));
  }
  explicit Real(Plan const &p) : p(p) {
    sim = new Xsmp::Simulator();
    if (p.logger)
      sim->AddService(new fx::SilentLogger("XsmpLogger", "", root(), sim));
    sim->AddService(
        new Xsmp::Services::XsmpResolver("XsmpResolver", "", root(), sim));
    sim->AddService(em = new Xsmp::Services::XsmpEventManager(
                        "XsmpEventManager", "", root(), sim));
    sim->AddService(new Xsmp::Services::XsmpLinkRegistry("XsmpLinkRegistry", "",
                                                         root(), sim));
    handlers = new Handlers("Handlers", "", root(), sim);
    sim->AddService(handlers);
    for (int h = 2; h < 2 * (events + 1); ++h) {
      handlers->list.push_back(std::make_unique<Xsmp::EntryPoint>(
          ("on" + std::to_string(h)).c_str(), "", handlers,
          [this, h] { handle(h); }));
      em->Subscribe(h / 2, handlers->list.back().get());
    }
    for (int i = 0; i < inits; ++i) {
      handlers->list.push_back(std::make_unique<Xsmp::EntryPoint>(
          ("init" + std::to_string(i)).c_str(), "", handlers, [this, i] {
            step("init" + std::to_string(i));
            auto n = initDone[i]++;
            if (n < this->p.init[i].size())
              run(this->p.init[i][n]);
          }));
      init.push_back(handlers->list.back().get());
    }
  }
  ~Real() {
    destroy();
    if (!dir.empty()) {
      std::error_code e;
      std::filesystem::remove_all(dir, e);
    }
  }
  void destroy() {
    delete sim;
    sim = nullptr;
  }
  void log(std::string const &s) { trace.push_back(s); }
  void step(std::string const &s) {
    log(s + " in " + fx::stateName(sim->GetState()) + " state");
  }
  void handle(int h) {
    step("on" + std::to_string(h));
    auto n = done[h]++;
    auto it = p.on.find(h);
    if (it != p.on.end() && n < it->second.size())
      run(it->second[n]);
    if (h == EM::SMP_EnterStoringId * 2 + 1)
      stored = static_cast<int>(comp.size());
  }
  void run(Script const &s) {
    for (auto const &a : s) {
      if (a.op == Throw && (sim->GetState() == S::SSK_Exiting ||
                            sim->GetState() == S::SSK_Aborting))
        continue;
      if (a.op == Throw)
        throw std::runtime_error("thrown by the script");
      // the trace is ordered like the one of the model
      auto r = perform(a);
      log(std::string(opName[a.op]) + " -> '" + r + "' " +
          fx::stateName(sim->GetState()));
    }
  }
  int pick(unsigned ref) {
    return std::next(comp.begin(), static_cast<long>(ref % comp.size()))->first;
  }
  void added(int id, M *m) {
    comp[id] = m;
    kids[id] = &m->kids;
  }
  std::string perform(Action const &a) {
    if (a.op == Restore && stored != static_cast<int>(comp.size()))
      return "not done";
    if ((a.op == Reconnect || a.op == AddChild) && comp.empty()) {
      if (a.op == AddChild)
        ++nextId;
      return "none";
    }
    return fx::outcome([&] {
      switch (a.op) {
      case Publish:
        sim->Publish();
        break;
      case Configure:
        sim->Configure();
        break;
      case Connect:
        sim->Connect();
        break;
      case Initialise:
        sim->Initialise();
        break;
      case Run:
        sim->Run();
        break;
      case RunFor:
        sim->Run(5);
        break;
      case HoldNow:
        sim->Hold(true);
        break;
      case HoldLater:
        sim->Hold(false);
        break;
      case PreTime:
        em->Emit(EM::SMP_PreSimTimeChangeId);
        break;
      case Store: {
        if (dir.empty()) {
          char t[] = "/tmp/xsmp-c21-XXXXXX";
          dir = mkdtemp(t);
        }
        sim->Store((dir + "/state").c_str());
        break;
      }
      case Restore:
        sim->Restore((dir + "/state").c_str());
        break;
      case RestoreMissing:
        sim->Restore("/nonexistent/xsmp-c21");
        break;
      case Reconnect:
        sim->Reconnect(comp[pick(a.ref)]);
        break;
      case Exit:
        sim->Exit();
        break;
      case Abort:
        sim->Abort();
        break;
      case AddInit:
        sim->AddInitEntryPoint(init[a.ref % inits]);
        break;
      case AddModel: {
        auto id = nextId++;
        auto m = std::make_unique<M>(nameOf(id, a.op, a.ref), id, root(), sim,
                                     *this);
        sim->AddModel(m.get());
        added(id, m.release());
        break;
      }
      case AddService: {
        auto id = nextId++;
        auto m = std::make_unique<Sv>(nameOf(id, a.op, a.ref), id, root(), sim,
                                      *this);
        sim->AddService(m.get());
        comp[id] = m.get();
        kids[id] = &m->kids;
        m.release();
        break;
      }
      case AddChild: {
        auto id = nextId++;
        auto parent = pick(a.ref);
        auto m = std::make_unique<M>(
            "m" + std::to_string(id), id,
            dynamic_cast<Smp::IComposite *>(comp[parent]), sim, *this);
        kids[parent]->AddComponent(m.get());
        added(id, m.release());
        break;
      }
      default:
        break;
      }
    });
  }
};
void Traced::hook(Hook h) {
  auto *c = dynamic_cast<Smp::IComponent *>(this);
  r.step(std::string(hookName[h]) + " " + c->GetName());
  auto it = r.p.hook.find({id, h});
  if (it != r.p.hook.end())
    r.run(it->second);
}

// --------------------------------------------------------------- generator
Action action(Case &c, int where) {
  // where: 0 main, 1 subscriber, 2 init entry point, 3 component step
  Action a{};
  switch (where) {
  case 0:
    a.op = static_cast<Op>(c.weighted(
        {2, 2, 5, 3, 7, 1, 6, 3, 4, 4, 3, 1, 4, 1, 1, 3, 4, 2, 4, 0}));
    break;
  case 3:
    a.op = c.pick(std::vector<Op>{AddModel, AddChild, AddChild, AddInit,
                                  AddService, AddModel, AddChild, Run});
    break;
  default:
    a.op = static_cast<Op>(
        c.weighted({1, 1, 1, 4, 4, 1, 4, 3, 2, 3,
                    2, 1, 3, 1, 1, 3, 3, 1, 3, where == 1 ? 1u : 0u}));
  }
  a.ref = static_cast<unsigned>(c.range(0, 23));
  return a;
}
Script script(Case &c, unsigned max, int where) {
  Script s;
  while (s.size() < max && c.more(max)) {
    Case::Span sp(c);
    s.push_back(action(c, where));
  }
  return s;
}

void histories(Case &c) {
  Plan p;
  p.logger = !c.chance(1, 6);
  NOTE(c, (p.logger ? "with" : "without") << " logger");
  auto roots = c.range(0, 3);
  for (int i = 0; i < roots; ++i)
    p.main.push_back({c.chance(1, 4) ? AddService : AddModel,
                      static_cast<unsigned>(c.range(0, 5))});
  auto more = c.range(0, 4);
  for (int i = 0; i < more && roots; ++i)
    p.main.push_back({AddChild, static_cast<unsigned>(c.range(0, 10))});
  // scripts of the steps of the first components
  auto hooks = c.range(0, 3);
  for (int i = 0; i < hooks; ++i) {
    Case::Span sp(c);
    auto id = static_cast<int>(c.idx(8));
    auto h = static_cast<int>(c.idx(4));
    auto s = script(c, 3, 3);
    NOTE(c, hookName[h] << " of component " << id << ": " << text(s));
    p.hook[{id, h}] = s;
  }
  auto subs = c.range(0, 5);
  for (int i = 0; i < subs; ++i) {
    Case::Span sp(c);
    // mostly the events of the frequent transitions
    static const int frequent[] = {4, 5, 6, 7};
    auto ev = c.chance(1, 2) ? frequent[c.idx(4)]
                             : static_cast<int>(c.range(1, events));
    auto h = ev * 2 + static_cast<int>(c.idx(2));
    auto n = c.range(1, 2);
    auto &list = p.on[h];
    for (int k = 0; k < n; ++k) {
      list.push_back(script(c, 3, 1));
      if (ev == EM::SMP_PreSimTimeChangeId)
        for (auto &a : list.back())
          if (a.op == Run || a.op == RunFor)
            a.op = HoldNow;
      // the components do not change while they are restored
      if (ev == EM::SMP_LeaveStandbyId || ev == EM::SMP_EnterRestoringId)
        for (auto &a : list.back())
          if (a.op >= AddModel && a.op <= AddChild)
            a.op = AddInit;
      NOTE(c, "on" << h << " execution " << list.size() - 1 << ": "
                   << text(list.back()));
    }
  }
  for (int i = 0; i < inits; ++i)
    if (c.chance(1, 3)) {
      Case::Span sp(c);
      p.init[i].push_back(script(c, 2, 2));
      NOTE(c, "init" << i << ": " << text(p.init[i].back()));
    }
  if (c.chance(1, 2))
    p.main.push_back({AddInit, static_cast<unsigned>(c.range(0, 2))});
  if (c.chance(1, 2))
    p.main.push_back({AddInit, static_cast<unsigned>(c.range(0, 2))});
  if (!c.chance(1, 10))
    p.main.push_back({Connect});
  for (auto const &a : script(c, 12, 0))
    p.main.push_back(a);
  NOTE(c, "main: " << text(p.main));

  Model m(p);
  m.run(p.main);
  m.end();
  m.log("destroyed");

  std::vector<std::string> trace;
  {
    Real r(p);
    r.run(p.main);
    // the destructor
    auto &t = r.trace;
    r.destroy();
    t.push_back("destroyed");
    trace = t;
  }
  auto n = m.aborted ? m.abortedAt : m.trace.size();
  for (size_t i = 0; i < n; ++i)
    if (i >= trace.size() || trace[i] != m.trace[i]) {
      for (size_t k = i > 6 ? i - 6 : 0; k < i; ++k)
        NOTE(c, "trace " << k << ": " << trace[k]);
      FAILURE("step " << i << ": " << (i < trace.size() ? trace[i] : "nothing")
                      << ", expected: " << m.trace[i]);
    }
  if (m.aborted) {
    REQUIRE(trace.size() > n, "the simulation is not aborted");
    for (size_t i = n; i + 1 < trace.size(); ++i)
      REQUIRE(trace[i].find("Aborting") != std::string::npos,
              "after Abort: " << trace[i]);
    c.label("aborted");
  } else
    REQUIRE(trace.size() == n, "additional step: " << trace[n]);
  if (m.transitions >= 5)
    c.nontrivial();
  if (m.nested)
    c.label("operations inside a callback");
  if (m.refused)
    c.label("refused operations");
  if (m.hooks > 8)
    c.label("many component steps");
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s{"C21",
               "at least five state transitions",
               {{"histories", histories, 40000, 2000000, 60}},
               {},
               {}};
  return s;
}
