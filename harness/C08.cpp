//! so: libpbt_services.so=src/xsmp_services.pkg.cpp: -fno-sanitize=all
//! so: libpbt_logger.so=src-gen/xsmp_logger.pkg.cpp: -fno-sanitize=all
//! so: libpbt_p1.so=harness/so/pkg.cpp: -fno-sanitize=all -DNAME='"p1"' -DINIT=1 -DFIN=1
//! so: libpbt_p2.so=harness/so/pkg.cpp: -fno-sanitize=all -DNAME='"p2"' -DINIT=1 -DFIN=0
//! so: libpbt_p3.so=harness/so/pkg.cpp: -fno-sanitize=all -DNAME='"p3"' -DINIT=1 -DFIN=1
//! so: libpbt_failing.so=harness/so/pkg.cpp: -fno-sanitize=all -DNAME='"failing"' -DINIT=0 -DFIN=1
//! so: libpbt_noinit.so=harness/so/pkg.cpp: -fno-sanitize=all -DNAME='"noinit"' -DINIT=-1 -DFIN=1
//! so: libpbt_nofin.so=harness/so/pkg.cpp: -fno-sanitize=all -DNAME='"nofin"' -DINIT=1 -DFIN=-1
// C08: packages are initialised once per simulator and finalised in reverse.
#include "pbt.h"
#include <Smp/IContainer.h>
#include <Smp/IService.h>
#include <Smp/InvalidLibrary.h>
#include <Smp/LibraryNotFound.h>
#include <Xsmp/Simulator.h>
#include <Xsmp/LibraryHelper.h>
#include <memory>
#include <xsmp_event_manager.h>
#include <xsmp_link_registry.h>
#include <xsmp_logger.h>
#include <xsmp_resolver.h>
#include <xsmp_scheduler.h>
#include <xsmp_services.h>
#include <xsmp_time_keeper.h>

using pbt::Case;
using pbt::show;

static std::vector<std::pair<std::string, void *>> events;
extern "C" void pbt_event(const char *what, void *sim) {
  events.emplace_back(what, sim);
}

namespace {
struct Package {
  const char *name;
  bool (*init)(Smp::ISimulator *, Smp::Publication::ITypeRegistry *);
  bool (*fin)();
};
// the order in which the services package adds its services
const std::vector<Package> pk = {
    {"XsmpLogger", Initialise_xsmp_logger, Finalise_xsmp_logger},
    {"XsmpTimeKeeper", Initialise_xsmp_time_keeper, Finalise_xsmp_time_keeper},
    {"XsmpResolver", Initialise_xsmp_resolver, Finalise_xsmp_resolver},
    {"XsmpEventManager", Initialise_xsmp_event_manager,
     Finalise_xsmp_event_manager},
    {"XsmpLinkRegistry", Initialise_xsmp_link_registry,
     Finalise_xsmp_link_registry},
    {"XsmpScheduler", Initialise_xsmp_scheduler, Finalise_xsmp_scheduler},
};

void same(Xsmp::Simulator &s, const std::set<std::string> &want) {
  std::set<std::string> got;
  auto const *ctn = s.GetContainer("Services");
  REQUIRE(ctn && ctn->GetComponents(), "no Services container");
  for (auto *x : *ctn->GetComponents()) {
    REQUIRE(got.insert(x->GetName()).second, "two services named "
                                                 << x->GetName());
    REQUIRE(x->GetParent() == static_cast<Smp::IObject *>(
                                  static_cast<Smp::IComposite *>(
                                      static_cast<Xsmp::Composite *>(&s))) ||
                dynamic_cast<Smp::ISimulator *>(x->GetParent()) == &s,
            "parent of " << x->GetName());
    REQUIRE(static_cast<Smp::IComponent *>(s.GetService(x->GetName())) == x,
            "GetService(" << x->GetName() << ")");
  }
  std::string list;
  for (auto const &n : got)
    list += n + " ";
  REQUIRE(got == want, "services are: " << list << "(expected " << want.size()
                                        << ")");
  REQUIRE((s.GetLogger() != nullptr) == (want.count("XsmpLogger") > 0),
          "GetLogger");
  REQUIRE((s.GetTimeKeeper() != nullptr) == (want.count("XsmpTimeKeeper") > 0),
          "GetTimeKeeper");
  REQUIRE((s.GetResolver() != nullptr) == (want.count("XsmpResolver") > 0),
          "GetResolver");
  REQUIRE((s.GetEventManager() != nullptr) ==
              (want.count("XsmpEventManager") > 0),
          "GetEventManager");
  REQUIRE((s.GetLinkRegistry() != nullptr) ==
              (want.count("XsmpLinkRegistry") > 0),
          "GetLinkRegistry");
  REQUIRE((s.GetScheduler() != nullptr) == (want.count("XsmpScheduler") > 0),
          "GetScheduler");
}

void finaliseAll() {
  Finalise_xsmp_services();
  for (auto const &p : pk)
    p.fin();
}

// Initialise/Finalise histories of the packages
void packages(Case &c) {
  struct Sim {
    std::unique_ptr<Xsmp::Simulator> s;
    std::set<std::string> services;
  };
  std::vector<Sim> sims(1);
  sims[0].s = std::make_unique<Xsmp::Simulator>();
  std::set<size_t> all;                // initialised by the services package
  std::vector<std::set<size_t>> in(pk.size());
  struct Clean {
    ~Clean() { finaliseAll(); }
  } clean;
  unsigned ops = 0;
  while (c.more(12)) {
    Case::Span sp(c);
    ++ops;
    auto k = c.idx(sims.size());
    auto *s = sims[k].s.get();
    switch (c.weighted({4, 4, 2, 1, 2, 1})) {
    case 0: {
      // a service that is there but unknown to its package would clash
      bool clash = false;
      if (!all.count(k))
        for (size_t i = 0; i < pk.size(); ++i)
          clash = clash ||
                  (!in[i].count(k) && sims[k].services.count(pk[i].name));
      if (clash)
        break;
      NOTE(c, "Initialise_xsmp_services(sim" << k << ")");
      REQUIRE(Initialise_xsmp_services(s, s->GetTypeRegistry()),
              "initialisation failed");
      if (all.insert(k).second)
        for (size_t i = 0; i < pk.size(); ++i) {
          in[i].insert(k);
          sims[k].services.insert(pk[i].name);
        }
      else
        c.label("initialised twice");
      break;
    }
    case 1: {
      auto i = c.idx(pk.size());
      if (!in[i].count(k) && sims[k].services.count(pk[i].name))
        break;
      NOTE(c, "Initialise " << pk[i].name << " (sim" << k << ")");
      REQUIRE(pk[i].init(s, s->GetTypeRegistry()), "initialisation failed");
      if (!in[i].insert(k).second)
        c.label("initialised twice");
      sims[k].services.insert(pk[i].name);
      break;
    }
    case 2:
      NOTE(c, "new simulator");
      sims.emplace_back();
      sims.back().s = std::make_unique<Xsmp::Simulator>();
      break;
    case 3:
      NOTE(c, "Finalise_xsmp_services");
      REQUIRE(Finalise_xsmp_services(), "finalisation failed");
      // without an initialised simulator there is nothing to finalise
      if (!all.empty())
        for (auto &x : in)
          x.clear();
      all.clear();
      break;
    case 4: {
      NOTE(c, "null simulator");
      REQUIRE(!Initialise_xsmp_services(nullptr, nullptr), "null accepted");
      for (auto const &p : pk)
        REQUIRE(!p.init(nullptr, nullptr), "null accepted");
      break;
    }
    default: {
      auto i = c.idx(pk.size());
      NOTE(c, "Finalise " << pk[i].name);
      REQUIRE(pk[i].fin(), "finalisation failed");
      in[i].clear();
    }
    }
    for (auto &x : sims)
      same(*x.s, x.services);
  }
  if (ops >= 2)
    c.nontrivial();
}

// libraries loaded through the simulator
void loading(Case &c) {
  events.clear();
  static const char *good[] = {"pbt_p1", "pbt_p2", "pbt_p3"};
  std::vector<std::unique_ptr<Xsmp::Simulator>> sims;
  sims.push_back(std::make_unique<Xsmp::Simulator>());
  if (c.flip())
    sims.push_back(std::make_unique<Xsmp::Simulator>("Other"));
  std::vector<std::vector<std::string>> loaded(sims.size());
  std::vector<bool> services(sims.size());
  struct Clean {
    ~Clean() { finaliseAll(); }
  } clean;
  std::vector<std::pair<std::string, void *>> want;
  unsigned ops = 0;
  auto check = [&] {
    REQUIRE(events.size() == want.size(), "package calls: " << events.size()
                                                            << " expected "
                                                            << want.size());
    for (size_t i = 0; i < want.size(); ++i)
      REQUIRE(events[i] == want[i], "call " << i << " is " << events[i].first
                                            << " expected " << want[i].first);
  };
  auto destroy = [&](size_t k) {
    auto *s = static_cast<Smp::ISimulator *>(sims[k].get());
    for (size_t i = loaded[k].size(); i-- > 0;)
      if (loaded[k][i].compare(0, 5, "pbt_p") == 0)
        want.emplace_back("fin " + loaded[k][i].substr(4), s);
    sims.erase(sims.begin() + static_cast<long>(k));
    loaded.erase(loaded.begin() + static_cast<long>(k));
    services.erase(services.begin() + static_cast<long>(k));
    check();
  };
  while (c.more(10) && !sims.empty()) {
    Case::Span sp(c);
    ++ops;
    auto k = c.idx(sims.size());
    auto *s = sims[k].get();
    auto *is = static_cast<Smp::ISimulator *>(s);
    switch (c.weighted({6, 2, 2, 2, 2, 1, 1})) {
    case 0: {
      std::string n = good[c.idx(3)];
      if (std::count(loaded[k].begin(), loaded[k].end(), n))
        break;
      NOTE(c, "load " << n << " in sim" << k);
      s->LoadLibrary(n.c_str());
      loaded[k].push_back(n);
      want.emplace_back("init " + n.substr(4), is);
      break;
    }
    case 1: {
      if (services[k])
        break;
      NOTE(c, "load services in sim" << k);
      s->LoadLibrary("pbt_services");
      loaded[k].push_back("pbt_services");
      services[k] = true;
      REQUIRE(s->GetLogger() && s->GetScheduler() && s->GetTimeKeeper() &&
                  s->GetResolver() && s->GetEventManager() &&
                  s->GetLinkRegistry(),
              "services are missing");
      break;
    }
    case 2: {
      std::string n = "pbt_missing" + c.str(3, "ab");
      NOTE(c, "load " << n);
      bool ok = false;
      try {
        s->LoadLibrary(n.c_str());
      } catch (const Smp::LibraryNotFound &e) {
        ok = std::string(e.GetLibraryName()) == n;
      }
      REQUIRE(ok, "LibraryNotFound expected for " << n);
      c.label("rejected library");
      break;
    }
    case 3:
    case 4: {
      std::string n = c.pick<const char *>({"pbt_noinit", "pbt_nofin",
                                            "pbt_failing"});
      NOTE(c, "load " << n);
      bool ok = false;
      try {
        s->LoadLibrary(n.c_str());
      } catch (const Smp::InvalidLibrary &e) {
        ok = std::string(e.GetLibraryName()) == n;
      }
      if (n == "pbt_failing")
        want.emplace_back("init failing", is);
      REQUIRE(ok, "InvalidLibrary expected for " << n);
      c.label("rejected library");
      break;
    }
    case 5:
      if (services[k]) {
        NOTE(c, "connect sim" << k);
        s->Connect();
      }
      break;
    default:
      NOTE(c, "destroy sim" << k);
      destroy(k);
    }
    check();
  }
  if (ops >= 2)
    c.nontrivial();
  while (!sims.empty())
    destroy(sims.size() - 1);
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C08";
  s.rule = "a case is a history of package initialisations and finalisations "
           "over several simulators, or of library loads (good, missing, without "
           "entry points, failing) followed by destruction, against a model of "
           "who was initialised; non-trivial = at least 2 operations; distinct "
           "by choice sequence";
  s.subs = {{"packages", packages, 25000, 400000, 10},
            {"loading", loading, 25000, 400000, 10}};
  s.assumptions = {"a package is not initialised again on a simulator that "
                   "already has its service from before a finalisation"};
  return s;
}
