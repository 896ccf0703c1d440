//! sources: full
// C31: factories, models and services of a simulator.
#include "fx_model.h"
#include "fx_sim.h"
#include <Smp/DuplicateName.h>
#include <Smp/DuplicateUuid.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/InvalidSimulatorState.h>
#include <Xsmp/Factory.h>
#include <set>

using fx::outcome;
using fx::str;
using pbt::Case;

namespace c31 {
constexpr int kTypes = 4;
const Smp::Uuid uuids[6] = {
    Smp::Uuid{0, 0, 0, 0, 0},
    Smp::Uuid{0x12345678, 0x1234, 0x5678, 0x9abc, 0x010203040506},
    Smp::Uuid{0x12345678, 0x1234, 0x5678, 0x9abc, 0x010203040507},
    Smp::Uuid{0x12345679, 0x1234, 0x5678, 0x9abc, 0x010203040506},
    Smp::Uuid{0x12345678, 0x5678, 0x1234, 0x9abc, 0x010203040506},
    Smp::Uuid{0xffffffff, 0xffff, 0xffff, 0xffff, 0xffffffffffff}};

struct Made : Xsmp::Model, Xsmp::Composite {
  static inline int live = 0;
  Smp::IComposite *givenParent;
  Smp::ISimulator *givenSimulator;
  Made(Smp::String8 n, Smp::String8 d, Smp::IComposite *p, Smp::ISimulator *s)
      : Model(n, d, p, s), givenParent(p), givenSimulator(s) {
    ++live;
  }
  ~Made() override { --live; }
};
template <int I> struct Type : Made {
  using Made::Made;
  const Smp::Uuid &GetUuid() const override { return uuids[I]; }
};
struct First : Type<0> {
  using Type::Type;
};
struct Second : Type<1> {
  using Type::Type;
};
struct Third : Type<2> {
  using Type::Type;
};
struct Without : Made { // GetUuid raises an exception
  using Made::Made;
};

// a factory that is not the one of the repository
struct Own : Smp::IFactory {
  static inline std::multiset<int> destroyed{};
  std::string name;
  int id;
  Smp::ISimulator *sim;
  Smp::Uuid uuid;
  Own(std::string n, int i, Smp::ISimulator *s, Smp::Uuid u)
      : name(std::move(n)), id(i), sim(s), uuid(u) {}
  ~Own() noexcept override { destroyed.insert(id); }
  Smp::String8 GetName() const override { return name.c_str(); }
  Smp::String8 GetDescription() const override { return "own"; }
  Smp::IObject *GetParent() const override { return nullptr; }
  Smp::Uuid GetUuid() const override { return uuid; }
  Smp::IComponent *CreateInstance(Smp::String8 n, Smp::String8 d,
                                  Smp::IComposite *p) override {
    return new Third(n, d, p, sim);
  }
  void DeleteInstance(Smp::IComponent *i) override { delete i; }
  Smp::String8 GetTypeName() const override { return "c31::Third"; }
};
} // namespace c31

namespace {
using namespace c31;

struct Factory {
  Smp::IFactory *factory;
  std::string name, description;
  int uuid, type; // type: -1 for Own
  int id = -1;
};
const char *const typeNames[kTypes] = {"c31::First", "c31::Second",
                                       "c31::Third", "c31::Without"};

struct Member {
  Smp::IComponent *component;
  std::string name;
};
bool valid(std::string const &n) {
  if (n.empty() || !std::isalpha(static_cast<unsigned char>(n[0])))
    return false;
  for (char ch : n)
    if (!std::isalnum(static_cast<unsigned char>(ch)) && ch != '_')
      return false;
  return true;
}

struct Services {
  Smp::Services::ILogger *logger = nullptr;
  Smp::Services::ITimeKeeper *timeKeeper = nullptr;
  Smp::Services::IScheduler *scheduler = nullptr;
  Smp::Services::IEventManager *events = nullptr;
  Smp::Services::IResolver *resolver = nullptr;
  Smp::Services::ILinkRegistry *links = nullptr;
};

void histories(Case &c) {
  c31::Own::destroyed.clear();
  Made::live = 0;
  fx::live = 0;
  int nextOwn = 0;
  std::multiset<int> expectedDestroyed;
  std::vector<Member> models, services;
  Services standard;
  {
    auto owner = std::make_unique<Xsmp::Simulator>();
    Xsmp::Simulator &sim = *owner;
    Smp::ISimulator *isim = &sim;
    auto *root = static_cast<Smp::IComposite *>(isim);
    std::vector<Factory> factories;
    std::vector<std::unique_ptr<Smp::IComponent>> made;
    std::vector<std::unique_ptr<Smp::IComponent>> refused;
    auto of = [&](int uuid) -> Factory * {
      for (auto &f : factories)
        if (f.uuid == uuid)
          return &f;
      return nullptr;
    };
    // models and services are children of the simulator: one name each
    auto taken = [&](std::string const &n) {
      for (auto *all : {&models, &services})
        for (auto &m : *all)
          if (m.name == n)
            return true;
      return false;
    };
    auto objectName = [&] {
      static const char *const names[] = {
          "a", "b", "B", "c_1", "a", "long_name_of_a_component_0123456789"};
      return std::string(names[c.idx(6)]);
    };
    auto anyName = [&]() -> std::string {
      if (c.chance(1, 6)) {
        static const char *const bad[] = {"", "1a", "a b", "a.b", "_a", "a/b"};
        return bad[c.idx(6)];
      }
      return objectName();
    };

    auto checkFactories = [&] {
      auto *all = isim->GetFactories();
      REQUIRE(str(all->GetName()) == "Factories" && all->GetParent() == root,
              "the collection " << str(all->GetName()));
      REQUIRE(all->size() == factories.size(),
              all->size() << " factories instead of " << factories.size());
      std::size_t i = 0;
      for (auto *f : *all) {
        REQUIRE(i < factories.size() && f == factories[i].factory,
                "factory " << i << " when iterating");
        REQUIRE(all->at(i) == f, "at(" << i << ")");
        ++i;
      }
      REQUIRE(i == factories.size(), "iteration stops at " << i);
      REQUIRE(!all->at(factories.size()) && !all->at(~std::size_t{0}),
              "an item beyond the last");
      REQUIRE(!all->at(static_cast<Smp::String8>(nullptr)), "at(null)");
      for (int u = 0; u < 6; ++u) {
        auto *f = of(u);
        REQUIRE(isim->GetFactory(uuids[u]) == (f ? f->factory : nullptr),
                "GetFactory of uuid " << u);
      }
      for (auto *n : {"a", "b", "B", "c_1", "none", "", "A"}) {
        Smp::IFactory *first = nullptr;
        for (auto &f : factories)
          if (!first && f.name == n)
            first = f.factory;
        // two factories may have one name: any of them
        auto *got = all->at(n);
        REQUIRE(!got == !first,
                "at(" << n << ") finds " << (got ? "one" : "none"));
        REQUIRE(!got || str(got->GetName()) == n,
                "at(" << n << ") is " << str(got->GetName()));
      }
      for (auto &f : factories) {
        REQUIRE(str(f.factory->GetName()) == f.name &&
                    f.factory->GetUuid() == uuids[f.uuid],
                "name or uuid of " << f.name);
        if (f.type < 0)
          continue;
        REQUIRE(str(f.factory->GetDescription()) == f.description &&
                    f.factory->GetParent() == root &&
                    str(f.factory->GetTypeName()) == typeNames[f.type],
                "attributes of " << f.name << ": "
                                 << str(f.factory->GetDescription()) << " "
                                 << str(f.factory->GetTypeName()));
      }
      REQUIRE(Own::destroyed == expectedDestroyed,
              Own::destroyed.size() << " factories deleted instead of "
                                    << expectedDestroyed.size());
    };

    auto checkMembers = [&] {
      for (int m = 0; m < 2; ++m) {
        auto &all = m ? models : services;
        auto *container = isim->GetContainer(m ? "Models" : "Services");
        REQUIRE(container, "container " << m);
        auto *components = container->GetComponents();
        REQUIRE(container->GetCount() == static_cast<Smp::Int64>(all.size()) &&
                    components->size() == all.size(),
                components->size() << (m ? " models" : " services")
                                   << " instead of " << all.size());
        for (std::size_t i = 0; i < all.size(); ++i)
          REQUIRE(components->at(i) == all[i].component &&
                      components->at(all[i].name.c_str()) == all[i].component,
                  (m ? "model " : "service ") << i << " " << all[i].name);
      }
      for (auto &s : services)
        REQUIRE(dynamic_cast<Smp::IComponent *>(
                    isim->GetService(s.name.c_str())) == s.component,
                "GetService(" << s.name << ")");
      for (auto *n : {"none", "", "A", "aa"})
        REQUIRE(!isim->GetService(n), "GetService(" << n << ")");
      REQUIRE(isim->GetLogger() == standard.logger &&
                  isim->GetTimeKeeper() == standard.timeKeeper &&
                  isim->GetScheduler() == standard.scheduler &&
                  isim->GetEventManager() == standard.events &&
                  isim->GetResolver() == standard.resolver &&
                  isim->GetLinkRegistry() == standard.links,
              "a standard service is not the first one added");
    };

    while (c.more(40)) {
      Case::Span span(c);
      switch (c.weighted({6, 3, 6, 2, 3, 5, 2})) {
      case 0: { // register a factory
        Factory f;
        f.uuid = static_cast<int>(c.idx(6));
        f.name = objectName();
        f.description = c.str(12, "ab /\n");
        if (c.chance(1, 3)) {
          f.type = -1;
          f.id = nextOwn++;
          f.factory = new Own(f.name, f.id, isim, uuids[f.uuid]);
        } else {
          // usually the type of the identifier
          f.type = f.uuid < 3 && c.chance(3, 4)
                       ? f.uuid
                       : static_cast<int>(c.idx(kTypes));
          auto n = f.name; // the factory keeps its own texts
          auto d = f.description;
          switch (f.type) {
          case 0:
            f.factory = Xsmp::Factory::Create<First>(n.c_str(), d.c_str(), isim,
                                                     uuids[f.uuid]);
            break;
          case 1:
            f.factory = Xsmp::Factory::Create<Second>(n.c_str(), d.c_str(),
                                                      isim, uuids[f.uuid]);
            break;
          case 2:
            f.factory = Xsmp::Factory::Create<Third>(n.c_str(), d.c_str(), isim,
                                                     uuids[f.uuid]);
            break;
          default:
            f.factory = Xsmp::Factory::Create<Without>(n.c_str(), d.c_str(),
                                                       isim, uuids[f.uuid]);
          }
        }
        NOTE(c, "register factory " << f.name << " of uuid " << f.uuid
                                    << " type " << f.type);
        auto *old = of(f.uuid);
        try {
          isim->RegisterFactory(f.factory);
          REQUIRE(!old, "a second factory of a uuid is accepted");
          factories.push_back(f);
        } catch (const Smp::DuplicateUuid &e) {
          REQUIRE(old, "DuplicateUuid for a new uuid");
          REQUIRE(str(e.GetOldName()) == old->name &&
                      str(e.GetNewName()) == f.name,
                  "DuplicateUuid names " << str(e.GetOldName()) << " and "
                                         << str(e.GetNewName()));
          c.label("duplicate uuid");
          c.nontrivial();
          if (f.type < 0) // the simulator owns what it is given
            expectedDestroyed.insert(f.id);
        }
        break;
      }
      case 1: { // register a factory again
        if (factories.empty())
          break;
        auto &f = factories[c.idx(factories.size())];
        NOTE(c, "register " << f.name << " again");
        auto r = outcome([&] { isim->RegisterFactory(f.factory); });
        REQUIRE(r == "DuplicateUuid", "registered again: " << r);
        c.label("registered again");
        break;
      }
      case 2: { // create an instance
        auto u = static_cast<int>(c.idx(6));
        auto *f = of(u);
        auto name = anyName();
        auto description = c.str(8, "xyz ");
        Smp::IComposite *parent = root;
        if (!made.empty() && c.flip())
          if (auto *p = dynamic_cast<Smp::IComposite *>(
                  made[c.idx(made.size())].get()))
            parent = p;
        if (c.chance(1, 8))
          parent = nullptr;
        bool direct = f && c.flip();
        bool null = c.chance(1, 12);
        NOTE(c, "create " << (null ? "null" : name) << " of uuid " << u
                          << (direct ? " by its factory" : ""));
        auto before = Made::live;
        auto *n = null ? nullptr : name.c_str();
        Smp::IComponent *i = nullptr;
        auto r = outcome([&] {
          i = direct
                  ? f->factory->CreateInstance(n, description.c_str(), parent)
                  : isim->CreateInstance(uuids[u], n, description.c_str(),
                                         parent);
        });
        if (i)
          made.emplace_back(i);
        if (!f) {
          REQUIRE(r.empty() && !i, "an instance of no factory: " << r);
          break;
        }
        auto type = f->type < 0 ? 2 : f->type;
        if (null || !valid(name)) {
          REQUIRE(r == "InvalidObjectName", "name " << name << ": " << r);
          REQUIRE(Made::live == before, "an instance is left");
          c.label("bad name");
        } else if (f->type == 3 || (f->type >= 0 && type != f->uuid)) {
          REQUIRE(!r.empty() && !i, "an instance of another uuid: " << r);
          REQUIRE(type == 3 || r == "InvalidFactory",
                  "an instance of another uuid: " << r);
          REQUIRE(Made::live == before, "the refused instance is left");
          c.label("wrong factory");
          c.nontrivial();
        } else {
          REQUIRE(r.empty() && i, "no instance: " << r);
          auto *m = dynamic_cast<Made *>(i);
          REQUIRE(m && Made::live == before + 1, Made::live << " instances");
          REQUIRE(str(i->GetName()) == name &&
                      str(i->GetDescription()) == description &&
                      i->GetParent() == parent && m->givenParent == parent &&
                      m->givenSimulator == isim,
                  "the instance " << str(i->GetName()) << " "
                                  << str(i->GetDescription()));
          REQUIRE(i->GetUuid() == uuids[type], "its uuid");
          REQUIRE(str(Xsmp::Helper::TypeName(i).c_str()) == typeNames[type],
                  "its type " << Xsmp::Helper::TypeName(i));
          c.label("instance created");
          c.nontrivial();
        }
        break;
      }
      case 3: { // delete an instance
        if (made.empty() || factories.empty())
          break;
        auto k = c.idx(made.size());
        // children keep a pointer to their parent only
        auto before = Made::live;
        auto &f = factories[c.idx(factories.size())];
        NOTE(c, "delete instance " << k << " by " << f.name);
        f.factory->DeleteInstance(made[k].release());
        made.erase(made.begin() + static_cast<std::ptrdiff_t>(k));
        REQUIRE(Made::live == before - 1,
                "instances deleted: " << before - Made::live);
        break;
      }
      case 4: { // a model
        auto name = objectName();
        bool again = !models.empty() && c.chance(1, 5);
        auto *m = again ? models[c.idx(models.size())].component
                        : new fx::Node(name, 0, root, isim);
        if (again)
          name = m->GetName();
        bool duplicate = taken(name);
        NOTE(c, "add model " << name << (again ? " again" : ""));
        auto r =
            outcome([&] { isim->AddModel(dynamic_cast<Smp::IModel *>(m)); });
        REQUIRE(r == (duplicate ? "DuplicateName" : ""), "AddModel: " << r);
        if (!duplicate)
          models.push_back({m, name});
        else if (!again)
          refused.emplace_back(m);
        if (duplicate)
          c.label("duplicate model");
        break;
      }
      case 5: { // a service
        auto name = objectName();
        auto kind = c.idx(7);
        bool again = !services.empty() && c.chance(1, 6);
        Smp::IComponent *s = nullptr;
        auto *n = name.c_str();
        if (again)
          s = services[c.idx(services.size())].component;
        else
          switch (kind) {
          case 0:
            s = new fx::SilentLogger(n, "", root, isim);
            break;
          case 1:
            s = new Xsmp::Services::XsmpTimeKeeper(n, "", root, isim);
            break;
          case 2:
            s = new Xsmp::Services::XsmpResolver(n, "", root, isim);
            break;
          case 3:
            s = new Xsmp::Services::XsmpEventManager(n, "", root, isim);
            break;
          case 4:
            s = new Xsmp::Services::XsmpLinkRegistry(n, "", root, isim);
            break;
          case 5:
            s = new Xsmp::Services::XsmpScheduler(n, "", root, isim);
            break;
          default:
            s = new Xsmp::Service(n, "", root, isim);
          }
        if (again)
          name = s->GetName();
        bool duplicate = taken(name);
        NOTE(c, "add service " << name << " of kind " << kind
                               << (again ? " again" : ""));
        auto r = outcome(
            [&] { isim->AddService(dynamic_cast<Smp::IService *>(s)); });
        REQUIRE(r == (duplicate ? "DuplicateName" : ""), "AddService: " << r);
        if (duplicate) {
          c.label("duplicate service");
          c.nontrivial();
          if (!again)
            refused.emplace_back(s);
          break;
        }
        services.push_back({s, name});
        auto first = [&](auto *&standardOne) {
          if (!standardOne)
            standardOne =
                dynamic_cast<std::remove_reference_t<decltype(standardOne)>>(s);
        };
        bool had[] = {standard.logger != nullptr,
                      standard.timeKeeper != nullptr,
                      standard.resolver != nullptr,
                      standard.events != nullptr,
                      standard.links != nullptr,
                      standard.scheduler != nullptr,
                      false};
        if (had[kind])
          c.label("second standard service");
        first(standard.logger);
        first(standard.timeKeeper);
        first(standard.resolver);
        first(standard.events);
        first(standard.links);
        first(standard.scheduler);
        break;
      }
      default: // nothing is added while executing or after the end
        break;
      }
      checkFactories();
      checkMembers();
    }
    made.clear();
    refused.clear();
    REQUIRE(Made::live == 0, "instances " << Made::live);
    REQUIRE(fx::live == static_cast<int>(models.size()), "models " << fx::live);
    for (auto &f : factories)
      if (f.id >= 0)
        expectedDestroyed.insert(f.id);
    NOTE(c, "delete the simulator");
    owner.reset();
    REQUIRE(fx::live == 0, fx::live << " models are left");
    REQUIRE(Own::destroyed == expectedDestroyed,
            Own::destroyed.size() << " factories deleted instead of "
                                  << expectedDestroyed.size());
  }
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C31";
  s.rule = "an instance was created, or a factory or service was refused";
  s.subs = {{"histories", histories, 32000, 300000}};
  s.assumptions = {"factories, models and services are not null",
                   "a factory's function gives an instance",
                   "instances are deleted before the simulator is"};
  return s;
}
