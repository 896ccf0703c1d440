// C17: component life cycle, user hooks, and failures of fallible models.
//! sources: full
#include "fx_model.h"
#include <Smp/IRequest.h>
#include <Smp/InvalidComponentState.h>
#include <Smp/InvalidOperationName.h>
#include <Smp/Services/ILinkRegistry.h>
#include <Xsmp/ComponentHelper.h>
#include <Xsmp/Service.h>
#include <Xsmp/Simulator.h>
#include <Xsmp/Tests/ModelWithEvents.h>
#include <Xsmp/Tests/ModelWithOperations.h>

using fx::outcome;
using pbt::Case;
using pbt::show;
using State = Smp::ComponentStateKind;

namespace {
struct Call {
  std::string hook;
  const void *a = nullptr, *b = nullptr;
  State state{};
  bool operator==(const Call &o) const {
    return hook == o.hook && a == o.a && b == o.b && state == o.state;
  }
};
std::vector<Call> calls;
int throwIn = -1; // the hook that is to fail: 0 publish ... 3 disconnect
Smp::IComponent *self = nullptr;
template <class... A> void hook(int n, const char *name, const A *...a) {
  const void *v[] = {a..., nullptr, nullptr};
  calls.push_back({name, v[0], v[1], self->GetState()});
  if (throwIn == n) {
    throw n;
  }
}
using P = Smp::IPublication;
using L = Smp::Services::ILogger;
using R = Smp::Services::ILinkRegistry;
using S = Smp::ISimulator;
template <int> struct Pub {};
template <> struct Pub<1> {
  void DoPublish(P *p) { hook(0, "publish", p); }
};
template <> struct Pub<2> {
  void DoPublish() { hook(0, "publish"); }
};
template <int> struct Cfg {};
template <> struct Cfg<1> {
  void DoConfigure(L *l, R *r) { hook(1, "configure", l, r); }
};
template <> struct Cfg<2> {
  void DoConfigure(L *l) { hook(1, "configure", l); }
};
template <> struct Cfg<3> {
  void DoConfigure(R *r) { hook(1, "configure", r); }
};
template <> struct Cfg<4> {
  void DoConfigure() { hook(1, "configure"); }
};
template <int> struct Con {};
template <> struct Con<1> {
  void DoConnect(S *s) { hook(2, "connect", s); }
};
template <> struct Con<2> {
  void DoConnect() { hook(2, "connect"); }
};
template <int> struct Dis {};
template <> struct Dis<1> {
  void DoDisconnect() { hook(3, "disconnect"); }
};

// what the code generator emits for a component with user hooks
struct Any {
  virtual ~Any() = default;
  virtual Smp::IComponent *component() = 0;
  virtual Smp::ILinkingComponent *linking() = 0;
  virtual Smp::IDynamicInvocation *dynamic() = 0;
  virtual Smp::ISimulator *simulator() const = 0;
};
template <class Base, class T> struct Gen : Base, Any {
  using Base::Base;
  void Publish(P *p) override {
    Base::Publish(p);
    p->PublishField("field", "", &value);
    Xsmp::Component::Helper::Publish<T>(this, p);
  }
  void Configure(L *l, R *r) override {
    Base::Configure(l, r);
    Xsmp::Component::Helper::Configure<T>(this, l, r);
  }
  void Connect(S *s) override {
    Base::Connect(s);
    Xsmp::Component::Helper::Connect<T>(this, s);
  }
  void Disconnect() override {
    if (Base::GetState() == State::CSK_Connected) {
      Xsmp::Component::Helper::Disconnect<T>(this);
    }
    Base::Disconnect();
  }
  Smp::IComponent *component() override { return static_cast<Base *>(this); }
  Smp::ILinkingComponent *linking() override {
    return static_cast<Base *>(this);
  }
  Smp::IDynamicInvocation *dynamic() override {
    return static_cast<Base *>(this);
  }
  Smp::ISimulator *simulator() const override { return this->GetSimulator(); }
  double value = 1.5;
};
template <class Base, int A, int B, int C, int D>
struct Comp final : Gen<Base, Comp<Base, A, B, C, D>>,
                    Pub<A>,
                    Cfg<B>,
                    Con<C>,
                    Dis<D> {
  using Gen<Base, Comp<Base, A, B, C, D>>::Gen;
  friend class Xsmp::Component::Helper;
};
struct Sig {
  int a, b, c, d;
};
using Maker = std::unique_ptr<Any> (*)(const char *, Smp::ISimulator *);
template <class B, int A, int C, int D, int E>
std::unique_ptr<Any> make(const char *n, Smp::ISimulator *s) {
  return std::make_unique<Comp<B, A, C, D, E>>(n, "descr", nullptr, s);
}
struct Kind {
  Sig sig;
  Maker make;
};
#define K(B, a, b, c, d)                                                       \
  Kind { {a, b, c, d}, &make<B, a, b, c, d> }
const Kind kinds[] = {
    K(Xsmp::Model, 0, 0, 0, 0),   K(Xsmp::Model, 1, 1, 1, 1),
    K(Xsmp::Model, 2, 4, 2, 1),   K(Xsmp::Model, 2, 0, 0, 0),
    K(Xsmp::Model, 2, 2, 1, 0),   K(Xsmp::Model, 1, 3, 0, 1),
    K(Xsmp::Model, 0, 4, 1, 0),   K(Xsmp::Model, 0, 3, 2, 1),
    K(Xsmp::Model, 1, 2, 2, 0),   K(Xsmp::Model, 0, 1, 0, 1),
    K(Xsmp::Service, 1, 1, 1, 1), K(Xsmp::Service, 2, 3, 1, 1),
    K(Xsmp::Service, 0, 2, 2, 1), K(Xsmp::Service, 1, 4, 1, 0),
};

void lifecycle(Case &c) {
  Xsmp::Simulator sim, other;
  auto *const publisher = &sim;
  const auto &kind = kinds[c.idx(std::size(kinds))];
  Smp::ISimulator *given =
      std::vector<Smp::ISimulator *>{&sim, &other, nullptr}[c.idx(3)];
  auto object = kind.make("c", given);
  auto *cmp = object->component();
  self = cmp;
  Xsmp::Publication::Publication pub{cmp, publisher->GetTypeRegistry()};
  NOTE(c, "component with hooks publish:"
              << kind.sig.a << " configure:" << kind.sig.b
              << " connect:" << kind.sig.c << " disconnect:" << kind.sig.d);
  State state = State::CSK_Created;
  Smp::ISimulator *simulator = given;
  bool published = false;
  int value = 0; // of the distinct loggers/registries
  unsigned ok = 0, bad = 0;
  while (c.more(14)) {
    Case::Span s(c);
    calls.clear();
    throwIn = c.chance(1, 6) ? static_cast<int>(c.idx(4)) : -1;
    // biased to the transition that is legal now
    size_t legal = state == State::CSK_Created      ? 0
                   : state == State::CSK_Publishing ? 1
                   : state == State::CSK_Configured ? 2
                                                    : 3;
    size_t op = c.chance(3, 5) ? legal : c.idx(7);
    std::string got, want;
    std::vector<Call> wantCalls;
    const State before = state;
    const State expected[] = {State::CSK_Created, State::CSK_Publishing,
                              State::CSK_Configured, State::CSK_Connected};
    const bool legalOp = op < 4 && state == expected[op];
    auto finish = [&](int n, State next, Call call, int signature) {
      if (!legalOp) {
        want = "InvalidComponentState";
        ++bad;
        return;
      }
      ++ok;
      state = next;
      if (signature) {
        call.state =
            next == State::CSK_Disconnected ? State::CSK_Connected : next;
        wantCalls.push_back(call);
        if (throwIn == n) {
          want = "int " + std::to_string(n);
        }
      }
    };
    Smp::ComponentStateKind badState{}, goodState{};
    auto run = [&](auto &&f) {
      got = outcome([&] {
        try {
          f();
        } catch (const Smp::InvalidComponentState &e) {
          badState = e.GetInvalidState();
          goodState = e.GetExpectedState();
          throw;
        }
      });
    };
    switch (op) {
    case 0: {
      auto *receiver = c.chance(1, 8) ? nullptr : static_cast<P *>(&pub);
      NOTE(c, "Publish(" << (receiver ? "publication" : "null") << ")");
      if (legalOp && !receiver) {
        // refused, the component stays as it is
        got = outcome([&] { cmp->Publish(nullptr); });
        REQUIRE(!got.empty(), "Publish(null) was accepted");
        got = want = "";
        break;
      }
      run([&] { cmp->Publish(receiver); });
      finish(
          0, State::CSK_Publishing,
          {"publish", kind.sig.a == 1 ? static_cast<P *>(receiver) : nullptr},
          kind.sig.a);
      published = published || legalOp;
      break;
    }
    case 1: {
      auto *l = reinterpret_cast<L *>(c.chance(1, 3) ? nullptr : &value);
      auto *r = reinterpret_cast<R *>(c.chance(1, 3) ? nullptr : &published);
      NOTE(c, "Configure(" << (l ? "logger" : "null") << ", "
                           << (r ? "link registry" : "null") << ")");
      run([&] { cmp->Configure(l, r); });
      Call call{"configure"};
      if (kind.sig.b == 1) {
        call.a = l;
        call.b = r;
      } else if (kind.sig.b == 2) {
        call.a = l;
      } else if (kind.sig.b == 3) {
        call.a = r;
      }
      finish(1, State::CSK_Configured, call, kind.sig.b);
      break;
    }
    case 2: {
      auto *to =
          std::vector<Smp::ISimulator *>{&sim, &other, nullptr}[c.idx(3)];
      NOTE(c, "Connect(" << (to == &sim ? "sim"
                             : to       ? "other"
                                        : "null")
                         << ")");
      run([&] { cmp->Connect(to); });
      if (legalOp) {
        simulator = to;
      }
      finish(2, State::CSK_Connected,
             {"connect", kind.sig.c == 1 ? to : nullptr}, kind.sig.c);
      break;
    }
    case 3:
      NOTE(c, "Disconnect()");
      run([&] { object->linking()->Disconnect(); });
      if (legalOp && kind.sig.d && throwIn == 3) {
        // the hook failed before the transition: still connected
        wantCalls.push_back(
            {"disconnect", nullptr, nullptr, State::CSK_Connected});
        want = "int 3";
        ++ok;
        break;
      }
      if (legalOp) {
        simulator = nullptr;
      }
      finish(3, State::CSK_Disconnected, {"disconnect"}, kind.sig.d);
      break;
    case 4: {
      NOTE(c, "fields");
      auto *fields = cmp->GetFields();
      if (!published) {
        REQUIRE(!fields, "fields before publication");
      } else {
        REQUIRE(fields == pub.GetFields(), "not the published fields");
        REQUIRE(fields->size() == 1, fields->size() << " fields");
        REQUIRE(cmp->GetField("field") == fields->at(size_t{0}), "other field");
        got = outcome([&] { cmp->GetField("nothing"); });
        REQUIRE(got == "InvalidFieldName", "unknown field: " << got);
        got = "";
      }
      break;
    }
    case 5: {
      NOTE(c, "dynamic invocation");
      auto *dyn = object->dynamic();
      REQUIRE(dyn->CreateRequest("nothing") == nullptr,
              "request of no operation");
      got = outcome([&] { dyn->Invoke(nullptr); });
      REQUIRE(got == "InvalidOperationName", "Invoke(null): " << got);
      got = "";
      REQUIRE((dyn->GetProperties() != nullptr) == published, "properties");
      REQUIRE((dyn->GetOperations() != nullptr) == published, "operations");
      if (published) {
        REQUIRE(dyn->GetProperties()->size() == 0, "properties of none");
        REQUIRE(dyn->GetOperations()->size() == 0, "operations of none");
      }
      dyn->DeleteRequest(nullptr);
      break;
    }
    case 6:
      REQUIRE(fx::str(cmp->GetName()) == "c", "name");
      REQUIRE(fx::str(cmp->GetDescription()) == "descr", "description");
      REQUIRE(cmp->GetParent() == nullptr, "parent");
      break;
    }
    throwIn = -1;
    REQUIRE(got == want, "outcome '" << got << "', expected '" << want << "'");
    if (got == "InvalidComponentState") {
      REQUIRE(badState == before && goodState == expected[op],
              "the exception tells state " << int(badState) << " expected "
                                           << int(goodState));
    }
    REQUIRE(calls.size() == wantCalls.size(),
            calls.size() << " hook calls, expected " << wantCalls.size());
    REQUIRE(calls == wantCalls, "hook " << calls[0].hook
                                        << " called with other "
                                           "arguments or in state "
                                        << int(calls[0].state));
    REQUIRE(cmp->GetState() == state,
            "state " << int(cmp->GetState()) << ", expected " << int(state));
    REQUIRE(object->simulator() == simulator,
            "simulator is not the connected one");
  }
  self = nullptr;
  if (ok >= 2 && bad) {
    c.nontrivial();
  }
}

// failures of a fallible model
struct F1 : fx::Node {
  Xsmp::Field<bool>::failure a;
  Xsmp::Field<Smp::Int32>::failure::transient b;
  Xsmp::Field<Smp::Float64>::forcible::failure d;
  F1(Smp::ISimulator *sim)
      : Node("f", 0, nullptr, sim),
        a{sim->GetTypeRegistry(), Smp::Uuids::Uuid_Bool, "a", "", model()},
        b{sim->GetTypeRegistry(), Smp::Uuids::Uuid_Int32, "b", "", model()},
        d{sim->GetTypeRegistry(), Smp::Uuids::Uuid_Float64, "d", "", model()} {}
  Smp::IObject *model() { return static_cast<Smp::IModel *>(this); }
};
void failures(Case &c) {
  Xsmp::Simulator sim;
  F1 m{&sim};
  std::vector<Smp::IFailure *> all{&m.a, &m.b, &m.d};
  std::vector<std::string> names{"a", "b", "d"};
  std::vector<bool> failed(3);
  // failures declared later, also ones removed before the model
  using Extra = Xsmp::Field<Smp::UInt8>::failure;
  std::vector<std::unique_ptr<Extra>> extra;
  unsigned toggles = 0;
  auto audit = [&] {
    const auto *col = m.GetFailures();
    REQUIRE(col->size() == all.size(), col->size() << " failures");
    bool any = false;
    for (size_t i = 0; i < all.size(); ++i) {
      REQUIRE(col->at(i) == all[i] && col->at(names[i].c_str()) == all[i] &&
                  m.GetFailure(names[i].c_str()) == all[i],
              "failure " << names[i] << " not found");
      REQUIRE(all[i]->IsFailed() == failed[i], "failure " << names[i]);
      any = any || failed[i];
    }
    REQUIRE(m.GetFailure("none") == nullptr, "failure of unknown name");
    REQUIRE(m.IsFailed() == any,
            "the model is " << (any ? "not " : "") << "failed");
  };
  audit();
  while (c.more(16)) {
    Case::Span s(c);
    size_t i = c.idx(all.size());
    switch (c.weighted({4, 3, 1, 2})) {
    case 0:
      NOTE(c, "fail " << names[i]);
      all[i]->Fail();
      failed[i] = true;
      ++toggles;
      break;
    case 1:
      NOTE(c, "unfail " << names[i]);
      all[i]->Unfail();
      failed[i] = false;
      ++toggles;
      break;
    case 2: {
      std::string name =
          c.chance(1, 3) ? names[i] : "e" + std::to_string(all.size());
      NOTE(c, "new failure " << name);
      bool dup = std::find(names.begin(), names.end(), name) != names.end();
      auto got = outcome([&] {
        extra.push_back(std::make_unique<Extra>(sim.GetTypeRegistry(),
                                                Smp::Uuids::Uuid_UInt8,
                                                name.c_str(), "", m.model()));
      });
      REQUIRE(got == (dup ? "DuplicateName" : ""),
              "new failure: '" << got << "'");
      if (!dup) {
        all.push_back(extra.back().get());
        names.push_back(name);
        failed.push_back(false);
      }
      break;
    }
    default: {
      // the value of the field is independent of the failure
      Smp::Int32 v = c.integer<Smp::Int32>();
      m.b = v;
      REQUIRE(m.b == v, "field value");
      break;
    }
    }
    audit();
  }
  if (toggles >= 2) {
    c.nontrivial();
  }
}
} // namespace

pbt::Suite pbt_suite() {
  return {"C17",
          "at least two legal transitions and one illegal one (lifecycle), at "
          "least two changes of failures (failures)",
          {{"lifecycle", lifecycle, 160000, 2000000, 14},
           {"failures", failures, 80000, 1000000, 16}},
          {"components follow the pattern of the code generator",
           "the SMP interfaces are the stand-ins of /verif/smp"}};
}
