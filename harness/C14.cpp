// C14: containers own their components within bounds; references only refer.
#include "fx_model.h"
#include <algorithm>

using fx::Node;
using fx::outcome;
using fx::Special;
using pbt::Case;
using pbt::show;

namespace {
const std::vector<std::string> names = {"a", "b", "c", "d1", "e_e", "f"};

struct Publisher {
  Xsmp::Publication::TypeRegistry types;
  std::vector<std::unique_ptr<Xsmp::Publication::Publication>> pubs;
  Xsmp::Publication::Publication *publish(Node &n) {
    pubs.push_back(
        std::make_unique<Xsmp::Publication::Publication>(&n, &types));
    n.Publish(pubs.back().get());
    return pubs.back().get();
  }
};

template <class T>
void sameSequence(const Smp::ComponentCollection *comps,
                  const std::vector<T *> &model, const char *who) {
  REQUIRE(comps->size() == model.size(), who << ": size " << comps->size());
  size_t i = 0;
  for (auto *x : *comps) {
    REQUIRE(i < model.size() && x == model[i], who << ": element " << i);
    ++i;
  }
  REQUIRE(i == model.size(), who << ": iteration ends early");
  for (i = 0; i < model.size() + 2; ++i)
    REQUIRE(comps->at(i) == (i < model.size()
                                 ? static_cast<Smp::IComponent *>(model[i])
                                 : nullptr),
            who << ": at(" << i << ")");
  for (auto &n : names) {
    Node *want = nullptr;
    for (auto *m : model)
      if (!want && n == m->GetName())
        want = m;
    REQUIRE(comps->at(n.c_str()) == want, who << ": at(" << n << ")");
  }
  REQUIRE(comps->at(static_cast<Smp::String8>(nullptr)) == nullptr,
          who << ": at(null)");
}

template <class C, class T>
void sameTyped(C &con, const std::vector<T *> &model, const char *who) {
  const C &cc = con;
  REQUIRE(con.size() == model.size() && con.empty() == model.empty(),
          who << ": size");
  REQUIRE(std::vector<T *>(con.begin(), con.end()) == model &&
              std::vector<T *>(cc.begin(), cc.end()) == model &&
              std::vector<T *>(cc.cbegin(), cc.cend()) == model,
          who << ": typed iteration");
  std::vector<T *> r(model.rbegin(), model.rend());
  REQUIRE(std::vector<T *>(con.rbegin(), con.rend()) == r &&
              std::vector<T *>(cc.crbegin(), cc.crend()) == r,
          who << ": reverse iteration");
  for (size_t i = 0; i < model.size() + 1; ++i) {
    T *a = nullptr;
    auto got = outcome([&] { a = con.at(i); });
    REQUIRE(got.empty() == (i < model.size()), who << ": at(" << i << ")");
    if (got.empty())
      REQUIRE(a == model[i] && cc.at(i) == model[i] && con[i] == model[i] &&
                  cc[i] == model[i],
              who << ": element " << i);
  }
  for (auto &n : names) {
    T *want = nullptr;
    for (auto *m : model)
      if (!want && n == m->GetName())
        want = m;
    T *a = nullptr;
    auto got = outcome([&] { a = con.at(std::string_view{n}); });
    REQUIRE(got.empty() == (want != nullptr), who << ": at(" << n << ")");
    if (want)
      REQUIRE(a == want && cc.at(std::string_view{n}) == want &&
                  con[std::string_view{n}] == want,
              who << ": at(" << n << ")");
  }
  if (!model.empty())
    REQUIRE(con.front() == model.front() && con.back() == model.back(),
            who << ": front/back");
}

template <class T> struct Slot {
  std::unique_ptr<Xsmp::Container<T>> con;
  std::vector<T *> model;
  Smp::Int64 lower, upper;
};

void containers(Case &c) {
  const auto liveBefore = fx::live;
  {
    Publisher pub;
    Smp::Int32 f = 0;
    auto owner = std::make_unique<Node>("owner", 1000);
    Node other("other", 1001);
    // names taken by the other features of the owner
    std::set<std::string> taken;
    std::vector<std::unique_ptr<Smp::IObject>> features;
    bool published = c.flip();
    Xsmp::Publication::Publication *p =
        published ? pub.publish(*owner) : nullptr;
    auto take = [&](int kind) {
      auto n = names[c.idx(names.size())];
      if (taken.count(n))
        return;
      switch (kind) {
      case 0:
        if (!p)
          return;
        p->PublishField(n.c_str(), "", &f);
        c.label("name of a field");
        break;
      case 1:
        if (!p)
          return;
        p->PublishOperation(n.c_str(), "", Smp::ViewKind::VK_None);
        c.label("name of an operation");
        break;
      case 2:
        if (!p)
          return;
        p->PublishProperty(n.c_str(), "", Smp::Uuids::Uuid_Int32,
                           Smp::AccessKind::AK_ReadWrite,
                           Smp::ViewKind::VK_None);
        c.label("name of a property");
        break;
      case 3:
        features.push_back(std::make_unique<Xsmp::EntryPoint>(
            n.c_str(), "",
            static_cast<Xsmp::EntryPointPublisher *>(owner.get()), [] {}));
        c.label("name of an entry point");
        break;
      case 4:
        features.push_back(std::make_unique<Xsmp::EventSink<>>(
            n.c_str(), "", static_cast<Xsmp::EventConsumer *>(owner.get()),
            [](Smp::IObject *) {}));
        c.label("name of an event sink");
        break;
      case 5:
        features.push_back(std::make_unique<Xsmp::EventSource<>>(
            n.c_str(), "", static_cast<Xsmp::EventProvider *>(owner.get())));
        c.label("name of an event source");
        break;
      default:
        features.push_back(std::make_unique<Xsmp::Field<bool>::failure>(
            &pub.types, Smp::Uuids::Uuid_Bool, n.c_str(), "", owner.get(),
            Smp::ViewKind::VK_None));
        c.label("name of a failure");
      }
      NOTE(c, "feature " << kind << " named " << n);
      taken.insert(n);
    };
    for (auto k = c.u(2); k; --k)
      take(static_cast<int>(c.u(6)));
    auto bounds = [&](Smp::Int64 &lo, Smp::Int64 &up) {
      lo = static_cast<Smp::Int64>(c.weighted({4, 2, 1}));
      up = c.flip() ? -1 : lo + static_cast<Smp::Int64>(c.u(3));
    };
    Slot<Node> s1;
    Slot<Special> s2;
    bounds(s1.lower, s1.upper);
    bounds(s2.lower, s2.upper);
    auto *comp = static_cast<Xsmp::Composite *>(owner.get());
    s1.con = std::make_unique<Xsmp::Container<Node>>("first", "1st", comp,
                                                     s1.lower, s1.upper);
    s2.con = std::make_unique<Xsmp::Container<Special>>("second", "", comp,
                                                        s2.lower, s2.upper);
    NOTE(c, "bounds " << s1.lower << ".." << s1.upper << " " << s2.lower << ".."
                      << s2.upper);
    // a third container with the name of the first is refused
    REQUIRE(outcome([&] {
              Xsmp::Container<Node> x("first", "", comp, 0, -1);
            }) == "DuplicateName",
            "a second container of the same name");
    REQUIRE(owner->GetContainers()->size() == 2 &&
                owner->GetContainers()->at(size_t{0}) == s1.con.get() &&
                owner->GetContainers()->at(1) == s2.con.get() &&
                owner->GetContainer("first") == s1.con.get() &&
                owner->GetContainer("second") == s2.con.get() &&
                owner->GetContainer("third") == nullptr &&
                owner->GetContainer(nullptr) == nullptr,
            "containers of the composite");
    REQUIRE(s1.con->GetParent() == owner.get() &&
                fx::str(s1.con->GetName()) == "first" &&
                fx::str(s1.con->GetDescription()) == "1st",
            "identity");
    std::vector<std::unique_ptr<Node>> strangers; // not contained
    int next = 0;
    auto contains = [&](const std::string &n) {
      for (auto *m : s1.model)
        if (n == m->GetName())
          return true;
      for (auto *m : s2.model)
        if (n == m->GetName())
          return true;
      return false;
    };
    auto add = [&](auto &slot) {
      using T = std::remove_pointer_t<
          typename std::decay_t<decltype(slot.model)>::value_type>;
      auto n = names[c.idx(names.size())];
      bool special = c.chance(2, 3);
      bool rightParent = c.chance(5, 6);
      auto *parent =
          rightParent ? static_cast<Smp::IComposite *>(owner.get()) : &other;
      std::unique_ptr<Node> x;
      if (special)
        x = std::make_unique<Special>(n, next++, parent);
      else
        x = std::make_unique<Node>(n, next++, parent);
      std::set<std::string> errors;
      if (!dynamic_cast<T *>(x.get()))
        errors.insert("InvalidObjectType");
      if (slot.upper >= 0 &&
          static_cast<Smp::Int64>(slot.model.size()) >= slot.upper)
        errors.insert("ContainerFull");
      if (taken.count(n) || contains(n))
        errors.insert("DuplicateName");
      if (!rightParent)
        errors.insert("InvalidParent");
      auto got = outcome([&] { slot.con->AddComponent(x.get()); });
      NOTE(c, "add " << n << (special ? " special " : " ") << got);
      if (errors.empty())
        REQUIRE(got.empty(), "AddComponent refused: " << got);
      else
        REQUIRE(errors.count(got),
                "AddComponent: '" << got << "' instead of " << *errors.begin());
      if (got.empty()) {
        auto *raw = dynamic_cast<T *>(x.get());
        if (c.flip()) {
          // drive some components to the connected state
          pub.publish(*x);
          if (c.flip()) {
            x->Configure(nullptr, nullptr);
            if (c.chance(3, 4))
              x->Connect(nullptr);
          }
        }
        x.release();
        slot.model.push_back(raw);
      } else {
        c.label(got == "InvalidParent"   ? "invalid parent"
                : got == "ContainerFull" ? "full"
                : got == "DuplicateName" ? "duplicate"
                                         : "type");
        strangers.push_back(std::move(x));
      }
    };
    auto remove = [&](auto &slot, auto &otherSlot) {
      Node *x = nullptr;
      bool mine = false;
      if (!slot.model.empty() && c.chance(3, 4)) {
        x = slot.model[c.idx(slot.model.size())];
        mine = true;
      } else if (!strangers.empty() && c.flip()) {
        x = strangers[c.idx(strangers.size())].get();
      } else if (!otherSlot.model.empty()) {
        x = otherSlot.model[c.idx(otherSlot.model.size())];
      }
      if (!x)
        return;
      const int id = x->id;
      const bool full = static_cast<Smp::Int64>(slot.model.size()) > slot.lower;
      fx::dead.clear();
      auto got = outcome([&] { slot.con->DeleteComponent(x); });
      NOTE(c, "delete " << id << " " << got);
      if (!mine)
        REQUIRE(got == "NotContained" || (!full && got == "CannotDelete"),
                "DeleteComponent of a stranger: " << got);
      else
        REQUIRE(got == (full ? "" : "CannotDelete"),
                "DeleteComponent: " << got);
      if (got.empty()) {
        REQUIRE(fx::dead == std::vector<int>{id}, "component not deleted once");
        for (auto it = slot.model.begin(); it != slot.model.end(); ++it)
          if (static_cast<Node *>(*it) == x) {
            slot.model.erase(it);
            break;
          }
        c.nontrivial();
        c.label("deleted");
      } else {
        REQUIRE(fx::dead.empty(), "component deleted although refused");
        c.label(got == "CannotDelete" ? "at the lower bound" : "not contained");
      }
    };
    while (c.more(25)) {
      Case::Span sp(c);
      switch (c.weighted({4, 4, 2, 2, 1})) {
      case 0:
        add(s1);
        break;
      case 1:
        add(s2);
        break;
      case 2:
        remove(s1, s2);
        break;
      case 3:
        remove(s2, s1);
        break;
      default: {
        auto k = static_cast<int>(c.u(6));
        // a feature whose name is free
        auto n = names;
        take(k);
        // features may only take names no component has: keep the model exact
        break;
      }
      }
      sameSequence(s1.con->GetComponents(), s1.model, "first");
      sameSequence(s2.con->GetComponents(), s2.model, "second");
      sameTyped(*s1.con, s1.model, "first");
      sameTyped(*s2.con, s2.model, "second");
      REQUIRE(s1.con->GetCount() == static_cast<Smp::Int64>(s1.model.size()) &&
                  s1.con->GetLower() == s1.lower &&
                  s1.con->GetUpper() == s1.upper,
              "bounds");
      for (auto &n : names) {
        Node *want = nullptr;
        for (auto *m : s1.model)
          if (n == m->GetName())
            want = m;
        REQUIRE(s1.con->GetComponent(n.c_str()) == want, "GetComponent " << n);
      }
      REQUIRE(fx::live ==
                  liveBefore + 2 +
                      static_cast<int>(s1.model.size() + s2.model.size() +
                                       strangers.size()),
              "components alive");
    }
    // a container deletes what it owns, last first
    std::vector<int> want;
    for (auto it = s1.model.rbegin(); it != s1.model.rend(); ++it)
      want.push_back((*it)->id);
    fx::dead.clear();
    s1.con.reset();
    REQUIRE(fx::dead == want, "destruction order");
    s2.con.reset();
    features.clear();
  }
  REQUIRE(fx::live == liveBefore, "components leaked");
}

// adding a component to a published component while it is configured
void disconnects(Case &c) {
  // deleting a connected component disconnects it first
  Publisher pub;
  Node owner("owner", 1);
  struct Probe : Node {
    std::vector<std::string> *log;
    Probe(const std::string &n, Smp::IComposite *p, std::vector<std::string> *l)
        : Node(n, 7, p), log(l) {}
    void Disconnect() override {
      Node::Disconnect();
      log->push_back("disconnect");
    }
    ~Probe() override { log->push_back("destroy"); }
  };
  std::vector<std::string> log;
  Xsmp::Container<Smp::IComponent> con(
      "con", "", static_cast<Xsmp::Composite *>(&owner), 0, -1);
  if (c.flip())
    pub.publish(owner);
  auto *x = new Probe("x", &owner, &log);
  con.AddComponent(x);
  auto stage = c.u(4);
  if (stage >= 1)
    pub.publish(*x);
  if (stage >= 2)
    x->Configure(nullptr, nullptr);
  if (stage >= 3)
    x->Connect(nullptr);
  if (stage >= 4)
    x->Disconnect();
  log.clear();
  con.DeleteComponent(x);
  c.nontrivial();
  std::vector<std::string> want = {"destroy"};
  if (stage == 3)
    want = {"disconnect", "destroy"};
  REQUIRE(log == want, "deleting a component in stage " << stage);
  REQUIRE(con.GetCount() == 0 && con.GetComponent("x") == nullptr, "deleted");
}

void references(Case &c) {
  Node owner("owner", 1000);
  std::vector<std::unique_ptr<Node>> pool;
  Node p1("p1", 1), p2("p2", 2);
  for (int i = 0; i < 8; ++i) {
    auto n = names[c.idx(names.size())];
    auto *par = c.flip() ? &p1 : &p2;
    if (c.flip())
      pool.push_back(std::make_unique<Special>(n, i, par));
    else
      pool.push_back(std::make_unique<Node>(n, i, par));
  }
  Smp::Int64 lower = static_cast<Smp::Int64>(c.weighted({4, 2, 1}));
  Smp::Int64 upper = c.flip() ? -1 : lower + static_cast<Smp::Int64>(c.u(4));
  auto *agg = static_cast<Xsmp::Aggregate *>(&owner);
  Xsmp::Reference<Special> ref("ref", "d", agg, lower, upper);
  Xsmp::Reference<Node> any("any", "", agg, 0, -1);
  REQUIRE(outcome([&] { Xsmp::Reference<Node> x("ref", "", agg, 0, -1); }) ==
              "DuplicateName",
          "a second reference of the same name");
  REQUIRE(owner.GetReferences()->size() == 2 &&
              owner.GetReference("ref") == &ref &&
              owner.GetReference("any") == &any &&
              owner.GetReference("x") == nullptr &&
              owner.GetReference(nullptr) == nullptr,
          "references of the aggregate");
  std::vector<Special *> model;
  std::vector<Node *> anyModel;
  const int liveBefore = fx::live;
  while (c.more(30)) {
    Case::Span sp(c);
    auto *x = pool[c.idx(pool.size())].get();
    auto *sp_ = dynamic_cast<Special *>(x);
    switch (c.weighted({5, 4, 1, 2})) {
    case 0: {
      std::set<std::string> errors;
      if (upper >= 0 && static_cast<Smp::Int64>(model.size()) >= upper)
        errors.insert("ReferenceFull");
      if (!sp_)
        errors.insert("InvalidObjectType");
      auto got = outcome([&] { ref.AddComponent(x); });
      NOTE(c, "add " << x->id << " " << got);
      REQUIRE(errors.empty() ? got.empty() : errors.count(got) == 1,
              "AddComponent: '" << got << "'");
      if (got.empty())
        model.push_back(sp_);
      else
        c.label(got == "ReferenceFull" ? "full" : "type");
      any.AddComponent(x);
      anyModel.push_back(x);
      break;
    }
    case 1: {
      auto it = std::find(model.begin(), model.end(), sp_);
      bool has = sp_ && it != model.end();
      bool above = static_cast<Smp::Int64>(model.size()) > lower;
      auto got = outcome([&] { ref.RemoveComponent(x); });
      NOTE(c, "remove " << x->id << " " << got);
      if (!has)
        REQUIRE(got == "NotReferenced" || (!above && got == "CannotRemove"),
                "RemoveComponent: '" << got << "'");
      else
        REQUIRE(got == (above ? "" : "CannotRemove"),
                "RemoveComponent: '" << got << "'");
      if (got.empty()) {
        model.erase(it);
        c.nontrivial();
      } else
        c.label(got == "CannotRemove" ? "at the lower bound"
                                      : "not referenced");
      break;
    }
    case 2: {
      // all links to a component
      owner.RemoveLinks(x);
      NOTE(c, "remove links to " << x->id);
      model.erase(std::remove(model.begin(), model.end(), sp_), model.end());
      anyModel.erase(std::remove(anyModel.begin(), anyModel.end(), x),
                     anyModel.end());
      c.label("links removed");
      break;
    }
    default: {
      auto it = std::find(anyModel.begin(), anyModel.end(), x);
      auto got = outcome([&] { any.RemoveComponent(x); });
      REQUIRE(got == (it == anyModel.end() ? "NotReferenced" : ""),
              "RemoveComponent: '" << got << "'");
      if (it != anyModel.end())
        anyModel.erase(it);
    }
    }
    REQUIRE(ref.GetCount() == static_cast<Smp::Int64>(model.size()) &&
                ref.GetLower() == lower && ref.GetUpper() == upper,
            "count and bounds");
    sameTyped(ref, model, "ref");
    sameTyped(any, anyModel, "any");
    auto check = [&](auto &r, auto &m) {
      REQUIRE(r.GetComponents()->size() == m.size(), "size");
      size_t i = 0;
      for (auto *y : *r.GetComponents())
        REQUIRE(i < m.size() && y == m[i++], "element");
      for (auto &n : names) {
        std::set<Smp::IComponent *> could;
        for (auto *y : m)
          if (n == y->GetName())
            could.insert(y);
        auto *got = r.GetComponent(n.c_str());
        REQUIRE(could.empty() ? got == nullptr : could.count(got) == 1,
                "GetComponent " << n);
      }
      REQUIRE(r.GetComponent(static_cast<Smp::String8>(nullptr)) == nullptr &&
                  r.GetComponent(m.size()) == nullptr,
              "GetComponent of nothing");
    };
    check(ref, model);
    check(any, anyModel);
    REQUIRE(fx::live == liveBefore, "a reference must not delete components");
  }
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C14";
  s.rule = "a case is a history of additions and removals on the containers "
           "(or references) of one component, with bounds, names and types "
           "that clash, compared with a model after each step; non-trivial = "
           "at least one component was deleted or removed";
  s.subs = {{"containers", containers, 36000, 300000},
            {"disconnects", disconnects, 6000, 30000},
            {"references", references, 60000, 400000}};
  s.assumptions = {"components are not null and bounds are 0 <= lower <= upper "
                   "or upper = -1",
                   "when several errors apply to a call any of them may be "
                   "reported"};
  return s;
}
