// C18: links between components are counted, and all of them are removed.
//! sources: full src-gen/Xsmp/Tests/Types/*.cpp
#include "fx_model.h"
#include <Smp/IArrayField.h>
#include <Smp/IDataflowField.h>
#include <Smp/ISimpleArrayField.h>
#include <Smp/IStructureField.h>
#include <Smp/Services/ILinkRegistry.h>
#include <Xsmp/Simulator.h>
#include <Xsmp/Tests/Types/Int32Array.h>
#include <Xsmp/Tests/Types/SimpleInt32Array.h>
#include <Xsmp/Tests/Types/Vector.h>
#include <Xsmp/Tests/Types/VectorArray.h>
#include <array>
#include <map>
#include <thread>
#include <xsmp_link_registry.h>
#include "fx_types.h"

using fx::Node;
using fx::outcome;
using pbt::Case;
using pbt::show;
namespace T = Xsmp::Tests::Types;

namespace {
// ------------------------------------------------------------- registry
struct Plain : virtual Smp::IComponent { // a component that cannot unlink
  std::string name;
  explicit Plain(std::string n) : name(std::move(n)) {}
  Smp::String8 GetName() const override { return name.c_str(); }
  Smp::String8 GetDescription() const override { return ""; }
  Smp::IObject *GetParent() const override { return nullptr; }
  Smp::ComponentStateKind GetState() const override { return {}; }
  void Publish(Smp::IPublication *) override {}
  void Configure(Smp::Services::ILogger *, Smp::Services::ILinkRegistry *) override {}
  void Connect(Smp::ISimulator *) override {}
  void Disconnect() override {}
  Smp::IField *GetField(Smp::String8) const override { return nullptr; }
  const Smp::FieldCollection *GetFields() const override { return nullptr; }
  const Smp::Uuid &GetUuid() const override { return Smp::Uuids::Uuid_Void; }
};
struct Registry { // the package of the link registry
  explicit Registry(Xsmp::Simulator &sim) {
    Initialise_xsmp_link_registry(&sim, sim.GetTypeRegistry());
  }
  ~Registry() { Finalise_xsmp_link_registry(); }
};
struct Linking : Node {
  using Node::Node;
  Smp::Services::ILinkRegistry *registry = nullptr;
  int behaviour = 0; // 0: nothing, 1: tells the registry, 2: only one link
  Smp::IComponent *extra = nullptr;
  std::vector<const Smp::IComponent *> asked;
  Smp::IComponent *component() { return static_cast<Smp::IModel *>(this); }
  void RemoveLinks(const Smp::IComponent *target) override {
    asked.push_back(target);
    if (behaviour == 1) {
      while (registry->RemoveLink(component(), target)) {
      }
    } else if (behaviour == 2) {
      registry->RemoveLink(component(), target);
    } else if (behaviour == 3 && extra) {
      registry->AddLink(extra, target);
    }
  }
};
struct Member {
  std::string name;
  Smp::IComponent *object;
  Linking *linking; // or null
};

void registrySub(Case &c) {
  Xsmp::Simulator sim;
  Registry guard(sim);
  auto *reg = sim.GetLinkRegistry();
  std::vector<std::unique_ptr<Linking>> own;
  std::vector<std::unique_ptr<Plain>> plain;
  std::vector<Member> m;
  const size_t n = c.range(2, 5);
  for (size_t i = 0; i < n; ++i) {
    std::string name = c.chance(1, 4) ? "same" : "c" + std::to_string(i);
    if (c.chance(1, 6)) {
      plain.push_back(std::make_unique<Plain>(name));
      m.push_back({name + "#" + std::to_string(i) + "(plain)", plain.back().get(), nullptr});
    } else {
      own.push_back(std::make_unique<Linking>(name, int(i)));
      own.back()->registry = reg;
      own.back()->behaviour = int(c.weighted({4, 3, 1, 1}));
      m.push_back({name + "#" + std::to_string(i) + "(" +
                       std::to_string(own.back()->behaviour) + ")",
                   own.back()->component(), own.back().get()});
    }
  }
  for (auto &x : m)
    if (x.linking)
      x.linking->extra = m[c.idx(n)].object;
  std::map<std::pair<size_t, size_t>, Smp::UInt32> links;
  unsigned ops = 0;
  auto audit = [&] {
    for (size_t t = 0; t < n; ++t) {
      std::map<const Smp::IComponent *, int> want, got;
      bool can = true;
      for (size_t s = 0; s < n; ++s) {
        auto it = links.find({s, t});
        auto count = it == links.end() ? 0 : it->second;
        REQUIRE(reg->GetLinkCount(m[s].object, m[t].object) == count,
                "count " << m[s].name << " -> " << m[t].name << " is "
                         << reg->GetLinkCount(m[s].object, m[t].object)
                         << ", expected " << count);
        if (count) {
          want[m[s].object] = 1;
          can = can && m[s].linking;
        }
      }
      const auto *sources = reg->GetLinkSources(m[t].object);
      REQUIRE(sources, "no collection of sources");
      for (auto *s : *sources)
        ++got[s];
      REQUIRE(got == want, "the " << sources->size() << " sources of " << m[t].name
                                  << " are not the " << want.size()
                                  << " components linked to it");
      REQUIRE(sources->size() == want.size(), "size of the sources");
      REQUIRE(reg->CanRemove(m[t].object) == can, "CanRemove");
    }
  };
  while (c.more(20)) {
    Case::Span sp(c);
    size_t s = c.idx(n), t = c.idx(n);
    switch (c.weighted({5, 3, 2})) {
    case 0: {
      NOTE(c, "AddLink " << m[s].name << " -> " << m[t].name);
      auto got = outcome([&] { reg->AddLink(m[s].object, m[t].object); });
      REQUIRE(got.empty(), "AddLink: " << got);
      ++links[{s, t}];
      ++ops;
      break;
    }
    case 1: {
      bool want = links.count({s, t}) && links[{s, t}];
      NOTE(c, "RemoveLink " << m[s].name << " -> " << m[t].name);
      bool got = reg->RemoveLink(m[s].object, m[t].object);
      REQUIRE(got == want, "RemoveLink returned " << got);
      if (want && !--links[{s, t}])
        links.erase({s, t});
      break;
    }
    default: {
      NOTE(c, "RemoveLinks " << m[t].name);
      c.label("RemoveLinks");
      for (auto &x : m)
        if (x.linking)
          x.linking->asked.clear();
      auto before = links;
      auto got = outcome([&] { reg->RemoveLinks(m[t].object); });
      REQUIRE(got.empty(), "RemoveLinks: " << got);
      std::set<size_t> late; // linked by another component meanwhile
      for (size_t i = 0; i < n; ++i) {
        auto *l = m[i].linking;
        bool linked = before.count({i, t}) && before[{i, t}];
        if (!l)
          continue;
        if (!linked)
          continue;
        if (l->behaviour == 1)
          links.erase({i, t});
        else if (l->behaviour == 2 && !--links[{i, t}])
          links.erase({i, t});
        else if (l->behaviour == 3)
          for (size_t k = 0; k < n; ++k)
            if (m[k].object == l->extra)
              late.insert(k);
      }
      for (size_t i = 0; i < n; ++i) {
        auto *l = m[i].linking;
        if (!l)
          continue;
        bool linked = before.count({i, t}) && before[{i, t}];
        size_t want = linked ? 1 : 0;
        if (late.count(i) && !linked && l->asked.size() <= 1)
          continue; // may or may not be asked
        REQUIRE(l->asked.size() == want,
                m[i].name << " was asked " << l->asked.size()
                          << " times to remove its links, expected " << want);
        for (auto *a : l->asked)
          REQUIRE(a == m[t].object, "asked to remove links to another target");
      }
      // additions made meanwhile: read them back
      if (!late.empty())
        for (size_t i = 0; i < n; ++i) {
          auto count = reg->GetLinkCount(m[i].object, m[t].object);
          if (count)
            links[{i, t}] = count;
          else
            links.erase({i, t});
        }
      break;
    }
    }
    audit();
  }
  if (ops >= 3)
    c.nontrivial();
}

// links of several threads
void threadsSub(Case &c) {
  Xsmp::Simulator sim;
  Registry guard(sim);
  auto *reg = sim.GetLinkRegistry();
  std::vector<std::unique_ptr<Linking>> own;
  const size_t n = 3;
  for (size_t i = 0; i < n; ++i)
    own.push_back(std::make_unique<Linking>(c.flip() ? "same" : "c" + std::to_string(i), int(i)));
  struct Op {
    bool add;
    size_t s, t;
  };
  const size_t nt = c.range(2, 3);
  std::vector<std::vector<Op>> script(nt);
  bool contended = false;
  for (auto &ops : script)
    for (auto k = c.range(1, 60); k--;)
      ops.push_back({c.chance(1, 2), c.idx(2), c.idx(2)});
  std::vector<std::map<std::pair<size_t, size_t>, int>> delta(nt);
  std::vector<std::string> error(nt);
  std::atomic<int> ready{0};
  std::vector<std::thread> threads;
  for (size_t k = 0; k < nt; ++k)
    threads.emplace_back([&, k] {
      ++ready;
      while (ready < int(nt)) {
      }
      for (auto &op : script[k]) {
        try {
          if (op.add) {
            reg->AddLink(own[op.s]->component(), own[op.t]->component());
            ++delta[k][{op.s, op.t}];
          } else if (reg->RemoveLink(own[op.s]->component(), own[op.t]->component()))
            --delta[k][{op.s, op.t}];
        } catch (const std::exception &e) {
          error[k] = e.what();
        }
      }
    });
  for (auto &t : threads)
    t.join();
  for (auto &e : error)
    REQUIRE(e.empty(), "exception in a thread: " << e);
  for (size_t t = 0; t < n; ++t) {
    std::map<const Smp::IComponent *, int> want, got;
    for (size_t s = 0; s < n; ++s) {
      int count = 0;
      for (auto &d : delta)
        count += d[{s, t}];
      contended = contended || count > 0;
      REQUIRE(int(reg->GetLinkCount(own[s]->component(), own[t]->component())) == count,
              "count after all threads");
      if (count)
        want[own[s]->component()] = 1;
    }
    for (auto *s : *reg->GetLinkSources(own[t]->component()))
      ++got[s];
    REQUIRE(got == want, "sources after all threads");
  }
  if (contended)
    c.nontrivial();
}

// ----------------------------------------------------------- components
// the fields of an end of a data flow: typed objects and raw memory
struct End : Node {
  Xsmp::EventSource<> source{"source", "", static_cast<Xsmp::EventProvider *>(this)};
  Xsmp::EventSource<Smp::Int32> source2{"source2", "", static_cast<Xsmp::EventProvider *>(this),
                                        Smp::PrimitiveTypeKind::PTK_Int32};
  int hits = 0, hits2 = 0;
  Xsmp::EventSink<> sinkA{"sinkA", "", static_cast<Xsmp::EventConsumer *>(this),
                          [this](Smp::IObject *) { ++hits; }};
  Xsmp::EventSink<> sinkB{"sinkB", "", static_cast<Xsmp::EventConsumer *>(this),
                          [this](Smp::IObject *) { ++hits; }};
  Xsmp::EventSink<Smp::Int32> sinkC{"sinkC", "", static_cast<Xsmp::EventConsumer *>(this),
                                    [this](Smp::IObject *, Smp::Int32) { ++hits2; },
                                    Smp::PrimitiveTypeKind::PTK_Int32};
  Xsmp::Reference<Node> reference{"reference", "", static_cast<Xsmp::Aggregate *>(this), 0, -1};
  Xsmp::Reference<Node> reference2{"reference2", "", static_cast<Xsmp::Aggregate *>(this), 0, -1};
  Smp::Publication::ITypeRegistry *types;
  Xsmp::Field<Smp::Int32>::output o1, o2;
  Xsmp::Field<T::Vector>::output oVec;
  Xsmp::Field<T::Int32Array>::output oArr;
  Xsmp::Field<T::SimpleInt32Array>::output oSimple;
  Xsmp::Field<T::VectorArray>::output oVecs;
  Xsmp::Field<Smp::Int32>::input i1, i2;
  Xsmp::Field<T::Vector>::input iVec;
  Xsmp::Field<T::Int32Array>::input iArr;
  Xsmp::Field<T::SimpleInt32Array>::input iSimple;
  Xsmp::Field<T::VectorArray>::input iVecs;
  Smp::Int32 rawOut = 0, rawIn = 0;
  T::Vector rawVecOut{}, rawVecIn{};
  std::unique_ptr<Xsmp::Publication::Publication> pub;
  Smp::IObject *me() { return static_cast<Smp::IModel *>(this); }
  Smp::IComponent *component() { return static_cast<Smp::IModel *>(this); }
  End(const std::string &name, int i, Smp::ISimulator *sim)
      : Node(name, i, nullptr, sim), types(sim->GetTypeRegistry()),
        o1{types, Smp::Uuids::Uuid_Int32, "o1", "", me()},
        o2{types, Smp::Uuids::Uuid_Int32, "o2", "", me()},
        oVec{types, T::Uuid_Vector, "oVec", "", me()},
        oArr{types, T::Uuid_Int32Array, "oArr", "", me()},
        oSimple{types, T::Uuid_SimpleInt32Array, "oSimple", "", me()},
        oVecs{types, T::Uuid_VectorArray, "oVecs", "", me()},
        i1{types, Smp::Uuids::Uuid_Int32, "i1", "", me()},
        i2{types, Smp::Uuids::Uuid_Int32, "i2", "", me()},
        iVec{types, T::Uuid_Vector, "iVec", "", me()},
        iArr{types, T::Uuid_Int32Array, "iArr", "", me()},
        iSimple{types, T::Uuid_SimpleInt32Array, "iSimple", "", me()},
        iVecs{types, T::Uuid_VectorArray, "iVecs", "", me()} {
    pub = std::make_unique<Xsmp::Publication::Publication>(component(), types);
    Publish(pub.get());
    for (Smp::IField *f : std::initializer_list<Smp::IField *>{
             &o1, &o2, &oVec, &oArr, &oSimple, &oVecs, &i1, &i2, &iVec, &iArr,
             &iSimple, &iVecs})
      pub->PublishField(f);
    pub->PublishField("rawOut", "", &rawOut, Smp::ViewKind::VK_None, true, false, true);
    pub->PublishField("rawIn", "", &rawIn, Smp::ViewKind::VK_None, true, true, false);
    pub->PublishField("rawVecOut", "", &rawVecOut, T::Uuid_Vector,
                      Smp::ViewKind::VK_None, true, false, true);
    pub->PublishField("rawVecIn", "", &rawVecIn, T::Uuid_Vector,
                      Smp::ViewKind::VK_None, true, true, false);
  }
};
// simple items of a field
void leaves(Smp::IField *f, std::vector<std::pair<Smp::IField *, int>> &out) {
  if (auto *a = dynamic_cast<Smp::ISimpleArrayField *>(f)) {
    for (Smp::UInt64 i = 0; i < a->GetSize(); ++i)
      out.push_back({f, int(i)});
  } else if (auto *r = dynamic_cast<Smp::IArrayField *>(f)) {
    for (Smp::UInt64 i = 0; i < r->GetSize(); ++i)
      leaves(r->GetItem(i), out);
  } else if (auto *s = dynamic_cast<Smp::IStructureField *>(f)) {
    for (auto *x : *s->GetFields())
      leaves(x, out);
  } else
    out.push_back({f, -1});
}
void write(std::pair<Smp::IField *, int> leaf, int v) {
  auto any = [v](Smp::PrimitiveTypeKind k) {
    Smp::AnySimple a;
    if (k == Smp::PrimitiveTypeKind::PTK_Int32)
      a.SetValue(k, Smp::Int32{v});
    else
      a.SetValue(k, Smp::Float64(v));
    return a;
  };
  if (leaf.second >= 0)
    dynamic_cast<Smp::ISimpleArrayField *>(leaf.first)
        ->SetValue(Smp::UInt64(leaf.second), any(Smp::PrimitiveTypeKind::PTK_Int32));
  else {
    auto *s = dynamic_cast<Smp::ISimpleField *>(leaf.first);
    s->SetValue(any(s->GetPrimitiveTypeKind()));
  }
}
int read(std::pair<Smp::IField *, int> leaf) {
  auto v = leaf.second >= 0
               ? dynamic_cast<Smp::ISimpleArrayField *>(leaf.first)
                     ->GetValue(Smp::UInt64(leaf.second))
               : dynamic_cast<Smp::ISimpleField *>(leaf.first)->GetValue();
  return v.type == Smp::PrimitiveTypeKind::PTK_Int32
             ? static_cast<Smp::Int32>(v)
             : static_cast<int>(static_cast<Smp::Float64>(v));
}

void componentsSub(Case &c) {
  static Xsmp::Simulator *sim = [] {
    auto *s = new Xsmp::Simulator;
    fx::registerTypes(s->GetTypeRegistry());
    return s;
  }();
  const size_t n = c.range(2, 4);
  std::vector<std::unique_ptr<End>> ends;
  // different components may have the same name (below different parents)
  std::vector<std::string> names;
  for (size_t i = 0; i < n; ++i) {
    names.push_back(i && c.chance(1, 3) ? names[c.idx(i)]
                                        : "e" + std::to_string(i));
    NOTE(c, "component " << i << " is named " << names[i]);
    ends.push_back(std::make_unique<End>(names[i], int(i), sim));
  }
  std::vector<bool> gone(n);
  // the links of end 0
  struct Flow {
    std::string what;
    Smp::IField *from, *to;
    size_t target;
  };
  std::vector<Flow> flows;
  std::multiset<std::pair<int, size_t>> sinks; // (sink number, end)
  std::vector<size_t> refs[2];
  auto &src = *ends[0];
  const char *outs[] = {"o1",    "o2",      "oVec",        "oArr",   "oSimple", "oVecs",
                        "rawOut", "rawVecOut", "oArr[1]", "oVecs[2]", "oArr[0]"};
  auto inputsOf = [](const std::string &o) -> std::vector<std::string> {
    if (o == "o1" || o == "o2" || o == "rawOut" || o == "oArr[1]" || o == "oArr[0]")
      return {"i1", "i2", "rawIn", "iArr[1]", "iArr[0]"};
    if (o == "oVec" || o == "rawVecOut" || o == "oVecs[2]")
      return {"iVec", "rawVecIn", "iVecs[2]", "iVecs[1]"};
    if (o == "oArr")
      return {"iArr"};
    if (o == "oSimple")
      return {"iSimple"};
    return {"iVecs"};
  };
  auto field = [](End &e, const std::string &path) {
    auto b = path.find('[');
    auto *f = e.GetField(path.substr(0, b).c_str());
    if (b != std::string::npos)
      f = dynamic_cast<Smp::IArrayField *>(f)->GetItem(Smp::UInt64(path[b + 1] - '0'));
    return f;
  };
  auto overlaps = [&](Smp::IField *a, Smp::IField *b) {
    std::vector<std::pair<Smp::IField *, int>> x, y;
    leaves(a, x);
    leaves(b, y);
    for (auto &p : x)
      if (std::find(y.begin(), y.end(), p) != y.end())
        return true;
    return false;
  };
  unsigned links = 0, removals = 0;
  int stamp = 0;
  // every link works, and nothing else
  auto audit = [&] {
    // sinks
    std::vector<int> want(n), want2(n);
    for (auto &s : sinks)
      ++(s.first == 2 ? want2 : want)[s.second];
    for (auto &e : ends)
      e->hits = e->hits2 = 0;
    src.source();
    src.source2(5);
    for (size_t i = 0; i < n; ++i)
      REQUIRE(ends[i]->hits == want[i] && ends[i]->hits2 == want2[i],
              "end " << i << " received " << ends[i]->hits << "+" << ends[i]->hits2
                     << " events, expected " << want[i] << "+" << want2[i]);
    // references
    Xsmp::Reference<Node> *r[] = {&src.reference, &src.reference2};
    for (int k = 0; k < 2; ++k) {
      REQUIRE(r[k]->GetComponents()->size() == refs[k].size(),
              "reference holds " << r[k]->GetComponents()->size()
                                 << " components, expected " << refs[k].size());
      for (size_t i = 0; i < refs[k].size(); ++i)
        REQUIRE(r[k]->GetComponents()->at(i) == ends[refs[k][i]]->component(),
                "reference order");
    }
    // fields: set all outputs, push, and compare the inputs
    std::map<std::pair<Smp::IField *, int>, std::set<int>> fed;
    std::vector<std::pair<std::pair<Smp::IField *, int>, int>> written;
    for (auto *o : {"o1", "o2", "oVec", "oArr", "oSimple", "oVecs", "rawOut", "rawVecOut"}) {
      std::vector<std::pair<Smp::IField *, int>> l;
      auto *f = field(src, o);
      leaves(f, l);
      for (auto &x : l) {
        write(x, ++stamp);
        written.push_back({x, stamp});
      }
    }
    std::map<std::pair<Smp::IField *, int>, int> source;
    for (auto &w : written)
      source[w.first] = w.second;
    std::vector<std::pair<Smp::IField *, int>> inputs;
    for (size_t i = 1; i < n; ++i)
      for (auto *o : {"i1", "i2", "iVec", "iArr", "iSimple", "iVecs", "rawIn", "rawVecIn"})
        leaves(field(*ends[i], o), inputs);
    for (auto &x : inputs)
      write(x, -1);
    for (auto &f : flows) {
      std::vector<std::pair<Smp::IField *, int>> a, b;
      leaves(f.from, a);
      leaves(f.to, b);
      for (size_t i = 0; i < a.size(); ++i)
        fed[b[i]].insert(source[a[i]]);
    }
    for (auto *o : outs)
      dynamic_cast<Smp::IDataflowField *>(field(src, o))->Push();
    for (auto &x : inputs) {
      auto it = fed.find(x);
      int v = read(x);
      if (it == fed.end())
        REQUIRE(v == -1, "input " << fx::str(x.first->GetName()) << " of "
                                  << fx::str(x.first->GetParent()->GetName())
                                  << " is not linked but received " << v);
      else
        REQUIRE(it->second.count(v), "input " << fx::str(x.first->GetName())
                                              << " did not receive its output");
    }
  };
  while (c.more(18)) {
    Case::Span sp(c);
    size_t t = 1 + c.idx(n - 1);
    switch (c.weighted({3, 2, 6, 3})) {
    case 0: {
      int k = int(c.idx(3));
      NOTE(c, "subscribe sink " << k << " of e" << t);
      bool dup = sinks.count({k, t});
      auto got = outcome([&] {
        if (k == 0)
          src.source.Subscribe(&ends[t]->sinkA);
        else if (k == 1)
          src.source.Subscribe(&ends[t]->sinkB);
        else
          src.source2.Subscribe(&ends[t]->sinkC);
      });
      REQUIRE(got.empty() == !dup, "subscribe: " << got);
      if (!dup) {
        sinks.insert({k, t});
        ++links;
      }
      break;
    }
    case 1: {
      int k = int(c.idx(2));
      NOTE(c, "reference " << k << " to e" << t);
      (k ? src.reference2 : src.reference).AddComponent(ends[t]->component());
      refs[k].push_back(t);
      ++links;
      break;
    }
    case 2: {
      std::string o = outs[c.idx(std::size(outs))];
      auto ins = inputsOf(o);
      std::string i = ins[c.idx(ins.size())];
      auto *from = field(src, o), *to = field(*ends[t], i);
      bool clash = false; // the same items are already linked in another way
      for (auto &f : flows)
        if (overlaps(f.from, from) && overlaps(f.to, to))
          clash = true;
      if (clash)
        break;
      NOTE(c, "connect " << o << " to e" << t << "." << i);
      auto got = outcome(
          [&] { dynamic_cast<Smp::IDataflowField *>(from)->Connect(to); });
      REQUIRE(got.empty(), "connect " << o << " to " << i << ": " << got);
      flows.push_back({o + "->" + i, from, to, t});
      ++links;
      break;
    }
    default:
      NOTE(c, "RemoveLinks(e" << t << ")");
      src.RemoveLinks(ends[t]->component());
      for (auto it = sinks.begin(); it != sinks.end();)
        it = it->second == t ? sinks.erase(it) : std::next(it);
      for (auto &r : refs)
        r.erase(std::remove(r.begin(), r.end(), t), r.end());
      flows.erase(std::remove_if(flows.begin(), flows.end(),
                                 [t](const Flow &f) { return f.target == t; }),
                  flows.end());
      ++removals;
      if (c.chance(1, 3)) { // the component really goes away
        NOTE(c, "e" << t << " is deleted and created again");
        ends[t].reset();
        ends[t] = std::make_unique<End>(names[t], int(t), sim);
      }
      break;
    }
    audit();
  }
  if (links >= 2 && removals)
    c.nontrivial();
}
} // namespace

pbt::Suite pbt_suite() {
  return {"C18",
          "at least three links added (registry), a link left at the end "
          "(threads), two links made and one removal (components)",
          {{"registry", registrySub, 30000, 1500000, 20},
           {"threads", threadsSub, 2000, 60000, 1},
           {"components", componentsSub, 4000, 200000, 18}},
          {"the SMP interfaces are the stand-ins of /verif/smp"}};
}
