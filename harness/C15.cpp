// C15: names are checked, and every object is found again by its path.
#include "fx_model.h"
#include <Smp/IArrayField.h>
#include <Smp/Publication/IArrayType.h>
#include <Smp/Publication/IStructureType.h>
#include <Smp/Services/IResolver.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Simulator.h>
#include <cstring>
#include <map>
#include <xsmp_resolver.h>

using fx::Node;
using fx::outcome;
using pbt::Case;
using pbt::show;

namespace {
// ---------------------------------------------------------------- names
bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool digit(char c) { return c >= '0' && c <= '9'; }

bool validName(const std::string &s) {
  if (s.empty())
    return false;
  if (letter(s[0])) {
    for (char c : s)
      if (!letter(c) && !digit(c) && c != '_')
        return false;
    return true;
  }
  if (s.size() < 3 || s[0] != '[' || s.back() != ']')
    return false;
  for (size_t i = 1; i + 1 < s.size(); ++i)
    if (!digit(s[i]))
      return false;
  return true;
}

std::string anyName(Case &c) {
  switch (c.weighted({3, 3, 3, 2})) {
  case 0: { // well formed
    std::string s(1, "abzAZ"[c.idx(5)]);
    for (auto n = c.range(0, 12); n--;)
      s += "az09AZ_bc7"[c.idx(10)];
    return s;
  }
  case 1: { // array item
    std::string s = "[";
    for (auto n = c.range(0, 6); n--;)
      s += "0123456789"[c.idx(10)];
    return s + "]";
  }
  case 2: { // nearly well formed
    std::string s = c.flip() ? "ab_9" : "[12]";
    static const std::string bad = "[]._-/ \t\n@`{:~$\x80\xe9\xff" "0a_";
    auto k = c.idx(s.size() + 1);
    char x = bad[c.idx(bad.size())];
    if (c.flip() || k == s.size())
      s.insert(s.begin() + static_cast<long>(k), x);
    else
      s[k] = x;
    if (c.chance(20, 100))
      s.erase(s.begin() + static_cast<long>(c.idx(s.size())));
    return s;
  }
  default: {
    std::string s;
    for (auto n = c.range(0, 5); n--;) {
      char x = static_cast<char>(c.range(1, 255));
      s += x;
    }
    return s;
  }
  }
}

void namesSub(Case &c) {
  auto name = anyName(c);
  NOTE(c, "name " << show(name));
  bool ok = validName(name);
  c.label(ok ? (name[0] == '[' ? "array name" : "name") : "invalid name");
  c.nontrivial();
  const std::string want = ok ? "" : "InvalidObjectName";
  // the name is copied, so the caller's buffer does not matter afterwards
  auto buffer = std::make_unique<char[]>(name.size() + 1);
  std::memcpy(buffer.get(), name.c_str(), name.size() + 1);
  Xsmp::Publication::TypeRegistry types;
  Node owner("owner", 1);
  Xsmp::Publication::Publication pub(&owner, &types);
  owner.Publish(&pub);
  Smp::Int32 v = 0;
  std::unique_ptr<Smp::IObject> made;
  std::string got;
  Smp::IObject *object = nullptr;
  switch (c.idx(11)) {
  case 0: {
    Xsmp::cstring r("none");
    got = outcome([&] { r = Xsmp::Helper::checkName(buffer.get(), &owner); });
    REQUIRE(got == want, "checkName -> " << got);
    if (ok)
      REQUIRE(name == r.c_str() && r.c_str() != buffer.get(), "checkName value");
    return;
  }
  case 1:
    got = outcome([&] { made = std::make_unique<Node>(buffer.get(), 2); });
    break;
  case 2:
    got = outcome([&] {
      made = std::make_unique<Xsmp::EntryPoint>(
          buffer.get(), "d", static_cast<Xsmp::EntryPointPublisher *>(&owner),
          [] {});
    });
    break;
  case 3:
    got = outcome([&] {
      made = std::make_unique<Xsmp::EventSink<>>(
          buffer.get(), "d", static_cast<Xsmp::EventConsumer *>(&owner),
          [](Smp::IObject *) {});
    });
    break;
  case 4:
    got = outcome([&] {
      made = std::make_unique<Xsmp::EventSource<>>(
          buffer.get(), "d", static_cast<Xsmp::EventProvider *>(&owner));
    });
    break;
  case 5:
    got = outcome([&] {
      made = std::make_unique<Xsmp::Container<Node>>(
          buffer.get(), "d", static_cast<Xsmp::Composite *>(&owner), 0, -1);
    });
    break;
  case 6:
    got = outcome([&] {
      made = std::make_unique<Xsmp::Reference<Node>>(
          buffer.get(), "d", static_cast<Xsmp::Aggregate *>(&owner), 0, -1);
    });
    break;
  case 7:
    got = outcome([&] {
      made = std::make_unique<Xsmp::SimpleField<Smp::Int32>>(
          &types, Smp::Uuids::Uuid_Int32, buffer.get(), "d",
          static_cast<Smp::IModel *>(&owner));
    });
    break;
  case 8:
    got = outcome([&] { pub.PublishField(buffer.get(), "d", &v); });
    if (ok)
      object = owner.GetFields()->at(buffer.get());
    break;
  case 9:
    got = outcome([&] {
      pub.PublishOperation(buffer.get(), "d", Smp::ViewKind::VK_None);
    });
    if (ok)
      object = owner.GetOperations()->at(buffer.get());
    break;
  default:
    got = outcome([&] {
      pub.PublishProperty(buffer.get(), "d", Smp::Uuids::Uuid_Int32,
                          Smp::AccessKind::AK_ReadWrite,
                          Smp::ViewKind::VK_None);
    });
    if (ok)
      object = owner.GetProperties()->at(buffer.get());
    break;
  }
  REQUIRE(got == want, "creating an object named " << show(name) << " -> "
                                                   << got);
  if (made)
    object = made.get();
  buffer[0] = '!';
  if (ok) {
    REQUIRE(object, "not registered under its name");
    REQUIRE(name == object->GetName(), "GetName is " << object->GetName());
  }
}

// ---------------------------------------------------------------- paths
struct Entry {
  enum Kind { Sim, Component, Leaf, Struct, Array, Holder } kind;
  Smp::IObject *object;
  Entry *parent;
  std::string name;
  std::map<std::string, Entry *> own;   // features and owned components
  std::map<std::string, Entry *> holds; // containers and references
  std::vector<Entry *> refs;            // referenced components, in order
  std::vector<Entry *> items;           // of an array
  std::string path;
  // in an item of an anonymous array: the item has the component as parent (a
  // known finding), so it is not found by its path
  bool detached = false;
};

struct World {
  Xsmp::Simulator sim{"sim"};
  std::vector<std::unique_ptr<Entry>> entries;
  std::vector<std::unique_ptr<Smp::IObject>> objects;
  std::vector<std::unique_ptr<Xsmp::Publication::Publication>> pubs;
  std::vector<Entry *> comps;
  Entry *root = nullptr;
  double store[64] = {};
  bool init = false;
  ~World() {
    if (init)
      Finalise_xsmp_resolver();
  }

  Entry *add(Entry::Kind k, Smp::IObject *o, Entry *parent,
             const std::string &name) {
    entries.push_back(std::make_unique<Entry>());
    auto *e = entries.back().get();
    e->kind = k;
    e->object = o;
    e->parent = parent;
    e->name = name;
    if (!parent)
      e->path = "/";
    else if (k == Entry::Component)
      e->path = (parent == root ? "/" : parent->path + "/") + name;
    else if (parent == root)
      e->path = "/" + name;
    else if (parent->kind == Entry::Array)
      e->path = parent->path + name;
    else
      e->path = parent->path + "." + name;
    return e;
  }
};

const char *const pool[] = {"a", "b", "c", "d", "e0", "f_f", "g", "Ab"};

// the fields below a published or typed field
void addFields(World &w, Entry *e, Smp::IField *f, bool anonymous = false,
               unsigned depth = 0) {
  REQUIRE(f, "field " << e->path << " not found");
  REQUIRE(depth < 6, "endless field");
  if (auto *s = dynamic_cast<Smp::IStructureField *>(f)) {
    e->kind = Entry::Struct;
    for (auto *x : *s->GetFields()) {
      auto *k = w.add(Entry::Leaf, x, e, x->GetName());
      k->detached = e->detached;
      e->own[x->GetName()] = k;
      addFields(w, k, x, false, depth + 1);
    }
  } else if (auto *a = dynamic_cast<Smp::IArrayField *>(f)) {
    e->kind = Entry::Array;
    for (size_t i = 0; i < a->GetSize(); ++i) {
      auto n = "[" + std::to_string(i) + "]";
      auto *k = w.add(Entry::Leaf, a->GetItem(i), anonymous ? e->parent : e, n);
      k->detached = e->detached || anonymous;
      e->items.push_back(k);
      addFields(w, k, a->GetItem(i), false, depth + 1);
    }
  }
}

const Smp::Uuid structUuid{1, 2, 3, 4, 5};
const Smp::Uuid arrayUuid{1, 2, 3, 4, 6};
const Smp::Uuid simpleArrayUuid{1, 2, 3, 4, 7};
const Smp::Uuid nestedUuid{1, 2, 3, 4, 8};

void build(Case &c, World &w) {
  auto &types = *w.sim.GetTypeRegistry();
  auto *st = types.AddStructureType("St", "", structUuid);
  st->AddField("x", "", Smp::Uuids::Uuid_Int32, 0);
  st->AddField("y", "", Smp::Uuids::Uuid_Int32, 4);
  types.AddArrayType("Arr", "", arrayUuid, structUuid, 8, 3, false);
  types.AddArrayType("SArr", "", simpleArrayUuid, Smp::Uuids::Uuid_Int32, 4, 4,
                     true);
  auto *ne = types.AddStructureType("Ne", "", nestedUuid);
  ne->AddField("arr", "", arrayUuid, 0);
  ne->AddField("s", "", structUuid, 24);

  Initialise_xsmp_resolver(&w.sim, &types);
  w.init = true;
  w.root = w.add(Entry::Sim, w.sim.GetResolver()->GetParent(), nullptr, "sim");
  for (auto *s : *w.sim.GetContainer("Services")->GetComponents())
    w.root->own[s->GetName()] =
        w.add(Entry::Component, s, w.root, s->GetName());
  for (auto n : {"Services", "Models"})
    w.root->holds[n] =
        w.add(Entry::Holder, w.sim.GetContainer(n), w.root, n);

  auto count = c.range(1, 6);
  for (unsigned i = 0; i < count; ++i) {
    // place the component
    Entry *parent = w.comps.empty() || c.chance(30, 100)
                        ? w.root
                        : w.comps[c.idx(w.comps.size())];
    std::string name = pool[c.idx(std::size(pool))];
    if (parent->own.count(name))
      continue;
    Node *n = nullptr;
    if (parent == w.root) {
      n = new Node(name, static_cast<int>(i), &w.sim, &w.sim);
      w.sim.AddModel(n);
    } else {
      auto *p = dynamic_cast<Node *>(parent->object);
      n = new Node(name, static_cast<int>(i), p, &w.sim);
      std::vector<Smp::IContainer *> cs;
      for (auto *x : *p->GetContainers())
        cs.push_back(x);
      if (cs.empty()) {
        auto ctn = std::make_unique<Xsmp::Container<Node>>(
            "ctn", "", static_cast<Xsmp::Composite *>(p), 0, -1);
        parent->holds["ctn"] = w.add(Entry::Holder, ctn.get(), parent, "ctn");
        cs.push_back(ctn.get());
        w.objects.push_back(std::move(ctn));
      }
      cs[c.idx(cs.size())]->AddComponent(n);
    }
    auto *e = w.add(Entry::Component, static_cast<Smp::IModel *>(n), parent,
                    name);
    parent->own[name] = e;
    w.comps.push_back(e);
    // publish its features
    w.pubs.push_back(std::make_unique<Xsmp::Publication::Publication>(
        static_cast<Smp::IModel *>(n), &types));
    auto *pub = w.pubs.back().get();
    n->Publish(pub);
    auto features = c.range(0, 6);
    for (unsigned k = 0; k < features; ++k) {
      Case::Span sp(c);
      std::string f = pool[c.idx(std::size(pool))];
      const auto *fc = f.c_str();
      auto kind = c.idx(14);
      auto &where = kind >= 12 ? e->holds : e->own;
      if (where.count(f))
        continue;
      Smp::IField *field = nullptr;
      auto keep = [&](std::unique_ptr<Smp::IObject> o, Entry::Kind ek) {
        where[f] = w.add(ek, o.get(), e, f);
        w.objects.push_back(std::move(o));
      };
      switch (kind) {
      case 0:
        keep(std::make_unique<Xsmp::EntryPoint>(
                 fc, "", static_cast<Xsmp::EntryPointPublisher *>(n), [] {}),
             Entry::Leaf);
        break;
      case 1:
        keep(std::make_unique<Xsmp::EventSink<>>(
                 fc, "", static_cast<Xsmp::EventConsumer *>(n),
                 [](Smp::IObject *) {}),
             Entry::Leaf);
        break;
      case 2:
        keep(std::make_unique<Xsmp::EventSource<>>(
                 fc, "", static_cast<Xsmp::EventProvider *>(n)),
             Entry::Leaf);
        break;
      case 3:
        pub->PublishOperation(fc, "", Smp::ViewKind::VK_None);
        where[f] = w.add(Entry::Leaf, n->GetOperations()->at(fc), e, f);
        break;
      case 4:
        pub->PublishProperty(fc, "", Smp::Uuids::Uuid_Int32,
                             Smp::AccessKind::AK_ReadWrite,
                             Smp::ViewKind::VK_None);
        where[f] = w.add(Entry::Leaf, n->GetProperties()->at(fc), e, f);
        break;
      case 5: {
        using F = Xsmp::SimpleField<Smp::Bool, Xsmp::Annotation::failure>;
        keep(std::make_unique<F>(&types, Smp::Uuids::Uuid_Bool, fc, "",
                                 static_cast<Smp::IModel *>(n)),
             Entry::Leaf);
        break;
      }
      case 6:
        pub->PublishField(fc, "", static_cast<void *>(w.store), structUuid,
                          Smp::ViewKind::VK_None, true, false, c.flip());
        field = n->GetFields()->at(fc);
        break;
      case 7:
        pub->PublishField(fc, "", static_cast<void *>(w.store), nestedUuid,
                          Smp::ViewKind::VK_None, true, false, c.flip());
        field = n->GetFields()->at(fc);
        break;
      case 8:
        pub->PublishField(fc, "", static_cast<void *>(w.store),
                          c.flip() ? arrayUuid : simpleArrayUuid,
                          Smp::ViewKind::VK_None, true, false, c.flip());
        field = n->GetFields()->at(fc);
        break;
      case 9: {
        auto *sub = pub->PublishStructure(fc, "", Smp::ViewKind::VK_None, true);
        sub->PublishField("p", "", reinterpret_cast<Smp::Int32 *>(w.store));
        sub->PublishField("q", "", static_cast<void *>(w.store), nestedUuid,
                          Smp::ViewKind::VK_None, true, false, false);
        field = n->GetFields()->at(fc);
        c.label("anonymous structure");
        break;
      }
      case 10: {
        auto *sub = pub->PublishArray(fc, "", Smp::ViewKind::VK_None, true);
        for (int m = 0; m < 3; ++m)
          sub->PublishField(("[" + std::to_string(m) + "]").c_str(), "",
                            static_cast<void *>(w.store), structUuid,
                            Smp::ViewKind::VK_None, true, false, false);
        field = n->GetFields()->at(fc);
        c.label("anonymous array");
        break;
      }
      case 11: {
        auto o = std::make_unique<Xsmp::SimpleField<Smp::Int32>>(
            &types, Smp::Uuids::Uuid_Int32, fc, "",
            static_cast<Smp::IModel *>(n));
        pub->PublishField(o.get());
        keep(std::move(o), Entry::Leaf);
        break;
      }
      case 12:
        keep(std::make_unique<Xsmp::Container<Node>>(
                 fc, "", static_cast<Xsmp::Composite *>(n), 0, -1),
             Entry::Holder);
        break;
      default: {
        auto o = std::make_unique<Xsmp::Reference<Node>>(
            fc, "", static_cast<Xsmp::Aggregate *>(n), 0, -1);
        for (auto m = c.range(0, 3); m--;) {
          auto *t = w.comps[c.idx(w.comps.size())];
          o->AddComponent(dynamic_cast<Node *>(t->object));
          e->refs.push_back(t);
        }
        keep(std::move(o), Entry::Holder);
        break;
      }
      }
      if (kind >= 6 && kind <= 10) {
        where[f] = w.add(Entry::Leaf, field, e, f);
        addFields(w, where[f], field, kind == 10);
      }
    }
  }
}

Entry *step(Entry *e, const std::string &s) {
  if (s == ".")
    return e;
  if (s == "..")
    return e->parent;
  if (s[0] == '_') {
    auto it = e->holds.find(s.substr(1));
    return it == e->holds.end() ? nullptr : it->second;
  }
  if (s[0] == '[') {
    auto size = static_cast<long long>(e->items.size());
    auto k = std::stoll(s.substr(1));
    if (k < 0)
      k += size;
    return k >= 0 && k < size ? e->items[static_cast<size_t>(k)] : nullptr;
  }
  if (auto it = e->own.find(s); it != e->own.end())
    return it->second;
  for (auto *r : e->refs)
    if (r->name == s)
      return r;
  return nullptr;
}

void pathsSub(Case &c) {
  World w;
  build(c, w);
  for (auto &e : w.entries)
    REQUIRE(e->detached || Xsmp::Helper::GetPath(e->object) == e->path,
            "path of " << e->path << " is "
                       << Xsmp::Helper::GetPath(e->object));
  auto *resolver = w.sim.GetResolver();
  // round trip: every object is found by its path
  for (auto &e : w.entries) {
    if (e->kind == Entry::Holder || e->detached)
      continue;
    auto *o = resolver->ResolveAbsolute(e->path.c_str());
    REQUIRE(o == e->object, "ResolveAbsolute(" << e->path << ") is "
                                               << Xsmp::Helper::GetPath(o));
  }
  // ancestors
  for (auto &x : w.entries)
    for (auto &y : w.entries) {
      bool want = false;
      for (auto *p = y.get(); p; p = p->parent)
        want = want || p == x.get();
      REQUIRE(Xsmp::Helper::IsAncestor(x->object, y->object) == want,
              "IsAncestor(" << x->path << ", " << y->path << ")");
    }
  // walks
  for (auto walks = c.range(1, 6); walks--;) {
    Case::Span sp(c);
    auto *from = w.entries[c.idx(w.entries.size())].get();
    if (c.chance(30, 100))
      from = w.root;
    auto *at = from;
    bool gone = false;
    std::string path;
    bool absolute = from == w.root && c.flip();
    std::string sep = absolute ? "/" : "";
    for (auto steps = c.range(1, 8); steps--;) {
      Case::Span sq(c);
      std::string s;
      bool component = false;
      switch (gone ? 5 : c.weighted({6, 3, 1, 2, 2, 1, 1})) {
      case 0: { // a child
        if (!at->items.empty()) {
          auto size = static_cast<long long>(at->items.size());
          auto k = static_cast<long long>(c.range(0, at->items.size() - 1));
          if (c.flip())
            k -= size;
          s = "[" + std::to_string(k) + "]";
        } else if (!at->own.empty()) {
          auto it = at->own.begin();
          std::advance(it, static_cast<long>(c.idx(at->own.size())));
          s = it->first;
        } else
          s = "..";
        break;
      }
      case 1:
        s = "..";
        break;
      case 2:
        s = ".";
        break;
      case 3: // a referenced component
        if (at->refs.empty())
          s = ".";
        else
          s = at->refs[c.idx(at->refs.size())]->name;
        break;
      case 4:
        if (at->holds.empty())
          s = ".";
        else {
          auto it = at->holds.begin();
          std::advance(it, static_cast<long>(c.idx(at->holds.size())));
          s = "_" + it->first;
        }
        break;
      case 5:
        s = std::vector<std::string>{"zz", "aa", "a_", "_a", "A"}[c.idx(5)];
        break;
      default: // out of range
        s = "[" +
            std::to_string(
                static_cast<long long>(at->items.size()) * (c.flip() ? 1 : -1) -
                (c.flip() ? 1 : 0)) +
            "]";
        break;
      }
      if (at && !gone) {
        auto *next = step(at, s);
        component = next && next->kind == Entry::Component;
        if (!next)
          gone = true;
        at = next;
      }
      if (path.empty() && sep.empty())
        path = s;
      else if (s[0] == '[')
        path += (path.empty() ? sep : "") + s;
      else {
        bool dots = s[0] == '.' || (!path.empty() && path.back() == '.');
        path += dots || component || path.empty() || c.flip() ? "/" : ".";
        path += s;
      }
    }
    auto *want = gone ? nullptr : at->object;
    NOTE(c, "from " << from->path << ": " << path);
    c.label(gone ? "walk to nothing" : "walk");
    c.nontrivial();
    Smp::IObject *got = Xsmp::Helper::Resolve(from->object, path.c_str());
    REQUIRE(got == want, "Resolve(" << from->path << ", " << path << ") is "
                                    << Xsmp::Helper::GetPath(got));
    if (from == w.root) {
      got = resolver->ResolveAbsolute(path.c_str());
      REQUIRE(got == (absolute ? want : nullptr), "ResolveAbsolute(" << path << ")");
    }
    if (from->kind == Entry::Component) {
      auto *cmp = dynamic_cast<Smp::IComponent *>(from->object);
      got = resolver->ResolveRelative(path.c_str(), cmp);
      REQUIRE(got == want, "ResolveRelative(" << path << ")");
      got = resolver->ResolveRelative(("/" + path).c_str(), cmp);
      REQUIRE(!got, "ResolveRelative(/" << path << ")");
    }
  }
  REQUIRE(!resolver->ResolveAbsolute(nullptr), "ResolveAbsolute(null)");
  // a component finds its own fields by their path below it
  for (auto &e : w.entries) {
    if (!dynamic_cast<Smp::IField *>(e->object) || e->detached)
      continue;
    auto *p = e->parent;
    while (p->kind != Entry::Component)
      p = p->parent;
    auto rel = e->path.substr(p->path.size() + 1);
    auto *cmp = dynamic_cast<Smp::IComponent *>(p->object);
    Smp::IField *got = nullptr;
    auto out = outcome([&] { got = cmp->GetField(rel.c_str()); });
    if (dynamic_cast<Smp::IFailure *>(e->object)) {
      // failures are not published as fields here
      REQUIRE(out == "InvalidFieldName", "GetField of a failure");
      continue;
    }
    REQUIRE(out.empty() && got == e->object,
            p->path << "->GetField(" << rel << ") " << out);
    out = outcome([&] { got = cmp->GetField((rel + "zz").c_str()); });
    REQUIRE(out == "InvalidFieldName", p->path << "->GetField(" << rel
                                               << "zz) " << out);
  }
}

// ------------------------------------------------------------ equivalence
// A field type drawn at random, published at a memory block.
struct Shape {
  int kind; // 0 simple, 1 simple array, 2 array, 3 structure
  int prim = 0;
  unsigned size = 0;
  std::vector<Shape> sub;
};
const Smp::PrimitiveTypeKind prims[] = {
    Smp::PrimitiveTypeKind::PTK_Int32, Smp::PrimitiveTypeKind::PTK_UInt32,
    Smp::PrimitiveTypeKind::PTK_Float64, Smp::PrimitiveTypeKind::PTK_Bool};

Shape shape(Case &c, unsigned depth) {
  Shape s;
  s.kind = static_cast<int>(depth ? c.idx(4) : c.idx(2));
  s.prim = static_cast<int>(c.idx(4));
  if (s.kind == 1)
    s.size = static_cast<unsigned>(c.range(1, 3));
  if (s.kind >= 2)
    for (auto n = c.range(1, 3); n--;)
      s.sub.push_back(shape(c, depth - 1));
  return s;
}
bool same(const Shape &a, const Shape &b) {
  if (a.kind != b.kind || a.sub.size() != b.sub.size())
    return false;
  if (a.kind < 2)
    return a.prim == b.prim && (a.kind == 0 || a.size == b.size);
  for (size_t i = 0; i < a.sub.size(); ++i)
    if (!same(a.sub[i], b.sub[i]))
      return false;
  return true;
}
void publish(Smp::IPublication *pub, const std::string &n, const Shape &s,
             double *mem) {
  switch (s.kind) {
  case 0: {
    switch (s.prim) {
    case 0:
      pub->PublishField(n.c_str(), "", reinterpret_cast<Smp::Int32 *>(mem));
      break;
    case 1:
      pub->PublishField(n.c_str(), "", reinterpret_cast<Smp::UInt32 *>(mem));
      break;
    case 2:
      pub->PublishField(n.c_str(), "", mem);
      break;
    default:
      pub->PublishField(n.c_str(), "", reinterpret_cast<Smp::Bool *>(mem));
      break;
    }
    break;
  }
  case 1:
    pub->PublishArray(n.c_str(), "", s.size, mem, prims[s.prim],
                      Smp::ViewKind::VK_None, true, false, false);
    break;
  case 2: {
    auto *p = pub->PublishArray(n.c_str(), "", Smp::ViewKind::VK_None, true);
    for (size_t i = 0; i < s.sub.size(); ++i)
      publish(p, "[" + std::to_string(i) + "]", s.sub[i], mem);
    break;
  }
  default: {
    auto *p =
        pub->PublishStructure(n.c_str(), "", Smp::ViewKind::VK_None, true);
    for (size_t i = 0; i < s.sub.size(); ++i)
      publish(p, "f" + std::to_string(i), s.sub[i], mem);
    break;
  }
  }
}
void mutate(Case &c, Shape &s) {
  if (!s.sub.empty() && c.chance(70, 100)) {
    mutate(c, s.sub[c.idx(s.sub.size())]);
    return;
  }
  switch (c.idx(4)) {
  case 0:
    s.prim = static_cast<int>(c.idx(4));
    break;
  case 1:
    if (s.kind == 1)
      s.size = static_cast<unsigned>(c.range(1, 3));
    else if (s.kind >= 2) {
      if (s.sub.size() > 1 && c.flip())
        s.sub.pop_back();
      else
        s.sub.push_back(shape(c, 0));
    }
    break;
  case 2:
    if (s.kind >= 2)
      s.kind = 5 - s.kind;
    break;
  default:
    break;
  }
}

void equivSub(Case &c) {
  Xsmp::Publication::TypeRegistry types;
  Node owner("owner", 1);
  Xsmp::Publication::Publication pub(static_cast<Smp::IModel *>(&owner),
                                     &types);
  owner.Publish(&pub);
  double mem[8] = {};
  auto a = shape(c, 2);
  auto b = a;
  if (c.flip())
    mutate(c, b);
  else if (c.chance(30, 100))
    b = shape(c, 2);
  publish(&pub, "a", a, mem);
  publish(&pub, "b", b, mem);
  auto *fa = owner.GetFields()->at("a");
  auto *fb = owner.GetFields()->at("b");
  bool want = same(a, b);
  c.label(want ? "equivalent" : "different");
  if (a.kind >= 2)
    c.nontrivial();
  REQUIRE(Xsmp::Helper::AreEquivalent(fa, fb) == want, "a ~ b");
  REQUIRE(Xsmp::Helper::AreEquivalent(fb, fa) == want, "b ~ a");
  REQUIRE(Xsmp::Helper::AreEquivalent(fa, fa), "a ~ a");
}
} // namespace

pbt::Suite pbt_suite() {
  return {"C15",
          "a name of any kind, a walk of the object tree, or equivalence of "
          "structured fields",
          {{"names", namesSub, 40000, 2000000, 24},
           {"paths", pathsSub, 12000, 400000, 220},
           {"equivalence", equivSub, 20000, 400000, 60}},
          {},
          {{"anonymous-array-items",
            "the items of an array published with PublishArray(name, ...) have "
            "the component, not the array, as parent, so their path does not "
            "lead to them",
            [] {
              World w;
              auto *n = new Node("n", 0, &w.sim, &w.sim);
              w.sim.AddModel(n);
              Xsmp::Publication::Publication pub(static_cast<Smp::IModel *>(n),
                                                 w.sim.GetTypeRegistry());
              n->Publish(&pub);
              Smp::Int32 x = 0;
              pub.PublishArray("a", "", Smp::ViewKind::VK_None, true)
                  ->PublishField("[0]", "", &x, Smp::ViewKind::VK_None, true,
                                 false, false);
              auto *a = dynamic_cast<Smp::IArrayField *>(pub.GetField("a"));
              auto path = Xsmp::Helper::GetPath(a->GetItem(0));
              REQUIRE(path == "/n.a[0]", path);
            }}}};
}
