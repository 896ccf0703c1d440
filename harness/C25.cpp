//! sources: full src-gen/Xsmp/Tests/Types/*.cpp
//! opt: -O1
// C25: data flows from output fields to the connected input fields.
// Generated histories of connections, disconnections, writes and pushes over
// typed and published fields of all shapes, against a model that keeps the
// connections of every leaf.
#include "fx.h"
#include "fx_fields.h"
#include "fx_sim.h"
#include "fx_types.h"
#include <Smp/IDataflowField.h>
#include <Smp/Publication/IArrayType.h>
#include <Xsmp/Model.h>
#include <functional>
#include <map>
#include <memory>

using pbt::Case;
using K = Smp::PrimitiveTypeKind;
namespace T = Xsmp::Tests::Types;

namespace {
template <class X> using Field = Xsmp::Field<X>;
struct Typed : Xsmp::Model {
  Smp::Publication::ITypeRegistry *t;
  Smp::IObject *o;
  // connections go from a field to a later one
#define SIMPLE(name, X, uuid, kind) kind name{t, uuid, #name, "", o}
  Field<Smp::Int32>::output o_i32{t, Smp::Uuids::Uuid_Int32, "o_i32", "", o};
  Field<Smp::Int32>::output::forcible of_i32{t, Smp::Uuids::Uuid_Int32, "of_i32", "", o};
  Field<Smp::Float64>::output o_f64{t, Smp::Uuids::Uuid_Float64, "o_f64", "", o};
  Field<T::String1>::output o_str{t, T::Uuid_String1, "o_str", "", o};
  Field<T::Int32Array>::output o_arr{t, T::Uuid_Int32Array, "o_arr", "", o};
  Field<T::SimpleInt32Array>::output o_sarr{t, T::Uuid_SimpleInt32Array, "o_sarr", "", o};
  Field<T::SimpleUInt32Array>::output o_uarr{t, T::Uuid_SimpleUInt32Array, "o_uarr", "", o};
  Field<T::SimpleString1Array>::output o_strs{t, T::Uuid_SimpleString1Array, "o_strs", "", o};
  Field<T::Vector>::output o_vec{t, T::Uuid_Vector, "o_vec", "", o, Smp::ViewKind::VK_None};
  Field<T::VectorArray>::output o_vecs{t, T::Uuid_VectorArray, "o_vecs", "", o};
  Field<T::Int64Matrix>::output o_mat{t, T::Uuid_Int64Matrix, "o_mat", "", o};
  Field<Smp::Int32>::input::output io_i32{t, Smp::Uuids::Uuid_Int32, "io_i32", "", o};
  Field<Smp::Int32>::output::input::forcible iof_i32{t, Smp::Uuids::Uuid_Int32, "iof_i32", "", o};
  Field<T::Int32Array>::input::output io_arr{t, T::Uuid_Int32Array, "io_arr", "", o};
  Field<T::SimpleInt32Array>::input::output io_sarr{t, T::Uuid_SimpleInt32Array, "io_sarr", "", o};
  Field<T::Vector>::input::output io_vec{t, T::Uuid_Vector, "io_vec", "", o, Smp::ViewKind::VK_None};
  Field<T::VectorArray>::output::input io_vecs{t, T::Uuid_VectorArray, "io_vecs", "", o};
  Field<Smp::Int32>::input i_i32{t, Smp::Uuids::Uuid_Int32, "i_i32", "", o};
  Field<Smp::Int32>::input::forcible if_i32{t, Smp::Uuids::Uuid_Int32, "if_i32", "", o};
  Field<Smp::Int32> n_i32{t, Smp::Uuids::Uuid_Int32, "n_i32", "", o};
  Field<Smp::Float64>::input i_f64{t, Smp::Uuids::Uuid_Float64, "i_f64", "", o};
  Field<T::String1>::input i_str{t, T::Uuid_String1, "i_str", "", o};
  Field<T::Int32Array>::input i_arr{t, T::Uuid_Int32Array, "i_arr", "", o};
  Field<T::Int32Array>::input::forcible if_arr{t, T::Uuid_Int32Array, "if_arr", "", o};
  Field<T::SimpleInt32Array>::input i_sarr{t, T::Uuid_SimpleInt32Array, "i_sarr", "", o};
  Field<T::SimpleUInt32Array>::input i_uarr{t, T::Uuid_SimpleUInt32Array, "i_uarr", "", o};
  Field<T::SimpleFloat64Array>::input i_farr{t, T::Uuid_SimpleFloat64Array, "i_farr", "", o};
  Field<T::SimpleString1Array>::input i_strs{t, T::Uuid_SimpleString1Array, "i_strs", "", o};
  Field<T::Vector>::input i_vec{t, T::Uuid_Vector, "i_vec", "", o, Smp::ViewKind::VK_None};
  Field<T::Vector>::input::forcible if_vec{t, T::Uuid_Vector, "if_vec", "", o, Smp::ViewKind::VK_None};
  Field<T::VectorArray>::input i_vecs{t, T::Uuid_VectorArray, "i_vecs", "", o};
  Field<T::Int64Matrix>::input i_mat{t, T::Uuid_Int64Matrix, "i_mat", "", o};
  Field<T::SimpleInt64Matrix>::input i_smat{t, T::Uuid_SimpleInt64Matrix, "i_smat", "", o};
#undef SIMPLE
  Typed(Smp::String8 name, Smp::IComposite *parent, Smp::ISimulator *sim)
      : Model(name, "", parent, sim), t(sim->GetTypeRegistry()),
        o(static_cast<Smp::IModel *>(this)) {}
  std::vector<Smp::IField *> outs() {
    return {&o_i32, &of_i32, &o_f64,  &o_str, &o_arr, &o_sarr,
            &o_uarr, &o_strs, &o_vec, &o_vecs, &o_mat};
  }
  std::vector<Smp::IField *> middle() {
    return {&io_i32, &iof_i32, &io_arr, &io_sarr, &io_vec, &io_vecs};
  }
  std::vector<Smp::IField *> ins() {
    return {&i_i32,  &if_i32, &n_i32,  &i_f64, &i_str,  &i_arr,  &if_arr, &i_sarr,
            &i_uarr, &i_farr, &i_strs, &i_vec, &if_vec, &i_vecs, &i_mat,  &i_smat};
  }
};
struct Values {
  Smp::Int32 i32 = 0;
  Smp::Float64 f64 = 0;
  T::String1 str{};
  T::Int32Array arr{};
  T::SimpleInt32Array sarr{};
  T::SimpleUInt32Array uarr{};
  T::Vector vec{};
  T::VectorArray vecs{};
  Smp::Int32 raw[3]{};
  Smp::Float64 floats[3]{};
  // shapes that are nearly the one of another field
  Smp::Float64 pair[2]{}, quad[4]{};
  struct {
    Smp::Float64 a;
    Smp::Int32 b;
    Smp::Float64 c;
  } mixed{};
  struct {
    T::Vector a;
    Smp::Float64 b;
  } nested{};
  Smp::Int32 longArr[sizeof(T::Int32Array) / 4 + 1]{},
      shortArr[sizeof(T::SimpleInt32Array) / 4 - 1]{};
  T::Vector moreVecs[sizeof(T::VectorArray) / sizeof(T::Vector) + 1]{};
  static Smp::Uuid uuid(unsigned char n) {
    return {0x7d1f0000u + n, 0x1111, 0x2222, 0x3333, 0x444455556666ull};
  }
  static void registerTypes(Smp::Publication::ITypeRegistry *t) {
    auto doubles = [t](const char *name, unsigned char id, int n) {
      auto *s = t->AddStructureType(name, "", uuid(id));
      for (int i = 0; i < n; ++i)
        s->AddField(("f" + std::to_string(i)).c_str(), "", Smp::Uuids::Uuid_Float64,
                    static_cast<Smp::Int64>(i) * 8);
    };
    doubles("Pair", 1, 2);
    doubles("Quad", 2, 4);
    auto *m = t->AddStructureType("Mixed", "", uuid(3));
    m->AddField("a", "", Smp::Uuids::Uuid_Float64, 0);
    m->AddField("b", "", Smp::Uuids::Uuid_Int32, 8);
    m->AddField("c", "", Smp::Uuids::Uuid_Float64, 16);
    auto *n = t->AddStructureType("Nested", "", uuid(4));
    n->AddField("a", "", T::Uuid_Vector, 0);
    n->AddField("b", "", Smp::Uuids::Uuid_Float64, sizeof(T::Vector));
    t->AddArrayType("LongArr", "", uuid(5), Smp::Uuids::Uuid_Int32, 4,
                    static_cast<Smp::Int64>(std::size(Values{}.longArr)), false);
    t->AddArrayType("ShortArr", "", uuid(6), Smp::Uuids::Uuid_Int32, 4,
                    static_cast<Smp::Int64>(std::size(Values{}.shortArr)), true);
    t->AddArrayType("MoreVecs", "", uuid(7), T::Uuid_Vector, sizeof(T::Vector),
                    static_cast<Smp::Int64>(std::size(Values{}.moreVecs)), false);
  }
  void publish(Smp::IPublication *p, std::string const &prefix, bool in, bool out) {
    constexpr auto v = Smp::ViewKind::VK_None;
    auto one = [&](const char *name, void *at, Smp::Uuid uuid) {
      p->PublishField((prefix + name).c_str(), "", at, uuid, v, true, in, out);
    };
    one("i32", &i32, Smp::Uuids::Uuid_Int32);
    one("f64", &f64, Smp::Uuids::Uuid_Float64);
    one("str", &str, T::Uuid_String1);
    one("arr", &arr, T::Uuid_Int32Array);
    one("sarr", &sarr, T::Uuid_SimpleInt32Array);
    one("uarr", &uarr, T::Uuid_SimpleUInt32Array);
    one("vec", &vec, T::Uuid_Vector);
    one("vecs", &vecs, T::Uuid_VectorArray);
    one("pair", pair, uuid(1));
    one("quad", quad, uuid(2));
    one("mixed", &mixed, uuid(3));
    one("nested", &nested, uuid(4));
    one("longArr", longArr, uuid(5));
    one("shortArr", shortArr, uuid(6));
    one("moreVecs", moreVecs, uuid(7));
    if (!out) {
      p->PublishArray((prefix + "raw").c_str(), "", 3, raw, K::PTK_Int32, v, true, in, out);
      p->PublishArray((prefix + "floats").c_str(), "", 3, floats, K::PTK_Float64, v, true, in, out);
    }
  }
};
struct Published : Xsmp::Model {
  Values out, middle, in;
  using Model::Model;
  void Publish(Smp::IPublication *p) override {
    Model::Publish(p);
    out.publish(p, "po_", false, true);
    middle.publish(p, "pio_", true, true);
    in.publish(p, "pi_", true, false);
  }
};

struct Node {
  Smp::IField *field;
  std::string path, shape;
  size_t rank; // of the top-level field
  bool typed;
  bool leafArray = false; // a simple array
  std::vector<Node *> children;
  size_t first = 0, count = 0; // leaves
  std::vector<const Node *> targets; // connections made on this node
};
struct Leaf {
  Node *node;
  int index;
  K kind;
  std::string value;
  bool pushes = false; // flows when it changes
  bool forced = false;
  Smp::IForcibleField *forcible = nullptr;
};
K itemKind(Smp::ISimpleArrayField *a) {
  const auto *type = a->GetType();
  if (auto const *x = dynamic_cast<const Smp::Publication::IArrayType *>(
          static_cast<const Smp::Publication::IType *>(type)))
    return x->GetItemType()->GetPrimitiveTypeKind();
  return type->GetPrimitiveTypeKind();
}
// values: a number per leaf kind
Smp::AnySimple make(K k, uint64_t raw) { return fx::value(k, raw); }

struct World {
  std::unique_ptr<Xsmp::Simulator> sim = std::make_unique<Xsmp::Simulator>();
  Typed *typed;
  Published *published;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<Leaf> leaves;
  std::map<std::string, Node *> byPath;
  std::vector<Node *> sources, inputs;
  std::map<std::string, std::vector<Node *>> sameShape;
  std::map<char, std::vector<Node *>> sameClass; // array, structure...

  Node *build(Smp::IField *f, std::string path, size_t rank, bool isTyped, bool pushes) {
    nodes.push_back(std::make_unique<Node>());
    auto *n = nodes.back().get();
    n->field = f;
    n->path = path + f->GetName();
    n->rank = rank;
    n->typed = isTyped;
    n->first = leaves.size();
    auto number = [](auto x) { return std::to_string(static_cast<int>(x)); };
    if (auto *a = dynamic_cast<Smp::ISimpleArrayField *>(f)) {
      n->leafArray = true;
      auto k = itemKind(a);
      n->shape = "S" + number(a->GetSize()) + "k" + number(k);
      for (Smp::UInt64 i = 0; i < a->GetSize(); ++i)
        leaves.push_back({n, static_cast<int>(i), k, fx::show(a->GetValue(i)), pushes});
    } else if (auto *r = dynamic_cast<Smp::IArrayField *>(f)) {
      n->shape = "A" + number(r->GetSize()) + "(";
      for (Smp::UInt64 i = 0; i < r->GetSize(); ++i) {
        auto *child = build(r->GetItem(i), n->path, rank, isTyped, pushes);
        n->children.push_back(child);
        n->shape += child->shape + ",";
      }
      n->shape += ")";
    } else if (auto *s = dynamic_cast<Smp::IStructureField *>(f)) {
      n->shape = "{";
      for (auto *x : *s->GetFields()) {
        auto *child = build(x, n->path + ".", rank, isTyped, pushes);
        n->children.push_back(child);
        n->shape += child->shape + ",";
      }
      n->shape += "}";
    } else {
      auto *simple = dynamic_cast<Smp::ISimpleField *>(f);
      n->shape = "k" + number(simple->GetPrimitiveTypeKind());
      leaves.push_back({n, -1, simple->GetPrimitiveTypeKind(), fx::show(simple->GetValue()),
                        pushes, false, dynamic_cast<Smp::IForcibleField *>(f)});
    }
    n->count = leaves.size() - n->first;
    byPath[n->path] = n;
    if (dynamic_cast<Smp::IDataflowField *>(f))
      sources.push_back(n);
    if (f->IsInput()) {
      inputs.push_back(n);
      sameShape[n->shape].push_back(n);
      sameClass[n->shape[0]].push_back(n);
    }
    return n;
  }
  World() {
    fx::registerTypes(sim->GetTypeRegistry());
    Values::registerTypes(sim->GetTypeRegistry());
    auto *root = static_cast<Smp::IComposite *>(static_cast<Smp::ISimulator *>(sim.get()));
    sim->AddModel(typed = new Typed("typed", root, sim.get()));
    sim->AddModel(published = new Published("published", "", root, sim.get()));
    sim->Publish();
    size_t rank = 0;
    auto publishedOnes = [&](const char *prefix) {
      for (auto *x : *static_cast<Smp::IModel *>(published)->GetFields())
        if (fx::str(x->GetName()).rfind(prefix, 0) == 0)
          build(x, "", rank++, false, false);
    };
    for (auto *x : typed->outs())
      build(x, "", rank++, true, true);
    publishedOnes("po_");
    for (auto *x : typed->middle())
      build(x, "", rank++, true, true);
    publishedOnes("pio_");
    for (auto *x : typed->ins())
      build(x, "", rank++, true, false);
    publishedOnes("pi_");
  }
  ~World() { sim->Exit(); }
  Smp::AnySimple read(Leaf const &l) {
    return l.index < 0 ? dynamic_cast<Smp::ISimpleField *>(l.node->field)->GetValue()
                       : dynamic_cast<Smp::ISimpleArrayField *>(l.node->field)
                             ->GetValue(static_cast<Smp::UInt64>(l.index));
  }

  // ------------------------------------------------------------- the model
  void set(size_t leaf, std::string const &v) {
    auto &l = leaves[leaf];
    if (l.forced)
      return;
    l.value = v;
    if (l.pushes)
      flow(leaf);
  }
  void flow(size_t leaf) { // to the targets of a typed leaf
    auto const &l = leaves[leaf];
    auto targets = l.node->targets; // leaf nodes only have leaf targets
    for (auto const *t : targets)
      set(t->first + (leaf - l.node->first), leaves[leaf].value);
  }
  static bool has(const Node *a, const Node *b) {
    return std::find(a->targets.begin(), a->targets.end(), b) != a->targets.end();
  }
  static bool keeps(const Node *a) { // has connections of its own
    return a->children.empty() || dynamic_cast<Smp::IDataflowField *>(a->field);
  }
  static bool connected(const Node *a, const Node *b) {
    if (keeps(a) && has(a, b))
      return true;
    if (a->typed)
      for (size_t i = 0; i < a->children.size(); ++i)
        if (connected(a->children[i], b->children[i]))
          return true;
    return false;
  }
  void connect(Node *a, const Node *b) {
    if (!a->typed) {
      a->targets.push_back(b);
      copy(a, b);
      return;
    }
    if (keeps(a))
      a->targets.push_back(b);
    for (size_t i = 0; i < a->children.size(); ++i)
      connect(a->children[i], b->children[i]);
    if (a->children.empty())
      copy(a, b);
  }
  void copy(const Node *a, const Node *b) {
    for (size_t i = 0; i < a->count; ++i)
      set(b->first + i, leaves[a->first + i].value);
  }
  void disconnect(Node *a, const Node *b) {
    if (keeps(a)) {
      auto it = std::find(a->targets.begin(), a->targets.end(), b);
      if (it == a->targets.end())
        return;
      a->targets.erase(it);
    }
    if (a->typed)
      for (size_t i = 0; i < a->children.size(); ++i)
        disconnect(a->children[i], b->children[i]);
  }
  void push(const Node *a) {
    if (!a->typed) {
      for (auto const *b : a->targets)
        copy(a, b);
      return;
    }
    for (size_t i = a->first; i < a->first + a->count; ++i)
      flow(i);
  }
  // ------------------------------------------------------------- comparison
  void check(const char *what) {
    for (auto const &l : leaves) {
      auto got = fx::show(read(l));
      REQUIRE(got == l.value, "after " << what << ", " << l.node->path
                                       << (l.index < 0 ? "" : "[" + std::to_string(l.index) + "]")
                                       << " holds " << got << " instead of " << l.value);
    }
  }
};

struct Run {
  Case &c;
  World &w;
  unsigned connections = 0, flows = 0;
  void connect() {
    auto *a = c.pick(w.sources);
    Node *b;
    auto const &same = w.sameShape[a->shape];
    if (c.chance(1, 6) || same.empty())
      switch (c.u(3)) {
      case 0:
        b = w.nodes[c.idx(w.nodes.size())].get();
        break;
      case 1:
        b = c.pick(w.inputs);
        break;
      default: // nearly the same shape
        b = c.pick(w.sameClass[a->shape[0]]);
      }
    else
      b = c.pick(same);
    if (c.chance(1, 20))
      b = a;
    if (c.chance(1, 10)) { // one that exists, or its items
      std::vector<std::pair<Node *, Node *>> all;
      for (auto *n : w.sources)
        for (auto const *t : n->targets)
          all.push_back({n, const_cast<Node *>(t)});
      if (!all.empty()) {
        std::tie(a, b) = c.pick(all);
        if (!a->children.empty() && c.chance(1, 3)) {
          auto i = c.idx(a->children.size());
          if (dynamic_cast<Smp::IDataflowField *>(a->children[i]->field)) {
            b = b->children[i];
            a = a->children[i];
          }
        }
      }
    }
    bool valid = b->field->IsInput() && a != b && a->shape == b->shape;
    if (valid && b->rank <= a->rank)
      return; // no cycles
    bool already = valid && World::connected(a, b);
    NOTE(c, "connect " << a->path << " to " << b->path);
    auto x = fx::outcome([&] { dynamic_cast<Smp::IDataflowField *>(a->field)->Connect(b->field); });
    if (!valid) {
      REQUIRE(x == "InvalidTarget", "connecting " << a->path << " (" << a->shape << ") to " << b->path
                                                  << " (" << b->shape << ") gives '" << x << "'");
      c.label("invalid target");
    } else if (already) {
      REQUIRE(x == "FieldAlreadyConnected", "connecting " << a->path << " to " << b->path << " twice gives '"
                                                          << x << "'");
      c.label("already connected");
    } else {
      REQUIRE(x.empty(), "connecting " << a->path << " to " << b->path << " throws " << x);
      w.connect(a, b);
      ++connections;
      c.label(a->typed ? b->typed ? "typed to typed" : "typed to published"
              : b->typed ? "published to typed" : "published to published");
      if (!a->children.empty())
        c.label("structured");
    }
  }
  void disconnect() {
    auto *a = c.pick(w.sources);
    const Node *b = nullptr;
    std::vector<Node *> withTargets;
    for (auto *s : w.sources)
      if (!s->targets.empty())
        withTargets.push_back(s);
    if (!withTargets.empty() && !c.chance(1, 6)) {
      a = c.pick(withTargets);
      b = c.pick(a->targets);
    } else {
      auto const &same = w.sameShape[a->shape];
      b = same.empty() || c.chance(1, 3) ? c.pick(w.inputs) : c.pick(same);
    }
    if (a->shape != b->shape && a->typed && !World::has(a, b)) {
      // nothing to disconnect
    }
    NOTE(c, "disconnect " << a->path << " from " << b->path);
    auto *field = a->field;
    if (auto *d = dynamic_cast<Xsmp::detail::IDataflowFieldExtension *>(field))
      d->Disconnect(b->field);
    else
      return;
    w.disconnect(a, b);
    c.label("disconnected");
  }
  void push() {
    auto *a = c.pick(w.sources);
    std::vector<Node *> withTargets;
    for (auto *s : w.sources)
      if (!s->targets.empty())
        withTargets.push_back(s);
    if (!withTargets.empty() && !c.chance(1, 8))
      a = c.pick(withTargets);
    NOTE(c, "push " << a->path);
    dynamic_cast<Smp::IDataflowField *>(a->field)->Push();
    w.push(a);
    ++flows;
    c.label("push");
  }
  size_t someLeaf() {
    if (c.chance(3, 4)) { // a leaf of a connected field
      std::vector<Node *> withTargets;
      for (auto *s : w.sources)
        if (!s->targets.empty())
          withTargets.push_back(s);
      if (!withTargets.empty()) {
        auto *a = c.pick(withTargets);
        if (c.chance(1, 4)) {
          auto const *b = c.pick(a->targets);
          return b->first + c.idx(b->count);
        }
        return a->first + c.idx(a->count);
      }
    }
    return c.idx(w.leaves.size());
  }
  void write() {
    auto i = someLeaf();
    auto &l = w.leaves[i];
    auto v = make(l.kind, c.integer<uint64_t>());
    NOTE(c, "write " << l.node->path << " " << l.index << " = " << fx::show(v));
    auto text = fx::show(v);
    if (l.kind == K::PTK_String8)
      text = "\"" + fx::str(v).substr(0, 10) + "\"";
    if (l.index < 0)
      dynamic_cast<Smp::ISimpleField *>(l.node->field)->SetValue(v);
    else {
      auto *a = dynamic_cast<Smp::ISimpleArrayField *>(l.node->field);
      if (c.chance(1, 3)) {
        std::vector<Smp::AnySimple> all;
        for (Smp::UInt64 k = 0; k < a->GetSize(); ++k)
          all.push_back(v);
        a->SetValues(all.size(), all.data());
        for (size_t k = 0; k < all.size(); ++k)
          w.set(l.node->first + k, text);
        if (l.pushes)
          ++flows;
        return;
      }
      a->SetValue(static_cast<Smp::UInt64>(l.index), v);
    }
    w.set(i, text);
    if (l.pushes)
      ++flows;
  }
  void assign() { // through the typed fields
    auto &t = *w.typed;
    auto n = static_cast<Smp::Int32>(c.range(0, 1000));
    auto d = static_cast<double>(n) / 4;
    auto at = [&](const char *path) { return w.byPath.at(path)->first; };
    auto text = [](K k, auto x) { return fx::show(Smp::AnySimple(k, x)); };
    auto kind = c.u(14);
    NOTE(c, "assignment " << kind << " of " << n);
    ++flows;
    switch (kind) {
    case 0:
      t.o_i32 = n;
      w.set(at("o_i32"), text(K::PTK_Int32, n));
      break;
    case 1:
      t.o_i32 = n;
      w.set(at("o_i32"), text(K::PTK_Int32, n));
      t.o_i32 += 3;
      ++t.o_i32;
      w.set(at("o_i32"), text(K::PTK_Int32, n + 4));
      break;
    case 2:
      t.of_i32 = n;
      w.set(at("of_i32"), text(K::PTK_Int32, n));
      break;
    case 3:
      t.io_i32 = n;
      w.set(at("io_i32"), text(K::PTK_Int32, n));
      break;
    case 4:
      t.o_str = "text";
      w.set(at("o_str"), "\"text\"");
      break;
    case 5: {
      auto i = c.idx(3);
      t.o_arr[i] = n;
      w.set(at("o_arr") + i, text(K::PTK_Int32, n));
      break;
    }
    case 6: {
      T::Int32Array a{n, n + 1, n + 2};
      t.o_arr = a;
      for (size_t i = 0; i < 3; ++i)
        w.set(at("o_arr") + i, text(K::PTK_Int32, a[i]));
      break;
    }
    case 7: {
      auto i = c.idx(3);
      t.o_sarr[i] = n;
      w.set(at("o_sarr") + i, text(K::PTK_Int32, n));
      break;
    }
    case 8: {
      t.o_sarr.fill(n);
      for (size_t i = 0; i < 3; ++i)
        w.set(at("o_sarr") + i, text(K::PTK_Int32, n));
      break;
    }
    case 9: {
      size_t i = 0;
      for (auto item : t.o_sarr) {
        item = n + static_cast<int>(i);
        w.set(at("o_sarr") + i, text(K::PTK_Int32, n + static_cast<int>(i)));
        ++i;
      }
      break;
    }
    case 10: {
      T::Vector v{d, d + 1, d + 2};
      t.o_vec = v;
      for (size_t i = 0; i < 3; ++i)
        w.set(at("o_vec") + i, text(K::PTK_Float64, d + static_cast<double>(i)));
      break;
    }
    case 11:
      t.o_vec.y = d;
      w.set(at("o_vec") + 1, text(K::PTK_Float64, d));
      break;
    case 12: {
      auto i = c.idx(2);
      t.o_vecs[i].z = d;
      w.set(at("o_vecs") + 3 * i + 2, text(K::PTK_Float64, d));
      break;
    }
    default: {
      T::SimpleInt32Array a{n, n + 1, n + 2};
      T::SimpleInt32Array old = t.o_sarr;
      t.o_sarr.swap(a);
      REQUIRE(a == old, "swap gives another array");
      for (size_t i = 0; i < 3; ++i)
        w.set(at("o_sarr") + i, text(K::PTK_Int32, n + static_cast<int>(i)));
    }
    }
    c.label("assignment");
  }
  void force() {
    std::vector<size_t> f;
    for (size_t i = 0; i < w.leaves.size(); ++i)
      if (w.leaves[i].forcible)
        f.push_back(i);
    auto i = c.pick(f);
    auto &l = w.leaves[i];
    switch (c.weighted({2, 1, 3})) {
    case 0: {
      auto v = make(l.kind, c.integer<uint64_t>());
      NOTE(c, "force " << l.node->path << " to " << fx::show(v));
      l.forcible->Force(v);
      l.forced = false;
      w.set(i, fx::show(v));
      w.leaves[i].forced = true;
      break;
    }
    case 1:
      NOTE(c, "freeze " << l.node->path);
      l.forcible->Freeze();
      l.forced = true;
      break;
    default:
      NOTE(c, "unforce " << l.node->path);
      l.forcible->Unforce();
      l.forced = false;
    }
    c.label("force");
  }
  // the published lists of connections
  void lists() {
    for (auto const *a : w.sources) {
      auto *d = dynamic_cast<Xsmp::detail::IDataflowFieldExtension *>(a->field);
      if (!d)
        continue;
      auto const *l = d->GetInputFields();
      REQUIRE(l && l->size() == a->targets.size(),
              a->path << " lists " << (l ? l->size() : 0) << " connections instead of "
                      << a->targets.size());
      for (size_t i = 0; i < a->targets.size(); ++i)
        REQUIRE(l->at(i) == a->targets[i]->field, "connection " << i << " of " << a->path);
    }
  }
};

void flow(Case &c) {
  World w;
  Run r{c, w};
  while (c.more(40)) {
    Case::Span s(c);
    switch (c.weighted({10, 3, 4, 8, 5, 2})) {
    case 0:
      r.connect();
      break;
    case 1:
      r.disconnect();
      break;
    case 2:
      r.push();
      break;
    case 3:
      r.write();
      break;
    case 4:
      r.assign();
      break;
    default:
      r.force();
    }
    w.check("this operation");
    r.lists();
  }
  if (r.connections >= 2 && r.flows >= 2)
    c.nontrivial();
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s{"C25",
               "at least two connections made and two writes or pushes of "
               "output fields",
               {{"flow", flow, 8000, 600000, 60}},
               {"no cycles of connections",
                "the connected fields have the same enumeration and string "
                "types"},
               {}};
  return s;
}
