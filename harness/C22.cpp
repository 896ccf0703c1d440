//! sources: full
//! opt: -O1
// C22: persisted values.
// Sequences of generated values of many types are stored and restored, in
// memory and through files; the restored values, the amount of data and the
// errors of truncated, mismatched or impossible files are checked.
#include "fx.h"
#include "fx_sim.h"
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Model.h>
#include <Xsmp/Persist/SmpIObject.h>
#include <Xsmp/Persist/StdArray.h>
#include <Xsmp/Persist/StdAtomic.h>
#include <Xsmp/Persist/StdMap.h>
#include <Xsmp/Persist/StdPair.h>
#include <Xsmp/Persist/StdSet.h>
#include <Xsmp/Persist/StdString.h>
#include <Xsmp/Persist/StdUnorderedMap.h>
#include <Xsmp/Persist/StdUnorderedSet.h>
#include <Xsmp/Persist/StdVector.h>
#include <Xsmp/StorageReader.h>
#include <Xsmp/StorageWriter.h>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <memory>
#include <unistd.h>

using pbt::Case;
namespace P = Xsmp::Persist;

namespace {
enum class Colour : int16_t { Red = -5, Green = 0, Blue = 700 };

// ------------------------------------------------------------ object tree
struct M : Xsmp::Model, Xsmp::Composite, Xsmp::EntryPointPublisher {
  Xsmp::Container<Smp::IModel> kids;
  std::unique_ptr<Xsmp::EntryPoint> ep;
  M(const char *name, Smp::IComposite *parent, Smp::ISimulator *sim)
      : Model(name, "", parent, sim), kids("kids", "", this, 0, -1),
        ep(std::make_unique<Xsmp::EntryPoint>("ep", "", this, [] {})) {}
};
struct World {
  Xsmp::Simulator sim;
  std::vector<Smp::IComponent *> components;
  std::vector<const Smp::IEntryPoint *> entryPoints;
  std::vector<Smp::IObject *> objects;
  World() {
    auto *root =
        static_cast<Smp::IComposite *>(static_cast<Smp::ISimulator *>(&sim));
    sim.AddService(
        new Xsmp::Services::XsmpResolver("XsmpResolver", "", root, &sim));
    components.push_back(nullptr);
    entryPoints.push_back(nullptr);
    objects.push_back(nullptr);
    objects.push_back(root);
    for (auto n : {"a", "bb", "ccc"}) {
      auto *m = new M(n, root, &sim);
      sim.AddModel(m);
      add(m);
      for (auto k : {"a", "x"}) {
        auto *kid = new M(k, m, &sim);
        m->kids.AddComponent(kid);
        add(kid);
      }
    }
  }
  void add(M *m) {
    components.push_back(m);
    entryPoints.push_back(m->ep.get());
    objects.push_back(static_cast<Smp::IComponent *>(m));
    objects.push_back(m->ep.get());
  }
};
World &world() {
  static World w;
  return w;
}

// ----------------------------------------------------- generated values
template <class T, class = void> struct V;
template <class T> struct V<T, std::enable_if_t<std::is_integral_v<T>>> {
  static void gen(Case &c, T &v) {
    if constexpr (std::is_same_v<T, bool>)
      v = c.flip();
    else if constexpr (std::is_same_v<T, char>)
      v = static_cast<char>(c.integer<int8_t>());
    else
      v = c.integer<T>();
  }
  static bool eq(T const &a, T const &b) { return a == b; }
};
template <class T> struct V<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static void gen(Case &c, T &v) { v = c.floating<T>(); }
  static bool eq(T const &a, T const &b) {
    return std::memcmp(&a, &b, sizeof(T)) == 0;
  }
};
template <> struct V<Colour> {
  static void gen(Case &c, Colour &v) {
    v = c.pick(
        {Colour::Red, Colour::Green, Colour::Blue, static_cast<Colour>(1234)});
  }
  static bool eq(Colour const &a, Colour const &b) { return a == b; }
};
template <class C> struct V<std::basic_string<C>> {
  static void gen(Case &c, std::basic_string<C> &v) {
    v.clear();
    auto n = c.chance(1, 8) ? c.range(0, 300) : c.range(0, 12);
    for (int64_t i = 0; i < n; ++i)
      v.push_back(c.chance(1, 8) ? static_cast<C>(c.integer<uint32_t>())
                                 : static_cast<C>(c.range(0, 127)));
  }
  static bool eq(std::basic_string<C> const &a, std::basic_string<C> const &b) {
    return a == b;
  }
};
template <class Cont> struct Sequence {
  using T = typename Cont::value_type;
  static void gen(Case &c, Cont &v) {
    v.clear();
    auto n = c.chance(1, 12) ? c.range(0, 40) : c.range(0, 5);
    for (int64_t i = 0; i < n; ++i) {
      Case::Span s(c);
      T e{};
      V<T>::gen(c, e);
      v.push_back(e);
    }
  }
  static bool eq(Cont const &a, Cont const &b) {
    if (a.size() != b.size())
      return false;
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j)
      if (!V<T>::eq(*i, *j))
        return false;
    return true;
  }
};
template <class T> struct V<std::vector<T>> : Sequence<std::vector<T>> {};
template <class Cont> struct Set {
  using T = typename Cont::value_type;
  static void gen(Case &c, Cont &v) {
    v.clear();
    auto n = c.chance(1, 12) ? c.range(0, 40) : c.range(0, 5);
    for (int64_t i = 0; i < n; ++i) {
      Case::Span s(c);
      T e{};
      V<T>::gen(c, e);
      v.insert(e);
    }
  }
  static bool eq(Cont const &a, Cont const &b) { return a == b; }
};
template <class T> struct V<std::set<T>> : Set<std::set<T>> {};
template <class T>
struct V<std::unordered_set<T>> : Set<std::unordered_set<T>> {};
template <class T>
struct V<std::set<T, std::greater<T>>> : Set<std::set<T, std::greater<T>>> {};
template <class Cont> struct Map {
  using K = typename Cont::key_type;
  using T = typename Cont::mapped_type;
  static void gen(Case &c, Cont &v) {
    v.clear();
    auto n = c.chance(1, 12) ? c.range(0, 40) : c.range(0, 5);
    for (int64_t i = 0; i < n; ++i) {
      Case::Span s(c);
      K k{};
      V<K>::gen(c, k);
      V<T>::gen(c, v[k]);
    }
  }
  static bool eq(Cont const &a, Cont const &b) {
    if (a.size() != b.size())
      return false;
    for (auto const &[k, x] : a) {
      auto it = b.find(k);
      if (it == b.end() || !V<T>::eq(x, it->second))
        return false;
    }
    return true;
  }
};
template <class K, class T> struct V<std::map<K, T>> : Map<std::map<K, T>> {};
template <class K, class T>
struct V<std::unordered_map<K, T>> : Map<std::unordered_map<K, T>> {};
template <class A, class B> struct V<std::pair<A, B>> {
  static void gen(Case &c, std::pair<A, B> &v) {
    V<A>::gen(c, v.first);
    V<B>::gen(c, v.second);
  }
  static bool eq(std::pair<A, B> const &a, std::pair<A, B> const &b) {
    return V<A>::eq(a.first, b.first) && V<B>::eq(a.second, b.second);
  }
};
template <class T, size_t N> struct V<std::array<T, N>> {
  static void gen(Case &c, std::array<T, N> &v) {
    for (auto &e : v)
      V<T>::gen(c, e);
  }
  static bool eq(std::array<T, N> const &a, std::array<T, N> const &b) {
    for (size_t i = 0; i < N; ++i)
      if (!V<T>::eq(a[i], b[i]))
        return false;
    return true;
  }
};
template <class T, size_t N> struct V<T[N]> {
  static void gen(Case &c, T (&v)[N]) {
    for (auto &e : v)
      V<T>::gen(c, e);
  }
  static bool eq(const T (&a)[N], const T (&b)[N]) {
    for (size_t i = 0; i < N; ++i)
      if (!V<T>::eq(a[i], b[i]))
        return false;
    return true;
  }
};
template <class T> struct V<std::atomic<T>> {
  static void gen(Case &c, std::atomic<T> &v) {
    T x{};
    V<T>::gen(c, x);
    v = x;
  }
  static bool eq(std::atomic<T> const &a, std::atomic<T> const &b) {
    T x = a, y = b;
    return V<T>::eq(x, y);
  }
};
template <> struct V<Smp::IComponent *> {
  static void gen(Case &c, Smp::IComponent *&v) {
    v = c.pick(world().components);
  }
  static bool eq(Smp::IComponent *a, Smp::IComponent *b) { return a == b; }
};
template <> struct V<const Smp::IEntryPoint *> {
  static void gen(Case &c, const Smp::IEntryPoint *&v) {
    v = c.pick(world().entryPoints);
  }
  static bool eq(const Smp::IEntryPoint *a, const Smp::IEntryPoint *b) {
    return a == b;
  }
};
template <> struct V<Smp::IObject *> {
  static void gen(Case &c, Smp::IObject *&v) { v = c.pick(world().objects); }
  static bool eq(Smp::IObject *a, Smp::IObject *b) { return a == b; }
};

// -------------------------------------------------------------- storage
using Bytes = std::string;
struct Writer : Smp::IStorageWriter {
  Bytes data;
  void Store(void *address, Smp::UInt64 size) override {
    data.append(static_cast<char *>(address), size);
  }
  Smp::String8 GetStateVectorFileName() const override { return ""; }
  Smp::String8 GetStateVectorFilePath() const override { return ""; }
};
struct Reader : Smp::IStorageReader {
  Bytes const &data;
  size_t pos = 0;
  explicit Reader(Bytes const &d) : data(d) {}
  void Restore(void *address, Smp::UInt64 size) override {
    if (data.size() - pos < size)
      Xsmp::Exception::throwCannotRestore(world().objects[2], "end of data");
    std::memcpy(address, data.data() + pos, size);
    pos += size;
  }
  Smp::String8 GetStateVectorFileName() const override { return ""; }
  Smp::String8 GetStateVectorFilePath() const override { return ""; }
};

struct Item {
  virtual ~Item() = default;
  virtual const char *name() const = 0;
  virtual void gen(Case &c) = 0;
  virtual void dirty(Case &c) = 0;
  virtual void store(Smp::IStorageWriter *w, bool typed) = 0;
  virtual void restore(Smp::IStorageReader *r, bool typed) = 0;
  virtual bool same() const = 0;
  virtual bool untouched() const = 0;
};
template <class T> struct Of : Item {
  T value{}, other{}, before{};
  const char *n;
  explicit Of(const char *n) : n(n) {}
  const char *name() const override { return n; }
  void gen(Case &c) override { V<T>::gen(c, value); }
  void dirty(Case &c) override {
    // the same choices give the same values
    V<T>::gen(c, other);
    copy(before, other);
  }
  void store(Smp::IStorageWriter *w, bool typed) override {
    if (typed)
      P::Store(&world().sim, world().objects[2], w, value);
    else
      P::Store(&world().sim, w, value);
  }
  void restore(Smp::IStorageReader *r, bool typed) override {
    if (typed)
      P::Restore(&world().sim, world().objects[2], r, other);
    else
      P::Restore(&world().sim, r, other);
  }
  bool same() const override { return V<T>::eq(value, other); }
  bool untouched() const override { return V<T>::eq(before, other); }
  template <class U> static void copy(std::atomic<U> &a, std::atomic<U> &b) {
    a = b.load();
  }
  template <class U, size_t N> static void copy(U (&a)[N], U (&b)[N]) {
    for (size_t i = 0; i < N; ++i)
      copy(a[i], b[i]);
  }
  template <class U> static void copy(U &a, U &b) { a = b; }
};

using Make = std::unique_ptr<Item> (*)();
#define ITEM(...)                                                              \
  [] { return std::unique_ptr<Item>(new Of<__VA_ARGS__>(#__VA_ARGS__)); }
const Make makers[] = {
    ITEM(bool),
    ITEM(char),
    ITEM(int8_t),
    ITEM(uint8_t),
    ITEM(int16_t),
    ITEM(uint16_t),
    ITEM(int32_t),
    ITEM(uint32_t),
    ITEM(int64_t),
    ITEM(uint64_t),
    ITEM(float),
    ITEM(double),
    ITEM(Colour),
    ITEM(std::string),
    ITEM(std::wstring),
    ITEM(std::u16string),
    ITEM(std::u32string),
    ITEM(std::vector<int>),
    ITEM(std::vector<bool>),
    ITEM(std::vector<std::string>),
    ITEM(std::vector<std::u16string>),
    ITEM(std::vector<std::vector<double>>),
    ITEM(std::map<int, std::string>),
    ITEM(std::map<std::string, std::vector<float>>),
    ITEM(std::map<std::u32string, std::set<std::string>>),
    ITEM(std::map<std::pair<int, std::string>, int64_t>),
    ITEM(std::set<std::string>),
    ITEM(std::set<int16_t>),
    ITEM(std::set<int, std::greater<int>>),
    ITEM(std::unordered_map<std::string, int>),
    ITEM(std::unordered_map<int64_t, std::map<bool, Colour>>),
    ITEM(std::unordered_set<int>),
    ITEM(std::unordered_set<std::u16string>),
    ITEM(std::pair<std::string, std::u32string>),
    ITEM(std::pair<std::vector<int>, std::pair<char, double>>),
    ITEM(std::array<std::string, 3>),
    ITEM(std::array<std::array<int16_t, 2>, 2>),
    ITEM(int[4]),
    ITEM(std::string[2]),
    ITEM(double[2][3]),
    ITEM(std::atomic<int64_t>),
    ITEM(std::atomic<bool>),
    ITEM(std::atomic<double>[2]),
    ITEM(Smp::IComponent *),
    ITEM(Smp::IObject *),
    ITEM(std::vector<Smp::IObject *>),
    ITEM(std::map<int, const Smp::IEntryPoint *>),
    ITEM(std::map<std::string, std::vector<const Smp::IEntryPoint *>>),
    ITEM(std::set<Smp::IComponent *>),
};
constexpr size_t makerCount = sizeof(makers) / sizeof(makers[0]);

struct Dir {
  std::string path;
  Dir() {
    char t[] = "/tmp/xsmp-c22-XXXXXX";
    path = mkdtemp(t);
  }
  ~Dir() {
    std::error_code e;
    std::filesystem::remove_all(path, e);
  }
};
Bytes contents(std::string const &file) {
  std::ifstream f(file, std::ios::binary);
  return Bytes(std::istreambuf_iterator<char>(f), {});
}

struct Sequence2 {
  std::vector<std::unique_ptr<Item>> items;
  std::vector<size_t> kind;
  std::vector<bool> typed;
  std::vector<size_t> end; // position after each item
};
void generate(Case &c, Sequence2 &s) {
  auto n = c.range(1, 6);
  for (int64_t i = 0; i < n; ++i) {
    Case::Span sp(c);
    auto k = c.idx(makerCount);
    s.kind.push_back(k);
    s.items.push_back(makers[k]());
    s.items.back()->gen(c);
    s.typed.push_back(c.flip());
  }
  for (auto &it : s.items)
    it->dirty(c);
}

void values(Case &c) {
  Sequence2 s;
  generate(c, s);
  bool file = c.chance(1, 3);
  // 0: complete, 1: truncated, 2: another type
  auto fault = c.weighted({3, 2, 2});
  Writer w;
  std::unique_ptr<Dir> dir;
  Bytes data;
  for (size_t i = 0; i < s.items.size(); ++i) {
    s.items[i]->store(&w, s.typed[i]);
    s.end.push_back(w.data.size());
    NOTE(c, s.items[i]->name() << (s.typed[i] ? " (typed)" : "")
                               << " until byte " << s.end.back());
  }
  data = w.data;
  if (file) {
    dir = std::make_unique<Dir>();
    auto sub = dir->path + "/a/b";
    {
      Xsmp::StorageWriter fw(sub.c_str(), "f.bin", world().objects[2]);
      for (size_t i = 0; i < s.items.size(); ++i)
        s.items[i]->store(&fw, s.typed[i]);
    }
    auto in = contents(sub + "/f.bin");
    REQUIRE(in == data, "the file has " << in.size() << " bytes instead of "
                                        << data.size() << ", or other ones");
    c.label("file");
  }
  size_t cut = data.size();
  size_t wrong = s.items.size();
  std::unique_ptr<Item> other;
  if (fault == 1 && !data.empty()) {
    cut = c.idx(data.size());
    NOTE(c, "truncated to " << cut << " bytes");
    c.label("truncated");
  } else if (fault == 2) {
    wrong = c.idx(s.items.size());
    s.typed[wrong] = true;
    // stored again with the type
    Writer again;
    s.end.clear();
    for (size_t i = 0; i < s.items.size(); ++i) {
      s.items[i]->store(&again, s.typed[i]);
      s.end.push_back(again.data.size());
    }
    data = again.data;
    cut = data.size();
    auto k = (s.kind[wrong] + 1 + c.idx(makerCount - 1)) % makerCount;
    other = makers[k]();
    other->dirty(c);
    NOTE(c, "item " << wrong << " restored as " << other->name());
    c.label("other type");
    file = false;
  }
  data.resize(cut);
  std::unique_ptr<Xsmp::StorageReader> fr;
  Reader mr(data);
  Smp::IStorageReader *r = &mr;
  if (file) {
    auto sub = dir->path + "/a/b";
    std::filesystem::resize_file(sub + "/f.bin", cut);
    fr = std::make_unique<Xsmp::StorageReader>(sub.c_str(), "f.bin",
                                               world().objects[2]);
    r = fr.get();
  }
  for (size_t i = 0; i < s.items.size(); ++i) {
    auto &it = i == wrong ? *other : *s.items[i];
    auto o = fx::outcome([&] { it.restore(r, s.typed[i]); });
    if (i == wrong) {
      REQUIRE(o == "CannotRestore",
              "restored with the wrong type: '" << o << "'");
      REQUIRE(it.untouched(), "changed by the refused restoration");
      break;
    }
    if (s.end[i] > cut) {
      REQUIRE(o == "CannotRestore", "item " << i << " (" << it.name()
                                            << ") is truncated: '" << o << "'");
      break;
    }
    REQUIRE(o.empty(), "item " << i << " (" << it.name() << "): '" << o << "'");
    REQUIRE(it.same(), "item " << i << " (" << it.name()
                               << ") is not restored to the stored value");
    if (!file)
      REQUIRE(mr.pos == s.end[i],
              "item " << i << " (" << it.name() << "): " << mr.pos
                      << " bytes read instead of " << s.end[i]);
  }
  if (s.end.back() >= 40 && s.items.size() > 1)
    c.nontrivial();
}

// files that cannot be written or read
void files(Case &c) {
  Dir d;
  std::string path = d.path;
  bool writable = true, readable = false;
  switch (c.idx(6)) {
  case 0: // a regular file instead of a directory
    path += "/file";
    std::ofstream(path) << "x";
    if (c.flip())
      path += "/below";
    writable = false;
    NOTE(c, "regular file as directory");
    break;
  case 1: // a directory instead of the file
    std::filesystem::create_directories(path + "/f.bin");
    writable = false;
    NOTE(c, "directory as file");
    break;
  case 2: // a dangling link
    std::filesystem::create_symlink(path + "/none/x", path + "/f.bin");
    writable = false;
    NOTE(c, "dangling link as file");
    break;
  case 3: // nested directories to create
    for (auto n = c.range(1, 4); n > 0; --n)
      path += "/" + c.str(3, "abc ");
    NOTE(c, "path " << path.substr(d.path.size()));
    break;
  case 4: // existing longer file
    std::ofstream(path + "/f.bin") << std::string(c.idx(5000), 'x');
    readable = true;
    NOTE(c, "existing file");
    break;
  default: // names that are too long
    path += "/" + std::string(300, 'a');
    writable = false;
    NOTE(c, "long name");
  }
  auto *sender = world().objects[2];
  if (!readable && c.flip()) {
    std::string text;
    auto o = fx::outcome([&] {
      Xsmp::StorageReader r(path.c_str(), "f.bin", sender);
      char x = 0;
      r.Restore(&x, 1);
    });
    REQUIRE(o == "CannotRestore", "reading: '" << o << "'");
  }
  auto blocks = c.range(1, 4);
  std::vector<Bytes> stored;
  auto o = fx::outcome([&] {
    Xsmp::StorageWriter w(path.c_str(), "f.bin", sender);
    for (int64_t i = 0; i < blocks; ++i) {
      Bytes b(c.chance(1, 4) ? c.idx(20000) : c.idx(50), '\0');
      for (auto &x : b)
        x = static_cast<char>('a' + stored.size() + b.size() % 13);
      w.Store(b.data(), b.size());
      stored.push_back(b);
    }
  });
  REQUIRE(o == (writable ? "" : "CannotStore"), "writing: '" << o << "'");
  if (!writable)
    return;
  Bytes all;
  for (auto const &b : stored)
    all += b;
  REQUIRE(contents(path + "/f.bin") == all, "other contents");
  o = fx::outcome([&] {
    Xsmp::StorageReader r(path.c_str(), "f.bin", sender);
    for (auto const &b : stored) {
      Bytes x(b.size(), ' ');
      r.Restore(x.data(), x.size());
      REQUIRE(x == b, "other block");
    }
  });
  REQUIRE(o.empty(), "reading: '" << o << "'");
  c.nontrivial();
}

// --------------------------------------------------- long texts, containers
template <class T> struct Make1 {
  static T at(uint64_t i) {
    if constexpr (std::is_same_v<T, bool>)
      return (i * 2654435761U >> 7) % 2;
    else
      return static_cast<T>(i * 2654435761U >> 3);
  }
};
template <> struct Make1<std::string> {
  static std::string at(uint64_t i) { return std::to_string(i * 7919U); }
};
template <class A, class B> struct Make1<std::pair<A, B>> {
  static auto at(uint64_t i) {
    return std::pair<std::remove_const_t<A>, B>(
        Make1<std::remove_const_t<A>>::at(i), Make1<B>::at(i + 1));
  }
};
template <class Cont> void large(Case &c, const char *name) {
  auto length = [&c] {
    switch (c.weighted({3, 3, 2, 2})) {
    case 0:
      return c.range(250, 260);
    case 1:
      return c.range(65530, 65545);
    case 2:
      return c.range(32760, 32775);
    default:
      return c.range(0, 70000);
    }
  };
  auto n = length();
  auto salt = static_cast<uint64_t>(c.range(0, 1000));
  Cont value, restored;
  for (int64_t i = 0; i < n; ++i)
    value.insert(value.end(), Make1<typename Cont::value_type>::at(i + salt));
  auto previous = c.chance(1, 2) ? c.range(0, 10) : length();
  for (int64_t i = 0; i < previous; ++i)
    restored.insert(restored.end(),
                    Make1<typename Cont::value_type>::at(i + salt + 5));
  int64_t after = c.integer<int64_t>(), behind = 0;
  bool typed = c.flip();
  NOTE(c, name << " with " << value.size() << " items into " << restored.size()
               << (typed ? " (typed)" : ""));
  auto *sim = &world().sim;
  auto *sender = world().objects[2];
  Writer w;
  if (typed)
    P::Store(sim, sender, &w, value);
  else
    P::Store(sim, &w, value);
  auto end = w.data.size();
  P::Store(sim, &w, after);
  Reader r(w.data);
  auto get = [&](Reader &from) {
    return fx::outcome([&] {
      if (typed)
        P::Restore(sim, sender, &from, restored);
      else
        P::Restore(sim, &from, restored);
    });
  };
  if (end > 0 && c.chance(1, 4)) {
    auto cut = w.data.substr(0, end - 1 - c.idx(std::min<size_t>(end, 40)));
    Reader less(cut);
    auto o = get(less);
    REQUIRE(o == "CannotRestore",
            cut.size() << " of " << end << " bytes: '" << o << "'");
    c.label("truncated");
  }
  auto o = get(r);
  REQUIRE(o.empty(), "'" << o << "'");
  REQUIRE(restored.size() == value.size(),
          restored.size() << " items instead of " << value.size());
  REQUIRE(restored == value, "restored to another value");
  REQUIRE(r.pos == end, r.pos << " bytes read instead of " << end);
  P::Restore(sim, &r, behind);
  REQUIRE(behind == after, "the value stored next is restored to "
                               << behind << " instead of " << after);
  if (value.size() > 255)
    c.nontrivial();
  if (value.size() > 65535)
    c.label("more than 65535 items");
}
void larges(Case &c) {
#define LARGE(...) [](Case &k) { large<__VA_ARGS__>(k, #__VA_ARGS__); }
  static void (*const kinds[])(Case &) = {
      LARGE(std::string),
      LARGE(std::u16string),
      LARGE(std::u32string),
      LARGE(std::vector<int>),
      LARGE(std::vector<uint8_t>),
      LARGE(std::vector<bool>),
      LARGE(std::vector<double>),
      LARGE(std::vector<std::string>),
      LARGE(std::set<int>),
      LARGE(std::set<std::string>),
      LARGE(std::map<int, int16_t>),
      LARGE(std::map<std::string, int>),
      LARGE(std::unordered_set<int>),
      LARGE(std::unordered_map<int, std::string>),
      LARGE(std::unordered_map<std::string, double>)};
  kinds[c.idx(sizeof(kinds) / sizeof(kinds[0]))](c);
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s{"C22",
               "values: at least two items and 40 bytes; files: written and "
               "read back; "
               "large: more than 255 items",
               {{"values", values, 200000, 10000000, 60},
                {"files", files, 20000, 400000, 60},
                {"large", larges, 1500, 100000, 60}},
               {},
               {}};
  return s;
}
