//! sources: src/Xsmp/LibraryHelper.cpp
//! opt: -O1
//! so: libpbt_a.so=harness/so/lib_a.cpp: -fno-sanitize=all
//! so: libpbt_b.so=harness/so/lib_b.cpp: -fno-sanitize=all
//! so: liblibpbt_c.so=harness/so/lib_c.cpp: -fno-sanitize=all
//! so: libpbt_d.so.so=harness/so/lib_d.cpp: -fno-sanitize=all
//! so: libpbt.e-1.2.so=harness/so/lib_e.cpp: -fno-sanitize=all
//! so: pbt_plain.so=harness/so/lib_a.cpp: -fno-sanitize=all
//! flags: -rdynamic
//! so: libpbt_bad.so=harness/so/lib_bad.cpp: -fno-sanitize=all -Wl,-z,lazy
// C07: loading, looking up and closing libraries follows reference counting,
// and failures are null results explained by the last error, reported once.
#include "pbt.h"
#include <Xsmp/LibraryHelper.h>
#include <dlfcn.h>

using pbt::Case;
using pbt::show;

namespace {
struct Lib {
  const char *name;
  const char *file;
  int id;
  const char *own;
  int ownValue;
};
const Lib libs[] = {{"pbt_a", "libpbt_a.so", 1, "only_in_a", 11},
                    {"pbt_b", "libpbt_b.so", 2, "only_in_b", 22},
                    // names that look like file names
                    {"libpbt_c", "liblibpbt_c.so", 4, "only_in_c", 33},
                    {"pbt_d.so", "libpbt_d.so.so", 5, "only_in_d", 44},
                    {"pbt.e-1.2", "libpbt.e-1.2.so", 6, "only_in_e", 55}};
constexpr size_t libCount = std::size(libs);
using F = int (*)();
// a symbol of the program, that no library has
extern "C" __attribute__((visibility("default"), used)) int only_in_program() {
  return 99;
}

bool mapped(const char *file) {
  if (void *h = dlopen(file, RTLD_NOW | RTLD_NOLOAD)) {
    dlclose(h);
    return true;
  }
  dlerror();
  return false;
}

void history(Case &c) {
  struct Handle {
    void *h;
    size_t lib;
  };
  std::vector<Handle> open;
  size_t refs[libCount] = {};
  int calls[libCount] =
      {}; // static state lives as long as the library is loaded
  // error model: 0 none pending, 1 pending, 2 unknown
  int err = 0;
  dlerror();
  unsigned ops = 0;
  while (c.more(40)) {
    Case::Span sp(c);
    ++ops;
    switch (c.weighted({4, 3, 4, 2, 2, 2, 3})) {
    case 0: {
      auto i = c.chance(2, 3) ? c.idx(2) : c.idx(libCount);
      void *h = Xsmp::LoadLibrary(libs[i].name);
      NOTE(c, "load " << libs[i].name);
      REQUIRE(h != nullptr,
              "cannot load " << libs[i].name << ": " << dlerror());
      for (auto const &o : open)
        REQUIRE((o.h == h) == (o.lib == i), "handle identity");
      open.push_back({h, i});
      ++refs[i];
      if (err == 1)
        err = 2;
      break;
    }
    case 1:
      if (!open.empty()) {
        auto k = c.idx(open.size());
        auto o = open[k];
        open.erase(open.begin() + static_cast<long>(k));
        NOTE(c, "close " << libs[o.lib].name);
        Xsmp::CloseLibrary(o.h);
        if (--refs[o.lib] == 0) {
          calls[o.lib] = 0;
          c.label("last reference closed");
        }
        if (err == 1)
          err = 2;
      }
      break;
    case 2:
      if (!open.empty()) {
        auto const &o = open[c.idx(open.size())];
        auto const &l = libs[o.lib];
        switch (c.u(3)) {
        case 0: {
          auto f = Xsmp::GetSymbol<F>(o.h, "which");
          REQUIRE(f && f() == l.id, "'which' of " << l.name);
          REQUIRE(Xsmp::GetSymbol(o.h, "which") == reinterpret_cast<void *>(f),
                  "same symbol");
          break;
        }
        case 1: {
          auto f = Xsmp::GetSymbol<F>(o.h, l.own);
          REQUIRE(f && f() == l.ownValue, l.own);
          break;
        }
        default: {
          auto f = Xsmp::GetSymbol<F>(o.h, "counter");
          REQUIRE(f, "counter of " << l.name);
          int n = f();
          ++calls[o.lib];
          REQUIRE(n == calls[o.lib], l.name << " lost or kept its state: " << n
                                            << " expected " << calls[o.lib]);
        }
        }
        NOTE(c, "symbol of " << l.name);
        err = 0; // a successful look-up leaves no error behind
      }
      break;
    case 3:
      if (!open.empty()) {
        auto const &o = open[c.idx(open.size())];
        std::string name;
        switch (c.u(3)) {
        case 0:
        case 1:
          name = libs[(o.lib + 1 + c.idx(libCount - 1)) % libCount].own;
          break;
        case 2:
          name = "only_in_program";
          break;
        default:
          name = "no_" + c.str(6, "abc_");
        }
        NOTE(c, "missing symbol " << name);
        REQUIRE(Xsmp::GetSymbol(o.h, name.c_str()) == nullptr,
                "found " << name << " in " << libs[o.lib].name);
        REQUIRE(Xsmp::GetSymbol<F>(o.h, name.c_str()) == nullptr, name);
        err = 1;
        c.label("missing symbol");
        auto e = Xsmp::GetLastError();
        REQUIRE(e.find(name) != std::string::npos,
                "last error does not name the symbol: " << show(e));
        err = 0;
      }
      break;
    case 4: {
      std::string name =
          c.chance(1, 3) ? std::string("pbt_bad")
          : c.chance(1, 3)
              ? c.pick({std::string("pbt_plain"), std::string("libpbt_a"),
                        std::string("libpbt_a.so"), std::string("pbt_a.so"),
                        std::string("pbt_d"), std::string("PBT_A"),
                        std::string("none_" + std::string(300, 'n')),
                        std::string("pbt_a "), std::string("pbt.e-1")})
              : "none_" + c.str(5, "xyz.");
      NOTE(c, "load missing " << name);
      REQUIRE(Xsmp::LoadLibrary(name.c_str()) == nullptr,
              "loaded " << name << " although it cannot be resolved");
      err = 1;
      c.label("load failure");
      if (c.flip()) {
        auto e = Xsmp::GetLastError();
        REQUIRE(e.find(name) != std::string::npos,
                "last error does not name the library: " << show(e));
        err = 0;
      }
      break;
    }
    case 5:
      NOTE(c, "null arguments");
      REQUIRE(Xsmp::LoadLibrary(nullptr) == nullptr, "null library name");
      if (!open.empty()) {
        REQUIRE(Xsmp::GetSymbol(open[0].h, nullptr) == nullptr, "null symbol");
        REQUIRE(Xsmp::GetSymbol<F>(open[0].h, nullptr) == nullptr,
                "null symbol");
      }
      err = 2;
      break;
    default: {
      auto e = Xsmp::GetLastError();
      NOTE(c, "last error");
      if (err != 2)
        REQUIRE(e.empty() == (err == 0), "last error is " << show(e));
      err = 0;
      REQUIRE(Xsmp::GetLastError().empty(), "an error is reported only once");
    }
    }
    for (size_t i = 0; i < libCount; ++i) {
      bool was = err == 1;
      std::string keep;
      if (!was) // the oracle itself touches the pending error
        REQUIRE(mapped(libs[i].file) == (refs[i] > 0),
                libs[i].name << " mapped with " << refs[i] << " references");
    }
    if (err != 1)
      for (auto const &l : libs) {
        REQUIRE(dlsym(RTLD_DEFAULT, l.own) == nullptr,
                "symbols of " << l.name << " leak into the global scope");
        dlerror();
      }
  }
  if (ops >= 3)
    c.nontrivial();
  for (auto const &o : open)
    Xsmp::CloseLibrary(o.h);
  for (auto const &l : libs)
    REQUIRE(!mapped(l.file), l.name << " still mapped after the last close");
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C07";
  s.rule =
      "a case is a history of load/close/symbol look-up/last-error calls on "
      "two real shared objects, one with unresolved references, and "
      "missing ones, against a reference-count model; non-trivial = at "
      "least 3 calls; distinct by choice sequence";
  s.subs = {{"history", history, 120000, 1200000, 24}};
  s.assumptions = {
      "Linux dynamic loader; handles are closed at most once per load"};
  return s;
}
