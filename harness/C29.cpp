//! sources: full
//! san: thread
//! opt: -O1
// C29: the logger writes every message exactly once to each appender that
// accepts it, in order, as its layout says, and message kinds keep their
// identifiers.
#include "fx.h"
#include "fx_sim.h"
#include <Xsmp/DateTime.h>
#include <Xsmp/Duration.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/Services/XsmpLogger.h>
#include <Xsmp/StorageReader.h>
#include <Xsmp/StorageWriter.h>
#include <atomic>
#include <cstdlib>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>

using fx::outcome;
using fx::str;
using pbt::Case;

namespace {
using Kind = Smp::Services::LogMessageKind;

// a time keeper that gives the times it is told
struct Clock : public Xsmp::Service, public virtual Smp::Services::ITimeKeeper {
  using Xsmp::Service::Service;
  std::atomic<Smp::Int64> zulu{0}, sim{0}, epoch{0}, mission{0};
  Smp::Duration GetSimulationTime() const override { return sim; }
  Smp::DateTime GetEpochTime() const override { return epoch; }
  Smp::DateTime GetMissionStartTime() const override { return 0; }
  Smp::Duration GetMissionTime() const override { return mission; }
  Smp::DateTime GetZuluTime() const override { return zulu; }
  void SetSimulationTime(Smp::Duration) override {}
  void SetEpochTime(Smp::DateTime) override {}
  void SetMissionStartTime(Smp::DateTime) override {}
  void SetMissionTime(Smp::Duration) override {}
};
// works in a scratch directory, with std::cout and std::cerr in strings
struct Scratch {
  std::string path;
  int before;
  std::stringstream out, err;
  std::streambuf *oldOut, *oldErr;
  Scratch() {
    char t[] = "/tmp/xsmp-c29-XXXXXX";
    path = mkdtemp(t);
    before = open(".", O_RDONLY | O_DIRECTORY);
    if (chdir(path.c_str()) != 0)
      FAILURE("chdir");
    oldOut = std::cout.rdbuf(out.rdbuf());
    oldErr = std::cerr.rdbuf(err.rdbuf());
  }
  ~Scratch() {
    std::cout.rdbuf(oldOut);
    std::cerr.rdbuf(oldErr);
    (void)!fchdir(before);
    close(before);
    std::error_code e;
    std::filesystem::remove_all(path, e);
  }
};
std::string contents(std::string const &file) {
  std::ifstream f(file, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), {});
}
struct Entry {
  std::string path, message, kind;
  Smp::Int64 zulu, sim, epoch, mission;
};
// what a part of a pattern gives
struct Token {
  std::string source;
  enum { Text, Path, KindName, Message, Zulu, Sim, Epoch, Mission } what;
  std::string text; // or format
};
std::string duration(Smp::Int64 v, std::string const &fmt) {
  if (fmt.empty())
    return std::to_string(v);
  std::ostringstream s;
  Xsmp::Duration(v).to_stream(s, fmt);
  return s.str();
}
std::string date(Smp::Int64 v, std::string const &fmt) {
  if (fmt.empty())
    return std::to_string(v);
  std::ostringstream s;
  Xsmp::DateTime(v).to_stream(s, fmt);
  return s.str();
}
std::string render(std::vector<Token> const &p, Entry const &e) {
  std::string r;
  for (auto const &t : p)
    switch (t.what) {
    case Token::Text:
      r += t.text;
      break;
    case Token::Path:
      r += e.path;
      break;
    case Token::KindName:
      r += e.kind;
      break;
    case Token::Message:
      r += e.message;
      break;
    case Token::Zulu:
      r += date(e.zulu, t.text);
      break;
    case Token::Sim:
      r += duration(e.sim, t.text);
      break;
    case Token::Epoch:
      r += date(e.epoch, t.text);
      break;
    default:
      r += duration(e.mission, t.text);
    }
  return r;
}
const std::vector<Token> defaultPattern = {{"", Token::Zulu, "%F %T"},
                                           {"", Token::Text, "\t"},
                                           {"", Token::Sim, "%S"},
                                           {"", Token::Text, "\t"}};

std::vector<Token> makePattern(Case &c, std::string &source) {
  std::vector<Token> r;
  auto add = [&](std::string s, decltype(Token::what) w, std::string t) {
    source += s;
    r.push_back({std::move(s), w, std::move(t)});
  };
  add("", Token::Text, "");
  if (c.flip())
    add("<", Token::Text, "<");
  while (c.more(12)) {
    Case::Span s(c);
    switch (c.weighted({4, 2, 2, 3, 4, 2, 3, 2})) {
    case 0: {
      auto t = c.str(4, "ab -{}:=,#");
      // "{" after a time would be its format
      if (!t.empty() && t[0] == '{')
        t[0] = '(';
      add(t, Token::Text, t);
      break;
    }
    case 1:
      add("%p", Token::Path, "");
      break;
    case 2:
      add("%k", Token::KindName, "");
      break;
    case 3:
      add("%m", Token::Message, "");
      break;
    case 4: {
      auto w = c.idx(4);
      const char *letter = &"d\0S\0E\0M\0"[w * 2];
      decltype(Token::what) what[] = {Token::Zulu, Token::Sim, Token::Epoch,
                                      Token::Mission};
      std::string fmt;
      bool isDate = w == 0 || w == 2;
      switch (c.idx(4)) {
      case 0:
        break;
      case 1:
        add(std::string("%") + letter + "{}", what[w], "");
        continue;
      default:
        fmt = isDate ? c.pick({"%F %T", "%H:%M:%S", "%Y", "%d/%m/%Y", "x"})
                     : c.pick({"%T", "%H:%M:%S", "%S", "%M", "x"});
      }
      add(std::string("%") + letter + (fmt.empty() ? "" : "{" + fmt + "}"),
          what[w], fmt);
      break;
    }
    case 5: {
      auto i = c.idx(3);
      const char *from[] = {"%t", "%n", "%%"};
      const char *to[] = {"\t", "\n", "%"};
      add(from[i], Token::Text, to[i]);
      break;
    }
    case 6: {
      struct E {
        const char *from, *to;
      };
      static const E all[] = {{"\\n", "\n"}, {"\\t", "\t"},  {"\\\\", "\\"},
                              {"\\'", "'"},  {"\\\"", "\""}, {"\\?", "?"},
                              {"\\a", "\a"}, {"\\b", "\b"},  {"\\f", "\f"},
                              {"\\r", "\r"}, {"\\v", "\v"},  {"\\z", "z"}};
      auto const &e = all[c.idx(std::size(all))];
      add(e.from, Token::Text, e.to);
      break;
    }
    default:
      add("%q", Token::Text, "%q");
    }
  }
  if (c.flip())
    add("%n", Token::Text, "\n");
  // white space at either end belongs to the line
  if (!source.empty() &&
      (std::isspace(static_cast<unsigned char>(source[0])))) {
    source = "|" + source;
    r.insert(r.begin(), {"", Token::Text, "|"});
  }
  if (!source.empty() &&
      std::isspace(static_cast<unsigned char>(source.back())))
    add("|", Token::Text, "|");
  return r;
}

struct Appender {
  bool console = false;
  std::string file;
  bool simple = false;  // layout
  bool lenient = false; // the text of a malformed pattern is not specified
  std::vector<Token> pattern;
  std::set<std::string> levels;
  std::function<bool(std::string const &)> accepts;
  std::string want;
  void log(Entry const &e, std::string &console_) {
    if (!levels.empty() && !levels.count(e.kind))
      return;
    if (accepts && !accepts(e.path))
      return;
    std::string line;
    if (simple) {
      std::ostringstream s;
      s << Xsmp::Duration(e.sim);
      line = s.str() + "\t" + e.path + "\t" + e.kind + "\t" + e.message + "\n";
    } else
      line = render(pattern, e);
    (console ? console_ : want) += line;
  }
};

struct World {
  Xsmp::Simulator sim;
  fx::SilentLogger *silent;
  Clock *clock;
  std::unique_ptr<Xsmp::EntryPoint> ep, ep2;
  struct Source {
    const Smp::IObject *object;
    std::string path;
  };
  std::vector<Source> sources;
  Smp::IComposite *root() {
    return static_cast<Smp::IComposite *>(static_cast<Smp::ISimulator *>(&sim));
  }
  struct Holder : public Xsmp::Component, public virtual Smp::IComposite {
    using Xsmp::Component::Component;
    const Smp::ContainerCollection *GetContainers() const override {
      return nullptr;
    }
    Smp::IContainer *GetContainer(Smp::String8) const override {
      return nullptr;
    }
  };
  std::unique_ptr<Holder> a, b;
  World() {
    sim.AddService(silent =
                       new fx::SilentLogger("XsmpLogger", "", root(), &sim));
    sim.AddService(clock = new Clock("XsmpTimeKeeper", "", root(), &sim));
    auto *r = root();
    a = std::make_unique<Holder>("alpha", "", r, &sim);
    b = std::make_unique<Holder>("beta2", "", a.get(), &sim);
    ep = std::make_unique<Xsmp::EntryPoint>("run", "", a.get(), [] {});
    ep2 = std::make_unique<Xsmp::EntryPoint>("go7", "", b.get(), [] {});
    sources = {{nullptr, "<null>"},
               {r, "/"},
               {clock, "/XsmpTimeKeeper"},
               {a.get(), "/alpha"},
               {b.get(), "/alpha/beta2"},
               {ep.get(), "/alpha.run"},
               {ep2.get(), "/alpha/beta2.go7"}};
  }
  struct Delete {
    void operator()(Xsmp::Services::XsmpLogger *l) const {
      delete static_cast<Smp::IComponent *>(l);
    }
  };
  std::unique_ptr<Xsmp::Services::XsmpLogger, Delete> logger() {
    return std::unique_ptr<Xsmp::Services::XsmpLogger, Delete>(
        new Xsmp::Services::XsmpLogger("logger", "", root(), &sim));
  }
};
// the name of every kind
struct Kinds {
  std::vector<std::string> names{"Information", "Event", "Warning", "Error",
                                 "Debug"};
  std::string name(Kind k) const {
    auto i = static_cast<size_t>(static_cast<Smp::UInt32>(k));
    return i < names.size() ? names[i] : "<unknown: " + std::to_string(k) + ">";
  }
  Kind query(std::string const &n) {
    auto it = std::find(names.begin(), names.end(), n);
    if (it == names.end())
      it = names.insert(names.end(), n);
    return static_cast<Kind>(it - names.begin());
  }
};

std::vector<std::unique_ptr<Appender>> configure(Case &c, World &w) {
  std::vector<std::unique_ptr<Appender>> active;
  if (c.chance(1, 10)) {
    if (c.flip()) // no appender is named
      std::ofstream("XsmpLogger.properties") << "# nothing\n\nlog.x = 3\n";
    NOTE(c, "default configuration");
    c.label("default configuration");
    auto a = std::make_unique<Appender>();
    a->console = true;
    active.push_back(std::move(a));
    active.back()->pattern = {
        {"", Token::Zulu, "%F %T"}, {"", Token::Text, "\t"},
        {"", Token::Sim, ""},       {"", Token::Text, "\t"},
        {"", Token::Path, ""},      {"", Token::Text, "\t"},
        {"", Token::KindName, ""},  {"", Token::Text, "\t"},
        {"", Token::Message, ""},   {"", Token::Text, "\n"}};
    return active;
  }
  auto standard =
      std::vector<Token>{{"", Token::Zulu, "%F %T"}, {"", Token::Text, "\t"},
                         {"", Token::Sim, ""},       {"", Token::Text, "\t"},
                         {"", Token::Path, ""},      {"", Token::Text, "\t"},
                         {"", Token::KindName, ""},  {"", Token::Text, "\t"},
                         {"", Token::Message, ""},   {"", Token::Text, "\n"}};
  std::vector<std::string> lines;
  auto property = [&](std::string const &k, std::string const &v) {
    auto space = [&] { return std::string(c.pick({"", "", " ", "\t", "  "})); };
    lines.push_back(space() + k + space() + "=" + space() + v + space());
  };
  std::string rootValue;
  auto n = c.range(0, 4);
  bool nameless = false; // a file appender without file name
  for (unsigned i = 0; i < n; ++i) {
    Case::Span s(c);
    auto name = "A" + std::to_string(i);
    auto base = "log.appender." + name;
    if (i)
      rootValue += c.pick({",", ", ", " ,"});
    rootValue += name;
    auto a = std::make_unique<Appender>();
    switch (c.weighted({3, 6, 1, 1})) {
    case 0:
      a->console = true;
      property(base, "ConsoleAppender");
      break;
    case 1:
      property(base, "FileAppender");
      if (!nameless && c.chance(1, 6)) {
        nameless = true;
        a->file = "simulator.log";
      } else {
        a->file = name + ".log";
        if (c.chance(1, 12)) {
          a->file = "no/such/directory/" + name;
          c.label("file that cannot be opened");
        }
        property(base + ".File", a->file);
      }
      break;
    case 2: // not defined
      c.label("appender not defined");
      continue;
    default:
      property(base, "PigeonAppender");
      c.label("unknown appender");
      continue;
    }
    a->pattern = standard;
    auto layout = c.weighted({2, 6, 2, 1});
    if (layout == 0) {
      a->simple = true;
      property(base + ".layout", "SimpleLayout");
    } else if (layout == 1)
      property(base + ".layout", "PatternLayout");
    else if (layout == 3) {
      property(base + ".layout", "RoundLayout");
      c.label("unknown layout");
      a->lenient = true;
    }
    if ((layout == 1 || layout == 2) && c.chance(5, 6)) {
      std::string source;
      a->pattern = makePattern(c, source);
      if (c.chance(1, 10)) {
        source += c.pick({"%", "%d{", "%S{%T", "\\", "%M{"});
        a->lenient = true;
        c.label("malformed pattern");
      }
      property(base + ".layout.conversionPattern", source);
    }
    if (c.chance(1, 3)) {
      std::string v;
      for (auto k = c.range(1, 3); k--;) {
        auto level = std::string(
            c.pick({"Information", "Error", "Debug", "Mine", "My kind", "Event",
                    "information", "<unknown: 77>"}));
        if (!v.empty())
          v += c.pick({",", " , ", ", "});
        v += level;
        a->levels.insert(level);
      }
      property(base + ".levels", v);
    }
    if (c.chance(1, 3)) {
      std::string p;
      auto &f = a->accepts;
      switch (c.idx(6)) {
      case 0: {
        auto target = w.sources[c.idx(w.sources.size())].path;
        // a dot matches itself
        p = target;
        f = [target](std::string const &x) { return x == target; };
        break;
      }
      case 1:
        p = "/alpha.*";
        f = [](std::string const &x) { return x.substr(0, 6) == "/alpha"; };
        break;
      case 2:
        p = ".*\\\\d"; // written with two backslashes
        f = [](std::string const &x) {
          return !x.empty() && x.back() >= '0' && x.back() <= '9';
        };
        break;
      case 3:
        p = "(/|/alpha)";
        f = [](std::string const &x) { return x == "/" || x == "/alpha"; };
        break;
      case 4:
        p = "(/alpha"; // not a regular expression: ignored
        break;
      default:
        p = "[^.]*";
        f = [](std::string const &x) { return x.find('.') == x.npos; };
      }
      property(base + ".path", p);
    }
    active.push_back(std::move(a));
  }
  property("log.rootLogger", rootValue);
  for (size_t i = lines.size(); i > 1; --i) // the order does not matter
    std::swap(lines[i - 1], lines[c.idx(i)]);
  std::ofstream f("XsmpLogger.properties");
  for (auto const &l : lines) {
    if (c.chance(1, 8))
      f << c.pick({"\n", "# comment = 3\n", "not a property\n", "  \t\n",
                   "  #log.rootLogger=none\n"});
    f << l << "\n";
    NOTE(c, l);
  }
  // the first of two values counts
  if (c.chance(1, 6))
    f << "log.rootLogger = other\n";
  return active;
}

Entry makeEntry(Case &c, World &w, Kinds const &kinds,
                const Smp::IObject *&object, Kind &kind) {
  auto const &s = w.sources[c.idx(w.sources.size())];
  object = s.object;
  kind = static_cast<Kind>(c.chance(1, 8) ? c.pick({77, -1, 1000, 6})
                                          : c.idx(kinds.names.size()));
  return {s.path,           c.str(10, "abc %{}\\\n\tx"),
          kinds.name(kind), w.clock->zulu,
          w.clock->sim,     w.clock->epoch,
          w.clock->mission};
}
void tick(Case &c, World &w) {
  auto t = [&] {
    return c.flip() ? c.integer<Smp::Int64>()
                    : static_cast<Smp::Int64>(c.u(1ull << 62));
  };
  w.clock->zulu = t();
  w.clock->sim = t();
  w.clock->epoch = t();
  w.clock->mission = t();
}

void histories(Case &c) {
  Scratch dir;
  World w;
  auto appenders = configure(c, w);
  std::string console;
  Kinds kinds, stored;
  bool hasStored = false;
  unsigned logged = 0;
  {
    auto logger = w.logger();
    while (c.more(25)) {
      Case::Span s(c);
      switch (c.weighted({10, 3, 3, 1, 1})) {
      case 0: {
        const Smp::IObject *o;
        Kind k;
        auto e = makeEntry(c, w, kinds, o, k);
        NOTE(c, "Log " << e.path << " \"" << e.message << "\" " << k);
        logger->Log(o, e.message.c_str(), k);
        for (auto &a : appenders)
          a->log(e, console);
        ++logged;
        break;
      }
      case 1: {
        auto n = std::string(
            c.pick({"Information", "Mine", "My kind", "Debug", "Debu",
                    "information", "Event", "k1", "k2", "<unknown: 77>"}));
        auto k = logger->QueryLogMessageKind(n.c_str());
        NOTE(c, "kind " << n << " is " << k);
        REQUIRE(k == kinds.query(n), "kind " << n << " is " << k
                                             << " instead of "
                                             << kinds.query(n));
        break;
      }
      case 2:
        tick(c, w);
        break;
      case 3: {
        Xsmp::StorageWriter writer(dir.path.c_str(), "state", w.a.get());
        logger->Store(&writer);
        stored = kinds;
        hasStored = true;
        NOTE(c, "Store");
        break;
      }
      default:
        if (hasStored) {
          Xsmp::StorageReader reader(dir.path.c_str(), "state", w.a.get());
          logger->Restore(&reader);
          kinds = stored;
          NOTE(c, "Restore");
          c.label("kinds restored");
        }
      }
    }
  } // every message is written when the logger is deleted
  bool lenient = false;
  for (auto &a : appenders) {
    if (a->console)
      lenient = lenient || a->lenient;
    else if (!a->lenient) {
      auto got = contents(a->file);
      bool opened = a->file.substr(0, 3) != "no/";
      REQUIRE(got == (opened ? a->want : ""), a->file << " contains \"" << got
                                                      << "\" instead of \""
                                                      << a->want << "\"");
      if (!a->want.empty() && logged > 1 && opened)
        c.nontrivial();
    }
  }
  if (!lenient)
    REQUIRE(dir.out.str() == console, "the console shows \""
                                          << dir.out.str() << "\" instead of \""
                                          << console << "\"");
  if (!console.empty() && logged > 1 && !lenient)
    c.nontrivial();
}

// several threads log and query kinds
void threads(Case &c) {
  Scratch dir;
  World w;
  {
    std::ofstream f("XsmpLogger.properties");
    f << "log.rootLogger=A,B\nlog.appender.A=FileAppender\n"
         "log.appender.A.File=a.log\n"
         "log.appender.A.layout=PatternLayout\n"
         "log.appender.A.layout.conversionPattern=%p %k %m%n\n"
         "log.appender.B=FileAppender\nlog.appender.B.File=b.log\n"
         "log.appender.B.layout=PatternLayout\n"
         "log.appender.B.layout.conversionPattern=%p %k %m%n\n"
         "log.appender.B.levels=k0,Error\n";
  }
  struct Step {
    int op; // 0 log, 1 query, 2 pause
    size_t what;
  };
  auto n = static_cast<size_t>(c.range(2, 4));
  std::vector<std::vector<Step>> plans(n);
  for (auto &p : plans)
    for (auto k = c.range(1, 20); k--;)
      p.push_back({static_cast<int>(c.weighted({8, 3, 1})), c.idx(4)});
  auto before = c.idx(3) * 50; // microseconds that the main thread waits
  std::vector<std::map<std::string, Kind>> ids(n);
  std::vector<std::vector<std::string>> sent(n);
  std::vector<std::string> errors(n);
  {
    auto logger = w.logger();
    auto run = [&](size_t t) {
      unsigned number = 0;
      for (auto const &s : plans[t]) {
        auto kindName = "k" + std::to_string(s.what);
        if (s.op == 1) {
          auto k = logger->QueryLogMessageKind(kindName.c_str());
          auto [it, fresh] = ids[t].emplace(kindName, k);
          if (!fresh && it->second != k)
            errors[t] = kindName + " has two identifiers";
        } else if (s.op == 2) {
          std::this_thread::sleep_for(std::chrono::microseconds(20 * s.what));
        } else {
          auto it = ids[t].find(kindName);
          auto m = "t" + std::to_string(t) + "." + std::to_string(number++);
          auto const &src = w.sources[s.what + 1];
          logger->Log(src.object, m.c_str(),
                      it == ids[t].end() ? Kind{3} : it->second);
          sent[t].push_back(src.path + " " +
                            (it == ids[t].end() ? "Error" : kindName) + " " +
                            m);
        }
      }
    };
    std::vector<std::thread> all;
    for (size_t t = 0; t < n; ++t)
      all.emplace_back(run, t);
    for (auto &t : all)
      t.join();
    if (before)
      std::this_thread::sleep_for(std::chrono::microseconds(before));
  }
  std::map<std::string, Kind> known;
  std::set<Kind> used;
  size_t total = 0;
  for (size_t t = 0; t < n; ++t) {
    REQUIRE(errors[t].empty(), errors[t]);
    for (auto const &[k, id] : ids[t]) {
      auto [it, fresh] = known.emplace(k, id);
      REQUIRE(it->second == id, k << " has two identifiers");
      if (fresh)
        REQUIRE(used.insert(id).second, "two kinds have one identifier");
    }
    total += sent[t].size();
  }
  for (auto const *file : {"a.log", "b.log"}) {
    bool filtered = file[0] == 'b';
    std::vector<std::vector<std::string>> got(n), want(n);
    std::ifstream f(file);
    for (std::string l; std::getline(f, l);) {
      auto p = l.rfind(" t");
      REQUIRE(p != l.npos, "the line \"" << l << "\" was not logged");
      auto t = static_cast<size_t>(l[p + 2] - '0');
      REQUIRE(t < n, "the line \"" << l << "\" was not logged");
      got[t].push_back(l);
    }
    for (size_t t = 0; t < n; ++t) {
      for (auto const &l : sent[t])
        if (!filtered || l.find(" Error ") != l.npos ||
            l.find(" k0 ") != l.npos)
          want[t].push_back(l);
      REQUIRE(got[t] == want[t],
              file << " has " << got[t].size() << " messages of thread " << t
                   << " instead of " << want[t].size() << ", or others");
    }
  }
  if (total > 5)
    c.nontrivial();
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C29";
  s.rule = "two messages or more were logged to an appender that accepts one, "
           "or several threads logged more than five messages";
  s.subs = {{"histories", histories, 8000, 40000},
            {"threads", threads, 3000, 20000}};
  s.assumptions = {"messages and names of kinds are not null",
                   "two appenders do not write to the same file"};
  s.flaky = true;
  return s;
}
