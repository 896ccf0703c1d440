#include "pbt.h"
namespace pbt {
inline std::string jsonEsc(const std::string &s) {
  std::string r;
  for (unsigned char ch : s) {
    switch (ch) {
    case '"':
      r += "\\\"";
      break;
    case '\\':
      r += "\\\\";
      break;
    case '\n':
      r += "\\n";
      break;
    default:
      if (ch < 32 || ch > 126) {
        char b[8];
        std::snprintf(b, sizeof b, "\\u%04x", ch);
        r += b;
      } else
        r += static_cast<char>(ch);
    }
  }
  return r;
}

class Runner {
public:
  Runner(Suite s, int argc, char **argv) : suite_(std::move(s)) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto next = [&] { return i + 1 < argc ? std::string(argv[++i]) : ""; };
      if (a == "--tier")
        tier_ = next();
      else if (a == "--seed")
        seed_ = std::strtoull(next().c_str(), nullptr, 10);
      else if (a == "--evidence")
        evidence_ = next();
      else if (a == "--replay")
        replay_ = next();
      else if (a == "--out")
        out_ = next();
      else if (a == "--jobs")
        jobs_ = static_cast<unsigned>(std::atoi(next().c_str()));
      else if (a == "--scale")
        scale_ = std::atof(next().c_str());
      else if (a == "--sub")
        only_ = next();
      else if (a == "--cap")
        cap_ = std::atof(next().c_str());
      else if (a == "--known")
        knownFile_ = next();
      else if (a == "--verbose")
        verbose_ = true;
    }
    if (jobs_ > suite_.maxJobs)
      jobs_ = suite_.maxJobs;
    if (jobs_ == 0)
      jobs_ = 1;
  }

  int run() {
    using clk = std::chrono::steady_clock;
    auto t0 = clk::now();
    if (!replay_.empty())
      return replayFile();
    loadKnown();
    int violations = 0;
    std::string violationLine;
    // listed findings first
    for (auto const &k : suite_.known) {
      bool fails = knownFails(k);
      bool listed = knownListed_.count(k.key) != 0;
      if (fails && listed) {
        std::cout << "KNOWN-FINDING: property=" << suite_.property << " "
                  << k.what << std::endl;
        ++knownCount_;
      } else if (fails) {
        auto path = writeReplay("known:" + k.key, {}, k.what, "", 0);
        std::cout << "VIOLATION property=" << suite_.property
                  << " replay=" << path << std::endl;
        return finish(1, t0);
      }
    }
    for (uint32_t si = 0; si < suite_.subs.size() && !violations; ++si) {
      auto const &sub = suite_.subs[si];
      if (!only_.empty() && sub.name != only_)
        continue;
      uint64_t n = static_cast<uint64_t>(
          static_cast<double>(tier_ == "thorough" ? sub.thorough : sub.quick) *
          scale_);
      if (n == 0)
        n = 1;
      if (runSub(si, n))
        violations = 1;
    }
    return finish(violations, t0);
  }

private:
  Suite suite_;
  std::string tier_{"quick"};
  uint64_t seed_{1};
  std::string evidence_;
  std::string replay_;
  std::string out_{"/tmp"};
  std::string only_;
  std::string knownFile_;
  unsigned jobs_{8};
  double scale_{1};
  double cap_{0};
  bool verbose_{false};
  std::set<std::string> knownListed_;
  int knownCount_{};
  uint64_t evaluations_{};
  uint64_t discards_{};
  std::unordered_set<uint64_t> distinct_;
  std::map<std::string, uint64_t> labels_;
  std::vector<std::string> samples_;
  std::map<std::string, uint64_t> perSub_;
  bool capHit_{false};
  std::string flakyNote_;

  static Shared *newShared() {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
      std::perror("mmap");
      std::exit(2);
    }
    return static_cast<Shared *>(p);
  }

  void loadKnown() {
    std::ifstream f(knownFile_);
    for (std::string l; std::getline(f, l);) {
      auto p = l.find("finding: property=" + suite_.property + " key=");
      if (p != 0)
        continue;
      auto k = l.substr(l.find("key=") + 4);
      knownListed_.insert(k.substr(0, k.find(' ')));
    }
  }

  bool knownFails(const Known &k) {
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      silence(out_ + "/known.log");
      try {
        k.fn();
      } catch (const Fail &) {
        _exit(77);
      } catch (...) {
        _exit(78);
      }
      _exit(0);
    }
    return waitChild(pid, nullptr) != 0;
  }

  static void silence(const std::string &path) {
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) {
      dup2(fd, 2);
      dup2(fd, 1);
      close(fd);
    }
  }

  // 0 ok, 1 failed, 2 crash, 3 hang
  int waitChild(pid_t pid, Shared *sh) {
    using clk = std::chrono::steady_clock;
    auto last = clk::now();
    uint64_t beat = sh ? sh->beat.load() : 0;
    for (unsigned spin = 0;; ++spin) {
      int st = 0;
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
          return 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
          return 1;
        return 2;
      }
      if (sh && sh->beat.load() != beat) {
        beat = sh->beat.load();
        last = clk::now();
      }
      if (std::chrono::duration<double>(clk::now() - last).count() >
          suite_.hangSeconds) {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        return 3;
      }
      usleep(spin < 200 ? 200 : 2000);
    }
  }

  // runs one case in the current process; returns true if it failed
  bool oneCase(Shared *sh, uint32_t si, const std::vector<uint64_t> *prefix,
               uint64_t caseSeed, unsigned size, bool tracing, Case **out) {
    auto const &sub = suite_.subs[si];
    sh->sub = si;
    sh->size = size;
    static thread_local std::unique_ptr<Case> cur;
    cur = std::make_unique<Case>(sh, prefix, caseSeed, size, tracing);
    if (out)
      *out = cur.get();
    std::string msg;
    bool failed = false;
    try {
      sub.fn(*cur);
    } catch (const Fail &f) {
      failed = true;
      msg = f.msg;
    } catch (const Discard &) {
      return false;
    } catch (const std::exception &e) {
      failed = true;
      msg = std::string("unexpected exception: ") + typeid(e).name() + ": " +
            e.what();
    } catch (...) {
      failed = true;
      msg = "unexpected exception of unknown type";
    }
    if (failed) {
      sh->failed = 1;
      std::strncpy(sh->msg, msg.c_str(), sizeof(sh->msg) - 1);
    }
    return failed;
  }

  // runs a candidate choice sequence in a child
  int runCandidate(Shared *sh, uint32_t si, const std::vector<uint64_t> &ch,
                   unsigned size, std::string &log, bool keepLog) {
    std::fflush(nullptr);
    auto logPath = out_ + "/case.log";
    sh->beat++;
    sh->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
      silence(logPath);
      bool f = oneCase(sh, si, &ch, 0, size, true, nullptr);
      std::fflush(nullptr);
      _exit(f ? 77 : 0);
    }
    int r = waitChild(pid, sh);
    if (keepLog && r >= 2) {
      std::ifstream f(logPath);
      std::stringstream ss;
      ss << f.rdbuf();
      log = ss.str().substr(0, 6000);
    }
    return r;
  }

  struct WorkerOut {
    uint64_t evals{}, discards{};
  };

  bool runSub(uint32_t si, uint64_t n) {
    using clk = std::chrono::steady_clock;
    auto t0 = clk::now();
    double cap = cap_ > 0 ? cap_ : (tier_ == "thorough" ? 700. : 100.);
    cap /= static_cast<double>(only_.empty() ? suite_.subs.size() : 1);
    auto const &sub = suite_.subs[si];
    std::vector<Shared *> sh(jobs_);
    std::vector<pid_t> pids(jobs_);
    std::vector<bool> done(jobs_, false);
    std::vector<uint64_t> beat(jobs_, 0);
    std::vector<clk::time_point> last(jobs_, clk::now());
    std::fflush(nullptr);
    std::cout.flush();
    for (unsigned w = 0; w < jobs_; ++w) {
      sh[w] = newShared();
      pid_t pid = fork();
      if (pid == 0) {
        silence(out_ + "/worker" + std::to_string(w) + ".log");
        worker(sh[w], si, n, w, t0, cap);
        std::fflush(nullptr);
        _exit(sh[w]->failed ? 77 : 0);
      }
      pids[w] = pid;
    }
    int failedWorker = -1;
    int failKind = 0;
    unsigned left = jobs_;
    while (left) {
      bool progress = false;
      for (unsigned w = 0; w < jobs_; ++w) {
        if (done[w])
          continue;
        int st = 0;
        pid_t r = waitpid(pids[w], &st, WNOHANG);
        if (r == pids[w]) {
          done[w] = true;
          --left;
          progress = true;
          int kind = WIFEXITED(st) && WEXITSTATUS(st) == 0    ? 0
                     : WIFEXITED(st) && WEXITSTATUS(st) == 77 ? 1
                                                              : 2;
          if (kind && failedWorker < 0) {
            failedWorker = static_cast<int>(w);
            failKind = kind;
          }
          continue;
        }
        if (sh[w]->beat.load() != beat[w]) {
          beat[w] = sh[w]->beat.load();
          last[w] = clk::now();
        } else if (std::chrono::duration<double>(clk::now() - last[w]).count() >
                   suite_.hangSeconds) {
          // debugging aid: stacks of a worker that hangs
          if (const char *cmd = std::getenv("PBT_HANG_CMD")) {
            if (std::system((std::string(cmd) + " " + std::to_string(pids[w]))
                                .c_str()) != 0)
              std::cerr << "PBT_HANG_CMD failed\n";
          }
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          done[w] = true;
          --left;
          if (failedWorker < 0) {
            failedWorker = static_cast<int>(w);
            failKind = 3;
          }
        }
      }
      if (failedWorker >= 0) {
        for (unsigned w = 0; w < jobs_; ++w)
          if (!done[w]) {
            kill(pids[w], SIGKILL);
            int st = 0;
            waitpid(pids[w], &st, 0);
            done[w] = true;
            --left;
          }
        break;
      }
      if (!progress)
        usleep(2000);
    }
    for (unsigned w = 0; w < jobs_; ++w)
      collect(w, sub.name);
    bool violation = false;
    if (failedWorker >= 0) {
      if (verbose_)
        std::cerr << "worker log:\n"
                  << slurp(out_ + "/worker" + std::to_string(failedWorker) +
                           ".log")
                         .substr(0, 6000)
                  << "\n";
      violation = report(sh[static_cast<size_t>(failedWorker)], si, failKind,
                         static_cast<unsigned>(failedWorker), n);
    }
    for (auto *s : sh)
      munmap(s, sizeof(Shared));
    if (verbose_)
      std::cerr << sub.name << ": "
                << std::chrono::duration<double>(clk::now() - t0).count()
                << " s\n";
    return violation;
  }

  static std::string slurp(const std::string &p) {
    std::ifstream f(p);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
  }

  std::string resultPath(unsigned w) {
    return out_ + "/w" + std::to_string(w) + ".res";
  }

  // seed and size of the i-th case
  std::pair<uint64_t, unsigned> caseParams(const Sub &sub, uint64_t i,
                                           uint64_t n) const {
    uint64_t base = fnv(sub.name) ^ (seed_ * 0x9e3779b97f4a7c15ull);
    uint64_t cs = base + i * 0xd1342543de82ef95ull;
    splitmix(cs);
    // sizes grow over the first tenth of the run, then cycle
    unsigned size =
        static_cast<unsigned>(2 + (i * 7919u + i / 64) % sub.maxSize);
    if (i < n / 10)
      size = static_cast<unsigned>(2 + (i * sub.maxSize) / (n / 10 + 1));
    return {cs, size};
  }

  // runs the listed cases one after the other in a child
  int runHistory(Shared *sh, uint32_t si, const std::vector<uint64_t> &cases,
                 uint64_t n) {
    std::fflush(nullptr);
    sh->beat++;
    sh->msg[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
      silence(out_ + "/case.log");
      bool f = false;
      for (size_t k = 0; k < cases.size() && !f; ++k) {
        auto [cs, size] = caseParams(suite_.subs[si], cases[k], n);
        f = oneCase(sh, si, nullptr, cs, size, k + 1 == cases.size(), nullptr);
        sh->beat++;
      }
      std::fflush(nullptr);
      _exit(f ? 77 : 0);
    }
    return waitChild(pid, sh);
  }

  void worker(Shared *sh, uint32_t si, uint64_t n, unsigned w,
              std::chrono::steady_clock::time_point t0, double cap) {
    auto const &sub = suite_.subs[si];
    uint64_t evals = 0;
    uint64_t discards = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    bool capHit = false;
    for (uint64_t i = w; i < n; i += jobs_) {
      if ((evals & 15) == 0 &&
          std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
                  .count() > cap) {
        capHit = true;
        break;
      }
      auto [cs, size] = caseParams(sub, i, n);
      bool trace = samples.size() < 2 && i % 5 == w % 5;
      Case *c = nullptr;
      sh->caseNo = i;
      sh->beat++;
      bool f = oneCase(sh, si, nullptr, cs, size, trace, &c);
      sh->beat++;
      ++evals;
      if (f)
        break;
      if (c->isNontrivial()) {
        distinct.insert(fnv(sh->choices, sh->n * sizeof(uint64_t)));
        if (trace)
          samples.push_back(c->trace().substr(0, 700));
      }
      for (auto const &l : c->labels())
        ++labels[l];
    }
    std::ofstream o(resultPath(w), std::ios::trunc);
    o << evals << " " << discards << " " << capHit << "\n";
    o << labels.size() << "\n";
    for (auto const &[k, v] : labels)
      o << k << "\t" << v << "\n";
    o << samples.size() << "\n";
    for (auto s : samples) {
      for (auto &ch : s)
        if (ch == '\n')
          ch = ' ';
      o << s << "\n";
    }
    o << distinct.size() << "\n";
    for (auto h : distinct)
      o << h << "\n";
  }

  void collect(unsigned w, const std::string &subName) {
    std::ifstream f(resultPath(w));
    if (!f)
      return;
    uint64_t e = 0, d = 0;
    int cap = 0;
    f >> e >> d >> cap;
    evaluations_ += e;
    discards_ += d;
    capHit_ = capHit_ || cap;
    perSub_[subName] += e;
    size_t n = 0;
    f >> n;
    std::string line;
    std::getline(f, line);
    for (size_t i = 0; i < n; ++i) {
      std::getline(f, line);
      auto t = line.find('\t');
      labels_[subName + "/" + line.substr(0, t)] +=
          std::strtoull(line.c_str() + t + 1, nullptr, 10);
    }
    f >> n;
    std::getline(f, line);
    for (size_t i = 0; i < n; ++i) {
      std::getline(f, line);
      if (w < 2)
        samples_.push_back(subName + ": " + line);
    }
    f >> n;
    auto salt = fnv(subName);
    for (size_t i = 0; i < n; ++i) {
      uint64_t h = 0;
      f >> h;
      distinct_.insert(h ^ salt);
    }
    f.close();
    unlink(resultPath(w).c_str());
  }

  bool report(Shared *sh, uint32_t si, int kind, unsigned w, uint64_t n) {
    uint64_t failedCase = sh->caseNo;
    std::vector<uint64_t> ch(sh->choices, sh->choices + sh->n);
    unsigned size = sh->size;
    std::string firstMsg = sh->msg;
    std::string log;
    // confirm
    Shared *s2 = newShared();
    double savedHang = suite_.hangSeconds;
    unsigned ok = 0;
    unsigned tries = suite_.flaky ? 10 : 3;
    for (unsigned i = 0; i < tries; ++i)
      if (runCandidate(s2, si, ch, size, log, i == 0))
        ++ok;
    bool confirmed = suite_.flaky ? (kind == 1 || ok > 0) : ok == tries;
    if (!confirmed) {
      // the failure may need state left behind by earlier cases of the worker
      std::vector<uint64_t> hist;
      for (uint64_t i = w; i <= failedCase; i += jobs_)
        hist.push_back(i);
      bool all = hist.size() < 200000;
      for (unsigned i = 0; i < 3 && all; ++i)
        all = runHistory(s2, si, hist, n) != 0;
      if (all) {
        for (size_t k = 2; k < hist.size(); k *= 2) {
          std::vector<uint64_t> tail(hist.end() - static_cast<long>(k),
                                     hist.end());
          if (runHistory(s2, si, tail, n)) {
            hist = tail;
            break;
          }
        }
        runHistory(s2, si, hist, n);
        auto path = writeReplay(suite_.subs[si].name, hist,
                                std::string("needs the preceding cases; ") +
                                    s2->msg,
                                s2->trace, size, n);
        std::cout << "failure in " << suite_.subs[si].name << " (history of "
                  << hist.size() << " cases): " << s2->msg << "\n";
        std::cout << "VIOLATION property=" << suite_.property
                  << " replay=" << path << std::endl;
        munmap(s2, sizeof(Shared));
        return true;
      }
      std::cerr << "unconfirmed failure (" << ok << "/" << tries
                << " replays) in " << suite_.subs[si].name << ": " << firstMsg
                << "\n";
      flakyNote_ += suite_.subs[si].name + ": " + firstMsg + "; ";
      munmap(s2, sizeof(Shared));
      return false;
    }
    if (kind != 3 && ok == tries)
      shrink(s2, si, ch, size);
    suite_.hangSeconds = savedHang;
    log.clear();
    int k = runCandidate(s2, si, ch, size, log, true);
    std::string msg = k == 1 && s2->msg[0] ? s2->msg
                      : k == 2             ? "crash or sanitizer report"
                      : k == 3             ? "does not terminate"
                                           : firstMsg;
    auto path = writeReplay(suite_.subs[si].name, ch,
                            msg + (k == 2 ? "\n" + log : std::string()),
                            s2->trace, size);
    munmap(s2, sizeof(Shared));
    std::cout << "failure in " << suite_.subs[si].name << ": "
              << msg.substr(0, 1500) << "\n";
    if (k == 2)
      std::cout << log.substr(0, 2500) << "\n";
    std::cout << "VIOLATION property=" << suite_.property << " replay=" << path
              << std::endl;
    return true;
  }

  void shrink(Shared *sh, uint32_t si, std::vector<uint64_t> &best,
              unsigned size) {
    auto t0 = std::chrono::steady_clock::now();
    double budget = tier_ == "thorough" ? 60 : 25;
    auto out = [&] {
      return std::chrono::duration<double>(std::chrono::steady_clock::now() -
                                           t0)
                 .count() > budget;
    };
    double saved = suite_.hangSeconds;
    suite_.hangSeconds = std::min(saved, 10.);
    std::string log;
    std::vector<std::pair<uint32_t, uint32_t>> spans;
    auto refresh = [&] {
      best.assign(sh->choices, sh->choices + std::min(sh->n, MaxChoices));
      while (!best.empty() && best.back() == 0)
        best.pop_back();
      spans.clear();
      for (uint32_t i = 0; i < sh->nspans; ++i)
        spans.emplace_back(sh->spans[i][0], sh->spans[i][1]);
    };
    auto attempt = [&](const std::vector<uint64_t> &cand) {
      int r = runCandidate(sh, si, cand, size, log, false);
      if (r == 0 || r == 3)
        return false;
      std::vector<uint64_t> used(sh->choices, sh->choices + sh->n);
      while (!used.empty() && used.back() == 0)
        used.pop_back();
      if (used.size() > best.size() ||
          (used.size() == best.size() && !(used < best)))
        return false;
      refresh();
      return true;
    };
    if (runCandidate(sh, si, best, size, log, false) == 0)
      return;
    refresh();
    bool improved = true;
    while (improved && !out()) {
      improved = false;
      // remove spans (whole operations), last first
      for (size_t i = spans.size(); i-- > 0 && !out();) {
        if (i >= spans.size())
          continue;
        auto [a, b] = spans[i];
        if (b > best.size())
          b = static_cast<uint32_t>(best.size());
        if (a >= b)
          continue;
        auto cand = best;
        cand.erase(cand.begin() + a, cand.begin() + b);
        if (attempt(cand))
          improved = true;
      }
      for (size_t k : {16, 8, 4, 3, 2, 1}) {
        for (size_t i = best.size(); i-- > 0 && !out();) {
          if (i + k > best.size())
            continue;
          auto cand = best;
          cand.erase(cand.begin() + static_cast<long>(i),
                     cand.begin() + static_cast<long>(i + k));
          if (attempt(cand))
            improved = true;
        }
      }
      // lower values
      for (size_t i = 0; i < best.size() && !out(); ++i) {
        if (best[i] == 0)
          continue;
        auto cand = best;
        cand[i] = 0;
        if (attempt(cand)) {
          improved = true;
          continue;
        }
        uint64_t lo = 0;
        while (i < best.size() && best[i] - lo > 1 && !out()) {
          cand = best;
          cand[i] = lo + (best[i] - lo) / 2;
          if (attempt(cand))
            improved = true;
          else
            lo = lo + (best[i] - lo) / 2;
          if (i >= best.size())
            break;
        }
      }
    }
    suite_.hangSeconds = saved;
  }

  std::string writeReplay(const std::string &sub,
                          const std::vector<uint64_t> &ch,
                          const std::string &msg, const std::string &trace,
                          unsigned size, uint64_t historyOf = 0) {
    uint64_t h = fnv(sub) ^ fnv(ch.data(), ch.size() * 8);
    char b[64];
    std::snprintf(b, sizeof b, "/%s-%016" PRIx64 ".json",
                  suite_.property.c_str(), h);
    std::string path = out_ + b;
    std::ofstream f(path, std::ios::trunc);
    f << "{\"property\":\"" << suite_.property << "\",\"sub\":\""
      << jsonEsc(sub) << "\",\"size\":" << size << ",\"seed\":" << seed_
      << ",\"history_of\":" << historyOf << ",\n\"choices\":[";
    for (size_t i = 0; i < ch.size(); ++i)
      f << (i ? "," : "") << ch[i];
    f << "],\n\"message\":\"" << jsonEsc(msg) << "\",\n\"trace\":\""
      << jsonEsc(trace) << "\"}\n";
    return path;
  }

  int replayFile() {
    auto text = slurp(replay_);
    auto get = [&](const std::string &k) {
      auto p = text.find("\"" + k + "\":");
      return p == std::string::npos ? std::string()
                                    : text.substr(p + k.size() + 3);
    };
    auto sub = get("sub").substr(1);
    sub = sub.substr(0, sub.find('"'));
    unsigned size =
        static_cast<unsigned>(std::strtoul(get("size").c_str(), nullptr, 10));
    std::vector<uint64_t> ch;
    auto list = get("choices");
    list = list.substr(1, list.find(']') - 1);
    std::stringstream ss(list);
    for (std::string t; std::getline(ss, t, ',');)
      ch.push_back(std::strtoull(t.c_str(), nullptr, 10));
    for (uint32_t si = 0; si < suite_.subs.size(); ++si) {
      if (suite_.subs[si].name != sub)
        continue;
      Shared *sh = newShared();
      std::string log;
      auto of = std::strtoull(get("history_of").c_str(), nullptr, 10);
      if (of)
        seed_ = std::strtoull(get("seed").c_str(), nullptr, 10);
      int r = of ? runHistory(sh, si, ch, of)
                 : runCandidate(sh, si, ch, size, log, true);
      std::cout << "trace: " << sh->trace << "\n";
      if (r == 0) {
        std::cout << "replay passes\n";
        return 0;
      }
      std::cout << (r == 1   ? sh->msg
                    : r == 3 ? "does not terminate"
                             : log.c_str())
                << "\nVIOLATION property=" << suite_.property
                << " replay=" << replay_ << std::endl;
      return 1;
    }
    std::cerr << "no sub-check named " << sub << "\n";
    return 2;
  }

  int finish(int violations, std::chrono::steady_clock::time_point t0) {
    double wall =
        std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
            .count();
    std::cout << suite_.property << " tier=" << tier_ << " seed=" << seed_
              << " evaluations=" << evaluations_
              << " distinct_nontrivial=" << distinct_.size()
              << (capHit_ ? " (time cap hit)" : "") << " wall=" << wall
              << "s\n";
    for (auto const &[k, v] : labels_)
      std::cout << "  " << k << ": " << v << "\n";
    if (!evidence_.empty()) {
      std::ofstream f(evidence_, std::ios::trunc);
      f << "{\n \"property\": \"" << suite_.property << "\",\n \"tier\": \""
        << tier_ << "\",\n \"seed\": " << seed_
        << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
      f << "  \"evaluations\": " << evaluations_
        << ",\n  \"distinct_nontrivial\": " << distinct_.size()
        << ",\n  \"rule\": \"" << jsonEsc(suite_.rule)
        << "\",\n  \"time_cap_hit\": " << (capHit_ ? "true" : "false")
        << ",\n  \"cases_per_subcheck\": {";
      bool first = true;
      for (auto const &[k, v] : perSub_) {
        f << (first ? "" : ", ") << "\"" << jsonEsc(k) << "\": " << v;
        first = false;
      }
      f << "},\n  \"labels\": {";
      first = true;
      for (auto const &[k, v] : labels_) {
        f << (first ? "" : ", ") << "\"" << jsonEsc(k) << "\": " << v;
        first = false;
      }
      f << "},\n  \"known_findings\": " << knownCount_;
      if (!flakyNote_.empty())
        f << ",\n  \"unconfirmed\": \"" << jsonEsc(flakyNote_) << "\"";
      f << ",\n  \"samples\": [";
      first = true;
      for (auto const &s : samples_) {
        f << (first ? "" : ",\n   ") << "\"" << jsonEsc(s) << "\"";
        first = false;
      }
      f << "]\n },\n \"assumptions\": [";
      first = true;
      for (auto const &s : suite_.assumptions) {
        f << (first ? "" : ", ") << "\"" << jsonEsc(s) << "\"";
        first = false;
      }
      f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations
        << "\n}\n";
    }
    return violations ? 1 : 0;
  }
};

} // namespace pbt

extern "C" __attribute__((visibility("default"))) const char *
__asan_default_options() {
  return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_"
         "null=1:detect_stack_use_after_return=0";
}
extern "C" __attribute__((visibility("default"))) const char *
__ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:exitcode=99";
}
extern "C" __attribute__((visibility("default"))) const char *
__tsan_default_options() {
  return "halt_on_error=1:exitcode=99";
}
int main(int argc, char **argv) {
  return pbt::Runner(pbt_suite(), argc, argv).run();
}
