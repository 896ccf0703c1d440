//! sources: none
//! opt: -O1
//! san: thread
// C06: guarded data is shared by readers or owned by one writer, never both.
#include "pbt.h"
#include <Xsmp/ThreadSafeData.h>
#include <condition_variable>
#include <deque>
#include <future>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>

using pbt::Case;
using namespace std::chrono_literals;

namespace {
struct Data {
  int a{};
  std::string b;
  Data() = default;
  Data(int x, std::string y) : a(x), b(std::move(y)) {}
};
using Guard = Xsmp::ThreadSafeData<Data>;
using RL = Guard::ReadLock;
using WL = Guard::WriteLock;

// a thread that runs the commands it is handed, one at a time
class Agent {
public:
  Agent() : _t([this] { loop(); }) {}
  ~Agent() {
    push([this] { _stop = true; });
    _t.join();
  }
  std::shared_future<void> push(std::function<void()> f) {
    auto task = std::make_shared<std::packaged_task<void()>>(std::move(f));
    auto fut = task->get_future().share();
    {
      std::lock_guard l(_m);
      _q.push_back([task] { (*task)(); });
    }
    _cv.notify_one();
    return fut;
  }

private:
  void loop() {
    while (!_stop) {
      std::function<void()> f;
      {
        std::unique_lock l(_m);
        _cv.wait(l, [this] { return !_q.empty(); });
        f = std::move(_q.front());
        _q.pop_front();
      }
      f();
    }
  }
  std::mutex _m;
  std::condition_variable _cv;
  std::deque<std::function<void()>> _q;
  bool _stop{};
  std::thread _t;
};

// The harness owns the schedule: each command is completed before the next one
// is given, unless the model says it has to wait.
void schedule(Case &c) {
  constexpr size_t T = 3;
  Guard guard(7, std::string("init"));
  // guarded data of its own: never affected by what happens to the first one
  Guard other(5, std::string("other"));
  Xsmp::ThreadSafeData<int> number(3);
  int mA = 7;
  std::string mB = "init";
  enum class St { None, Read, Write, ReadOff, WriteOff };
  struct Holder {
    std::unique_ptr<RL> r;
    std::unique_ptr<WL> w;
    St st{St::None};
    bool pending{};
    St wants{};
    std::shared_future<void> fut;
  };
  std::array<Holder, T> h;
  std::array<Agent, T> ag;
  auto readers = [&] {
    size_t n = 0;
    for (auto &x : h)
      n += x.st == St::Read;
    return n;
  };
  auto writer = [&] {
    for (auto &x : h)
      if (x.st == St::Write)
        return true;
    return false;
  };
  auto pendingWriter = [&] {
    for (auto &x : h)
      if (x.pending && x.wants == St::Write)
        return true;
    return false;
  };
  auto done = [](std::shared_future<void> f) {
    f.get(); // a command that never returns is seen as a hang
  };
  // let waiting commands through once the model allows them
  auto settle = [&] {
    for (bool again = true; again;) {
      again = false;
      // candidates that may be granted now
      std::vector<size_t> can;
      for (size_t i = 0; i < T; ++i)
        if (h[i].pending) {
          bool ok = h[i].wants == St::Write ? (readers() == 0 && !writer())
                                            : !writer();
          if (ok)
            can.push_back(i);
        }
      if (can.empty())
        break;
      // one of them must be granted; a reader may wait behind a waiting writer
      for (;;) {
        size_t got = T;
        for (auto i : can)
          if (h[i].fut.wait_for(1ms) == std::future_status::ready) {
            got = i;
            break;
          }
        if (got != T) {
          h[got].fut.get();
          h[got].pending = false;
          h[got].st = h[got].wants;
          again = true;
          break;
        }
      }
    }
    // none of the others may be granted
    for (size_t i = 0; i < T; ++i)
      if (h[i].pending) {
        bool must = h[i].wants == St::Write ? (readers() != 0 || writer())
                                            : writer();
        REQUIRE(!must ||
                    h[i].fut.wait_for(0ms) != std::future_status::ready,
                "agent " << i << " got its lock while it is held");
      }
  };
  unsigned ops = 0;
  auto drop = [&](size_t i) {
    done(ag[i].push([&, i] {
      h[i].r.reset();
      h[i].w.reset();
    }));
    h[i].st = St::None;
  };
  auto cleanup = [&] {
    for (int round = 0; round < 4; ++round)
      for (size_t i = 0; i < T; ++i) {
        if (h[i].pending &&
            h[i].fut.wait_for(round ? 50ms : 0ms) == std::future_status::ready) {
          h[i].pending = false;
          h[i].st = h[i].wants;
        }
        if (!h[i].pending)
          drop(i);
      }
  };
  try {
    while (c.more(40)) {
      Case::Span sp(c);
      ++ops;
      size_t i = c.idx(T);
      auto &x = h[i];
      if (x.pending)
        continue;
      auto kind = c.u(9);
      bool free = !writer() && readers() == 0;
      if (!free && c.chance(1, 8)) {
        auto o = other.try_write();
        REQUIRE(o, "other data cannot be written while these are held");
        REQUIRE(o->get().a == 5 && o->get().b == "other",
                "other data have changed");
        REQUIRE(number.try_write(),
                "other data cannot be used while these are held");
        REQUIRE(number.try_read() && number.read().get() == 3,
                "other data cannot be used while these are held");
      }
      switch (x.st) {
      case St::None:
        if (kind < 2) { // try_read
          std::optional<RL> got;
          bool ok = false;
          done(ag[i].push([&, i] {
            auto o = guard.try_read();
            if (o) {
              ok = true;
              h[i].r = std::make_unique<RL>(std::move(*o));
            }
          }));
          NOTE(c, i << ".try_read=" << ok);
          if (writer())
            REQUIRE(!ok, "try_read succeeded while a writer holds the data");
          else if (!pendingWriter())
            REQUIRE(ok, "try_read failed although no writer holds the data");
          if (ok)
            x.st = St::Read;
        } else if (kind < 4) { // try_write
          bool ok = false;
          done(ag[i].push([&, i] {
            auto o = guard.try_write();
            if (o) {
              ok = true;
              h[i].w = std::make_unique<WL>(std::move(*o));
            }
          }));
          NOTE(c, i << ".try_write=" << ok);
          if (!free)
            REQUIRE(!ok, "try_write succeeded while the data is held");
          else if (!pendingWriter())
            REQUIRE(ok, "try_write failed although the data is free");
          if (ok)
            x.st = St::Write;
        } else if (kind < 7) { // read
          x.wants = St::Read;
          x.pending = true;
          x.fut = ag[i].push([&, i] {
            h[i].r = std::make_unique<RL>(guard.read());
          });
          NOTE(c, i << ".read");
          if (writer()) {
            c.label("reader has to wait");
            std::this_thread::sleep_for(300us);
          }
          settle();
        } else { // write
          x.wants = St::Write;
          x.pending = true;
          x.fut = ag[i].push([&, i] {
            h[i].w = std::make_unique<WL>(guard.write());
          });
          NOTE(c, i << ".write");
          if (!free) {
            c.label("writer has to wait");
            std::this_thread::sleep_for(300us);
          }
          settle();
        }
        break;
      case St::Read:
        if (kind < 4) {
          int a = 0;
          std::string b;
          done(ag[i].push([&, i] {
            a = h[i].r->get().a;
            b = h[i].r->get().b;
          }));
          REQUIRE(a == mA && b == mB, "reader sees " << a << "," << b
                                                     << " instead of " << mA
                                                     << "," << mB);
          NOTE(c, i << ".get");
        } else if (kind < 6) {
          done(ag[i].push([&, i] { h[i].r->unlock(); }));
          x.st = St::ReadOff;
          NOTE(c, i << ".unlock");
          settle();
        } else {
          drop(i);
          NOTE(c, i << ".release");
          settle();
        }
        break;
      case St::Write:
        if (kind < 4) {
          auto v = static_cast<int>(c.u(1000));
          done(ag[i].push([&, i] {
            h[i].w->get().a = v;
            h[i].w->get().b = std::to_string(v);
          }));
          mA = v;
          mB = std::to_string(v);
          NOTE(c, i << ".set " << v);
        } else if (kind < 6) {
          done(ag[i].push([&, i] { h[i].w->unlock(); }));
          x.st = St::WriteOff;
          NOTE(c, i << ".unlock");
          settle();
        } else {
          drop(i);
          NOTE(c, i << ".release");
          settle();
        }
        break;
      default:
        if (kind < 7) {
          bool wr = x.st == St::WriteOff;
          x.wants = wr ? St::Write : St::Read;
          x.pending = true;
          x.fut = ag[i].push([&, i, wr] {
            if (wr)
              h[i].w->lock();
            else
              h[i].r->lock();
          });
          NOTE(c, i << ".relock");
          c.label("relock");
          if (wr ? !free : writer())
            std::this_thread::sleep_for(300us);
          settle();
        } else {
          drop(i);
          NOTE(c, i << ".release unlocked");
        }
      }
    }
  } catch (...) {
    if (ops >= 3)
      c.nontrivial();
    // agents blocked for good would keep the process from reporting
    c.note("failed");
    for (size_t i = 0; i < T; ++i)
      if (h[i].pending && h[i].fut.wait_for(0ms) == std::future_status::ready) {
        h[i].pending = false;
        h[i].st = h[i].wants;
      }
    cleanup();
    throw;
  }
  if (ops >= 3)
    c.nontrivial();
  cleanup();
}

// free-running threads: torn reads, lost updates and data races
void stress(Case &c) {
  Guard guard;
  struct Step {
    int kind;
  };
  auto nt = 2 + c.u(2);
  std::vector<std::vector<int>> plan(nt);
  for (auto &p : plan) {
    auto n = 3 + c.u(12);
    for (size_t i = 0; i < n; ++i)
      p.push_back(static_cast<int>(c.u(5)));
  }
  NOTE(c, nt << " threads");
  c.nontrivial();
  std::atomic<int> writes{0};
  std::atomic<int> torn{0};
  std::atomic<bool> go{false};
  auto bump = [&](Data &d) {
    ++d.a;
    d.b = std::to_string(d.a);
    ++writes;
  };
  auto look = [&](const Data &d) {
    int a = d.a;
    if (a && d.b != std::to_string(a))
      ++torn;
    if (d.a != a)
      ++torn;
  };
  std::vector<std::thread> ts;
  for (size_t t = 0; t < nt; ++t)
    ts.emplace_back([&, t] {
      while (!go)
        std::this_thread::yield();
      for (int k : plan[t])
        switch (k) {
        case 0: {
          auto w = guard.write();
          bump(w.get());
          break;
        }
        case 1: {
          auto r = guard.read();
          look(r.get());
          break;
        }
        case 2:
          if (auto w = guard.try_write())
            bump(w->get());
          break;
        case 3:
          if (auto r = guard.try_read())
            look(r->get());
          break;
        case 4: {
          auto w = guard.write();
          bump(w.get());
          w.unlock();
          std::this_thread::yield();
          w.lock();
          bump(w.get());
          break;
        }
        default: {
          auto r = guard.read();
          look(r.get());
          r.unlock();
          r.lock();
          look(r.get());
        }
        }
    });
  go = true;
  for (auto &t : ts)
    t.join();
  REQUIRE(torn == 0, "a reader saw a half-written value");
  REQUIRE(guard.read().get().a == writes, "lost update: "
                                              << guard.read().get().a << " of "
                                              << writes);
}
} // namespace

pbt::Suite pbt_suite() {
  pbt::Suite s;
  s.property = "C06";
  s.rule = "a case is a schedule of read/write/try/unlock/relock/release "
           "commands of three threads, each completed or shown to wait before "
           "the next, against a reader-writer model (plus free-running threads "
           "under ThreadSanitizer); non-trivial = at least 3 commands; distinct "
           "by choice sequence";
  s.subs = {{"schedule", schedule, 12000, 300000, 20},
            {"stress", stress, 20000, 400000, 20}};
  s.assumptions = {"a thread holds at most one lock object at a time"};
  s.hangSeconds = 20;
  s.flaky = true;
  return s;
}
