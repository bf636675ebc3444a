// C07: timers fire on their processor, never early, as often as they should.
#include "common.h"

#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/SignalTimer.h>
#include <maf/messaging/Timer.h>
using namespace maf::messaging;
using Clock = std::chrono::system_clock;

namespace {
int64_t wallNs() { SimQuiet z; return std::chrono::duration_cast<std::chrono::nanoseconds>(Clock::now().time_since_epoch()).count(); }
constexpr int64_t MSi = (int64_t)MS;

// Reference model of one timer, kept on the processor's thread.
struct T {
  int id = 0;
  std::unique_ptr<Timer> tm;
  std::unique_ptr<SignalTimer> st;
  maf::signal_slots::Connection con;
  bool cyclic = false, running = false, everStarted = false, oneshot = false;
  int gen = 0;                      // number of the start
  int64_t iv = 0, lo = 0, hi = 0;   // next expiry lies in [lo, hi] (wall clock, ns)
  int fired = 0, budget = 0;
};
struct World {
  vector<std::unique_ptr<T>> ts;
  int tid = -1;
  int64_t busyEnd = 0;      // when the processor's thread was last seen working
  int depth = 0;            // nested callbacks
  bool exact = true;        // no slow thread, no clock jump: judge lateness
  std::atomic<int64_t> back{0};   // how far the wall clock was set back
  std::atomic<int64_t> fwd{0};
  bool free_ = false;
};
struct Drv {
  World w;
  ProcessorInstance p;
  int tasks = 0;

  void enter() {
    SimQuiet z;
    if (w.tid < 0) w.tid = sim_tid();
    CHECK(w.tid == sim_tid(), "wrong-thread", "a timer callback or task runs on T%d instead of T%d", sim_tid(), w.tid);
  }
  void leave() { SimQuiet z; w.busyEnd = wallNs(); }

  void armed(T *t, int64_t iv, int64_t before, int64_t after) {
    t->iv = iv;
    t->running = true;
    t->lo = std::min(before, after) + iv * MSi;
    t->hi = std::max(before, after) + iv * MSi;
  }
  void fired(T *t, int gen) {
    enter();
    bool mutate = false;
    {
      SimQuiet z;
      int64_t now = wallNs();
      sim_ev("fire", t->id, gen, 0, 0);
      CHECK(gen == t->gen, "stale-callback", "timer %d calls the callback of start %d after start %d", t->id, gen, t->gen);
      CHECK(t->running, "fired-after-stop", "timer %d fired though it was stopped, destroyed or had expired already", t->id);
      CHECK(now + w.back >= t->lo, "early", "timer %d fired %lld us before its interval has passed", t->id, (long long)((t->lo - now) / 1000));
      if (w.exact) {
        int64_t due = std::max(t->hi, w.busyEnd);
        CHECK(now <= due + 2 * MSi, "late", "timer %d fired %lld us after it was due though its thread was free", t->id, (long long)((now - due) / 1000));
        for (auto &o : w.ts)
          if (o.get() != t && o->running)
            CHECK(o->hi >= t->lo, "wrong-order", "timer %d fired before timer %d, which was due %lld us earlier", t->id, o->id, (long long)((t->lo - o->hi) / 1000));
      }
      t->fired++;
      if (t->cyclic) { t->lo += t->iv * MSi; t->hi += t->iv * MSi; if (--t->budget <= 0) mutate = true; }
      else { t->running = false; }
    }
    if (!t->oneshot) checkRunning(t);
    if (mutate) { stop(t); }
    if (w.depth == 0 && sim_choose(3) == 0) { w.depth++; op(t); w.depth--; }
    leave();
  }
  void checkRunning(T *t) {
    if (!t->tm && !t->st) return;
    bool r = t->tm ? t->tm->running() : t->st->running();
    SimQuiet z;
    CHECK(r == t->running, "running-wrong", "timer %d reports running() = %d, expected %d", t->id, r, t->running);
  }
  // all of these run on the processor's thread
  void start(T *t) {
    int64_t iv = interval(t);
    int64_t b = wallNs();
    int gen;
    { SimQuiet z; gen = ++t->gen; sim_ev("start", t->id, gen, iv, 0); }
    t->everStarted = true;
    t->budget = 1 + (int)sim_choose(4);
    if (t->tm) {
      if (sim_choose(2)) t->tm->start(iv, [this, t, gen] { fired(t, gen); });
      else t->tm->start(std::chrono::milliseconds(iv), [this, t, gen] { fired(t, gen); });
    } else {
      // the generation cannot be told apart in the signal
      { SimQuiet z; t->gen = gen = 0; }
      t->st->start(iv);
    }
    SimQuiet z;
    armed(t, iv, b, wallNs());
  }
  void restart(T *t) {
    bool was = t->everStarted;
    int64_t b = wallNs();
    sim_ev("restart", t->id, was, 0, 0);
    if (t->tm) t->tm->restart(); else t->st->restart();
    SimQuiet z;
    if (was) { armed(t, t->iv, b, wallNs()); if (t->cyclic && t->budget < 1) t->budget = 2; }
  }
  void stop(T *t) {
    sim_ev("stop", t->id, 0, 0, 0);
    if (t->tm) t->tm->stop(); else t->st->stop();
    SimQuiet z;
    t->running = false;
  }
  int64_t interval(T *t) {
    static const int64_t iv[] = {5, 1, 2, 3, 10, 20, 40, 0};
    return iv[sim_choose(t->cyclic ? 7 : 8)];
  }
  T *add() {
    SimQuiet z;
    w.ts.push_back(std::make_unique<T>());
    w.ts.back()->id = (int)w.ts.size() - 1;
    return w.ts.back().get();
  }
  void create() {
    T *t = add();
    t->cyclic = sim_choose(3) == 0;
    if (sim_choose(4) == 0) {
      t->st = std::make_unique<SignalTimer>();
      if (t->cyclic) t->st->setCyclic();
      t->con = t->st->timeoutSignal.connect([this, t] { fired(t, 0); });
    } else {
      t->tm = std::make_unique<Timer>(t->cyclic && sim_choose(2));
      if (t->cyclic) t->tm->setCyclic();
    }
    start(t);
  }
  void op(T *self = nullptr) {
    int k = (int)sim_choose(11);
    size_t n; { SimQuiet z; n = w.ts.size(); }
    if (k <= 1 || n == 0) { if (n < 9) create(); return; }
    if (k == 2) {
      int64_t iv = interval(nullptr_t_());
      T *t = add();
      int64_t b = wallNs();
      { SimQuiet z; t->oneshot = true; t->gen = 1; sim_ev("after", t->id, 0, iv, 0); }
      Timer::timeoutAfter(iv, [this, t] { fired(t, 1); });
      SimQuiet z;
      armed(t, iv, b, wallNs());
      return;
    }
    T *t = self && sim_choose(2) ? self : w.ts[sim_choose(n)].get();
    if (t->oneshot || (!t->tm && !t->st)) return;
    switch (k) {
      case 3: case 4: start(t); break;
      case 5: case 6: restart(t); break;
      case 7: case 8: stop(t); break;
      case 9:
        if (t == self && t->st) break;     // its own signal is running
        if (t->st && w.depth) break;
        { SimQuiet z; sim_ev("destroy", t->id, 0, 0, 0); t->running = false; }
        t->con = {};
        t->tm.reset(); t->st.reset();
        return;
      case 10:
        if (t->tm) {
          bool c = !t->cyclic;
          if (c && t->iv == 0) break;
          { SimQuiet z; t->cyclic = c; t->budget = 3; sim_ev("cyclic", t->id, c, 0, 0); }
          t->tm->setCyclic(c);
        }
        break;
    }
    checkRunning(t);
  }
  T *nullptr_t_() { static T d; return &d; }
};
}  // namespace

static void body(bool exact, bool jumps) {
  auto dp = std::make_unique<Drv>();
  Drv &d = *dp;
  d.w.exact = exact;
  d.p = Processor::create();
  auto p = d.p;
  std::thread runner([&, how = sim_cfg(3)] {
    if (how == 0) p->run();
    else if (how == 1) while (!p->stopped()) p->runFor(std::chrono::milliseconds(7));
    else while (!p->stopped()) p->runOnceFor(std::chrono::milliseconds(3));
  });
  int nt = 1 + (int)sim_choose(2);
  vector<std::thread> ths;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, n = 2 + (int)sim_choose(7)] {
      for (int k = 0; k < n; k++) {
        if (sim_choose(3)) sim_sleep(sim_choose(12) * MS);
        int ops = 1 + (int)sim_choose(3);
        int slow = sim_choose(3) ? 0 : (int)sim_choose(15);
        { SimQuiet z; d.tasks++; }
        CHECK(p->executeAsync([&d, ops, slow] {
          d.enter();
          for (int i = 0; i < ops; i++) d.op();
          if (slow) sim_sleep(slow * MS);
          d.leave();
          SimQuiet z;
          d.tasks--;
        }), "refused", "executeAsync refused");
      }
    });
  if (jumps)
    ths.emplace_back([&, n = 1 + (int)sim_choose(3)] {
      for (int i = 0; i < n; i++) {
        sim_sleep(sim_choose(30) * MS);
        int64_t j = (int64_t)sim_choose(81) * MSi - 40 * MSi;
        if (j < 0) d.w.back -= j; else d.w.fwd += j;
        sim_clock_jump(j);
      }
    });
  joinAll(ths);
  if (jumps) sim_clock_jump(0);
  // let everything expire; cyclic timers stop by their own budget
  auto pendingCount = [&] { int n = 0; for (auto &t : d.w.ts) n += t->running; return n; };
  bool ok = waitFor([&] { return d.tasks == 0 && pendingCount() == 0; }, 3000 * MS);
  if (!ok) {
    SimQuiet z;
    for (auto &t : d.w.ts)
      if (t->running) sim_fail("never-fired", "timer %d (start %d, interval %lld ms, %s) was due long ago and never fired", t->id, t->gen, (long long)t->iv, t->cyclic ? "cyclic" : "single-shot");
  }
  // the timers belong to the processor's thread
  auto done = std::make_shared<Flag>();
  p->executeAsync([&d, done] { d.enter(); for (auto &t : d.w.ts) { if (t->tm || t->st) d.checkRunning(t.get()); t->con = {}; t->tm.reset(); t->st.reset(); } done->set(); });
  CHECK(done->wait(10000 * MS), "stuck", "the processor does not run tasks any more");
  sim_sleep(100 * MS);
  p->stop();
  runner.join();
}
SIM_SCENARIO(c07_model, 0, 0, 0) { body(true, false); }
SIM_SCENARIO(c07_slow, SIM_F_TIMESKEW, 0, 0) { body(false, false); }
SIM_SCENARIO(c07_jumps, 0, 0, 0) { body(false, true); }

// timers started and stopped on a processor by other threads, and destroyed by them
SIM_SCENARIO(c07_remote, 0, 0, 0) {
  struct R {
    std::unique_ptr<Timer> tm;
    int fired = 0, startNo = 0;
    bool stopped = false;            // ordered stop was executed
    int64_t lo = 0, hi = 0;
    int64_t deadAt = -1;             // stop()/destruction by another thread returned
    bool cyclic = false;
    int64_t iv = 0;
  };
  struct W { vector<std::unique_ptr<R>> r; int tid = -1; } w;
  auto p = Processor::create();
  AsyncProcessor ap{p};
  bool early = sim_choose(3) == 0;
  if (!early) ap.launch();
  auto runMarker = [&] {
    auto f = std::make_shared<Flag>();
    CHECK(p->executeAsync([f] { f->set(); }), "refused", "executeAsync refused");
    CHECK(f->wait(60000 * MS), "stuck", "the processor does not run tasks any more");
  };
  int nt = 1 + (int)sim_choose(3);
  vector<std::thread> ths;
  std::atomic<int> fin{0};
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, n = 1 + (int)sim_choose(3)] {
      for (int k = 0; k < n; k++) {
        R *r;
        { SimQuiet z; w.r.push_back(std::make_unique<R>()); r = w.r.back().get(); r->cyclic = sim_choose(4) == 0; r->iv = (int64_t)sim_choose(12) + (r->cyclic ? 2 : 0); }
        int64_t iv = r->iv;
        r->lo = wallNs() + iv * MSi;
        auto cb = [&w, r] {
          SimQuiet z;
          int64_t now = wallNs();
          sim_ev("fire", 0, r->fired, 0, 0);
          if (w.tid < 0) w.tid = sim_tid();
          CHECK(w.tid == sim_tid(), "wrong-thread", "a timer callback runs on the wrong thread");
          CHECK(!r->stopped, "fired-after-stop", "a timer fired after it was stopped on its processor");
          CHECK(now >= r->lo, "early", "a timer fired %lld us early", (long long)((r->lo - now) / 1000));
          CHECK(r->cyclic || r->fired == 0, "fired-twice", "a single-shot timer fired twice");
          CHECK(r->deadAt < 0 || r->lo < r->deadAt + 2 * MSi, "fired-after-stop", "a timer fired though it was stopped or destroyed %lld us before it was due", (long long)((r->lo - r->deadAt) / 1000));
          r->fired++;
          r->lo += r->iv * MSi;
        };
        int kind = r->cyclic ? 1 + (int)sim_choose(3) : (int)sim_choose(5);
        if (kind == 4 || kind == 0) {
          if (sim_choose(2)) Timer::timeoutAfter(iv, cb, p); else Timer::timeoutAfter(std::chrono::milliseconds(iv), cb, p);
        } else {
          r->tm = std::make_unique<Timer>(r->cyclic);
          if (sim_choose(2)) r->tm->start(iv, cb, p); else r->tm->start(std::chrono::milliseconds(iv), cb, p);
        }
        if (early) { SimQuiet z; if (!fin.exchange(1)) { sim_quiet(-1); ap.launch(); sim_quiet(1); } }
        runMarker();
        int64_t started = wallNs();
        if (r->tm && sim_choose(2)) sim_sleep(sim_choose(15) * MS);
        bool died = false;
        if (kind == 1) {                      // ordered stop
          r->tm->stop(p);
          // whoever waits for a later task sees it stopped
          auto f = std::make_shared<Flag>();
          CHECK(p->executeAsync([f, r] { { SimQuiet z; r->stopped = true; } f->set(); }), "refused", "executeAsync refused");
          CHECK(f->wait(60000 * MS), "stuck", "the processor does not run tasks any more");
          CHECK(!r->tm->running(), "running-wrong", "running() after stop");
          died = true;
          r->tm.reset();
        } else if (kind == 2) {               // stopped by this thread
          r->tm->stop();
          { SimQuiet z; r->deadAt = wallNs(); }
          died = true;
        } else if (kind == 3) {               // destroyed by this thread
          r->tm.reset();
          { SimQuiet z; r->deadAt = wallNs(); }
          died = true;
        }
        if (!died) {
          // must fire once, in time
          bool ok = waitFor([r] { return r->fired == 1; }, 1000 * MS);
          CHECK(ok, "never-fired", "a timer started on a processor from another thread fired %d times", r->fired);
        } else if (!r->cyclic) {
          SimQuiet z;
          if (started > r->lo + 3 * MSi && r->fired == 0 && false) sim_fail("never-fired", "x");
        }
        (void)started;
      }
    });
  joinAll(ths);
  runMarker();
  // a timer that was stopped by another thread does not keep the processor from others
  {
    auto f = std::make_shared<Flag>();
    int64_t b = wallNs();
    Timer::timeoutAfter(5, [f] { f->set(); }, p);
    CHECK(f->wait(2000 * MS), "never-fired", "a timer started last never fired");
    CHECK(wallNs() >= b + 5 * MSi, "early", "a timer fired early");
    CHECK(wallNs() <= b + 9 * MSi, "late", "a timer fired late though its processor was free");
  }
  sim_sleep(60 * MS);
  runMarker();
  ap.stopAndWait();
}

// What a callback holds may own timers, or use others, while it is destroyed: when the callback is
// replaced, when its timer has expired or was stopped, and at the end of the processor's thread
SIM_SCENARIO(c07_ghosts, SIM_F_TIMESKEW, 0, 0) {
  struct W {
    std::recursive_mutex m;
    vector<std::shared_ptr<Timer>> shared;
    std::atomic<int> alive{0}, fired{0};
    std::atomic<bool> over{false};
    ProcessorInstance p;
  };
  auto wp = std::make_unique<W>();
  W &w = *wp;
  w.p = Processor::create();
  auto p = w.p;
  static const int64_t iv[] = {1, 2, 3, 5, 8, 1000};
  auto usable = [&w] { auto i = this_processor::instance(); return i && !i->stopped(); };
  struct Owner { std::unique_ptr<Timer> a, b; };
  std::function<GhostPtr(int)> haunt = [&](int depth) -> GhostPtr {
    int what = (int)sim_choose(7);
    w.alive++;
    auto own = std::make_shared<Owner>();
    if (depth > 0 && sim_choose(2)) {
      own->a = std::make_unique<Timer>(sim_choose(4) == 0);
      own->a->start(iv[sim_choose(6)], [&w, g = haunt(depth - 1)] { w.fired++; });
      if (sim_choose(3) == 0) {
        own->b = std::make_unique<Timer>();
        own->b->start(iv[sim_choose(6)], [&w, g = haunt(depth - 1)] { w.fired++; });
      }
    }
    return std::make_shared<Ghost>([&, own, what, depth] {
      w.alive--;
      if (what == 0) own->a.reset();
      if (w.over) return;
      switch (what) {
        case 1: if (own->a) own->a->stop(); break;
        case 2: { std::lock_guard l(w.m); sim_yield(); break; }
        case 3: if (usable() && depth) Timer::timeoutAfter(iv[sim_choose(6)], [&w, g = haunt(depth - 1)] { w.fired++; }); break;
        case 4: if (usable() && !w.shared.empty()) { auto t = w.shared[sim_choose(w.shared.size())]; t->stop(); } break;
        case 5: if (usable() && !w.shared.empty() && depth) { auto t = w.shared[sim_choose(w.shared.size())]; t->start(iv[sim_choose(6)], [&w] { w.fired++; }); } break;
        case 6: if (usable() && !w.shared.empty()) { auto t = w.shared[sim_choose(w.shared.size())]; if (t->running()) t->restart(); } break;
      }
    });
  };
  for (int i = 0, n = 1 + (int)sim_choose(3); i < n; i++) w.shared.push_back(std::make_shared<Timer>(sim_choose(4) == 0));
  std::thread runner([&] { p->run(); });
  for (int i = 0, n = 1 + (int)sim_choose(6); i < n; i++) {
    bool ran = p->executeAsync([&, k = 1 + (int)sim_choose(4)] {
      for (int j = 0; j < k && usable(); j++) {
        auto t = w.shared[sim_choose(w.shared.size())];
        switch (sim_choose(5)) {
          case 0: case 1: t->start(iv[sim_choose(6)], [&w, g = haunt(2)] { w.fired++; }); break;
          case 2: Timer::timeoutAfter(iv[sim_choose(6)], [&w, g = haunt(2)] { w.fired++; }); break;
          case 3: t->stop(); break;
          case 4: if (sim_choose(6) == 0) this_processor::stop(); break;
        }
      }
    });
    if (!ran) break;
    if (sim_choose(2)) sim_sleep(sim_choose(6) * MS);
  }
  if (sim_choose(3)) sim_sleep(sim_choose(12) * MS);
  bool kept = sim_choose(2);
  if (!p->stopped() && kept) {
    // the last timers of their own thread: nothing but the thread's end destroys their callbacks
    sim_sleep(sim_choose(3) * MS);
  }
  p->stop();
  runner.join();
  w.over = true;
  w.shared.clear();
  CHECK(w.alive == 0, "leaked-callback", "%d callbacks are still alive after their timers and their thread are gone", w.alive.load());
}

// long intervals, many timers
SIM_SCENARIO(c07_long, 0, 0, 6000000000ull) {
  AsyncProcessor ap;
  ap.launch();
  int nt = 1 + (int)sim_choose(14);
  struct Tm { Timer t; int64_t ms = 0; uint64_t t0 = 0; int fired = 0; };
  auto tm = std::make_unique<vector<Tm>>(nt);
  auto *T_ = tm->data();
  static const int64_t unit[] = {1, 1000, 60000, 3600000, 86400000};
  ap->waitableExecute([&] {
    for (int i = 0; i < nt; i++) {
      T_[i].ms = (int64_t)(1 + sim_choose(40)) * unit[sim_choose(5)];
      { SimQuiet z; T_[i].t0 = sim_now(); }
      T_[i].t.start(T_[i].ms, [T_, i] {
        SimQuiet z;
        auto &t = T_[i];
        uint64_t due = t.t0 + (uint64_t)t.ms * MS, now = sim_now();
        CHECK(++t.fired == 1, "fired-twice", "a timer fires twice");
        CHECK(now + MS >= due, "early", "a timer of %lld ms fires after %llu ms", (long long)t.ms, (unsigned long long)((now - t.t0) / MS));
        CHECK(now <= due + 10 * MS, "late", "a timer of %lld ms fires after %llu ms", (long long)t.ms, (unsigned long long)((now - t.t0) / MS));
      });
    }
  }).wait();
  bool ok = waitFor([&] { for (int i = 0; i < nt; i++) if (!T_[i].fired) return false; return true; }, 5000000000ull * MS);
  CHECK(ok, "never-fired", "a timer never fires");
  ap.stopAndWait();
}
