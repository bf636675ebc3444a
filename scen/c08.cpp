// C08: a SyncTimer ends by timeout or stop, exactly as reported.
#include "common.h"

#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/SyncTimer.h>
using namespace maf::messaging;

namespace {
constexpr uint64_t INF = ~0ull;
struct St {                       // one start()
  uint64_t t0 = 0, t1 = INF, s0 = 0, s1 = INF;    // time and sequence number
  uint64_t iv = 0;
  int thread = 0;
  bool cyclicAt = false;
  vector<uint64_t> fired;
};
struct Op { uint64_t t0, t1 = INF, s0, s1 = INF; };
struct World {
  vector<std::unique_ptr<St>> st;
  vector<std::unique_ptr<Op>> stops, restarts, cyc;
  int inStart = 0;
};
}  // namespace

static void body(bool exact, int starters) {
  auto wp = std::make_unique<World>();
  World &w = *wp;
  SyncTimer tm{false};
  bool cyclic = sim_cfg(3) == 0;
  if (cyclic) tm.setCyclic();
  int useExec = (int)sim_cfg(3) == 0;
  ProcessorInstance p;
  std::unique_ptr<AsyncProcessor> ap;
  int procTid = -1;
  if (useExec) {
    p = Processor::create();
    ap = std::make_unique<AsyncProcessor>(p);
    ap->launch([&] { SimQuiet z; procTid = sim_tid(); });
    Flag f;
    p->waitableExecute([] {}).wait();
  }
  std::atomic<int> busy{starters};
  auto begin = [&](vector<std::unique_ptr<Op>> &v) { v.push_back(std::make_unique<Op>()); Op *o = v.back().get(); o->t0 = sim_now(); o->s0 = sim_seq(); return o; };
  auto end = [&](Op *o) { o->t1 = sim_now(); o->s1 = sim_seq(); };
  vector<std::thread> ths;
  for (int t = 0; t < starters; t++)
    ths.emplace_back([&, t, n = 1 + (int)sim_choose(3)] {
      for (int k = 0; k < n; k++) {
        if (sim_choose(2)) sim_sleep(sim_choose(6) * MS);
        St *s;
        {
          SimQuiet z;
          w.st.push_back(std::make_unique<St>());
          s = w.st.back().get();
          s->thread = sim_tid();
          s->iv = (sim_choose(2) ? 5 : sim_choose(30)) * MS;
          if (cyclic && s->iv == 0) s->iv = MS;
          s->t0 = sim_now();
          w.inStart++;
          s->s0 = sim_ev("start", (int64_t)w.st.size() - 1, s->iv / MS, 0, 0);
        }
        int stopSelf = (int)sim_choose(5);
        auto cb = [&, s, stopSelf] {
          {
            SimQuiet z;
            sim_ev("fire", s->iv / MS, 0, 0, 0);
            if (useExec) CHECK(sim_tid() == procTid, "wrong-thread", "the callback does not run on the executor it was given");
            else {
              CHECK(sim_tid() == s->thread, "wrong-thread", "the callback runs on the wrong thread");
              CHECK(s->t1 == INF, "late-callback", "a callback runs after start() has returned");
            }
            s->fired.push_back(sim_now());
            uint64_t n = s->fired.size();
            CHECK(sim_now() >= s->t0 + n * s->iv, "early", "expiry %llu of an interval of %llu ms comes after %llu us", (unsigned long long)n, (unsigned long long)(s->iv / MS), (unsigned long long)((sim_now() - s->t0) / 1000));
          }
          // a callback may use its timer
          if (stopSelf == 0 && !useExec) { SimQuiet z; Op *o = begin(w.stops); sim_quiet(-1); tm.stop(); sim_quiet(1); end(o); }
          if (stopSelf == 1) tm.running();
        };
        Processor::Executor ex;
        if (useExec) ex = p->getAsyncExecutor();
        if (sim_choose(2)) tm.start((long long)(s->iv / MS), cb, ex);
        else tm.start(std::chrono::milliseconds(s->iv / MS), cb, ex);
        if (useExec) p->waitableExecute([] {}).wait();
        SimQuiet z;
        s->t1 = sim_now();
        w.inStart--;
        s->s1 = sim_ev("returned", (int64_t)s->fired.size(), 0, 0, 0);
      }
      busy--;
    });
  int nh = 1 + (int)sim_choose(2);
  for (int t = 0; t < nh; t++)
    ths.emplace_back([&, n = 1 + (int)sim_choose(5)] {
      for (int k = 0; k < n; k++) {
        if (sim_choose(4)) sim_sleep(sim_choose(12) * MS + sim_choose(2) * MS / 2);
        int op = (int)sim_choose(7);
        if (op <= 2) {
          Op *o; { SimQuiet z; ev("stop"); o = begin(w.stops); }
          tm.stop();
          SimQuiet z; end(o);
        } else if (op == 3) {
          Op *o; { SimQuiet z; ev("restart"); o = begin(w.restarts); }
          tm.restart();
          SimQuiet z; end(o);
        } else if (op == 4 && !cyclic) {
          sim_clock_jump((int64_t)sim_choose(101) * (int64_t)MS - 50 * (int64_t)MS);
        } else {
          // running() against what is in progress
          uint64_t s0, t0;
          bool must = false;
          {
            SimQuiet z;
            s0 = sim_seq(); t0 = sim_now();
            // certainly waiting: began a while ago, due in a while, nobody interferes
            if (exact && starters == 1)
              for (auto &s : w.st) {
                bool touched = false;
                for (auto &o : w.stops) touched |= o->s1 >= s->s0;
                must |= s->t1 == INF && !touched && s->fired.empty() && t0 > s->t0 + MS && t0 + MS < s->t0 + s->iv;
              }
          }
          bool r = tm.running();
          SimQuiet z;
          uint64_t t1 = sim_now(), s1 = sim_seq();
          bool may = false, still = false, stopRaced = false;
          for (auto &s : w.st) { may |= s->s0 <= s1 && s->s1 >= s0; still |= s->t1 == INF && s->fired.empty() && t1 < s->t0 + s->iv; }
          for (auto &o : w.stops) stopRaced |= o->s1 >= s0;
          CHECK(!r || may, "running-wrong", "running() is true though no start is in progress");
          if (must && still && !stopRaced) CHECK(r, "running-wrong", "running() is false though a start has been waiting");
        }
      }
    });
  // whatever happened, a stop releases everybody in the end
  std::thread last([&] {
    sim_sleep((cyclic ? 200 : 400) * MS);
    for (int i = 0; i < 100 && busy.load() > 0; i++) {
      Op *o; { SimQuiet z; ev("final stop"); o = begin(w.stops); }
      tm.stop();
      { SimQuiet z; end(o); }
      sim_sleep(10 * MS);
    }
    CHECK(busy.load() == 0, "stuck", "a start does not return though stop() is called again and again");
  });
  joinAll(ths);
  last.join();
  CHECK(!tm.running(), "running-wrong", "running() is true after all starts have returned");
  if (useExec) ap->stopAndWait();
  SimQuiet z;
  for (size_t i = 0; i < w.st.size(); i++) {
    St &s = *w.st[i];
    auto ov = [&](uint64_t a, uint64_t b) { return a <= s.s1 && b >= s.s0; };
    bool stopped = false, cut = false;
    for (auto &o : w.stops) stopped |= ov(o->s0, o->s1);
    for (auto &o : w.st) cut |= o.get() != &s && ov(o->s0, o->s1);
    if (!cyclic) {
      CHECK(s.fired.size() <= 1, "fired-twice", "a single-shot SyncTimer fired %zu times", s.fired.size());
      if (s.fired.empty()) CHECK(stopped || cut, "ended-early", "start() of %llu ms returned after %llu us without expiry though nobody stopped it", (unsigned long long)(s.iv / MS), (unsigned long long)((s.t1 - s.t0) / 1000));
    } else
      CHECK(stopped || cut, "ended-early", "a cyclic start() returned though nobody stopped it");
    if (!exact) continue;
    // a stop that finds it waiting releases it at once
    uint64_t begun = s.t0 + MS;      // certainly waiting from here on
    uint64_t rel = INF;
    for (auto &o : w.stops) if (o->t0 > begun && o->t0 < rel) rel = o->t0;
    for (auto &o : w.st) if (o.get() != &s && o->t0 > begun && o->t0 < rel) rel = o->t0;
    uint64_t base = s.t0, lastR = 0;
    bool fuzzy = false;              // a restart right when it begins or expires
    for (auto &o : w.restarts) {
      if (o->t1 < s.t0 || o->t0 > s.t1) continue;
      if (o->t0 <= begun) fuzzy = true;
      lastR = std::max(lastR, o->t1);
    }
    if (s.t1 > rel) CHECK(s.t1 <= rel + 2 * MS, "not-released", "start() returned %llu us after the stop", (unsigned long long)((s.t1 - rel) / 1000));
    if (!cyclic && s.fired.size() == 1) {
      uint64_t f = s.fired[0];
      // the interval begins again at a restart that came while it waited
      for (auto &o : w.restarts) {
        if (o->t0 > begun && o->t1 + MS < f && o->t1 + MS < std::max(base, s.t0) + s.iv) { CHECK(f >= o->t1 + s.iv - MS, "restart-ignored", "the interval was not begun again by restart(): fired %llu us after it", (unsigned long long)((f - o->t1) / 1000)); base = std::max(base, o->t1); }
        else if (o->t1 > s.t0 && o->t0 < f) fuzzy = true;
      }
      CHECK(f <= std::max(base, fuzzy ? lastR : 0) + s.iv + 3 * MS, "late", "fired %llu us after it was due", (unsigned long long)((f - base - s.iv) / 1000));
      CHECK(rel == INF || f <= rel + MS, "fired-after-stop", "the callback was called %llu us after the stop", (unsigned long long)((f - rel) / 1000));
    }
    if (cyclic) {
      if (uint64_t e = std::min(rel, s.t1); !lastR && s.iv) { uint64_t n = (e - s.t0) / s.iv; CHECK(s.fired.size() + 2 + n / 10 >= n, "not-cyclic", "a cyclic SyncTimer fired %zu times in %llu ms", s.fired.size(), (unsigned long long)((e - s.t0) / MS)); }
      for (uint64_t f : s.fired) CHECK(rel == INF || f <= rel + MS, "fired-after-stop", "the callback was called %llu us after the stop", (unsigned long long)((f - rel) / 1000));
    }
  }
}
SIM_SCENARIO(c08_single, 0, 0, 0) { body(true, 1); }
SIM_SCENARIO(c08_two, 0, 0, 0) { body(true, 2); }
SIM_SCENARIO(c08_slow, SIM_F_TIMESKEW, 0, 0) { body(false, 1 + (int)sim_cfg(2)); }

// long intervals, many expiries
SIM_SCENARIO(c08_long, 0, 0, 6000000000ull) {
  static const int64_t unit[] = {1, 1000, 60000, 3600000, 86400000};
  auto tm = std::make_unique<SyncTimer>();
  for (int round = 0, nr = 1 + (int)sim_choose(3); round < nr; round++) {
    int64_t ms = (int64_t)(1 + sim_choose(12)) * unit[sim_choose(5)];
    uint64_t t0 = sim_now();
    bool cut = sim_choose(3) == 0;
    int fired = 0;
    std::thread helper;
    uint64_t at = (uint64_t)ms * MS / 2;
    std::atomic<bool> over{false};
    if (cut) helper = std::thread([&] { sim_sleep(at); while (!over) { tm->stop(); sim_sleep(MS); } });
    tm->start((long long)ms, [&] { ++fired; });
    over = true;
    uint64_t took = sim_now() - t0;
    if (cut) helper.join();
    if (cut) {
      CHECK(ms < 10 || fired == 0, "fired-after-stop", "a timer of %lld ms stopped after half of it fires", (long long)ms);
      CHECK(took <= at + 10 * MS, "not-released", "start() returned %llu ms after the stop", (unsigned long long)((took - at) / MS));
      if (ms >= 10) CHECK(took >= at, "ended-early", "a timer of %lld ms ends after %llu ms", (long long)ms, (unsigned long long)(took / MS));
    } else {
      CHECK(fired == 1, "ended-early", "start() of %lld ms returned after %llu ms, %d expiries", (long long)ms, (unsigned long long)(took / MS), fired);
      CHECK(took + MS >= (uint64_t)ms * MS, "early", "a timer of %lld ms fires after %llu ms", (long long)ms, (unsigned long long)(took / MS));
      CHECK(took <= (uint64_t)ms * MS + 10 * MS, "late", "a timer of %lld ms fires after %llu ms", (long long)ms, (unsigned long long)(took / MS));
    }
  }
}
