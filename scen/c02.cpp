// C02: stopping a processor ends its run and releases everything waiting on it.
#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/Routing.h>

#include <mutex>

#include "common.h"
using namespace maf::messaging;

namespace {
struct M1 { int v; };
struct Rec { bool accepted = false; int runs = 0; uint64_t inv = 0, begin = 0; int gen = 0, id = 0; };
struct World {
  vector<std::unique_ptr<Rec>> r;
  std::shared_ptr<int> token = std::make_shared<int>(0);
  uint64_t stopRet = ~0ull;
  int startedAfterStop = 0;
  int gen = 0;
  Rec *add() { SimQuiet z; r.push_back(std::make_unique<Rec>()); r.back()->gen = gen; r.back()->id = (int)r.size() - 1; r.back()->inv = sim_ev("hand", (int)r.size() - 1, 0, 0, 0); return r.back().get(); }
};
}  // namespace

static void body(bool named) {
  auto w = std::make_unique<World>();
  auto p = Processor::create(named ? "victim" : "");
  int np = 1 + (int)sim_choose(3);
  int how = (int)sim_cfg(4);
  int rounds = 1 + (int)sim_choose(2);
  auto con = p->connect<M1>([&](const M1 &m) {
    SimQuiet z;
    auto r = w->r[m.v].get();
    r->runs++;
    r->begin = sim_ev("begin", m.v, r->gen, 0, 0);
    if (r->begin > w->stopRet) w->startedAfterStop++;
    CHECK(r->gen == w->gen, "stale-task", "message %d of generation %d is handled in generation %d", m.v, r->gen, w->gen);
  });
  auto runFn = [&] {
    switch (how) {
      case 0: p->run(); break;
      case 1: while (!p->stopped()) p->runFor(std::chrono::hours(2)); break;
      case 2: while (!p->stopped()) p->runUntil(std::chrono::system_clock::now() + std::chrono::hours(2)); break;
      default: while (!p->stopped()) p->runOnceFor(std::chrono::seconds(100)); break;
    }
    ev("run-returned");
  };
  for (int g = 0; g < rounds; g++) {
    { SimQuiet z; w->gen = g; w->stopRet = ~0ull; w->startedAfterStop = 0; }
    if (g) p->reuse();
    CHECK(!p->stopped(), "reuse", "the processor reports stopped after %s", g ? "reuse" : "creation");
    bool early = sim_choose(6) == 0;   // stop possibly before run starts
    std::thread runner;
    if (!early) runner = std::thread(runFn);
    int stopBy = (int)sim_choose(4);   // 0 main, 1 a poster, 2 a task, 3 two threads
    vector<std::thread> ths;
    auto doStop = [&] {
      ev("stop");
      p->stop();
      SimQuiet z;
      uint64_t s = sim_ev("stopped", g, 0, 0, 0);
      if (w->stopRet == ~0ull) w->stopRet = s;
    };
    for (int i = 0; i < np; i++)
      ths.emplace_back([&, i] {
        int n = 1 + (int)sim_choose(4);
        for (int k = 0; k < n; k++) {
          Rec *r = w->add();
          int slow = (int)sim_choose(4);
          auto task = [&, r, slow, tok = w->token, stopHere = (stopBy == 2 && i == 0 && k == n - 1)] {
            {
              SimQuiet z;
              r->runs++;
              r->begin = sim_ev("begin", 0, r->gen, 0, 0);
              if (r->begin > w->stopRet) w->startedAfterStop++;
              CHECK(r->gen == w->gen, "stale-task", "a task handed over in generation %d is executed in generation %d", r->gen, w->gen);
            }
            if (slow == 1) sim_sleep(3 * MS);
            if (stopHere) {
              CHECK(this_processor::instance() == p, "instance", "this_processor::instance() is not the processor that executes the task");
              this_processor::stop();
              CHECK(this_processor::stopped() && p->stopped(), "not-stopped", "stopped() is false after this_processor::stop()");
            }
            if (p->stopped() && sim_choose(2)) {
              // the stop came while this task was running: it too hands over nothing any more
              int api = (int)sim_choose(5);
              auto stale = [] { SimQuiet z; sim_fail("accepted-after-stop", "what a task handed over to its own stopped processor was executed"); };
              bool ok = api == 0 ? p->execute(stale) : api == 1 ? p->executeAsync(stale) : api == 2 ? p->waitableExecute(stale).valid() : api == 3 ? p->post<M1>(r->id) : p->getExecutor()->execute(stale);
              CHECK(!ok, "accepted-after-stop", "api %d of a stopped processor accepted what its own task handed over", api);
            }
          };
          bool ok = false;
          Processor::CompleteSignal s;
          int api = (int)sim_choose(7);
          switch (api) {
            case 0: ok = p->execute(task); break;
            case 1: ok = p->executeAsync(task); break;
            case 2: s = p->waitableExecute(task); ok = s.valid(); break;
            case 3: p->getBlockingExecutor()->execute(task); ok = true; break;
            case 4: ok = p->post<M1>(r->id); break;
            case 5: s = p->waitablePost<M1>(r->id); ok = s.valid(); break;
            case 6: ok = p->getAsyncExecutor()->execute(task); break;
          }
          {
            SimQuiet z;
            r->accepted = ok && api != 3;
            sim_ev("handed", api, ok, 0, 0);
            if (r->inv > w->stopRet && ok && api != 3)
              sim_fail("accepted-after-stop", "api %d accepted a task handed over after stop() had returned", api);
          }
          if (s.valid()) {
            if (sim_choose(2)) s.wait();
            else { try { s.get(); CHECK(r->runs == 1, "signal-early", "a completion signal reported success for a task that did not run"); } catch (const std::future_error &) { CHECK(r->runs == 0, "signal-wrong", "a completion signal reported a broken promise for a task that ran"); } }
          }
          if (stopBy == 1 && i == 0 && k == n / 2) doStop();
          if (stopBy == 3 && i < 2 && k == n / 2) doStop();
        }
      });
    if (sim_choose(2)) sim_sleep(sim_choose(6) * MS);
    // the run has to end by itself once stop was called, however things interleave
    if (stopBy == 0 || stopBy == 2) doStop();
    if (early) runner = std::thread(runFn);
    runner.join();
    joinAll(ths);
    if (stopBy == 1 || stopBy == 3) { SimQuiet z; CHECK(w->stopRet != ~0ull, "harness", "nobody stopped"); }
    CHECK(p->stopped(), "not-stopped", "stopped() is false after stop()");
    CHECK(p->pendingCout() == 0, "still-pending", "%zu tasks are waiting after stop()", p->pendingCout());
    {
      SimQuiet z;
      CHECK(w->startedAfterStop <= 1, "task-after-stop", "%d tasks started after stop() had returned", w->startedAfterStop);
    }
    size_t before = sim_seq();
    (void)before;
    int runs0 = 0, runs1 = 0;
    { SimQuiet z; for (auto &r : w->r) runs0 += r->runs; }
    sim_settle(1000 * MS);
    {
      SimQuiet z;
      for (auto &r : w->r) runs1 += r->runs;
      CHECK(runs0 == runs1, "task-after-run", "a task was executed after run() had returned");
      for (auto &r : w->r) CHECK(r->runs <= 1, "executed-twice", "a task ran %d times", r->runs);
    }
    CHECK(!p->execute([] {}) && !p->executeAsync([] {}) && !p->waitableExecute([] {}).valid() && !p->post<M1>(M1{0}) && !p->waitablePost<M1>(0).valid(), "accepted-after-stop", "a stopped processor accepted work");
    {
      SimQuiet z;
      CHECK(w->token.use_count() == 1, "leaked-task", "%ld tasks (or what they captured) are still alive after the processor stopped and returned", w->token.use_count() - 1);
    }
  }
  // a final generation that must work normally
  { SimQuiet z; w->gen = 99; w->stopRet = ~0ull; }
  p->reuse();
  std::thread runner(runFn);
  std::atomic<int> done{0};
  int n = 1 + (int)sim_choose(3);
  for (int i = 0; i < n; i++) CHECK(p->executeAsync([&] { done++; }), "refused", "executeAsync refused after reuse()");
  bool ok = waitFor([&] { return done.load() == n; }, 10000 * MS);
  CHECK(ok, "not-executed", "%d of %d tasks handed over after reuse() were executed", done.load(), n);
  p->stop();
  runner.join();
}
SIM_SCENARIO(c02_stop, 0, 0, 0) { body(false); }
SIM_SCENARIO(c02_stop_named, SIM_F_TIMESKEW, 0, 0) { body(true); }

// a processor destroyed without having run releases its waiters
SIM_SCENARIO(c02_destroy, 0, 0, 0) {
  auto p = Processor::create();
  std::weak_ptr<Processor> wp = p;
  int n = 1 + (int)sim_choose(3);
  vector<Processor::CompleteSignal> sigs;
  auto tok = std::make_shared<int>(1);
  std::atomic<int> ran{0};
  for (int i = 0; i < n; i++) sigs.push_back(p->waitableExecute([tok, &ran] { ran++; }));
  auto ex = p->getBlockingExecutor();
  auto de = p->getExecutor();
  bool viaStop = sim_choose(2);
  std::thread t([&] {
    for (auto &s : sigs) { CHECK(s.valid(), "refused", "a processor that was not stopped refused a task"); s.wait(); ev("released"); }
  });
  // a blocked executor call keeps its processor alive, only stop() can release it
  std::thread t2([&] { if (viaStop) ex->execute([&ran] { ran++; }); ev("blocking-released"); });
  if (sim_choose(2)) sim_sleep(1 * MS);
  if (viaStop) p->stop();
  p.reset();
  t.join();
  t2.join();
  CHECK(wp.expired(), "leaked-processor", "the processor is kept alive by its own tasks or executors");
  CHECK(ran == 0, "executed", "a task was executed though the processor never ran");
  sigs.clear();
  CHECK(tok.use_count() == 1, "leaked-task", "tasks of a destroyed processor are still alive");
  CHECK(!de->execute([] {}), "executor-lies", "an executor of a destroyed processor reports success");
}

// AsyncProcessor: launch / stopAndWait / relaunch
SIM_SCENARIO(c02_async_processor, 0, 0, 0) {
  AsyncProcessor ap{Processor::create(sim_cfg(2) ? "ap" : "")};
  int rounds = 1 + (int)sim_choose(3);
  bool deinit = false;
  for (int g = 0; g < rounds; g++) {
    std::atomic<int> n{0};
    deinit = false;
    ap.launch([] { ev("init"); }, [&] { ev("deinit"); deinit = true; });
    CHECK(ap.running(), "launch", "running() is false after launch");
    if (sim_choose(3) == 0) ap.launch([] { sim_fail("launch", "a processor that is running was launched once more"); });   // does nothing
    std::thread t([&] { for (int i = 0; i < 3; i++) ap->executeAsync([&] { n++; }); });
    if (sim_choose(2)) sim_sleep(sim_choose(3) * MS);
    if (sim_choose(4) == 0) ap->stop();
    ap.stopAndWait();
    CHECK(!ap.running(), "launch", "running() is true after stopAndWait");
    CHECK(deinit, "deinit", "the thread's deinit function was not called");
    t.join();
    ap->reuse();
  }
}

// What tasks own may use the processor, or a lock held by those who do, while it is destroyed
namespace {
struct Haunted {
  std::recursive_mutex m;
  std::atomic<int> alive{0}, ran{0};
  std::atomic<bool> over{false};
  Processor *p;
};
struct GM { GhostPtr g; };
GhostPtr haunt(Haunted &h, int depth) {
  int what = (int)sim_choose(8);
  h.alive++;
  return std::make_shared<Ghost>([&h, what, depth] {
    h.alive--;
    if (what == 2 || h.over) {
      std::lock_guard l(h.m);
      sim_yield();
      return;
    }
    switch (what) {
      case 0: if (depth) h.p->executeAsync([g = haunt(h, depth - 1), &h] { h.ran++; }); break;
      case 1: h.p->pendingCout(); break;
      case 3: if (depth) h.p->post<GM>(haunt(h, depth - 1)); break;
      case 4: h.p->waitableExecute([&h] { h.ran++; }); break;
      case 5: h.p->execute([&h] { h.ran++; }); break;
      case 6: if (sim_choose(4) == 0) h.p->stop(); break;
      case 7: h.p->connected<GM>(); break;
    }
  });
}
}  // namespace
SIM_SCENARIO(c02_ghosts, SIM_F_TIMESKEW, 0, 0) {
  auto hp = std::make_unique<Haunted>();
  Haunted &h = *hp;
  auto p = Processor::create(sim_cfg(2) ? "haunted" : "");
  h.p = p.get();
  p->connect<GM>([&h](const GM &) { h.ran++; });
  std::atomic<bool> ended{false};
  int how = (int)sim_choose(3);
  std::thread runner([&] {
    switch (how) {
      case 0: p->run(); break;
      case 1: while (!p->stopped()) p->runFor(std::chrono::milliseconds(1 + sim_choose(3))); break;
      case 2: while (!p->stopped()) p->runOnceFor(std::chrono::milliseconds(1 + sim_choose(3))); break;
    }
    ended = true;
  });
  vector<std::thread> ths;
  for (int t = 0, n = 1 + (int)sim_choose(3); t < n; t++)
    ths.emplace_back([&] {
      for (int i = 0, k = 1 + (int)sim_choose(6); i < k; i++) {
        std::unique_lock l(h.m, std::defer_lock);
        if (sim_choose(2)) l.lock();
        auto g = haunt(h, 2);
        switch (sim_choose(4)) {
          case 0: p->executeAsync([g = std::move(g), &h] { h.ran++; }); break;
          case 1: p->post<GM>(std::move(g)); break;
          case 2: p->waitableExecute([g = std::move(g), &h] { h.ran++; }); break;
          case 3: p->getExecutor()->execute([g = std::move(g), &h] { h.ran++; }); break;
        }
        if (l) l.unlock();
        if (sim_choose(3) == 0) sim_sleep(sim_choose(3) * MS);
      }
    });
  if (sim_choose(2)) joinAll(ths);
  { SimQuiet z; sim_ev("stop", 0, 0, 0, 0); }
  p->stop();
  CHECK(waitFor([&] { return ended.load(); }, 60000 * MS), "stuck", "the run does not end after stop");
  joinAll(ths);
  runner.join();
  if (sim_choose(2)) {   // tasks that wait in a processor nobody runs any more
    p->reuse();
    for (int i = 0, k = (int)sim_choose(4); i < k; i++) p->executeAsync([g = haunt(h, 1), &h] { h.ran++; });
    if (sim_choose(2)) p->stop();
  }
  h.over = true;
  p.reset();
  CHECK(h.alive == 0, "leaked-task", "%d objects owned by tasks are still alive after their processor was destroyed", h.alive.load());
}
