// C01: a running processor executes every accepted task exactly once, in order.
#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>

#include "common.h"

#include <deque>
using namespace maf::messaging;

namespace {
struct TaskRec {
  int poster, n, api;
  bool inlined;        // handed over by the processor's own thread with an inline api
  bool accepted = false;
  uint64_t inv = 0, ret = 0;
  vector<std::pair<uint64_t, uint64_t>> runs;  // begin/end seq
  int tid = -1;
  int key = 0;         // submitting thread
};
enum Api { EXEC, ASYNC, WAITABLE, EXECUTOR, AEXECUTOR, BEXECUTOR, WILL, WILLASYNC, WILLBLOCK, WAITRET, NAPI };
const char *apin[] = {"execute", "executeAsync", "waitableExecute", "getExecutor()->execute", "getAsyncExecutor()->execute",
                      "getBlockingExecutor()->execute", "willExecuteOnThis", "willAsyncExecuteOnThis", "willBlockingExecuteOnThis", "waitableExecute(result)"};
struct World {
  vector<std::unique_ptr<TaskRec>> all;
  int running = 0;      // depth
  int runnerTid = -1;
  TaskRec *add(int poster, int api) {
    SimQuiet z;
    all.push_back(std::make_unique<TaskRec>());
    auto r = all.back().get();
    r->poster = poster;
    r->n = (int)all.size() - 1;
    r->api = api;
    r->key = sim_tid();
    return r;
  }
  void begin(TaskRec *r, bool nestedOk) {
    SimQuiet z;
    uint64_t s = sim_ev("begin", r->n, r->api, 0, 0);
    if (runnerTid < 0) runnerTid = sim_tid();
    CHECK(runnerTid == sim_tid(), "wrong-thread", "task %d (%s) runs on T%d, the processor runs on T%d", r->n, apin[r->api], sim_tid(), runnerTid);
    CHECK(r->runs.empty(), "executed-twice", "task %d (%s) is executed a second time", r->n, apin[r->api]);
    CHECK(running == 0 || nestedOk, "concurrent", "task %d (%s) starts while another task of the processor is executing", r->n, apin[r->api]);
    running++;
    r->tid = sim_tid();
    r->runs.push_back({s, 0});
  }
  void end(TaskRec *r) {
    SimQuiet z;
    running--;
    r->runs.back().second = sim_ev("end", r->n, r->api, 0, 0);
  }
};
// Hands one task over through the given api. onProc: called by the processor's own thread.
void submit(World &w, const ProcessorInstance &p, int poster, int api, bool onProc, int depth, bool mustAccept) {
  TaskRec *r = w.add(poster, api);
  bool inl = onProc && (api == EXEC || api == WAITABLE || api == EXECUTOR || api == BEXECUTOR || api == WILL || api == WILLBLOCK || api == WAITRET);
  r->inlined = inl;
  int sub = depth < 2 ? (int)sim_choose(4) : 0;   // nested submissions
  int subApi = sub ? (int)sim_choose(NAPI) : 0;
  int slow = (int)sim_choose(5);
  auto body = [&w, r, p = std::weak_ptr<Processor>(p), inl, sub, subApi, poster, depth, slow, mustAccept] {
    w.begin(r, inl);
    if (slow == 1) sim_sleep(2 * MS);
    if (slow == 2) sim_yield();
    if (sub == 1)
      if (auto q = p.lock()) submit(w, q, poster, subApi, true, depth + 1, mustAccept);
    w.end(r);
  };
  { SimQuiet z; r->inv = sim_ev("hand", r->n, api, onProc, 0); }
  bool ok = true;
  bool tp = onProc && sim_choose(3) == 0;   // through this_processor
  if (onProc)
    CHECK(this_processor::instance() == p && this_processor::ref().lock() == p && this_processor::id() == p->id() && (!mustAccept || !this_processor::stopped()),
          "wrong-thread", "this_processor is not the processor that executes the task");
  else if (sim_choose(8) == 0)
    CHECK(!this_processor::instance() && this_processor::ref().expired() && this_processor::id().empty() && !this_processor::stopped() &&
              !this_processor::execute(body) && !this_processor::executeAsync(body) && !this_processor::waitableExecute(body).valid() &&
              !this_processor::getExecutor() && !this_processor::getAsyncExecutor() && !this_processor::getWaitableExecutor() &&
              !this_processor::willExecuteOnThis(body) && !this_processor::willAsyncExecuteOnThis(body) && !this_processor::willBlockingExecuteOnThis(body),
          "wrong-thread", "a thread that drives no processor has a this_processor");
  switch (api) {
    case EXEC: ok = tp ? this_processor::execute(body) : p->execute(body); break;
    case ASYNC: ok = tp ? this_processor::executeAsync(body) : p->executeAsync(body); break;
    case WAITABLE: {
      auto s = tp ? this_processor::waitableExecute(body) : p->waitableExecute(body);
      ok = s.valid();
      if (ok && sim_choose(2)) {
        s.wait();
        SimQuiet z;
        CHECK(!mustAccept || (r->runs.size() == 1 && r->runs[0].second), "signal-early", "waitableExecute of task %d was signalled before the task ended", r->n);
      }
      break;
    }
    case EXECUTOR: ok = (tp ? this_processor::getExecutor() : p->getExecutor())->execute(body); break;
    case AEXECUTOR: ok = (tp ? this_processor::getAsyncExecutor() : p->getAsyncExecutor())->execute(body); break;
    case BEXECUTOR: ok = (tp ? this_processor::getWaitableExecutor() : p->getBlockingExecutor())->execute(body); break;
    case WILL: (tp ? this_processor::willExecuteOnThis(body) : p->willExecuteOnThis(body))(); break;
    case WILLASYNC: (tp ? this_processor::willAsyncExecuteOnThis(body) : p->willAsyncExecuteOnThis(body))(); break;
    case WILLBLOCK: (tp ? this_processor::willBlockingExecuteOnThis(body) : p->willBlockingExecuteOnThis(body))(); break;
    case WAITRET: {
      int n = r->n;
      int v = p->waitableExecute([&body, n] { body(); return n + 1000; });
      CHECK(v == n + 1000, "wrong-result", "waitableExecute returned %d instead of %d", v, n + 1000);
      break;
    }
  }
  SimQuiet z;
  r->accepted = ok;
  r->ret = sim_ev("handed", r->n, api, ok, 0);
  CHECK(ok || !mustAccept, "refused", "%s refused task %d although the processor was not stopped", apin[api], r->n);
  if (inl || api == BEXECUTOR || api == WILLBLOCK || api == WAITRET)
    CHECK(r->runs.size() == 1 && r->runs[0].second && r->runs[0].second < r->ret, "not-executed-before-return",
          "%s of task %d returned before the task was executed", apin[api], r->n);
}
bool allDone(World &w) {
  for (auto &r : w.all)
    if (r->accepted && (r->runs.empty() || !r->runs[0].second)) return false;
  return true;
}
void verify(World &w) {
  SimQuiet z;
  // per submitting thread: order of queued tasks = order handed over
  std::map<int, TaskRec *> last;
  vector<TaskRec *> v;
  for (auto &r : w.all)
    if (!r->inlined && r->runs.size() == 1) v.push_back(r.get());
  std::sort(v.begin(), v.end(), [](auto *a, auto *b) { return a->runs[0].first < b->runs[0].first; });
  for (auto *r : v) {
    auto &l = last[r->key];
    if (l && l->inv > r->inv) 
      sim_fail("order", "task %d (%s) was handed over before task %d (%s) by the same thread but executed after it", r->n, apin[r->api], l->n, apin[l->api]);
    l = r;
  }
  for (auto &r : w.all)
    CHECK(!r->accepted || r->runs.size() == 1, "not-executed", "accepted task %d (%s) was executed %zu times", r->n, apin[r->api], r->runs.size());
}
}  // namespace

SIM_SCENARIO(c01_once_in_order, 0, 0, 0) {
  auto w = std::make_unique<World>();
  auto p = Processor::create(sim_cfg(2) ? "proc" : "");
  int np = 1 + (int)sim_choose(3);
  int how = (int)sim_cfg(3);
  std::thread runner([&] {
    if (how == 0) p->run();
    else if (how == 1) p->runFor(std::chrono::hours(1));
    else { bool init = false; p->run([&] { init = true; }, [&] { init = false; }); CHECK(!init, "deinit", "run returned without calling its deinit function"); }
    ev("run-returned");
  });
  vector<std::thread> ths;
  for (int i = 0; i < np; i++)
    ths.emplace_back([&, i] {
      int n = 1 + (int)sim_choose(4);
      for (int k = 0; k < n; k++) submit(*w, p, i, (int)sim_choose(NAPI), false, 0, true);
    });
  joinAll(ths);
  bool ok = waitFor([&] { return allDone(*w); }, 60000 * MS);
  CHECK(ok, "not-executed", "accepted tasks are still not executed when nothing else can run");
  p->stop();
  runner.join();
  verify(*w);
}

// wrappers produced by will*OnThis can be called again and again, from any thread
SIM_SCENARIO(c01_wrappers, 0, 0, 0) {
  auto p = Processor::create();
  std::thread runner([&] { p->run(); });
  int total[3] = {};
  int expect[3] = {};
  bool bad = false;
  int rt = -1;
  auto body = [&](int i) {
    return [&, i, data = std::make_shared<int>(i + 7)] {
      SimQuiet z;
      if (rt < 0) rt = sim_tid();
      if (rt != sim_tid() || *data != i + 7) bad = true;
      total[i]++;
      ev("ran", i);
    };
  };
  Execution e[3] = {p->willExecuteOnThis(body(0)), p->willAsyncExecuteOnThis(body(1)), p->willBlockingExecuteOnThis(body(2))};
  vector<std::thread> ths;
  int np = 1 + (int)sim_choose(2);
  for (int t = 0; t < np; t++)
    ths.emplace_back([&, own = std::vector<Execution>(e, e + 3)] {
      int n = 1 + (int)sim_choose(4);
      for (int k = 0; k < n; k++) {
        int i = (int)sim_choose(3);
        { SimQuiet z; expect[i]++; ev("call", i); }
        own[i]();
      }
    });
  joinAll(ths);
  bool ok = waitFor([&] { return total[0] >= expect[0] && total[1] >= expect[1] && total[2] >= expect[2]; }, 10000 * MS);
  p->stop();
  runner.join();
  CHECK(!bad, "wrong-thread", "a wrapper's task ran on another thread or with lost state");
  for (int i = 0; i < 3; i++)
    CHECK(ok && total[i] == expect[i], "not-executed", "wrapper kind %d was called %d times and its task executed %d times", i, expect[i], total[i]);
  Execution late = e[0];
  p.reset();
  late();  // the processor is gone: must do nothing
  CHECK(total[0] == expect[0], "executed-twice", "a wrapper executed its task after its processor was destroyed");
}

// two processors handing tasks to each other
SIM_SCENARIO(c01_pingpong, 0, 0, 0) {
  AsyncProcessor a{Processor::create("a")}, b{Processor::create()};
  int n = 1 + (int)sim_choose(6);
  std::atomic<int> hops{0};
  int ta = -1, tb = -1;
  std::function<void(int)> hop = [&](int k) {
    {
      SimQuiet z;
      int &t = (k & 1) ? tb : ta;
      if (t < 0) t = sim_tid();
      CHECK(t == sim_tid(), "wrong-thread", "hop %d on T%d", k, sim_tid());
      ev("hop", k);
    }
    CHECK(this_processor::instance().get() == ((k & 1) ? &*b : &*a), "wrong-thread", "this_processor is not the processor that executes the task");
    hops++;
    if (k >= n) return;
    auto &o = (k & 1) ? a : b;
    switch (sim_choose(4)) {
      case 0: o->execute([&, k] { hop(k + 1); }); break;
      case 1: o->executeAsync([&, k] { hop(k + 1); }); break;
      case 2: o->getExecutor()->execute([&, k] { hop(k + 1); }); break;
      default: o->willExecuteOnThis([&, k] { hop(k + 1); })(); break;
    }
  };
  a.launch();
  b.launch();
  a->execute([&] { hop(0); });
  bool ok = waitFor([&] { return hops.load() == n + 1; }, 10000 * MS);
  CHECK(ok, "not-executed", "%d of %d hops executed", hops.load(), n + 1);
  a.stopAndWait();
  b.stopAndWait();
}

// the processor is driven by one thread after the other; a thread that drove it before hands tasks over like any other
SIM_SCENARIO(c01_driver_changes, 0, 0, 0) {
  auto w = std::make_unique<World>();
  auto p = Processor::create(sim_cfg(2) ? "proc" : "");
  auto other = Processor::create();
  int np = 1 + (int)sim_choose(3);
  auto drive = [&](int how) {
    { SimQuiet z; w->runnerTid = sim_tid(); ev("drive", how); }
    switch (how) {
      case 0: p->runOnceFor(2ms); break;
      case 1: p->runFor(3ms); break;
      case 2: p->runOnceUntil(std::chrono::system_clock::now() + 1ms); break;
      default: p->runUntil(std::chrono::system_clock::now() + 2ms); break;
    }
    SimQuiet z;
    w->runnerTid = -2;
    ev("driven", how);
  };
  auto alien = [&] {   // this thread drives another processor for a moment
    if (sim_choose(2)) other->executeAsync([] {});
    if (sim_choose(2)) other->runOnceFor(1ms); else other->runFor(1ms);
  };
  for (int k = 0; k < np; k++) {
    int n = (int)sim_choose(3);
    for (int i = 0; i < n; i++) p->executeAsync([&w = *w, r = w->add(0, ASYNC)] { w.begin(r, false); w.end(r); });
    { SimQuiet z; for (auto &r : w->all) r->accepted = true; }
    int how = (int)sim_choose(4);
    if (sim_choose(2)) drive(how);
    else std::thread([&] { drive(how); if (sim_choose(3) == 0) alien(); }).join();
    if (sim_choose(3) == 0) alien();
  }
  { SimQuiet z; w->runnerTid = -1; }
  std::thread runner([&] { { SimQuiet z; w->runnerTid = sim_tid(); } p->run(); });
  bool up = waitFor([&] { return w->runnerTid >= 0; }, 1000 * MS);
  CHECK(up, "not-executed", "the driving thread did not start");
  vector<std::thread> ths;
  int nt = (int)sim_choose(2);
  for (int i = 0; i < nt; i++)
    ths.emplace_back([&, i] {
      if (sim_choose(2)) alien();
      int n = 1 + (int)sim_choose(3);
      for (int k = 0; k < n; k++) submit(*w, p, i + 1, (int)sim_choose(NAPI), false, 0, true);
    });
  int n = 1 + (int)sim_choose(4);
  for (int k = 0; k < n; k++) submit(*w, p, 0, (int)sim_choose(NAPI), false, 0, true);
  joinAll(ths);
  bool ok = waitFor([&] { return allDone(*w); }, 60000 * MS);
  CHECK(ok, "not-executed", "accepted tasks are still not executed when nothing else can run");
  p->stop();
  runner.join();
  verify(*w);
}

// no memory: a task is executed exactly if it was accepted
SIM_SCENARIO(c01_scarce, 0, 0, 0) {
  auto p = Processor::create(sim_cfg(2) ? "proc" : "");
  struct R { int runs = 0; int state = 0; };   // state: 1 accepted, -1 refused, 2 signalled
  std::deque<R> recs;
  int rt = -1;
  std::thread runner([&] { p->run(); });
  int np = 1 + (int)sim_choose(3);
  vector<std::thread> ths;
  for (int t = 0; t < np; t++)
    ths.emplace_back([&] {
      for (int n = 1 + (int)sim_choose(5); n > 0; n--) {
        R *r; int id;
        { SimQuiet z; recs.emplace_back(); r = &recs.back(); id = (int)recs.size() - 1; }
        auto body = [&rt, r, id] {
          SimQuiet z;
          sim_ev("begin", id, 0, 0, 0);
          if (rt < 0) rt = sim_tid();
          CHECK(rt == sim_tid(), "wrong-thread", "a task runs on T%d", sim_tid());
          CHECK(++r->runs == 1, "executed-twice", "task %d is executed a second time", id);
          CHECK(r->state != -1, "refused-but-executed", "task %d is executed though it was refused", id);
        };
        auto ex = p->getExecutor(), ax = p->getAsyncExecutor(), bx = p->getBlockingExecutor();
        int api = (int)sim_choose(7);
        int ok = -1;
        Processor::CompleteSignal s;
        sim_alloc_faults(1, 1 + sim_choose(6));
        try {
          switch (api) {
            case 0: ok = p->execute(body); break;
            case 1: ok = p->executeAsync(body); break;
            case 2: s = p->waitableExecute(body); ok = 2; break;
            case 3: ok = ex->execute(body); break;
            case 4: ok = ax->execute(body); break;
            case 5: { p->willExecuteOnThis(body)(); ok = 3; break; }
            case 6: { auto v = p->waitableExecute([&] { body(); return id; }); CHECK(v == id, "wrong-result", "%d instead of %d", v, id); ok = 1; break; }
          }
        } catch (const std::bad_alloc &) {
          ok = 0;
        } catch (const std::future_error &) {
          ok = 0;
        }
        sim_alloc_faults(0, 1);
        if (ok == 2) {
          CHECK(s.valid(), "refused", "waitableExecute gives no signal though the processor is not stopped");
          try { s.get(); ok = 1; } catch (const std::future_error &) { ok = 0; }
          SimQuiet z;
          CHECK(r->runs == ok, "signal-early", "the signal of task %d says that it was %sexecuted", id, ok ? "" : "not ");
        }
        SimQuiet z;
        sim_ev("handed", id, api, ok, 0);
        if (ok == 3) continue;             // cannot be told
        CHECK(ok || !r->runs, "refused-but-executed", "task %d was executed though it was refused", id);
        r->state = ok ? 1 : -1;
      }
    });
  joinAll(ths);
  bool ok = waitFor([&] { for (auto &r : recs) if (r.state == 1 && !r.runs) return false; return true; }, 60000 * MS);
  CHECK(ok, "not-executed", "accepted tasks are still not executed when nothing else can run");
  p->stop();
  runner.join();
}

// a new processor takes the name of one that has stopped, whose thread still goes on
SIM_SCENARIO(c01_successor, 0, 0, 0) {
  auto p1 = Processor::create("same");
  ProcessorInstance p2;
  std::atomic<int> ran{0}, given{0};
  std::thread second;
  int t2 = -1;
  auto body = [&] {
    { SimQuiet z; sim_ev("ran", 0, 0, 0, 0); CHECK(sim_tid() == t2, "wrong-thread", "a task of the new processor runs on T%d instead of T%d", sim_tid(), t2); }
    CHECK(this_processor::instance() == p2, "wrong-thread", "this_processor is another processor");
    ran++;
  };
  p1->executeAsync([&] {
    p1->stop();
    p2 = Processor::create("same");
    CHECK(p2, "create", "the name of a stopped processor cannot be taken");
    std::atomic<bool> up{false};
    second = std::thread([&] { { SimQuiet z; t2 = sim_tid(); } up = true; p2->run(); });
    while (!up.load()) sim_yield();
    for (int n = 1 + (int)sim_choose(3); n > 0; n--) {
      given++;
      switch (sim_choose(6)) {
        case 0: p2->execute(body); break;
        case 1: p2->executeAsync(body); break;
        case 2: p2->waitableExecute(body).wait(); CHECK(ran.load() == given.load(), "signal-early", "signalled before the task ended"); break;
        case 3: p2->getExecutor()->execute(body); break;
        case 4: p2->getBlockingExecutor()->execute(body); CHECK(ran.load() == given.load(), "not-executed-before-return", "the blocking executor returned before the task was executed"); break;
        case 5: p2->willBlockingExecuteOnThis(body)(); CHECK(ran.load() == given.load(), "not-executed-before-return", "the blocking wrapper returned before the task was executed"); break;
      }
    }
  });
  p1->run();
  CHECK(waitFor([&] { return ran.load() == given.load(); }, 10000 * MS), "not-executed", "accepted tasks are still not executed when nothing else can run");
  p2->stop();
  second.join();
}

// many tasks waiting at once, few operations otherwise
SIM_SCENARIO(c01_many, 0, 0, 0) {
  auto p = Processor::create();
  int nt = 1 + (int)sim_choose(2), runTid = -1;
  struct Per { int n = 0, next = 0; };
  auto per = std::make_unique<vector<Per>>(3);
  auto *pp = per->data();
  for (int t = 0; t < nt; t++) pp[t].n = 1 + (int)sim_choose(150);
  auto give = [&](int t) {
    for (int i = 0; i < pp[t].n; i++) {
      auto body = [&runTid, pp, t, i] {
        SimQuiet z;
        if (runTid < 0) runTid = sim_tid();
        CHECK(runTid == sim_tid(), "wrong-thread", "a task runs on the wrong thread");
        CHECK(pp[t].next == i, "order", "task %d of thread %d is executed when %d is due", i, t, pp[t].next);
        pp[t].next++;
      };
      bool ok = sim_choose(2) ? p->executeAsync(body) : p->execute(body);
      CHECK(ok, "refused", "a task was refused");
    }
  };
  vector<std::thread> ths;
  bool before = sim_cfg(2);
  std::thread runner;
  if (!before) runner = std::thread([&] { p->run(); });
  for (int t = 0; t < nt; t++) ths.emplace_back([&, t] { give(t); });
  if (before) {
    joinAll(ths);
    int all = 0;
    for (int t = 0; t < nt; t++) all += pp[t].n;
    CHECK((int)p->pendingCout() == all, "pending", "%zu tasks are waiting instead of %d", p->pendingCout(), all);
    runner = std::thread([&] { p->run(); });
  }
  joinAll(ths);
  bool ok = waitFor([&] { for (int t = 0; t < nt; t++) if (pp[t].next != pp[t].n) return false; return true; }, 60000 * MS);
  CHECK(ok, "not-executed", "not all of many tasks were executed: %d of %d, %d of %d", pp[0].next, pp[0].n, pp[1].next, pp[1].n);
  p->stop();
  runner.join();
}
