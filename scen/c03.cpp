// C03: completion signals fire exactly when their task is done.
#include "common.h"

#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/MsgConnectionGroup.h>
#include <maf/messaging/Routing.h>


using namespace maf::messaging;

namespace {
struct Oops { int id; };
struct Msg { int id; };
struct Job {
  int id, slow, handlers = 1, thrower = 0;
  bool throws = false;
  int begun = 0, ended = 0;
};
struct World {
  vector<std::unique_ptr<Job>> jobs;
  Job *add(int handlers, bool mayThrow) {
    SimQuiet z;
    jobs.push_back(std::make_unique<Job>());
    auto j = jobs.back().get();
    j->id = (int)jobs.size() - 1;
    j->handlers = handlers;
    j->thrower = handlers - 1;
    j->slow = (int)sim_choose(4);
    j->throws = mayThrow && sim_choose(4) == 0;
    return j;
  }
  void work(int id, int part) {
    Job *j;
    { SimQuiet z; j = jobs[id].get(); j->begun++; sim_ev("begin", id, part, 0, 0); }
    if (j->slow == 1) sim_sleep(3 * MS);
    if (j->slow == 2) for (int i = 0; i < 5; i++) sim_yield();
    { SimQuiet z; j->ended++; sim_ev("end", id, part, 0, 0); }
    if (j->throws && part == j->thrower) throw Oops{j->id};
  }
};
void done(Job *j, const char *how) {
  SimQuiet z;
  sim_ev("ready", j->id, 0, 0, 0);
  CHECK(j->ended == j->handlers && j->begun == j->handlers, "signal-early", "%s: ready although %d of %d parts of job %d have ended", how, j->ended, j->handlers, j->id);
}
template <class F>
void getChecked(Job *j, const char *how, F get) {
  try {
    get();
    CHECK(!j->throws, "lost-exception", "%s: the exception of job %d was lost", how, j->id);
  } catch (const Oops &o) {
    CHECK(j->throws && o.id == j->id, "wrong-exception", "%s: job %d handed out the exception of job %d", how, j->id, o.id);
  } catch (const std::future_error &e) {
    sim_fail("broken-promise", "%s: job %d: %s", how, j->id, e.what());
  }
  done(j, how);
}
// consumes a signal in one of the possible ways
void consume(Job *j, const char *how, Processor::CompleteSignal s) {
  CHECK(s.valid(), "invalid-signal", "%s returned no signal although the processor was not stopped", how);
  switch (sim_choose(5)) {
    case 0: s.wait(); done(j, how); break;
    case 1: getChecked(j, how, [&] { s.get(); }); break;
    case 2: {
      // polling: as soon as it is seen ready, the job must have ended
      for (int i = 0; i < 4; i++) {
        if (s.waitFor(std::chrono::milliseconds(i)) == std::future_status::ready) { done(j, how); break; }
        sim_yield();
      }
      getChecked(j, how, [&] { s.get(); });
      break;
    }
    case 3: {
      auto nxt = s.then([j, how] { done(j, how); return j->id + 7; });
      CHECK(!s.valid(), "then", "the signal is still valid after then()");
      getChecked(j, how, [&] {
        auto r = nxt.get();
        CHECK(r && *r == j->id + 7, "then-value", "then() delivered the wrong value");
      });
      break;
    }
    case 4: {
      auto st = s.waitUntil(std::chrono::system_clock::now() + std::chrono::milliseconds(sim_choose(10)));
      if (st == std::future_status::ready) done(j, how);
      s.wait();
      done(j, how);
      break;
    }
  }
}
void op(World &w, const ProcessorInstance &p, int nh, bool named, bool onProc, int depth) {
  int api = (int)sim_choose(named ? 8 : 6);
  auto fn = [&w](Job *j) { return [&w, id = j->id] { w.work(id, 0); }; };
  switch (api) {
    case 0: { Job *j = w.add(1, true); consume(j, "waitableExecute", p->waitableExecute(fn(j))); break; }
    case 1: { Job *j = w.add(nh, true); consume(j, "waitablePost", p->waitablePost<Msg>(j->id)); break; }
    case 2: {
      Job *j = w.add(1, true);
      int id = j->id;
      getChecked(j, "waitableExecute(result)", [&] {
        string v = p->waitableExecute([&w, id] { w.work(id, 0); return "r" + std::to_string(id); });
        CHECK(v == "r" + std::to_string(id), "wrong-result", "waitableExecute of job %d returned %s", id, v.c_str());
      });
      break;
    }
    case 3: {
      Job *j = w.add(1, sim_choose(2));
      bool r = p->getBlockingExecutor()->execute(fn(j));
      done(j, "getBlockingExecutor()->execute");
      CHECK(r || j->throws, "executor-lies", "the blocking executor reports failure for a callback that was executed");
      break;
    }
    case 4: { Job *j = w.add(1, false); p->willBlockingExecuteOnThis(fn(j))(); done(j, "willBlockingExecuteOnThis"); break; }
    case 5: {
      // work handed over asynchronously, waited for with a later signal (FIFO)
      Job *j = w.add(1, false), *k = w.add(1, true);
      CHECK(p->executeAsync(fn(j)), "refused", "executeAsync refused");
      consume(k, "waitableExecute after executeAsync", p->waitableExecute(fn(k)));
      if (!onProc) done(j, "executeAsync before a waited job");
      break;
    }
    case 6: { Job *j = w.add(nh, true); consume(j, "routing::send", routing::send<Msg>(p->id(), j->id)); break; }
    case 7: { Job *j = w.add(nh, true); consume(j, "routing::sendToAll", routing::sendToAll<Msg>(j->id)); break; }
  }
  (void)depth;
}
}  // namespace

static void body(bool named) {
  World w;
  auto p = Processor::create(named ? "P" : "");
  AsyncProcessor ap{p};
  int nh = 1 + (int)sim_cfg(3);
  MsgConnectionGroup grp;
  for (int i = 0; i < nh; i++) grp << p->connect<Msg>([&w, i](const Msg &m) { w.work(m.id, i); });
  bool late = sim_choose(3) == 0;   // signals are created before the processor runs
  if (!late) ap.launch();
  int nt = 1 + (int)sim_choose(3);
  vector<std::thread> ths;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, n = 1 + (int)sim_choose(3)] {
      for (int k = 0; k < n; k++) op(w, p, nh, named, false, 0);
    });
  if (late) { sim_sleep(sim_choose(4) * MS); ap.launch(); }
  // and from the processor's own thread
  int own = (int)sim_choose(3);
  Flag ownDone;
  if (own) p->executeAsync([&] { for (int k = 0; k < own; k++) op(w, p, nh, named, true, 0); ownDone.set(); });
  joinAll(ths);
  if (own) CHECK(ownDone.wait(60000 * MS), "not-executed", "an asynchronous task was not executed");
  ap.stopAndWait();
}
SIM_SCENARIO(c03_signals, 0, 0, 0) { body(false); }
SIM_SCENARIO(c03_routed, SIM_F_TIMESKEW, 0, 0) { body(true); }

// two processors waiting on work of each other (never in a cycle), signals passed between threads
SIM_SCENARIO(c03_cross, 0, 0, 0) {
  World w;
  auto a = Processor::create("A"), b = Processor::create("B");
  AsyncProcessor pa{a}, pb{b};
  MsgConnectionGroup grp;
  grp << b->connect<Msg>([&](const Msg &m) { w.work(m.id, 0); });
  // A's handler sends on to B and waits
  struct Fwd { int id; int outer; };
  grp << a->connect<Fwd>([&](const Fwd &f) {
    auto s = routing::send<Msg>("B", f.id);
    CHECK(s.valid(), "invalid-signal", "send returned no signal");
    Job *j; { SimQuiet z; j = w.jobs[f.id].get(); }
    s.wait();
    done(j, "send from a handler");
    w.work(f.outer, 0);
  });
  pa.launch();
  pb.launch();
  int nt = 1 + (int)sim_choose(3);
  vector<std::thread> ths;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, n = 1 + (int)sim_choose(2)] {
      for (int k = 0; k < n; k++) {
        Job *in = w.add(1, true), *out = w.add(1, true);
        consume(out, "send", routing::send<Fwd>("A", in->id, out->id));
        done(in, "inner job of a waited send");
      }
    });
  // B posts back to A meanwhile (asynchronously), which must never block B
  b->executeAsync([&] { for (int i = 0; i < 3; i++) { Job *in = w.add(1, false), *out = w.add(1, false); routing::post<Fwd>("A", in->id, out->id); sim_yield(); } });
  joinAll(ths);
  pa.stopAndWait();
  pb.stopAndWait();
}

// a signal for several processors: ready when the last handler of the last one is done, whatever the others throw
SIM_SCENARIO(c03_to_all, SIM_F_TIMESKEW, 0, 0) {
  World w;
  int n = 2 + (int)sim_cfg(3), total = 0;
  vector<int> last;
  vector<std::unique_ptr<AsyncProcessor>> ps;
  MsgConnectionGroup grp;
  for (int i = 0; i < n; i++) {
    auto p = Processor::create("P" + std::to_string(i));
    for (int k = 0, nh = 1 + (int)sim_cfg(2); k < nh; k++, total++)
      grp << p->connect<Msg>([&w, total](const Msg &m) { w.work(m.id, total); });
    last.push_back(total - 1);
    ps.push_back(std::make_unique<AsyncProcessor>(p));
  }
  for (auto &p : ps) p->launch();
  auto sendAll = [&] {
    Job *j = w.add(total, true);
    { SimQuiet z; j->thrower = last[sim_choose(n)]; }
    consume(j, "sendToAll", routing::sendToAll<Msg>(j->id));
  };
  vector<std::thread> ths;
  for (int t = 0, nt = 1 + (int)sim_choose(2); t < nt; t++)
    ths.emplace_back([&, k = 1 + (int)sim_choose(2)] { for (int i = 0; i < k; i++) sendAll(); });
  Flag own;
  bool fromInside = sim_choose(2);
  if (fromInside) (*ps[sim_choose(n)])->executeAsync([&] { sendAll(); own.set(); });
  joinAll(ths);
  if (fromInside) CHECK(own.wait(60000 * MS), "not-executed", "a task was not executed");
  for (auto &p : ps) p->stopAndWait();
}
