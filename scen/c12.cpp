// C12: a thread pool runs each submitted task once and shuts down completely.
#include "common.h"

#include <maf/threading/ThreadPoolFactory.h>

#include <condition_variable>
#include <mutex>
using namespace maf::threading;

namespace {
struct Rec {
  int id;
  unsigned prio = 0;
  bool autoDel = false;
  uint64_t inv = 0, ret = ~0ull, begin = 0, end = 0;
  int runs = 0, destroyed = 0, stops = 0;
  bool running = false;
};
struct World {
  vector<std::unique_ptr<Rec>> recs;
  int running = 0, limit = 0;
  uint64_t shutInv = ~0ull, shutRet = ~0ull;
  std::set<int> outside;   // threads that are not of the pool
  std::shared_ptr<IThreadPool> pool;
  vector<struct T *> owned;
  std::atomic<int> ended{0};
  std::atomic<unsigned> scarce{0};     // how often no thread can be made
};
struct T : Runnable {
  World &w;
  Rec *r;
  int kind;   // 0 quick, 1 yields, 2 sleeps, 3 runs until it is stopped, 4 submits another one
  std::mutex m;
  std::condition_variable cv;
  bool stopped = false;
  T(World &w, Rec *r, int kind) : w(w), r(r), kind(kind) {}
  ~T() override {
    SimQuiet z;
    sim_ev("destroy", r->id, 0, 0, 0);
    CHECK(!r->running, "destroyed-running", "task %d is destroyed while it runs", r->id);
    CHECK(++r->destroyed == 1, "destroyed-twice", "task %d is destroyed twice", r->id);
  }
  void stop() override {
    { SimQuiet z; sim_ev("stop", r->id, 0, 0, 0); r->stops++; CHECK(r->destroyed == 0, "use-after-destroy", "task %d is stopped after its destruction", r->id); }
    std::lock_guard l(m);
    stopped = true;
    cv.notify_all();
  }
  void run() override;
};
unsigned somePrio() {   // never 0, which is the default
  static const unsigned far[] = {65536, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, 256, 32768};
  return sim_choose(3) ? 1 + (unsigned)sim_choose(4) : far[sim_choose(7)];
}
T *make(World &w, int kind, unsigned prio, bool autoDel) {
  SimQuiet z;
  w.recs.push_back(std::make_unique<Rec>());
  Rec *r = w.recs.back().get();
  r->id = (int)w.recs.size() - 1;
  r->prio = prio;
  r->autoDel = autoDel;
  T *t = new T(w, r, kind);
  return t;
}
void submit(World &w, T *t) {
  Rec *r = t->r;
  if (r->autoDel) t->setAutoDeleted(true);
  else { SimQuiet z; w.owned.push_back(t); }   // left as it was created
  { SimQuiet z; r->inv = sim_ev("submit", r->id, r->prio, r->autoDel, t->kind); }
  sim_thread_faults(w.scarce);
  if (r->prio) w.pool->run(t, r->prio); else w.pool->run(t);
  sim_thread_faults(0);
  SimQuiet z;
  r->ret = sim_ev("submitted", r->id, 0, 0, 0);
}
void T::run() {
  {
    SimQuiet z;
    r->begin = sim_ev("begin", r->id, r->prio, 0, 0);
    CHECK(++r->runs == 1, "executed-twice", "task %d is executed a second time", r->id);
    CHECK(r->destroyed == 0, "use-after-destroy", "task %d is executed after its destruction", r->id);
    CHECK(!w.outside.count(sim_tid()), "wrong-thread", "task %d is executed by a thread that is not of the pool", r->id);
    CHECK(w.shutRet == ~0ull, "started-after-shutdown", "task %d starts after the shutdown has returned", r->id);
    CHECK(++w.running <= w.limit, "too-many", "%d tasks are executed at a time, the pool has %d threads", w.running, w.limit);
    r->running = true;
  }
  if (kind == 1) sim_yield();
  if (kind == 2) sim_sleep((1 + sim_choose(4)) * MS);
  if (kind == 3) {
    std::unique_lock l(m);
    cv.wait(l, [&] { return stopped; });
  }
  if (kind == 4) submit(w, make(w, (int)sim_choose(2), 0, sim_choose(2)));
  w.ended++;
  SimQuiet z;
  r->running = false;
  w.running--;
  r->end = sim_ev("end", r->id, 0, 0, 0);
  CHECK(w.shutRet == ~0ull, "running-after-shutdown", "task %d ends after the shutdown has returned", r->id);
}
void finish(World &w, bool checkAll) {
  w.ended.load();   // whoever releases the pool has learned that its tasks ended
  w.pool.reset();
  SimQuiet z;
  for (auto &r : w.recs) {
    if (checkAll && r->ret < w.shutInv) CHECK(r->runs == 1, "not-executed", "task %d was executed %d times", r->id, r->runs);
    CHECK(!r->runs || r->end, "running-after-shutdown", "task %d has not ended", r->id);
    if (r->autoDel) CHECK(r->destroyed == 1, "leaked-task", "auto-deleted task %d was destroyed %d times", r->id, r->destroyed);
    else CHECK(r->destroyed == 0, "destroyed-owned", "task %d, which the pool does not own, was destroyed by it", r->id);
  }
  for (auto *t : w.owned) delete t;
}
}  // namespace

SIM_SCENARIO(c12_pool, 0, 0, 0) {
  auto wp = std::make_unique<World>();
  World &w = *wp;
  auto type = (PoolType)sim_cfg(3);
  unsigned size = 1 + (unsigned)sim_cfg(3);
  w.limit = (int)size;
  { SimQuiet z; w.outside.insert(sim_tid()); }
  if (sim_cfg(4) == 0) w.scarce = 1 + (unsigned)sim_choose(3);
  sim_thread_faults(w.scarce);
  w.pool = ThreadPoolFactory::createPool(type, size);
  sim_thread_faults(0);
  bool early = sim_cfg(2);       // shutdown while tasks come
  bool stuck = false;
  int nt = 1 + (int)sim_choose(3);
  vector<std::thread> ths;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&] {
      { SimQuiet z; w.outside.insert(sim_tid()); }
      int n = 1 + (int)sim_choose(4);
      for (int k = 0; k < n; k++) {
        static const int kinds[] = {0, 1, 2, 4, 3};
        submit(w, make(w, kinds[sim_choose(early ? 5 : 4)], type == Priority && sim_choose(3) ? somePrio() : 0, sim_choose(2)));
        if (sim_choose(6) == 0) { unsigned n = w.pool->activeThreadCount(); CHECK(n <= size, "too-many", "%u threads are active, the pool has at most %u", n, size); }
      }
    });
  auto shut = [&] {
    { SimQuiet z; uint64_t s = sim_ev("shutdown", 0, 0, 0, 0); w.shutInv = std::min(w.shutInv, s); }
    w.pool->shutdown();
    SimQuiet z;
    uint64_t s = sim_ev("shutdown-done", 0, 0, 0, 0);
    if (w.shutRet == ~0ull) w.shutRet = s;
    for (auto &r : w.recs) CHECK(!r->running, "running-after-shutdown", "task %d is running when the shutdown returns", r->id);
  };
  if (!early) {
    joinAll(ths);
    if (w.scarce) {
      w.scarce = 0;
      if (type == DynamicCount) submit(w, make(w, 0, 0, false));   // makes the thread that could not be made before
      else if (w.pool->activeThreadCount() == 0) { stuck = true; shut(); }   // a pool without threads
    }
    bool ok = stuck || waitFor([&] { for (auto &r : w.recs) if (!r->end) return false; return true; }, 60000 * MS);
    CHECK(ok, "not-executed", "a task was not executed although nothing else can run");
    if (!stuck && sim_choose(2)) shut();
  } else {
    if (sim_choose(2)) sim_sleep(sim_choose(4) * MS);
    std::thread second;
    if (sim_choose(3) == 0) second = std::thread([&] { { SimQuiet z; w.outside.insert(sim_tid()); } shut(); });
    shut();
    joinAll(ths);
    if (second.joinable()) second.join();
  }
  finish(w, !early && !stuck);
}

// one pool thread, kept busy: the waiting tasks are taken by priority
SIM_SCENARIO(c12_priority, 0, 0, 0) {
  auto wp = std::make_unique<World>();
  World &w = *wp;
  w.limit = 1;
  { SimQuiet z; w.outside.insert(sim_tid()); }
  w.pool = ThreadPoolFactory::createPool(Priority, 1);
  T *gate = make(w, 3, 1 + (unsigned)sim_choose(9), false);
  submit(w, gate);
  bool on = waitFor([&] { return gate->r->runs == 1; }, 10000 * MS);
  CHECK(on, "not-executed", "the first task was not executed");
  int nt = 1 + (int)sim_choose(2);
  vector<std::thread> ths;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&] {
      { SimQuiet z; w.outside.insert(sim_tid()); }
      int n = 1 + (int)sim_choose(4);
      for (int k = 0; k < n; k++) submit(w, make(w, (int)sim_choose(3), sim_choose(5) ? somePrio() : 0, sim_choose(2)));
    });
  joinAll(ths);
  gate->stop();
  bool ok = waitFor([&] { for (auto &r : w.recs) if (!r->end) return false; return true; }, 60000 * MS);
  CHECK(ok, "not-executed", "a task was not executed although nothing else can run");
  {
    SimQuiet z;
    vector<Rec *> v;
    for (auto &r : w.recs) if (r.get() != gate->r) v.push_back(r.get());
    std::sort(v.begin(), v.end(), [](auto *a, auto *b) { return a->begin < b->begin; });
    for (size_t i = 1; i < v.size(); i++) CHECK(v[i]->prio <= v[i - 1]->prio, "priority", "task %d of priority %u was taken before task %d of priority %u", v[i - 1]->id, v[i - 1]->prio, v[i]->id, v[i]->prio);
  }
  finish(w, true);
}

// many threads, many tasks
SIM_SCENARIO(c12_many, 0, 0, 0) {
  auto wp = std::make_unique<World>();
  World &w = *wp;
  auto type = (PoolType)sim_cfg(3);
  unsigned size = 1 + (unsigned)sim_choose(10);
  w.limit = (int)size;
  { SimQuiet z; w.outside.insert(sim_tid()); }
  w.pool = ThreadPoolFactory::createPool(type, size);
  // as many as there are threads can run at a time, each until it is told to stop
  bool block = sim_choose(2);
  int n = block ? (int)size : 1 + (int)sim_choose(48);
  for (int i = 0; i < n; i++) submit(w, make(w, block ? 3 : 0, 0, sim_choose(2)));
  bool ok = waitFor([&] { for (auto &r : w.recs) if (block ? !r->begin : !r->end) return false; return true; }, 60000 * MS);
  CHECK(ok, "not-executed", "a pool of %u threads does not execute its %d tasks%s", size, n, block ? " at a time" : "");
  { SimQuiet z; w.shutInv = sim_ev("shutdown", 0, 0, 0, 0); }
  w.pool->shutdown();
  { SimQuiet z; w.shutRet = sim_ev("shutdown-done", 0, 0, 0, 0); for (auto &r : w.recs) CHECK(!r->running, "running-after-shutdown", "task %d is running when the shutdown returns", r->id); }
  finish(w, true);
}
