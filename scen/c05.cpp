// C05: timed runs execute what is due and return in time.
#include "common.h"

#include <maf/messaging/Processor.h>
#include <maf/messaging/Timer.h>
using namespace maf::messaging;
using Clock = std::chrono::system_clock;

namespace {
struct World {
  vector<std::pair<uint64_t, uint64_t>> runs;   // begin/end (ns) of every executed task, own clock
  int posters = 0, accepted = 0, executed = 0, running = 0;
  int tid = -1;
  std::map<int, int> last;
  std::atomic<bool> stopping{false};
  std::atomic<int64_t> back{0};   // how far the wall clock was set back so far
};
int64_t wallNs() { SimQuiet z; return std::chrono::duration_cast<std::chrono::nanoseconds>(Clock::now().time_since_epoch()).count(); }
}  // namespace

static void body(bool jumps, bool withTimer) {
  auto w = std::make_unique<World>();
  auto p = Processor::create();
  bool stopper = sim_choose(4) == 0;
  int np = 1 + (int)sim_choose(2);
  bool flood = sim_choose(6) == 0;     // a task that keeps handing itself over again
  auto exec = [&](int poster, int n, int dur) {
    {
      SimQuiet z;
      sim_ev("begin", poster, n, dur, 0);
      if (w->tid < 0) w->tid = sim_tid();
      CHECK(w->tid == sim_tid(), "wrong-thread", "a task runs on the wrong thread");
      CHECK(++w->running == 1, "concurrent", "two tasks run at the same time");
      int &l = w->last[poster];
      CHECK(n > l, "order", "task %d of poster %d runs after task %d", n, poster, l);
      l = n;
      w->runs.push_back({sim_now(), 0});
    }
    if (dur) sim_sleep(dur * MS);
    SimQuiet z;
    w->runs.back().second = sim_now();
    w->running--;
    w->executed++;
    sim_ev("end", poster, n, 0, 0);
  };
  vector<std::thread> ths;
  for (int t = 0; t < np; t++)
    ths.emplace_back([&, t, n = 1 + (int)sim_choose(6)] {
      for (int k = 1; k <= n; k++) {
        if (sim_choose(2)) sim_sleep(sim_choose(20) * MS);
        int dur = sim_choose(3) ? 0 : (int)sim_choose(30);
        bool ok = p->executeAsync([&exec, t, k, dur] { exec(t, k, dur); });
        SimQuiet z;
        w->accepted += ok;
        CHECK(ok || w->stopping, "refused", "executeAsync was refused though the processor was not stopped");
      }
      SimQuiet z;
      w->posters++;
    });
  std::function<void()> again = [&] { SimQuiet z; if (sim_now() < 2000000ull * MS) { sim_quiet(-1); sim_sleep(1 * MS); p->executeAsync(again); sim_quiet(1); } };
  if (flood) p->executeAsync(again);
  if (stopper) ths.emplace_back([&] { sim_sleep(sim_choose(60) * MS); ev("stop"); w->stopping = true; p->stop(); });
  if (jumps) ths.emplace_back([&, n = 1 + (int)sim_choose(3)] { for (int i = 0; i < n; i++) { sim_sleep(sim_choose(30) * MS); int64_t d = (int64_t)(sim_choose(81)) * (int64_t)MS - 40 * (int64_t)MS; if (d < 0) w->back -= d; sim_clock_jump(d); } });
  Timer tm;
  std::thread runner([&] {
    if (withTimer) p->executeAsync([&] { tm.start(200, [] {}); });
    int rounds = 1 + (int)sim_choose(4);
    for (int r = 0; r < rounds; r++) {
      int kind = (int)sim_choose(4);
      int64_t ms = (int64_t)sim_choose(40);
      int ex0;
      uint64_t t0;
      int64_t w0, wDeadline;
      { SimQuiet z; ex0 = w->executed; t0 = sim_now(); w0 = wallNs(); sim_ev("run", kind, ms, 0, 0); }
      wDeadline = w0 + ms * (int64_t)MS;
      auto tp = Clock::time_point(std::chrono::duration_cast<Clock::duration>(std::chrono::nanoseconds(wDeadline)));
      bool ret = false, once = kind >= 2;
      size_t waiting = p->pendingCout();
      switch (kind) {
        case 0: p->runFor(std::chrono::milliseconds(ms)); break;
        case 1: p->runUntil(tp); break;
        case 2: ret = p->runOnceFor(std::chrono::milliseconds(ms)); break;
        case 3: ret = p->runOnceUntil(tp); break;
      }
      SimQuiet z;
      int done = w->executed - ex0;
      uint64_t t1 = sim_now();
      int64_t w1 = wallNs();
      sim_ev("returned", kind, ret, done, (int64_t)(t1 - t0));
      bool stopped = w->stopping;
      bool oneTask = once && ret;
      if (once && !flood && !withTimer) {
        CHECK(done <= 1, "more-than-one", "runOnce executed %d tasks", done);
        CHECK(ret || !waiting || stopped, "due-task", "runOnce returned without executing one of the %zu tasks that were waiting", waiting);
        CHECK(ret == (done == 1), "wrong-return", "runOnce returned %d though it executed %d tasks", ret, done);
      }
      if (!once && !flood && !withTimer) CHECK(done > 0 || !waiting || stopped, "due-task", "runFor/runUntil returned without executing one of the %zu tasks that were waiting", waiting);
      if (!stopped && !oneTask && (!jumps || kind % 2 == 1))
        CHECK(w1 + w->back >= wDeadline, "early", "%s returned %lld us before its deadline though nobody stopped the processor", once ? "runOnce*" : "runFor/runUntil", (long long)((wDeadline - w1) / 1000));
      if (!jumps) {
        // the deadline, or the end of what was running then
        uint64_t lim = t0 + ms * MS;
        uint64_t end = lim;
        for (auto &x : w->runs) if (x.first <= lim + MS && x.second > end) end = x.second;
        if (flood) end += 2 * MS;
        CHECK(t1 <= end + 2 * MS, withTimer ? "late-timer" : "late", "%s returned %llu us after its deadline and the end of the task running then", once ? "runOnce*" : "runFor/runUntil", (unsigned long long)((t1 - end) / 1000));
      }
      if (stopped && p->stopped()) break;
    }
    // the rest is executed by plain run()
    if (!w->stopping) {
      ev("run-rest");
      std::thread st([&] { waitFor([&] { return w->posters == np && w->executed >= w->accepted; }, 5000 * MS); sim_sleep(100 * MS); w->stopping = true; p->stop(); });
      p->run();
      st.join();
    }
  });
  joinAll(ths);
  runner.join();
  if (!stopper) {
    SimQuiet z;
    CHECK(w->executed == w->accepted, "lost-task", "%d of %d accepted tasks were executed", w->executed, w->accepted);
  }
}
SIM_SCENARIO(c05_timed, SIM_F_NOSPUR, 0, 0) { body(false, false); }
SIM_SCENARIO(c05_spurious, 0, 0, 0) { body(false, false); }
SIM_SCENARIO(c05_jumps, 0, 0, 0) { body(true, false); }
// with a timer pending (see known-findings.txt)
SIM_SCENARIO(c05_timer, SIM_F_NOSPUR, 0, 0) { body(false, true); }
