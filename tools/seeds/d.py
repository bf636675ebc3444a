import os, runpy
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
H, K, F, CS, P = B["H"], B["K"], B["F"], B["CS"], B["P"]
SEEDS = [
dict(id="c07-fired-removed-last", property="C07",
  needs="a single-shot timer that starts itself anew from its own callback while another timer is running and due before it",
  what="an expired single-shot timer is taken off the list only after its callback, which removes whichever timer is next by then: the other one never fires",
  edits=[("src/common/maf/messaging/Timer.cpp", """    record->running = false;
    removeShortestTimer();
  }
  record->onExpired();
""", """    record->running = false;
    record->onExpired();
    removeShortestTimer();
    return;
  }
  record->onExpired();
""")],
  demo=H + r"""
int main() {
  AsyncProcessor p; p.launch();
  std::atomic<int> a{0}, b{0};
  Timer ta, tb;
  p->executeAsync([&] {
    tb.start(200, [&] { b++; });
    ta.start(50, [&] { if (++a == 1) ta.start(400, [&] { a++; }); });
  });
  REQ(soon([&] { return b == 1 && a == 2; }, 5000));
  _exit(0);
}"""),
dict(id="c05-due-task-dropped", property="C05",
  needs="a task that is in the queue when a run for one task reaches its deadline, such as a run with no time at all",
  what="a task taken from the queue at the deadline is dropped instead of executed",
  edits=[(P, """  if (d_->pendingExecutions.waitUntil(exc, deadline)) {
    invoke(exc);
    return true;
  }
""", """  if (d_->pendingExecutions.waitUntil(exc, deadline) &&
      system_clock::now() < deadline) {
    invoke(exc);
    return true;
  }
""")],
  demo=H + r"""
int main() {
  auto p = Processor::create();
  int ran = 0;
  for (int i = 0; i < 3; i++) p->executeAsync([&] { ran++; });
  int took = 0;
  for (int i = 0; i < 6; i++) took += p->runOnceFor(0ms);
  REQ(took == 3 && ran == 3);
}"""),
dict(id="c08-long-interval-wraps", property="C08",
  needs="an interval longer than 71 minutes, given as a number of milliseconds",
  what="the interval is counted in 32 bits of microseconds, a longer one wraps round and expires early",
  edits=[("src/common/maf/messaging/SyncTimer.cpp", """  start(std::chrono::milliseconds{milliseconds}, std::move(callback),
""", """  using Ticks = std::chrono::duration<unsigned, std::micro>;
  const Ticks ticks{static_cast<Ticks::rep>(milliseconds * 1000)};
  start(std::chrono::duration_cast<std::chrono::milliseconds>(ticks), std::move(callback),
""")],
  demo="#include <maf/messaging/SyncTimer.h>\n" + H + r"""
int main() {
  SyncTimer t;
  std::atomic<int> fired{0}, back{0};
  std::thread th([&] { t.start(4294970ll, [&] { fired++; }); back++; });
  std::this_thread::sleep_for(800ms);
  REQ(fired == 0 && back == 0);
  t.stop();
  th.join();
  REQ(fired == 0 && back == 1);
}"""),
]
