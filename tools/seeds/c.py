import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
H, K, F = _b["H"], _b["K"], _b["F"]
CS = "src/common/maf/messaging/client-server/"
SS = "src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h"
TP = "include/maf/threading/ThreadPoolImplBase.h"
SEEDS = [
dict(id="c21-lost-level", property="C21",
  needs="two threads that switch different log levels at the same time",
  what="disabling a level reads the set of levels and writes it back in two steps, so a level that another thread enables or disables in between is lost",
  edits=[("src/common/maf/logging/Logger.cpp", "void disable(LogLevel level) { statics().allowedLevels &= ~level; }",
    "void disable(LogLevel level) {\n  statics().allowedLevels = statics().allowedLevels & ~level;\n}")],
  demo=H + r'''
#include <maf/logging/Logger.h>
using namespace maf::logging;
int main() {
  init(LOG_LEVEL_SILENCE, [](const std::string &) {}, [](const std::string &) {});
  auto end = std::chrono::steady_clock::now() + 10s;
  std::atomic<bool> lost{false}, over{false};
  std::thread a([&] { while (!over) disable(LOG_LEVEL_VERBOSE); });
  std::thread b([&] {
    init(LOG_LEVEL_INFO, {}, {});
    while (!over && std::chrono::steady_clock::now() < end)
      for (int i = 0; i < 1000; i++) {
        disable(LOG_LEVEL_INFO);
        if (allowed(LOG_LEVEL_INFO)) lost = true;
        changeLogLevels(LOG_LEVEL_INFO);
        if (!allowed(LOG_LEVEL_INFO)) lost = true;
        // whatever the other one read before must not come back
        disable(LOG_LEVEL_INFO);
        for (int k = 0; k < 20; k++) if (allowed(LOG_LEVEL_INFO)) lost = true;
        if (lost) { over = true; return; }
      }
    over = true;
  });
  a.join(); b.join();
  REQ(!lost);
}'''),
dict(id="c18-long-names", property="C18",
  needs="two receivers whose addresses agree in their first 54 characters",
  what="only the first half of the room for a socket's name is used, so receivers with long names that begin alike share one socket address: the second cannot be started, or what is sent to it is given to the first",
  edits=[(SS, "  strncpy(addr.sun_path + 1, sockpath.data(), sockpath.length());",
    "  strncpy(addr.sun_path + 1, sockpath.data(), std::min(sockpath.length(), sizeof(addr.sun_path) / 2));")],
  demo=F + r'''
#include <maf/messaging/client-server/ipc/LocalIPCBufferReceiver.h>
struct Obs : ipcx::BytesComeObserver {
  std::atomic<int> n{0};
  void onBytesCome(maf::srz::Buffer &&) override { n++; }
};
int main() {
  std::string base = std::to_string(getpid()) + std::string(60, 'x');
  Address a{base + "A", 0}, b{base + "B", 0};
  Obs oa, ob;
  ipc_::LocalIPCBufferReceiver ra, rb;
  ra.setObserver(&oa); rb.setObserver(&ob);
  REQ(ra.init(a)); REQ(rb.init(b));
  std::thread ta([&] { ra.start(); }), tb([&] { rb.start(); });
  maf::srz::Buffer buf(10, 'z');
  ipc_::LocalIPCBufferSender s;
  REQ(soon([&] { return s.send(buf, b) == ActionCallStatus::Success; }, 3000));
  REQ(soon([&] { return ob.n == 1; }, 3000));
  REQ(oa.n == 0);
  _exit(0);
}'''),
dict(id="c19-pid-truncated", property="C19",
  needs="two client processes of one server whose process identifiers differ by a multiple of 1000",
  what="the address of a client is made of the last three digits of its process identifier, so two processes can claim the same address and one of them gets no service",
  edits=[(CS + "ipc/LocalIPCClient.cpp", "std::to_string(util::process::pid()),", "std::to_string(util::process::pid() % 1000),")],
  demo=K + r'''
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
int main() {
  auto srv = addr("c19p_srv");
  int res[2], go[2]; REQ(pipe(res) == 0 && pipe(go) == 0);
  auto client = [&] {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    char c; if (read(go[0], &c, 1) != 1) _exit(0);
    auto proxy = ipc_::createProxy(srv, "A", directExecutor());
    bool ok = proxy && soon([&] { return proxy->serviceStatus() == Availability::Available; }, 6000);
    ok = ok && (proxy->sendRequest<echo_request::output>(echo_request::make_input(1), nullptr, RequestTimeoutMs{3000}), true);
    if (write(res[1], ok ? "y" : "n", 1) != 1) _exit(1);
    std::this_thread::sleep_for(60s);
    _exit(0);
  };
  pid_t first = fork();
  if (first == 0) client();
  bool alike = false;
  for (int i = 0; i < 40000 && !alike; i++) {
    int hold[2]; REQ(pipe(hold) == 0);
    pid_t p = fork();
    if (p == 0) { close(hold[1]); char c; if (getpid() % 1000 == first % 1000) client(); if (read(hold[0], &c, 1)) {} _exit(0); }
    alike = p % 1000 == first % 1000;
    close(hold[0]); close(hold[1]);
    if (!alike) waitpid(p, nullptr, 0);
  }
  REQ(alike);
  auto s = ipc_::createStub(srv, "A", directExecutor());
  s->registerRequestHandler<echo_request::input>([](auto r) { r.template respond<echo_request::output>(r.getInput()->get_id()); });
  s->startServing();
  std::this_thread::sleep_for(300ms);
  char c = 0;
  REQ(write(go[1], "x", 1) == 1);
  REQ(read(res[0], &c, 1) == 1); REQ(c == 'y');
  REQ(write(go[1], "x", 1) == 1);
  REQ(read(res[0], &c, 1) == 1); REQ(c == 'y');
  _exit(0);
}'''),
dict(id="c12-close-late", property="C12",
  needs="a pool that is shut down while a thread between two tasks takes the next one",
  what="the running tasks are told to stop before the queue is closed, so a task taken in between is not told and the shutdown waits for it",
  edits=[(TP, """    _taskQueue.close();
    stopRunningTasks();
""", """    stopRunningTasks();
    _taskQueue.close();
""")],
  demo=H + r'''
#include <maf/threading/ThreadPoolFactory.h>
#include <maf/threading/Runnable.h>
using namespace maf::threading;
struct R : Runnable {
  std::atomic<bool> stopped{false};
  bool untilStopped;
  std::atomic<int> *started;
  R(bool u, std::atomic<int> *s) : untilStopped(u), started(s) { setAutoDeleted(false); }
  void run() override { (*started)++; if (untilStopped) for (int i = 0; !stopped && i < 3000; i++) std::this_thread::sleep_for(1ms); }
  void stop() override { stopped = true; }
};
int main() {
  for (int round = 0; round < 4000; round++) {
    auto pool = ThreadPoolFactory::createPool(StableCount, 1);
    std::atomic<int> started{0};
    R a(false, &started), b(true, &started);
    std::atomic<bool> done{false};
    pool->run(&a);
    pool->run(&b);
    for (int k = 0; k < round % 200; k++) std::atomic_signal_fence(std::memory_order_seq_cst), sched_yield();
    auto t0 = std::chrono::steady_clock::now();
    pool->shutdown();
    REQ(std::chrono::steady_clock::now() - t0 < 1500ms);
  }
  _exit(0);
}'''),
dict(id="c02-inline-when-stopped", property="C02",
  needs="a task that stops its own processor and hands over another task with execute() before it ends",
  what="execute() on the processor's own thread does not ask whether the processor was stopped, so a stopped processor accepts and runs new tasks",
  edits=[("src/common/maf/messaging/Processor.cpp", """  using namespace std;
  if (!stopped()) {
    if (this_processor::instance().get() == this) {
      exec();
      return true;
    } else {
      return d_->addExecution(move(exec));
    }
  }
  return false;
}""", """  using namespace std;
  if (this_processor::instance().get() == this) {
    exec();
    return true;
  }
  return !stopped() && d_->addExecution(move(exec));
}""")],
  demo=H + r"""
int main() {
  auto p = Processor::create();
  std::atomic<bool> ran{false}, accepted{false}, early{false};
  p->executeAsync([&] {
    p->execute([&] { early = true; });
    p->stop();
    accepted = p->execute([&] { ran = true; });
  });
  p->run();
  REQ(early && !accepted && !ran);
}"""),
dict(id="c07-start-anew-no-refresh", property="C07",
  needs="a running timer that was to expire next and is started anew with a longer interval while another one is running",
  what="starting a running timer anew does not put it into its new place among the others, so timers that are due before it fire only after it",
  edits=[("src/common/maf/messaging/Timer.cpp", """    record->running = true;
    add(record);
  } else {
    refresh();
  }
""", """    record->running = true;
    add(record);
  }
""")],
  demo=H + r"""
int main() {
  AsyncProcessor p; p.launch();
  std::atomic<bool> fired{false};
  Timer a, b;
  std::atomic<bool> set{false};
  p->executeAsync([&] {
    a.start(100, [] {});
    b.start(300, [&] { fired = true; });
    a.start(5000, [] {});
    set = true;
  });
  REQ(soon([&] { return set.load(); }));
  REQ(soon([&] { return fired.load(); }, 3000));
  _exit(0);
}"""),
]
