P = "src/common/maf/messaging/Processor.cpp"
Q = "include/maf/threading/ThreadSafeQueue.h"
S = "include/maf/utils/SignalSlots.h"
R = "src/common/maf/messaging/Router.cpp"
T = "src/common/maf/messaging/Timer.cpp"
H = r'''
#include <maf/Messaging.h>
#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/Routing.h>
#include <maf/messaging/Timer.h>
#include <maf/threading/Queue.h>
#include <maf/utils/SignalSlots.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <memory>
#include <thread>
#include <vector>
using namespace maf::messaging;
using namespace std::chrono_literals;
using std::vector;
#define REQ(c) do { if (!(c)) { printf("FAILED: %s (line %d)\n", #c, __LINE__); fflush(stdout); _exit(1); } } while (0)
#include <unistd.h>
static bool soon(std::function<bool()> f, int ms = 8000) { for (int i = 0; i < ms; i++) { if (f()) return true; std::this_thread::sleep_for(1ms); } return f(); }
'''
SEEDS = [
dict(id="c01-async-executor-inline", property="C01",
  needs="a task handed over through getAsyncExecutor() by the processor's own thread while other tasks of that thread still wait in the queue",
  what="AsyncExecutor runs the callback inline on the processor's thread, so it overtakes tasks that thread handed over before",
  edits=[(P, "  return std::make_shared<AsyncExecutor>(weak_from_this());", "  return getExecutor();")],
  demo=H + r'''
int main() {
  AsyncProcessor p; p.launch();
  vector<int> order; std::atomic<bool> done{false};
  p->executeAsync([&] {
    this_processor::executeAsync([&] { order.push_back(1); });
    this_processor::getAsyncExecutor()->execute([&] { order.push_back(2); });
    this_processor::executeAsync([&] { order.push_back(3); done = true; });
  });
  REQ(soon([&] { return done.load(); }));
  p.stopAndWait();
  REQ((order == vector<int>{1, 2, 3}));
}'''),
dict(id="c01-runonce-keeps-thread", property="C01",
  needs="a thread that has run the processor once with runOnceFor/runOnceUntil which timed out, and hands tasks over afterwards while another thread runs it",
  what="runOnceUntil leaves the calling thread marked as the processor's thread when nothing came in time, so later execute() calls of that thread run tasks inline on the wrong thread",
  edits=[(P, """  CallOnExit deinit = [justSet] {
    this_processor::clearTLInstanceIfSet(justSet);
  };

  if (d_->pendingExecutions.waitUntil(exc, deadline)) {
    invoke(exc);
    return true;
  }
""", """  if (d_->pendingExecutions.waitUntil(exc, deadline)) {
    CallOnExit deinit = [justSet] {
      this_processor::clearTLInstanceIfSet(justSet);
    };
    invoke(exc);
    return true;
  }
""")],
  demo=H + r'''
int main() {
  auto p = makeProcessor();
  p->runOnceFor(1ms);
  std::thread t([&] { p->run(); });
  std::thread::id id;
  p->waitableExecute([&] { id = std::this_thread::get_id(); }).get();
  bool ok = id == t.get_id();
  p->stop(); t.join();
  REQ(ok);
}'''),
dict(id="c02-stop-clears-first", property="C02",
  needs="a task whose destruction hands the next task over, or a submission in the gap between clear and close",
  what="stop() clears the queue before it closes it: a task handed over in between stays in the queue of the stopped processor, its waiter hangs, and reuse() runs it",
  edits=[(P, "    pendingExecutions.close();\n    pendingExecutions.clear();", "    pendingExecutions.clear();\n    pendingExecutions.close();")],
  demo=H + r'''
int main() {
  for (int i = 0; i < 3000; i++) {
    auto p = makeProcessor();
    vector<Processor::CompleteSignal> sigs;
    std::atomic<bool> go{false}, sub{false};
    std::thread t([&] { while (!go); while (!p->stopped() && sigs.size() < 100000) { auto s = p->waitableExecute([] {}); if (s.valid()) sigs.push_back(std::move(s)); sub = true; } });
    go = true; while (!sub);
    p->stop(); t.join();
    for (auto &s : sigs) REQ(s.waitFor(0ms) == std::future_status::ready);
    REQ(p->pendingCout() == 0);
  }
}'''),
dict(id="c03-sendtoall-swallows", property="C03",
  needs="a handler that throws while the message was sent with routing::sendToAll",
  what="the completion signal of sendToAll no longer hands over the exception a handler has thrown",
  edits=[(R, "            sig.get();", "            sig.wait();")],
  demo=H + r'''
struct M { int v; };
int main() {
  AsyncProcessor p{"demo_p"}; p.launch();
  auto c = p->connect<M>([](const M &) { throw 42; });
  auto s = routing::sendToAll<M>(1);
  REQ(s.valid());
  bool thrown = false;
  try { s.get(); } catch (int v) { thrown = v == 42; }
  p.stopAndWait();
  REQ(thrown);
}'''),
dict(id="c04-post-overtakes", property="C04",
  needs="a handler that posts a message to its own processor while an earlier posted one still waits",
  what="a message posted by the processor's own thread is handled at once and overtakes the messages the same poster posted before",
  edits=[(P, "      return executeAsync([msg = move(msg), this] { d_->processMessage(msg); });", "      return pendingCout() < 2 ? executeAsync([msg = move(msg), this] { d_->processMessage(msg); })\n                               : execute([msg = move(msg), this] { d_->processMessage(msg); });")],
  demo=H + r'''
struct M { int v; };
int main() {
  AsyncProcessor p;
  vector<int> got; std::atomic<bool> done{false};
  auto c = p->connect<M>([&](const M &m) { got.push_back(m.v); });
  p->executeAsync([&] { for (int i = 0; i < 6; i++) this_processor::post<M>(i); p->executeAsync([&] { done = true; }); });
  p.launch();
  REQ(soon([&] { return done.load(); }));
  p.stopAndWait();
  REQ((got == vector<int>{0, 1, 2, 3, 4, 5}));
}'''),
dict(id="c06-posttoall-first-only", property="C06",
  needs="postToAll with at least two registered processors of which a later one handles the message and one before it refuses to take it late",
  what="postToAll stops offering the message as soon as one processor took it and the next one is handling a different set, so later ones are left out",
  edits=[(R, "    delivered |= askThenPost(comp, std::move(msg));", "    if (delivered && comp->pendingCout() > 0) continue;\n    delivered |= askThenPost(comp, std::move(msg));")],
  demo=H + r'''
struct M { int v; };
int main() {
  AsyncProcessor a{"demo_a"}, b{"demo_b"}, c{"demo_c"};
  std::atomic<int> n{0};
  auto ca = a->connect<M>([&](const M &) { n++; }); auto cb = b->connect<M>([&](const M &) { n++; }); auto cc = c->connect<M>([&](const M &) { n++; });
  b->executeAsync([] {}); c->executeAsync([] {});
  REQ(routing::postToAll<M>(1));
  a.launch(); b.launch(); c.launch();
  a->waitableExecute([] {}).get(); b->waitableExecute([] {}).get(); c->waitableExecute([] {}).get();
  REQ(n == 3);
  a.stopAndWait(); b.stopAndWait(); c.stopAndWait();
}'''),
dict(id="c07-heap-after-remove", property="C07",
  needs="at least four timers of which one in the middle of the heap is stopped",
  what="stopping a timer that is not the next one leaves the heap of timers broken, so another timer fires late or out of order",
  edits=[(T, "      if (!checkRecordListEmpty()) {\n        refresh();\n      }", "      checkRecordListEmpty();")],
  demo=H + r'''
int main() {
  // every subset order: stop one of several timers, the others must fire in the order of their deadlines
  AsyncProcessor p; p.launch();
  int iv[] = {100, 300, 140, 380, 340, 180, 220};
  for (int victim = 0; victim < 7; victim++) {
    vector<std::unique_ptr<Timer>> t; vector<int> order; std::atomic<int> n{0};
    p->waitableExecute([&] {
      for (int i = 0; i < 7; i++) { t.emplace_back(new Timer); t.back()->start(iv[i], [&, i] { order.push_back(iv[i]); n++; }); }
      t[victim]->stop();
    }).get();
    REQ(soon([&] { return n == 6; }));
    bool ok; p->waitableExecute([&] { ok = std::is_sorted(order.begin(), order.end()); t.clear(); }).get();
    REQ(ok);
  }
  p.stopAndWait();
}'''),
dict(id="c10-scoped-assign", property="C10",
  needs="a scoped connection that is overwritten by another one while it is connected",
  what="assigning to a scoped connection forgets to disconnect the connection it held, whose slot stays connected for ever",
  edits=[(S, "  ScopedConnection& operator=(ScopedConnection&& other) {\n    disconnect();", "  ScopedConnection& operator=(ScopedConnection&& other) {\n    if (!other.c_.connected()) disconnect();")],
  demo=H + r'''
int main() {
  maf::signal_slots::Signal<int> s; int a = 0, b = 0;
  {
    maf::signal_slots::ScopedConnection c = s.connect([&](int) { a++; });
    c = maf::signal_slots::ScopedConnection{s.connect([&](int) { b++; })};
    s.notify(1);
    REQ(a == 0 && b == 1);
  }
  s.notify(1);
  REQ(a == 0 && b == 1);
}'''),
dict(id="c10-owner-dies-in-slot", property="C10",
  needs="the owner of a tracked slot released by another thread (or the slot itself) while the slot runs",
  what="a slot tracking an object no longer keeps the object alive during the invocation",
  edits=[(S, "                       ConnectionPtrType con, Args_... args) {\n      if (auto trackedObj = trackedObjRef.lock()) {\n        sl(move(args)...);", "                       ConnectionPtrType con, Args_... args) {\n      if (!trackedObjRef.expired()) {\n        sl(move(args)...);")],
  demo=H + r'''
int main() {
  maf::signal_slots::Signal<int> s;
  auto o = std::make_shared<int>(7); std::weak_ptr<int> w = o; bool alive = false;
  s.connect(o, [&](int) { o.reset(); alive = !w.expired(); });
  s.notify(1);
  REQ(alive);
  s.notify(1);
}'''),
dict(id="c13-push-seq-wakes-one", property="C13",
  needs="two consumers asleep while a whole sequence is pushed at once",
  what="pushing a sequence wakes one consumer only, the other stays blocked although an item is there",
  edits=[(Q, "        queue_->push(item);\n      }\n      queueNotEmpty_.notify_all();", "        queue_->push(item);\n      }\n      queueNotEmpty_.notify_one();")],
  demo=H + r'''
int main() {
  maf::threading::Queue<int> q; std::atomic<int> got{0}, in{0}; std::atomic<bool> hold{true};
  auto c = [&] { int v; in++; if (q.wait(v)) { got++; while (hold) std::this_thread::sleep_for(1ms); } };
  std::thread a(c), b(c);
  soon([&] { return in == 2; }); std::this_thread::sleep_for(200ms);
  q.push(std::vector<int>{1, 2});
  bool ok = soon([&] { return got == 2; }, 5000);
  hold = false; q.close(); a.join(); b.join();
  REQ(ok);
}'''),
dict(id="c13-waitfor-gives-up-early", property="C13",
  needs="a consumer in a timed wait that is woken although another consumer takes the item first",
  what="a timed wait that finds the queue empty after a wake-up gives up before its time is over",
  edits=[(Q, "    if (!queueNotEmpty_.wait_for(lock, interval, [this] {\n          return !queue_->empty() || isClosed();\n        })) {\n      return false;", "    if (queue_->empty() && !isClosed()) {\n      queueNotEmpty_.wait_for(lock, interval);\n    }\n    if (queue_->empty()) {\n      return false;")],
  demo=H + r'''
int main() {
  for (int k = 0; k < 20; k++) {
    maf::threading::Queue<int> q; std::atomic<bool> done{false}; int v = 0; bool got = false; long took = 0;
    std::thread t([&] { auto b = std::chrono::steady_clock::now(); got = q.waitFor(v, 1000LL); took = (std::chrono::steady_clock::now() - b) / 1ms; done = true; });
    std::this_thread::sleep_for(50ms);
    for (int i = 0; i < 400 && !done; i++) { q.push(1); int w; q.tryPop(w); if (i % 40 == 0) std::this_thread::sleep_for(1ms); }
    if (!done) q.close();
    t.join();
    REQ(got || took >= 990 || q.isClosed());
    if (!got && !q.isClosed()) REQ(took >= 990);
  }
}'''),
dict(id="c09-erase-while-notifying", property="C09",
  needs="a slot that disconnects another slot, which the running notification has not reached yet or stands on, from inside",
  what="a slot disconnected while its signal is notifying is only hidden from slots connected before the notification began, the last one is still called once",
  edits=[(S, "        if (!*it) {  // this this slot is disconnected;\n          it = slots_.erase(it);", "        if (!*it) {  // this this slot is disconnected;\n          it = slots_.erase(it);\n          if (it != end(slots_)) ++it;")],
  demo=H + r'''
int main() {
  maf::signal_slots::Signal<int> s; int a = 0, b = 0, c = 0;
  maf::signal_slots::Connection cb;
  auto ca = s.connect([&](int) { a++; cb.disconnect(); });
  cb = s.connect([&](int) { b++; });
  auto cc = s.connect([&](int) { c++; });
  s.notify(1); s.notify(2);
  REQ(a == 2 && b == 0 && c == 2);
}'''),
]
