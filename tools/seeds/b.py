import os, runpy
H = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))["H"]
CS = "src/common/maf/messaging/client-server/"
P = "src/common/maf/messaging/Processor.cpp"
R = "src/common/maf/messaging/Router.cpp"
S = "include/maf/utils/SignalSlots.h"
O = "include/maf/utils/Observable.h"
L = CS + "ipc/LocalIPCServer.cpp"
K = H + r'''
#include <maf/ITCProxy.h>
#include <maf/ITCStub.h>
#include <maf/LocalIPCProxy.h>
#include <maf/LocalIPCStub.h>
#include <maf/messaging/client-server/ServiceStatusSignal.h>
#include <maf/utils/DirectExecutor.h>
#include <cassert>
#include <mutex>
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
REQUEST(echo)
    INPUT((int, id))
    OUTPUT((int, id))
ENDREQUEST(echo)
PROPERTY(level)
    STATUS((int, v))
ENDPROPERTY(level)
SIGNAL(tick)
    ATTRIBUTES((int, n), (std::string, s))
ENDSIGNAL(tick)
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>
using maf::util::directExecutor;
using LevelS = level_property::status;
using TickA = tick_signal::attributes;
namespace itc_ = maf::messaging::itc;
namespace ipc_ = maf::messaging::ipc::local;
static Address addr(const char *n) { return Address{std::string(n) + std::to_string(getpid()), 0}; }
'''
# a client that is nothing but a socket
F = K + r'''
#include <sys/socket.h>
#include <maf/messaging/client-server/ipc/LocalIPCMessage.h>
#include <maf/messaging/client-server/ipc/LocalIPCBufferSender.h>
#include <maf/messaging/client-server/ipc/SocketShared.h>
namespace ipcx = maf::messaging::ipc;
struct Fake {
  int fd; Address a;
  Fake(Address ad, int backlog) : fd(socket(AF_UNIX, SOCK_STREAM, 0)), a(ad) {
    auto sa = ipcx::createUnixAbstractSocketAddr(a.get_name());
    REQ(bind(fd, (sockaddr *)&sa, sizeof sa) == 0 && listen(fd, backlog) == 0);
  }
  int reach() { int c = socket(AF_UNIX, SOCK_STREAM, 0); auto sa = ipcx::createUnixAbstractSocketAddr(a.get_name()); REQ(connect(c, (sockaddr *)&sa, sizeof sa) == 0); return c; }
  void reg(Address server) {
    ipc_::LocalIPCMessage m(ServiceIDInvalid, OpIDInvalid, OpCode::RegisterServiceStatus);
    m.setSourceAddress(a);
    REQ(ipc_::LocalIPCBufferSender{}.send(m.toBytes(), server) == ActionCallStatus::Success);
  }
  // the next message, null when there's none within the time
  std::shared_ptr<ipc_::LocalIPCMessage> next(int ms) {
    timeval tv{ms / 1000, ms % 1000 * 1000};
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    while (true) {
      int c = accept(fd, nullptr, nullptr);
      if (c < 0) return {};
      uint32_t len = 0;
      std::string b;
      if (recv(c, &len, 4, MSG_WAITALL) == 4) { b.resize(len); if (len && recv(c, &b[0], len, MSG_WAITALL) != (int)len) b.clear(); }
      close(c);
      if (b.empty()) continue;
      auto m = std::make_shared<ipc_::LocalIPCMessage>();
      maf::srz::Buffer buf; buf.assign(b.data(), b.size());
      REQ(m->fromBytes(std::move(buf)));
      return m;
    }
  }
};
'''
SEEDS = [
dict(id="c04-handlers-when-posted", property="C04",
  needs="a message type disconnected on the processor's thread while messages of that type still wait in the queue, and connected anew",
  what="post remembers the handlers of the moment of posting instead of looking them up when the message is processed, so messages reach disconnected handlers and miss those connected anew",
  edits=[(P, "      return executeAsync([msg = move(msg), this] { d_->processMessage(msg); });",
"""      HandlersPtr handlers;
      {
        lock_guard lock(d_->msgHandlersMap);
        if (auto it = d_->msgHandlersMap->find(msgType);
            it != d_->msgHandlersMap->end()) {
          handlers = it->second;
        }
      }
      return executeAsync([msg = move(msg), handlers = move(handlers)] {
        if (handlers) {
          handlers->notify(msg);
        }
      });""")],
  demo=H + r'''
struct Msg { int v; };
int main() {
  AsyncProcessor p; p.launch();
  std::atomic<int> first{0}, second{0}; std::atomic<bool> done{false};
  p->connect<Msg>([&](const Msg &) { first++; });
  std::atomic<bool> go{false};
  p->executeAsync([&] { while (!go) std::this_thread::sleep_for(1ms); });
  p->executeAsync([&] { p->disconnect<Msg>(); p->connect<Msg>([&](const Msg &) { second++; }); });
  REQ(p->post<Msg>(1));
  p->executeAsync([&] { done = true; });
  go = true;
  REQ(soon([&] { return done.load(); }));
  p.stopAndWait();
  REQ(first == 0);
  REQ(second == 1);
}'''),
dict(id="c05-once-that-stops", property="C05",
  needs="a task that stops its own processor and is executed by runOnceFor or runOnceUntil",
  what="runOnceUntil reports that nothing was executed when the task it has executed stopped the processor",
  edits=[(P, """    invoke(exc);
    return true;
  }

  return false;""", """    invoke(exc);
    return !stopped();
  }

  return false;""")],
  demo=H + r'''
int main() {
  auto p = makeProcessor();
  bool ran = false;
  p->executeAsync([&] { ran = true; p->stop(); });
  bool r = p->runOnceFor(50ms);
  REQ(ran);
  REQ(r);
}'''),
dict(id="c06-join-check-unlocked", property="C06",
  needs="two threads creating processors with the same id at the same time, the second one checking between the check and the insertion of the first",
  what="addProcessor checks for the id in a critical section of its own, so two live processors with one id can be created",
  edits=[(R, """    auto joinedProcessors = messageprocessors_.atomic();
    if (joinedProcessors->count(comp) == 0) {
""", """    auto alreadyJoined = messageprocessors_.atomic()->count(comp) != 0;
    if (!alreadyJoined) {
      auto joinedProcessors = messageprocessors_.atomic();
""")],
  demo=H + r'''
int main() {
  for (int r = 0; r < 100000; r++) {
    std::string id = "p" + std::to_string(r);
    std::atomic<int> at{0};
    ProcessorInstance q[2];
    auto f = [&](int k) { at++; while (at < 2) {} q[k] = makeProcessor(id); };
    std::thread t(f, 1); f(0); t.join();
    REQ(!!q[0] != !!q[1]);
    for (auto &x : q) if (x) x->stop();
  }
}'''),
dict(id="c08-stop-unlocked", property="C08",
  needs="stop() issued by another thread between the moment a start has found that it isn't stopped and the moment it falls asleep",
  what="SyncTimer::stop doesn't take the lock, so its notification gets lost and the start sleeps until its interval is over",
  edits=[("src/common/maf/messaging/SyncTimer.cpp", """void SyncTimer::stop() {
  std::lock_guard lock(d_->mutex);
""", """void SyncTimer::stop() {
""")],
  demo=H + r'''
#include <maf/messaging/SyncTimer.h>
int main() {
  SyncTimer t;
  std::atomic<bool> end{false};
  std::thread s([&] { while (!end) t.stop(); });
  auto from = std::chrono::steady_clock::now();
  for (int r = 0; r < 3000000 && std::chrono::steady_clock::now() - from < 40s; r++) {
    auto t0 = std::chrono::steady_clock::now();
    t.start(1500, [] {});
    REQ(std::chrono::steady_clock::now() - t0 < 1s);
  }
  end = true; s.join();
}'''),
dict(id="c09-sc-stale-disconnect", property="C09",
  needs="a single-slot signal whose slot object is kept by its owner, was removed by the signal's disconnect() and replaced by another slot before the old connection is disconnected",
  what="disconnecting a connection that no longer exists removes the slot another one has connected meanwhile",
  edits=[(S, """  bool remove(const SlotPtrType& s) {
    if (has(s)) {
      clear();""", """  bool remove(const SlotPtrType& s) {
    if (s && valid()) {
      clear();""")],
  demo=H + r'''
int main() {
  maf::signal_slots::SCSignal<int> sig;
  using Slot = std::function<void(const int &)>;
  int a = 0, b = 0;
  auto s1 = std::make_shared<Slot>([&](const int &) { a++; });
  auto s2 = std::make_shared<Slot>([&](const int &) { b++; });
  auto c1 = sig.connect(s1);
  sig(1);
  sig.disconnect();
  auto c2 = sig.connect(s2);
  c1.disconnect();
  sig(2);
  REQ(a == 1);
  REQ(b == 1);
}'''),
dict(id="c11-connect-snapshot", property="C11",
  needs="a thread that changes the observable between the moment a connecting thread looked at the state and the moment its observer is connected",
  what="a new observer is given the state of before it was connected, which a change made meanwhile has replaced, and never learns of the newer one",
  edits=[(O, """    auto con = Base_::connect(std::forward<_Args>(args)...);
    this->keeper()->notifyOne(
        con.template getSlotPtr<typename Base_::SlotType>());
    return con;""", """    auto current = State{this->keeper()->get()};
    auto con = Base_::connect(std::forward<_Args>(args)...);
    if (auto slot = con.template getSlotPtr<typename Base_::SlotType>()) {
      apply(*slot, current);
    }
    return con;""")],
  demo=H + r'''
#include <maf/utils/Observable.h>
int main() {
  for (int r = 1; r < 200000; r++) {
    maf::signal_slots::Observable<int> o{0};
    std::atomic<int> at{0}, last{-1};
    std::thread t([&] { at++; while (at < 2) {} o = r; });
    at++; while (at < 2) {}
    for (volatile int i = 0; i < r % 64; i = i + 1) {}
    auto c = o.connect([&](int v) { last = v; });
    t.join();
    REQ(last == r);
  }
}'''),
dict(id="c12-priority-same", property="C12",
  needs="two tasks of the same priority running at the same time in a priority pool, the one taken last finishing first, and a shutdown while the other one runs",
  what="the pool forgets the wrong one of its running tasks when one ends, so shutdown doesn't tell the task that still runs to stop (but a finished one)",
  edits=[("src/common/maf/threading/threadpool/PriorityThreadPool.cpp", "    return p1._pRunner == p2._pRunner && p1._priority == p2._priority;", "    return !(p1 < p2) && !(p2 < p1);")],
  demo=H + r'''
#include <maf/threading/ThreadPoolFactory.h>
#include <maf/threading/Runnable.h>
using namespace maf::threading;
struct Long : Runnable { std::atomic<bool> in{false}, told{false}; void run() override { in = true; for (int i = 0; i < 5000 && !told; i++) std::this_thread::sleep_for(1ms); } void stop() override { told = true; } };
struct Short : Runnable { std::atomic<bool> ran{false}; void run() override { ran = true; } };
int main() {
  Long l; Short s;
  auto p = ThreadPoolFactory::createPool(PoolType::Priority, 2);
  p->run(&l, 1);
  REQ(soon([&] { return l.in.load(); }));
  p->run(&s, 1);
  REQ(soon([&] { return s.ran.load(); }));
  std::this_thread::sleep_for(50ms);
  p->shutdown();
  REQ(l.told);
}'''),
dict(id="c14-id-race", property="C14",
  needs="two threads that send requests at the very same moment",
  what="the counter behind the request IDs is read and written in two steps, so two requests can get the same ID and one of them the other's answer",
  edits=[("include/maf/utils/IDManager.h", "      id = idCounter_.fetch_add(1, std::memory_order_relaxed);", """      id = idCounter_.load(std::memory_order_relaxed);
      idCounter_.store(static_cast<IDType>(id + 1), std::memory_order_relaxed);""")],
  demo=K + r'''
#include <set>
int main() {
  maf::util::IDManager m;
  vector<vector<uint64_t>> got(4);
  vector<std::thread> ts;
  std::atomic<int> at{0};
  for (int k = 0; k < 4; k++) ts.emplace_back([&, k] { at++; while (at < 4) {} for (int i = 0; i < 300000; i++) got[k].push_back(m.allocateNewID()); });
  for (auto &t : ts) t.join();
  std::set<uint64_t> all;
  for (auto &g : got) for (auto i : g) REQ(all.insert(i).second);
}'''),
dict(id="c15-latest-before-saved", property="C15",
  needs="a status that is set between the moment a new subscriber is told of the current value and the moment its registration counts",
  what="the provider tells a new subscriber the current value before it saves the registration, so a change in between never reaches the subscriber",
  edits=[(CS + "ServiceProvider.cpp", """  // Do this for notifying status when changed
  saveRegisterInfo(msg);
  // Do this for server to update latest status for new registered client
  updateLatestStatus(msg);""", """  // Do this for server to update latest status for new registered client
  updateLatestStatus(msg);
  // Do this for notifying status when changed
  saveRegisterInfo(msg);""")],
  demo=K + r'''
int main() {
  auto stub = itc_::createStub("s", directExecutor());
  auto proxy = itc_::createProxy("s", directExecutor());
  stub->setStatus<LevelS>(1);
  stub->startServing();
  vector<int> got;
  std::thread other;
  proxy->registerStatus<LevelS>([&](const std::shared_ptr<LevelS> &s) {
    if (!s) return;
    got.push_back(s->get_v());
    if (s->get_v() == 1) { other = std::thread([&] { stub->setStatus<LevelS>(2); }); std::this_thread::sleep_for(300ms); }
  });
  other.join();
  REQ(soon([&] { return !got.empty() && got.back() == 2; }, 1000));
}'''),
dict(id="c16-broadcast-locked", property="C16",
  needs="a subscriber whose callback waits for another thread that is about to register for something of the same service",
  what="the provider keeps its registrations locked while it hands a signal to the subscribers, so a callback that depends on another thread's registration waits for ever",
  edits=[(CS + "ServiceProvider.cpp", """  AddressList addresses;

  {  // locking _regEntriesMap block
    std::lock_guard lock(regEntriesMap_);
    for (const auto &[clientAddress, registeredPropertyIDs] : *regEntriesMap_) {""", """  AddressList addresses;

  std::unique_lock<std::remove_reference_t<decltype(regEntriesMap_)>> sending;
  {  // locking _regEntriesMap block
    std::unique_lock lock(regEntriesMap_);
    sending = std::move(lock);
    for (const auto &[clientAddress, registeredPropertyIDs] : *regEntriesMap_) {""")],
  demo=K + r'''
int main() {
  auto stub = itc_::createStub("s", directExecutor());
  auto proxy = itc_::createProxy("s", directExecutor());
  stub->startServing();
  std::atomic<int> got{0}; std::atomic<bool> ok{false};
  std::thread other;
  proxy->registerSignal<TickA>([&](const std::shared_ptr<TickA> &) {
    got++;
    std::atomic<bool> *done = new std::atomic<bool>{false};
    other = std::thread([&, done] { proxy->registerStatus<LevelS>([](auto &) {}); *done = true; });
    ok = soon([=] { return done->load(); }, 4000);
  });
  stub->broadcastSignal<TickA>(1, "x");
  REQ(got == 1);
  REQ(ok);
  other.join();
}'''),
dict(id="c17-two-providers", property="C17",
  needs="two threads that ask for the provider of the same new service at the same moment",
  what="getServiceProvider checks and creates in two critical sections, so two stubs of one service can get different providers, one of which nobody will ever reach",
  edits=[(CS + "ServerBase.cpp", """  std::lock_guard lock(providers_);
  auto &provider = (*providers_)[sid];
  if (!provider) {
    provider = std::make_shared<ServiceProvider>(sid, weak_from_this());
  }
  return provider;""", """  auto provider = (*providers_.atomic())[sid];
  if (!provider) {
    provider = std::make_shared<ServiceProvider>(sid, weak_from_this());
    (*providers_.atomic())[sid] = provider;
  }
  return provider;""")],
  demo=K + r'''
int main() {
  for (int r = 0; r < 20000; r++) {
    std::string sid = "s" + std::to_string(r);
    std::atomic<int> at{0};
    std::shared_ptr<ServiceProviderIF> p[2];
    auto f = [&](int k) { at++; while (at < 2) {} p[k] = csmgmt::getServiceProvider(itc_::connection_type, {}, sid); };
    std::thread t(f, 1); f(0); t.join();
    REQ(p[0] && p[0] == p[1]);
  }
}'''),
dict(id="c17-status-stored-late", property="C17",
  needs="a proxy created for a service between the moment its start is looked up among the known proxies and the moment its status is stored",
  what="the client stores a service's new status after it looked for the requester to tell, so a requester created in between is told by nobody and stays at the old status",
  edits=[(CS + "ClientBase.cpp", """  (*_serviceStatusMap.atomic())[sid] = newStatus;
  // observers might ask for a requester, then nothing must be locked
  ServiceRequesterIFPtr requester;""", """  // observers might ask for a requester, then nothing must be locked
  ServiceRequesterIFPtr requester;"""), (CS + "ClientBase.cpp", """      requester = itProxy->second;
    }
  }
  if (requester) {
    requester->onServiceStatusChanged(sid, oldStatus, newStatus);""", """      requester = itProxy->second;
    }
  }
  (*_serviceStatusMap.atomic())[sid] = newStatus;
  if (requester) {
    requester->onServiceStatusChanged(sid, oldStatus, newStatus);""")],
  demo=K + r'''
int main() {
  for (int r = 0; r < 60000; r++) {
    std::string sid = "s" + std::to_string(r);
    auto stub = itc_::createStub(sid, directExecutor());
    std::atomic<int> at{0};
    std::shared_ptr<itc_::Proxy> proxy;
    std::thread t([&] { at++; while (at < 2) {} for (volatile int i = 0; i < r % 128; i = i + 1) {} proxy = itc_::createProxy(sid, directExecutor()); });
    at++; while (at < 2) {}
    for (volatile int i = 0; i < r / 128 % 128; i = i + 1) {}
    stub->startServing();
    t.join();
    REQ(proxy->serviceStatus() == Availability::Available);
  }
}'''),
dict(id="c19-register-collects-first", property="C19",
  needs="a service that stops while the server is still telling a newly registered client about the services that are available",
  what="the server collects the available services first and tells the client with nothing locked, so a client can be told that a service is available after it was told that it isn't any more",
  edits=[(L, """      std::lock_guard lock(providers_);
      for (auto &[sid, provider] : *providers_) {
        if (provider->availability() == Availability::Available) {
          notifyServiceStatusToClient(csMsg->sourceAddress(), sid,
                                      Availability::Unavailable,
                                      Availability::Available);
        }
      }
      if (providers_->empty()) {
        MAF_LOGGER_INFO(
            "[][][]Theres no service available at this point of time!");
      }
""", """      std::set<ServiceID> available;
      {
        std::lock_guard lock(providers_);
        for (auto &[sid, provider] : *providers_) {
          if (provider->availability() == Availability::Available) {
            available.insert(sid);
          }
        }
      }
      for (auto &sid : available) {
        notifyServiceStatusToClient(csMsg->sourceAddress(), sid,
                                    Availability::Unavailable,
                                    Availability::Available);
      }
      if (available.empty()) {
        MAF_LOGGER_INFO(
            "[][][]Theres no service available at this point of time!");
      }
""")],
  demo=F + r'''
int main() {
  auto srv = addr("c19a_srv");
  auto a = ipc_::createStub(srv, "A", directExecutor()), b = ipc_::createStub(srv, "B", directExecutor());
  a->startServing(); b->startServing();
  Fake x(addr("c19a_x"), 0);
  int filler = x.reach();                       // nobody else can connect until it's accepted
  x.reg(srv);
  std::this_thread::sleep_for(500ms);           // telling about A, or about B
  std::thread t([&] { b->stopServing(); });
  std::this_thread::sleep_for(500ms);
  close(filler);
  bool bUp = false;
  while (auto m = x.next(1500)) if (m->serviceID() == "B") bUp = m->operationID() == OpID_ServiceAvailable;
  t.join();
  REQ(!bUp);
}'''),
dict(id="c19-dead-client-hides-next", property="C19",
  needs="a client that died without unregistering, and another one whose address comes right after it, when a service starts or stops",
  what="the server skips the client that follows one it has just removed because it's dead",
  edits=[(L, """        itAddr = registedClAddrs_->erase(itAddr);
      } else {
        ++itAddr;
      }""", """        itAddr = registedClAddrs_->erase(itAddr);
        if (itAddr == registedClAddrs_->end()) {
          break;
        }
      }
      ++itAddr;""")],
  demo=F + r'''
int main() {
  auto srv = addr("c19b_srv");
  auto a = ipc_::createStub(srv, "A", directExecutor());
  Fake x1(addr("c19b_x1"), 10), x2(addr("c19b_x2"), 10), x3(addr("c19b_x3"), 10);
  x1.reg(srv); x2.reg(srv); x3.reg(srv);
  std::this_thread::sleep_for(300ms);
  close(x2.fd);
  a->startServing();
  REQ(x1.next(2000));
  REQ(x3.next(2000));
}'''),
dict(id="c19-register-not-retried", property="C19",
  needs="a client that reaches the server but can't send its registration at that moment (no descriptors left), and can later",
  what="the client regards the server as known even if its registration couldn't be sent, so it never registers and never learns that the service is available",
  edits=[(CS + "ipc/LocalIPCClient.cpp", """          pReceiver_->address().dump());
      currentServerStatus_ = newStatus;
    } else {""", """          pReceiver_->address().dump());
    } else {"""), (CS + "ipc/LocalIPCClient.cpp", """          callStatus);
    }
  } else {
    currentServerStatus_ = newStatus;
  }""", """          callStatus);
    }
  }
  currentServerStatus_ = newStatus;""")],
  demo=K + r'''
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
int main() {
  auto srv = addr("c19c_srv");
  int go[2]; REQ(pipe(go) == 0);
  if (fork() == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    char c; if (read(go[0], &c, 1) != 1) _exit(0);
    auto s = ipc_::createStub(srv, "A", directExecutor());
    s->startServing();
    while (read(go[0], &c, 1) == 1) {}
    std::this_thread::sleep_for(60s);
    _exit(0);
  }
  auto proxy = ipc_::createProxy(srv, "A", directExecutor());
  std::this_thread::sleep_for(300ms);
  rlimit rl{64, 64}; setrlimit(RLIMIT_NOFILE, &rl);
  vector<int> fds;
  for (int f; (f = open("/dev/null", O_RDONLY)) >= 0;) fds.push_back(f);
  close(fds.back()); fds.pop_back();            // just one is left for watching the server
  REQ(write(go[1], "x", 1) == 1);
  std::this_thread::sleep_for(2s);
  for (int f : fds) close(f);
  bool ok = soon([&] { return proxy->serviceStatus() == Availability::Available; }, 10000);
  REQ(ok);
  _exit(0);
}'''),
dict(id="c20-short-read-is-end", property="C20",
  needs="a message or parameter whose bytes end in the middle of a value",
  what="reading past the end of the received bytes counts as having reached the end and not as a failure, so truncated values are accepted",
  edits=[("include/maf/utils/serialization/IByteStream.h", """      if (readingPos_ + size > buffer_.size()) {
        (state_ &= ~Good) |= Failed;
        return;""", """      if (readingPos_ + size > buffer_.size()) {
        (state_ &= ~Good) |= Eof;
        return;""")],
  demo=F + r'''
#include <maf/utils/serialization/Serializer.h>
#include <maf/utils/serialization/OByteStream.h>
int main() {
  using namespace maf::srz;
  OByteStream o; SR sr(o);
  sr << std::pair<int, uint64_t>{1, 0x1122334455667788ull};
  Buffer cut; cut.assign(o.bytes().data(), 9);
  IByteStream i(std::move(cut));
  std::pair<int, uint64_t> v;
  REQ(!deserialize(i, v));
}'''),
]
