// C18: the local IPC transport delivers whole messages unchanged or reports failure.
#include "common.h"

#include <errno.h>
#include <stddef.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

#include <maf/messaging/client-server/ipc/LocalIPCBufferReceiver.h>
#include <maf/messaging/client-server/ipc/LocalIPCBufferSender.h>

extern "C" {
int sim_open_fds(int node);
bool sim_listening(const char *name);
}
using namespace maf::messaging;
using namespace maf::messaging::ipc;
using maf::messaging::ipc::local::LocalIPCBufferReceiver;
using maf::messaging::ipc::local::LocalIPCBufferSender;

namespace {
constexpr uint64_t BOUND = 5000 * MS;   // of simulated time, a select round is 1 s

string content(int id, size_t size) {
  SimQuiet z;
  if (size < 8) return string(size, (char)('a' + size));
  string s(size, 0);
  uint32_t a = (uint32_t)id, b = (uint32_t)size;
  memcpy(&s[0], &a, 4);
  memcpy(&s[4], &b, 4);
  for (size_t i = 8; i < size; i++) s[i] = (char)(id * 31 + i * 7 + (i >> 8));
  return s;
}
size_t someSize() {
  static const size_t sizes[] = {8, 0, 1, 3, 7, 60, 300, 4096, 16380, 16384, 16400, 40000};
  return sizes[sim_choose(sizeof sizes / sizeof *sizes)];
}
struct Msg { size_t size; int sent = 0, ok = 0, got = 0; };
// what was sent and what arrived; short messages all look the same
struct Book {
  std::map<int, Msg> m;
  int next = 1;
  vector<int> order;
  int begin(size_t size) {
    SimQuiet z;
    int id = size < 8 ? -1 - (int)size : next++;
    Msg &x = m[id];
    x.size = size;
    x.sent++;
    sim_ev("send", id, (int64_t)size, 0, 0);
    return id;
  }
  void end(int id, bool ok, int code) {
    SimQuiet z;
    if (ok) m[id].ok++;
    sim_ev("sent", id, ok, code, 0);
  }
  void arrived(const string &s, int rx) {
    SimQuiet z;
    int id = s.size() < 8 ? -1 - (int)s.size() : 0;
    if (s.size() >= 8) { uint32_t a; memcpy(&a, s.data(), 4); id = (int)a; }
    sim_ev("got", id, (int64_t)s.size(), rx, 0);
    auto it = m.find(id);
    CHECK(it != m.end() && it->second.sent, "invented", "a buffer of %zu bytes that nobody sent was handed to the observer", s.size());
    CHECK(s.size() == it->second.size && s == content(id, s.size()), "damaged", "buffer %d of %zu bytes arrived as %zu bytes that differ", id, it->second.size, s.size());
    CHECK(++it->second.got <= it->second.sent, "twice", "buffer %d was handed to the observer %d times, sent %d times", id, it->second.got, it->second.sent);
    order.push_back(id);
  }
  bool complete() {
    SimQuiet z;
    for (auto &p : m) if (p.second.got < p.second.ok) return false;
    return true;
  }
  void check() {
    SimQuiet z;
    for (auto &p : m) CHECK(p.second.got >= p.second.ok, "lost", "buffer %d of %zu bytes was sent with success %d times and delivered %d times", p.first, p.second.size, p.second.ok, p.second.got);
  }
};
struct Obs : BytesComeObserver {
  Book &b;
  int rx;
  std::function<void()> inside;
  Obs(Book &bk, int r) : b{bk}, rx{r} {}
  void onBytesCome(maf::srz::Buffer &&bytes) override {
    maf::srz::Buffer mine = std::move(bytes);
    b.arrived(mine, rx);
    if (inside) inside();
  }
};
bool send(Book &b, LocalIPCBufferSender &tx, const Address &to, size_t size, int *idOut = nullptr) {
  int id = b.begin(size);
  if (idOut) *idOut = id;
  auto buf = content(id, size);
  auto st = tx.send(buf, to);
  b.end(id, st == ActionCallStatus::Success, (int)st);
  return st == ActionCallStatus::Success;
}
// A peer that speaks to the socket itself
struct Raw {
  int fd = -1;
  bool open(const char *name) {
    fd = socket(AF_UNIX, SOCK_STREAM, 0);
    if (fd < 0) return false;
    sockaddr_un a;
    memset(&a, 0, sizeof a);
    a.sun_family = AF_UNIX;
    memcpy(a.sun_path + 1, name, strlen(name));
    if (connect(fd, (sockaddr *)&a, sizeof a) != 0) { shut(); return false; }
    return true;
  }
  bool put(const void *p, size_t n) {
    for (size_t d = 0; d < n;) {
      ssize_t r = ::send(fd, (const char *)p + d, n - d, MSG_NOSIGNAL);
      if (r < 0) { if (errno == EINTR) continue; return false; }
      d += (size_t)r;
    }
    return true;
  }
  void shut() { if (fd >= 0) close(fd); fd = -1; }
};
// how: 0 nothing, 1 part of the header, 2 header only, 3 part of the body, 4 all of it but slowly, 5 an absurd length
void hostile(Book &b, const char *name, vector<Raw> *keep) {
  Raw r;
  if (!r.open(name)) return;
  int how = (int)sim_choose(6);
  size_t size = someSize();
  if (how == 3 && size < 2) size = 9;
  int id = how == 4 ? b.begin(size) : 0;
  string body = content(how == 4 ? id : 1 << 30, size);
  uint32_t len = how == 5 ? (uint32_t)0 - 1 - (uint32_t)sim_choose(1000) : (uint32_t)size;
  const char *hd = (const char *)&len;
  switch (how) {
    case 0: break;
    case 1: r.put(hd, 1 + sim_choose(3)); break;
    case 2: if (size) r.put(hd, 4); else r.put(hd, 3); break;
    case 3: r.put(hd, 4) && r.put(body.data(), 1 + sim_choose(size - 1)); break;
    case 5: r.put(hd, 4) && r.put(body.data(), size); break;
    case 4: {
      bool ok = true;
      size_t h = 1 + sim_choose(4);
      ok = r.put(hd, h);
      if (ok && h < 4) { if (sim_choose(2)) sim_sleep(sim_choose(30) * MS); ok = r.put(hd + h, 4 - h); }
      for (size_t at = 0; ok && at < size;) {
        size_t n = std::min(size - at, 1 + (size_t)sim_choose(size));
        if (sim_choose(2)) sim_sleep(sim_choose(3) * MS);
        ok = r.put(body.data() + at, n);
        at += n;
      }
      b.end(id, ok, 0);
      break;
    }
  }
  if (keep && sim_choose(3)) { SimQuiet z; keep->push_back(r); return; }   // stalls
  if (sim_choose(3) == 0) sim_sleep(sim_choose(3) * MS);
  r.shut();
}
bool initUntil(LocalIPCBufferReceiver &rx, const Address &a) {
  for (int i = 0; i < 60; i++)
    if (rx.init(a)) return true;
  return false;
}
void endsBy(const std::atomic<bool> &done, const char *what) {
  CHECK(waitFor([&] { return done.load(); }, BOUND), "stop-hangs", "the receiver did not end within %llu ms of simulated time after %s", (unsigned long long)(BOUND / MS), what);
  done.load();
}
void points(int max) {   // some scheduling points, sometimes time
  for (uint64_t i = 0, n = sim_choose((uint64_t)max); i < n; i++) sim_yield();
}
struct SenderArg { Book *b; int n, hostile; const char *rx; };
}  // namespace

// the address of a run: a short name, or one as long as the system takes
string g_rx = "rx";
void someName() {
  static const size_t lens[] = {2, 2, 3, 13, 14, 53, 54, 63, 64, 65, 100, 106, 107};
  size_t n = lens[sim_cfg(sizeof lens / sizeof *lens)];
  SimQuiet z;
  g_rx = "rx";
  while (g_rx.size() < n) g_rx += (char)('a' + g_rx.size() % 26);
}
// A process that sends and may be killed at any moment
extern "C" void c18_sender(void *p) {
  SenderArg a;
  { SimQuiet z; a = *(SenderArg *)p; }
  LocalIPCBufferSender tx;
  Address to{a.rx, 0};
  vector<Raw> keep;
  for (int i = 0; i < a.n; i++)
    if (a.hostile && sim_choose(2)) hostile(*a.b, a.rx, &keep);
    else send(*a.b, tx, to, someSize());
}
// A process that receives until it is killed
struct RxArg { Book *b; int k; const char *rx; Flag up; };
extern "C" void c18_receiver(void *p) {
  auto *a = (RxArg *)p;
  Obs o{*a->b, a->k};
  LocalIPCBufferReceiver rx;
  rx.setObserver(&o);
  if (!initUntil(rx, Address{a->rx, 0})) return;
  a->up.set();
  bool r = rx.start();
  CHECK(false, "receiver-ended", "start() of a receiver nobody stopped returned %d", r);
}

SIM_SCENARIO(c18_deliver, SIM_F_NET | SIM_F_TIMESKEW, 0, 0) {
  auto book = std::make_unique<Book>();
  Book &b = *book;
  Obs o{b, 0};
  someName();
  Address addr{g_rx, 0};
  auto rxp = std::make_unique<LocalIPCBufferReceiver>();
  LocalIPCBufferReceiver &rx = *rxp;
  rx.setObserver(&o);
  CHECK(!rx.running(), "running", "a receiver not initialised says it runs");
  CHECK(initUntil(rx, addr), "init", "a receiver could not be initialised");
  CHECK(rx.address() == addr, "address", "wrong address");
  std::atomic<bool> ended{false};
  std::thread rt([&] { bool r = rx.start(); { SimQuiet z; sim_ev("start-ret", r, 0, 0, 0); } ended = true; });
  int threads = 1 + (int)sim_choose(3), nodes = (int)sim_choose(3), flood = sim_cfg(12) == 0;
  bool withHostile = sim_choose(2);
  vector<Raw> keep;
  vector<std::thread> ths;
  LocalIPCBufferSender shared;
  for (int t = 0; t < threads; t++)
    ths.emplace_back([&] {
      LocalIPCBufferSender own;
      for (int i = 0, n = 1 + (int)sim_choose(4); i < n; i++) {
        if (sim_choose(4) == 0) sim_sleep(sim_choose(4) * MS);
        if (withHostile && sim_choose(3) == 0) hostile(b, g_rx.c_str(), &keep);
        else send(b, sim_choose(2) ? own : shared, addr, someSize());
      }
    });
  auto *arg = new SenderArg{&b, 1 + (int)sim_choose(3), withHostile, g_rx.c_str()};   // never freed: processes that read it are killed
  vector<int> ids;
  for (int k = 0; k < nodes; k++) ids.push_back(sim_node_start("c18_sender", arg, 100 + k));
  if (flood) {   // more silent peers than anybody expects
    for (int i = 0; i < 40; i++) {
      Raw r;
      if (r.open(g_rx.c_str())) {
        if (sim_choose(2)) r.put("\x10\0", 2);
        SimQuiet z;
        keep.push_back(r);
      }
    }
  }
  for (int id : ids)
    if (sim_choose(3)) { points(300); if (!sim_node_done(id)) sim_node_kill(id); }
  joinAll(ths);
  for (int id : ids) sim_wait_node(id);
  sim_faults_stop();
  int last = 0;
  for (int i = 0; i < 2; i++) {
    CHECK(!ended.load(), "receiver-ended", "start() of a receiver nobody stopped returned");
    CHECK(send(b, shared, addr, i ? 20000 : 64, &last), "refused", "a send to a running receiver failed with no fault going on");
  }
  static_cast<void>(waitFor([&] { return b.complete(); }, BOUND));
  b.check();
  CHECK(rx.running(), "running", "a receiver at work says it does not run");
  { SimQuiet z; sim_ev("stop", 0, 0, 0, 0); }
  rx.stop();
  endsBy(ended, "stop()");
  rt.join();
  CHECK(!rx.running(), "running", "a receiver that ended says it runs");
  for (auto &r : keep) r.shut();
  rx.deinit();
  rxp.reset();
  CHECK(sim_open_fds(0) == 0, "descriptor-leak", "%d descriptors left over", sim_open_fds(0));
}

// Messages of one sender arrive in the order it sent them
SIM_SCENARIO(c18_order, SIM_F_NET, 0, 0) {
  auto book = std::make_unique<Book>();
  Book &b = *book;
  Obs o{b, 0};
  someName();
  Address addr{g_rx, 0};
  LocalIPCBufferReceiver rx;
  rx.setObserver(&o);
  CHECK(initUntil(rx, addr), "init", "a receiver could not be initialised");
  std::atomic<bool> ended{false};
  std::thread rt([&] { rx.start(); ended = true; });
  vector<vector<int>> mine(1 + sim_choose(2));
  vector<std::thread> ths;
  for (auto &m : mine)
    ths.emplace_back([&] {
      LocalIPCBufferSender tx;
      for (int i = 0, n = 2 + (int)sim_choose(5); i < n; i++) {
        static const size_t sizes[] = {8, 100, 20000, 9};
        int id;
        if (send(b, tx, addr, sizes[sim_choose(4)], &id)) m.push_back(id);
      }
    });
  joinAll(ths);
  sim_faults_stop();
  static_cast<void>(waitFor([&] { return b.complete(); }, BOUND));
  b.check();
  for (auto &m : mine) {
    SimQuiet z;
    size_t at = 0;
    for (int id : b.order) if (at < m.size() && id == m[at]) at++;
    CHECK(at == m.size(), "order", "the messages of one sender arrived in another order");
  }
  rx.stop();
  endsBy(ended, "stop()");
  rt.join();
}

// Large messages, many messages
SIM_SCENARIO(c18_many, SIM_F_NET, 0, 0) {
  auto book = std::make_unique<Book>();
  Book &b = *book;
  Obs o{b, 0};
  someName();
  Address addr{g_rx, 0};
  LocalIPCBufferReceiver rx;
  rx.setObserver(&o);
  CHECK(initUntil(rx, addr), "init", "a receiver could not be initialised");
  std::atomic<bool> ended{false};
  std::thread rt([&] { rx.start(); ended = true; });
  bool large = sim_choose(2);
  vector<std::thread> ths;
  for (int t = 0, nt = 1 + (int)sim_choose(2); t < nt; t++)
    ths.emplace_back([&] {
      LocalIPCBufferSender tx;
      static const size_t sizes[] = {65535, 65536, 100000, 262144, 500000};
      for (int i = 0, n = large ? 1 + (int)sim_choose(2) : 1 + (int)sim_choose(30); i < n; i++) send(b, tx, addr, large ? sizes[sim_choose(5)] + sim_choose(3) : 8 + sim_choose(100));
    });
  joinAll(ths);
  sim_faults_stop();
  static_cast<void>(waitFor([&] { return b.complete(); }, BOUND * 4));
  b.check();
  rx.stop();
  endsBy(ended, "stop()");
  rt.join();
}

// stop() at any moment, then the address is free again
SIM_SCENARIO(c18_stop, SIM_F_NET | SIM_F_TIMESKEW, 0, 0) {
  auto book = std::make_unique<Book>();
  Book &b = *book;
  someName();
  Address addr{g_rx, 0};
  auto rx = std::make_shared<LocalIPCBufferReceiver>();
  std::atomic<bool> over{false};
  vector<std::thread> ths;
  bool withHostile = sim_choose(2);
  for (int t = 0, n = 1 + (int)sim_choose(2); t < n; t++)
    ths.emplace_back([&] {
      LocalIPCBufferSender tx;
      for (int i = 0; i < 6 && !over.load(); i++) {
        if (withHostile && sim_choose(3) == 0) hostile(b, g_rx.c_str(), nullptr);
        else send(b, tx, addr, someSize());
        if (sim_choose(2)) sim_sleep(sim_choose(300) * MS);
      }
    });
  int rounds = 1 + (int)sim_choose(3);
  for (int k = 0; k < rounds; k++) {
    Obs o{b, k};
    if (k && sim_choose(2)) { SimQuiet z; sim_ev("new", 0, 0, 0, 0); }
    if (k && sim_choose(2)) rx = std::make_shared<LocalIPCBufferReceiver>();
    rx->setObserver(&o);
    std::atomic<bool> ended{false}, in{false};
    int how = (int)sim_choose(5);
    if (how == 4) o.inside = [&] { rx->stop(); in = true; };
    CHECK(initUntil(*rx, addr), "init", "a receiver could not be initialised in round %d", k);
    std::thread rt([&] { rx->start(); ended = true; });
    switch (how) {
      case 0: break;                                   // perhaps before it runs
      case 1: points(40); break;
      case 2: sim_sleep(sim_choose(1500) * MS); break;
      case 3: { std::thread t2([&] { points(30); rx->stop(); }); points(30); rx->stop(); t2.join(); break; }
      case 4: static_cast<void>(waitFor([&] { return in.load(); }, 800 * MS)); break;
    }
    rx->stop();
    { SimQuiet z; sim_ev("stopped", how, 0, 0, 0); }
    endsBy(ended, "stop()");
    rt.join();
    CHECK(!rx->running(), "running", "a receiver that ended says it runs");
    CHECK(!sim_listening(g_rx.c_str()), "still-listening", "the address is still bound after the receiver ended: senders take it for a live one");
    if (sim_choose(3) == 0) CHECK(!rx->start(), "started", "start() of a stopped receiver succeeded");
    rx->deinit();
  }
  over = true;
  joinAll(ths);
  sim_faults_stop();
  LocalIPCBufferSender tx;
  CHECK(tx.checkReceiverStatus(addr) == Availability::Unavailable, "still-listening", "a receiver that ended is said to be available");
  auto was = tx.send(content(1, 8), addr);
  CHECK(was == ActionCallStatus::ReceiverUnavailable, "status", "a send to nobody returned %d", (int)was);
  rx.reset();
  CHECK(sim_open_fds(0) == 0, "descriptor-leak", "%d descriptors left over", sim_open_fds(0));
}

// The receiving process dies and is started again
SIM_SCENARIO(c18_crash, SIM_F_NET | SIM_F_TIMESKEW, 0, 0) {
  auto book = std::make_unique<Book>();
  Book &b = *book;
  someName();
  Address addr{g_rx, 0};
  vector<std::thread> ths;
  for (int t = 0, n = 1 + (int)sim_choose(3); t < n; t++)
    ths.emplace_back([&] {
      LocalIPCBufferSender tx;
      for (int i = 0, n = 1 + (int)sim_choose(6); i < n; i++) {
        if (sim_choose(5) == 0) static_cast<void>(tx.checkReceiverStatus(addr));
        else send(b, tx, addr, someSize());
        if (sim_choose(3) == 0) sim_sleep(sim_choose(3) * MS);
      }
    });
  int lives = 1 + (int)sim_choose(3), id = -1;
  auto start = [&](int k) {
    auto *a = new RxArg{&b, k, g_rx.c_str(), {}};   // never freed: the process that reads it is killed
    id = sim_node_start("c18_receiver", a, 200 + k);
    return a;
  };
  for (int k = 0; k < lives; k++) {
    start(k);
    points(400);
    if (sim_choose(3) == 0) sim_sleep(sim_choose(1200) * MS);
    sim_node_kill(id);
    sim_wait_node(id);
    if (sim_choose(2)) points(30);
  }
  LocalIPCBufferSender tx;
  if (sim_choose(2)) { points(100); CHECK(tx.checkReceiverStatus(addr) == Availability::Unavailable, "status", "a dead process is said to receive"); }
  auto *a = start(9);
  joinAll(ths);
  sim_faults_stop();
  CHECK(a->up.wait(BOUND), "init", "the restarted receiver could not be initialised");
  CHECK(tx.checkReceiverStatus(addr) == Availability::Available, "status", "a receiver at work is said to be unavailable");
  { SimQuiet z; for (auto &p : b.m) p.second.ok = 0; }
  for (int i = 0; i < 3; i++) CHECK(send(b, tx, addr, i == 1 ? 20000 : 64), "refused", "a send to the restarted receiver failed with no fault going on");
  static_cast<void>(waitFor([&] { return b.complete(); }, BOUND));
  b.check();
  sim_node_kill(id);
  CHECK(tx.checkReceiverStatus(addr) == Availability::Unavailable, "status", "a dead process is said to receive");
  CHECK(sim_open_fds(0) == 0, "descriptor-leak", "%d descriptors left over", sim_open_fds(0));
}

// Receivers whose names are alike, or longer than the system takes
SIM_SCENARIO(c18_names, SIM_F_NET | SIM_F_TIMESKEW, 0, 0) {
  static const size_t lens[] = {1, 2, 12, 13, 14, 31, 32, 53, 54, 63, 64, 65, 99, 100, 106, 107};
  size_t n = lens[sim_cfg(sizeof lens / sizeof *lens)];
  vector<Address> addrs;
  bool prefix = sim_choose(3) == 0;
  {
    SimQuiet z;
    string base;
    while (base.size() < n) base += (char)('A' + base.size() % 26);
    for (int k = 0, c = 2 + (int)sim_choose(2); k < c; k++) {
      string mine = base;
      if (prefix && (int)n > c) mine.resize(n - (size_t)k); else mine.back() = (char)('0' + k);
      addrs.emplace_back(mine, k);
    }
    if (prefix && (int)n <= (int)addrs.size()) prefix = false;
  }
  size_t dead = sim_choose(2 * addrs.size());   // one may have no receiver
  vector<std::unique_ptr<Book>> books;
  vector<std::unique_ptr<Obs>> obs;
  vector<std::unique_ptr<LocalIPCBufferReceiver>> rxs;
  vector<std::thread> rts, ths;
  std::atomic<int> ended{0};
  int runs = 0;
  for (size_t k = 0; k < addrs.size(); k++) {
    books.push_back(std::make_unique<Book>());
    books[k]->next = 1 + 1000 * (int)k;
    obs.push_back(std::make_unique<Obs>(*books[k], (int)k));
    rxs.push_back(std::make_unique<LocalIPCBufferReceiver>());
    if (k == dead) continue;
    rxs[k]->setObserver(obs[k].get());
    CHECK(initUntil(*rxs[k], addrs[k]), "init", "a receiver could not be initialised at a name of %zu bytes", addrs[k].get_name().size());
    runs++;
    rts.emplace_back([&ended, rx = rxs[k].get()] { rx->start(); ended++; });
  }
  if (sim_choose(2) && runs) {   // the name is taken
    size_t k = dead == 0 ? 1 : 0;
    LocalIPCBufferReceiver second;
    CHECK(!second.init(addrs[k]), "twice", "two receivers at one address");
  }
  {
    string tooLong(108 + sim_choose(2) * sim_choose(200), 'L');
    LocalIPCBufferReceiver none;
    CHECK(!none.init(Address{tooLong, 0}), "init", "a receiver was initialised at a name of %zu bytes", tooLong.size());
    LocalIPCBufferSender tx;
    CHECK(tx.send(content(1, 8), Address{tooLong, 0}) != ActionCallStatus::Success, "status", "a send to a name of %zu bytes succeeded", tooLong.size());
    CHECK(tx.checkReceiverStatus(Address{tooLong, 0}) == Availability::Unavailable, "status", "there is a receiver at a name of %zu bytes", tooLong.size());
  }
  LocalIPCBufferSender shared;
  for (int t = 0, c = 1 + (int)sim_choose(2); t < c; t++)
    ths.emplace_back([&] {
      for (int i = 0, m = 2 + (int)sim_choose(4); i < m; i++) {
        size_t k = sim_choose(addrs.size());
        if (sim_choose(3) == 0) {
          auto st = shared.checkReceiverStatus(addrs[k]);
          if (k == dead) CHECK(st == Availability::Unavailable, "status", "a receiver that was never started is said to be available");
        } else {
          bool ok = send(*books[k], shared, addrs[k], someSize());
          CHECK(k != dead || !ok, "status", "a send to a receiver that was never started succeeded");
        }
      }
    });
  joinAll(ths);
  sim_faults_stop();
  for (size_t k = 0; k < addrs.size(); k++) {
    auto st = shared.checkReceiverStatus(addrs[k]);
    CHECK(st == (k == dead ? Availability::Unavailable : Availability::Available), "status", "wrong status %d of receiver %zu", (int)st, k);
    if (k != dead) CHECK(send(*books[k], shared, addrs[k], 64), "refused", "a send to a running receiver failed with no fault going on");
  }
  static_cast<void>(waitFor([&] { bool all = true; for (auto &b : books) all = b->complete() && all; return all; }, BOUND));
  for (auto &b : books) b->check();
  for (size_t k = 0; k < addrs.size(); k++) if (k != dead) rxs[k]->stop();
  CHECK(waitFor([&] { return ended.load() == runs; }, BOUND), "stop-hangs", "a receiver did not end");
  joinAll(rts);
}
