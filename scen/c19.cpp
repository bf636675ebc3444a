// C19: inter-process services survive crashes and recover.
#include "cs.h"

#include <deque>

#include <maf/LocalIPCProxy.h>
#include <maf/LocalIPCStub.h>
#include <maf/messaging/ProcessorEx.h>

extern "C" bool sim_listening(const char *name);
namespace lipc = maf::messaging::ipc::local;
using lipc::createProxy;
using lipc::createStub;
using maf::util::directExecutor;
using LevelS = level_property::status;
using TickA = tick_signal::attributes;

namespace {
constexpr uint64_t BOUND = 8000 * MS;
const char *const SRV = "srv";
string text(int kind, int n) {
  SimQuiet z;
  string s = "t" + std::to_string(kind) + ":" + std::to_string(n);
  if (n % 7 == 3) s.append(3000, (char)('a' + n % 26));
  if (n % 29 == 5) s.append(30000, 'z');
  return s;
}
enum Mode { Now, Later, Err, Never, Modes };
struct Req {
  int id, mode, client;
  int handled = 0, life = -1, outcomes = 0;
  bool abortable = false;   // its handler wants to know of an abort
  int aborts = 0;
  uint64_t kept = INF;      // since when its handler keeps it
};
struct Reg { int client, kind; vector<int> got; };   // one registration
struct Client {
  int k, node = -1;
  bool dead = false, ended = false;
  bool judged = true;                               // nothing it needs may have been lost
  vector<int> states;                               // what its observer was told
  vector<std::shared_ptr<Reg>> status, tick;        // the latest registrations
  int finalOk = -1;
};
// What all simulated processes report to; only touched with the simulator quiet
struct World {
  std::deque<Req> reqs;
  vector<Client *> clients;
  vector<std::shared_ptr<Reg>> regs;
  std::set<int> levels, ticks;      // values that were set, broadcast
  int lastLevel = 0, lastTick = 0;
  int serverUp = -1;                // the life that serves
  std::atomic<int> cmd{0}, did{0};
  std::atomic<bool> over{false}, finalReq{false};
  bool hard = false;
  unsigned poor = 0;                // how often clients run out of descriptors
};
bool avail(const Client &c) { return !c.states.empty() && c.states.back(); }

int begin(World &w, int client, bool canNever) {
  int mode = (int)sim_choose(Modes);
  if (mode == Never && !canNever) mode = Later;
  SimQuiet z;
  w.reqs.push_back({(int)w.reqs.size(), mode, client});
  sim_ev("request", w.reqs.back().id, mode, client, 0);
  return w.reqs.back().id;
}
void outcome(World &w, int id, const ResponseT<echo_request::output> &r, const char *how) {
  SimQuiet z;
  Req &q = w.reqs[(size_t)id];
  auto out = r.getOutput();
  auto e = r.getError();
  sim_ev("outcome", id, out ? 1 : e ? 2 : 0, out ? out->get_answer() : -1, 0);
  CHECK(++q.outcomes == 1, "twice", "request %d got %d outcomes", id, q.outcomes);
  if (out) {
    CHECK(q.handled == 1 && out->get_id() == id, "wrong-answer", "request %d got the answer to request %d (%s)", id, out->get_id(), how);
    CHECK(out->get_answer() == q.life && out->get_text() == text(2, id), "damaged", "request %d got a damaged answer (%s)", id, how);
    CHECK(q.mode == Now || q.mode == Later, "wrong-answer", "request %d that the handler never answers so got an answer", id);
  } else if (e && q.handled && q.mode == Err && e->code() == CSErrorCode::OperationFailed) {
    CHECK(e->description() == text(3, id), "damaged", "request %d got a damaged error %s", id, e->description().c_str());
  }
}
void given(World &w, const std::shared_ptr<Reg> &r, int v, const string &s, const std::set<int> &known) {
  SimQuiet z;
  sim_ev("given", r->client, r->kind, v, 0);
  CHECK(known.count(v), "invented", "client %d was given %d that was never published", r->client, v);
  CHECK(s == text(r->kind, v), "damaged", "client %d was given %d with a damaged text", r->client, v);
  CHECK(r->got.empty() || r->got.back() < v || (r->kind == 0 && r->got.back() == v), "order", "client %d was given %s %d after %d", r->client, r->kind ? "signal" : "status", v, r->got.back());
  r->got.push_back(v);
}
struct SrvArg { World *w; int life; Flag up; };
struct CliArg { World *w; Client *c; };
}  // namespace

// The process that serves
extern "C" void c19_server(void *p) {
  auto *a = (SrvArg *)p;
  World &w = *a->w;
  int life = a->life;
  AsyncProcessor proc;
  proc.launch();
  auto exec = sim_choose(2) ? proc->getAsyncExecutor() : directExecutor();
  std::shared_ptr<lipc::Stub> stub;
  for (int i = 0; i < 60 && !stub; i++) stub = createStub(Address{SRV, 0}, "svc", exec);
  CHECK(stub, "create", "no stub");
  std::mutex m;
  std::deque<std::pair<int, lipc::Request<echo_request::input>>> later, never;
  auto answer = [life](int id, lipc::Request<echo_request::input> &r) {
    auto st = r.respond<echo_request::output>(id, life, text(2, id));
    SimQuiet z;
    sim_ev("respond", id, (int)st, 0, 0);
  };
  stub->registerRequestHandler<echo_request::input>([&](lipc::Request<echo_request::input> r) {
    auto in = r.getInput();
    CHECK(in, "damaged", "a request without its input");
    int id = in->get_id(), mode;
    {
      SimQuiet z;
      CHECK(id >= 0 && id < (int)w.reqs.size(), "invented", "request %d that nobody sent", id);
      Req &q = w.reqs[(size_t)id];
      mode = q.mode;
      sim_ev("handled", id, mode, life, 0);
      CHECK(in->get_text() == text(1, id), "damaged", "request %d arrived damaged", id);
      CHECK(++q.handled == 1, "twice", "request %d was handled %d times", id, q.handled);
      q.life = life;
    }
    switch (mode) {
      case Now: answer(id, r); break;
      case Err: r.error(text(3, id)); break;
      default: {
        std::lock_guard lock(m);
        (mode == Later ? later : never).emplace_back(id, std::move(r));
      }
    }
  });
  auto publish = [&](bool status) {
    int v;
    { SimQuiet z; v = status ? ++w.lastLevel : ++w.lastTick; (status ? w.levels : w.ticks).insert(v); sim_ev("publish", status, v, life, 0); }
    if (status) stub->setStatus<LevelS>(v, text(0, v));
    else stub->broadcastSignal<TickA>(v, text(1, v));
  };
  auto answerLater = [&] {
    for (;;) {
      std::pair<int, lipc::Request<echo_request::input>> x;
      {
        std::lock_guard lock(m);
        if (later.empty()) return;
        x = std::move(later.front());
        later.pop_front();
      }
      answer(x.first, x.second);
    }
  };
  publish(true);
  stub->startServing();
  { SimQuiet z; sim_ev("serving", life, 0, 0, 0); }
  a->up.set();
  for (int i = 0, n = (int)sim_choose(14); i < n && !w.cmd.load(); i++)
    switch (sim_choose(6)) {
      case 0: publish(true); break;
      case 1: publish(false); break;
      case 2: sim_sleep(sim_choose(40) * MS); break;
      case 3: sim_sleep(sim_choose(700) * MS); break;
      case 4: answerLater(); break;
      case 5:
        if (sim_choose(3) == 0) {
          stub->stopServing();
          if (sim_choose(2)) sim_sleep(sim_choose(50) * MS);
          stub->startServing();
        }
        break;
    }
  for (;;) {
    static_cast<void>(waitFor([&] { return w.cmd.load() > w.did.load(); }, 20 * MS));
    answerLater();
    int c = w.cmd.load();
    if (c == w.did.load()) continue;
    { SimQuiet z; sim_ev("cmd", c, life, 0, 0); }
    switch (c) {
      case 1: publish(true); for (int i = 0; i < 3; i++) publish(false); publish(true); break;
      case 2: stub->stopServing(); break;
      case 3: stub->startServing(); break;
      case 4: csmgmt::shutdownAllServers(); break;
    }
    w.did = c;
    if (c == 4) break;
  }
  { std::lock_guard lock(m); later.clear(); never.clear(); }
  stub.reset();
  proc.stopAndWait();
}

// A process that uses the service
extern "C" void c19_client(void *p) {
  auto *a = (CliArg *)p;
  World &w = *a->w;
  Client &c = *a->c;
  if (w.poor) sim_node_poor(w.poor);
  AsyncProcessor proc;
  proc.launch();
  auto exec = proc->getAsyncExecutor();
  std::shared_ptr<lipc::Proxy> proxy;
  struct Observer : ServiceStatusObserverIF {
    std::function<void(bool)> f;
    void onServiceStatusChanged(const ServiceID &, Availability, Availability n) override { f(n == Availability::Available); }
  };
  auto obs = std::make_shared<Observer>();
  std::weak_ptr<lipc::Proxy> wp;
  for (int i = 0; i < 60 && !proxy; i++) proxy = createProxy(Address{SRV, 0}, "svc", exec);
  CHECK(proxy, "create", "no proxy");
  obs->f = [&w, &c, proxy](bool up) {
    {
      SimQuiet z;
      sim_ev(up ? "available" : "unavailable", c.k, 0, 0, 0);
      CHECK(up != avail(c), "repeated", "client %d was told twice that the service is %savailable", c.k, up ? "" : "un");
      c.states.push_back(up);
      c.status.clear();
      c.tick.clear();
    }
    if (!up) return;
    // several for the same, one of which may soon be gone; the signals first
    vector<std::shared_ptr<Reg>> regs[2];
    bool ok = true;
    for (int kind : {1, 0}) {
      int n = sim_choose(3) ? 1 : 2 + (int)sim_choose(2), drop = n > 1 && sim_choose(2) ? (int)sim_choose((uint64_t)n) : -1;
      RegID dropped;
      for (int k = 0; k < n; k++) {
        std::shared_ptr<Reg> r;
        { SimQuiet z; r = std::make_shared<Reg>(Reg{c.k, kind, {}}); }
        RegID id;
        for (int i = 0; i < (w.poor ? 20 : 1) && !id.valid(); i++)
          if (kind) id = proxy->registerSignal<TickA>([&w, r](const tick_signal::attributes_ptr &v) { CHECK(v, "damaged", "an empty signal"); given(w, r, v->get_n(), v->get_s(), w.ticks); });
          else id = proxy->registerStatus<LevelS>([&w, r](const level_property::status_ptr &v) { CHECK(v, "damaged", "an empty status"); given(w, r, v->get_v(), v->get_s(), w.levels); });
        SimQuiet z;
        if (k == drop) { dropped = id; continue; }
        regs[kind].push_back(r);
        ok &= id.valid();
      }
      if (dropped.valid()) proxy->unregister(dropped);
    }
    SimQuiet z;
    sim_ev("registered", c.k, ok, 0, 0);
    if (avail(c) && ok) { c.status = regs[0]; c.tick = regs[1]; }
  };
  proxy->registerServiceStatusObserver(obs);
  auto sync = [&](bool canNever, unsigned ms, bool final) {
    int id = begin(w, c.k, canNever && !final);
    if (final) { SimQuiet z; w.reqs[(size_t)id].mode = Now; }
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    auto in = std::make_shared<echo_request::input>(id, text(1, id));
    auto r = proxy->sendRequest<echo_request::output>(in, &st, RequestTimeoutMs{ms});
    if (st == ActionCallStatus::Success) outcome(w, id, r, "sync");
    SimQuiet z;
    sim_ev("sync-ret", id, (int)st, 0, 0);
    return st == ActionCallStatus::Success && r.getOutput();
  };
  // one that waits for ever unless it is released
  std::thread waiter([&] {
    if (sim_choose(2)) return;
    while (!w.over.load()) {
      static_cast<void>(waitFor([&] { return w.over.load() || avail(c); }, 50 * MS));
      bool up;
      { SimQuiet z; up = avail(c); }
      bool ok = !w.over.load() && up && sync(true, w.hard ? 400 : 0, false);
      sim_sleep(ok ? MS : 60 * MS);
    }
  });
  for (int i = 0, n = (int)sim_choose(16); i < n && !w.finalReq.load(); i++)
    switch (sim_choose(6)) {
      case 0: sync(false, w.hard ? 400 : 0, false); break;
      case 1: sync(true, 1 + (unsigned)sim_choose(300), false); break;
      case 2: case 3: {
        int id = begin(w, c.k, true);
        ActionCallStatus st = ActionCallStatus::Success;
        auto in = std::make_shared<echo_request::input>(id, text(1, id));
        auto reg = proxy->sendRequestAsync<echo_request::output>(in, [&w, id](const ResponseT<echo_request::output> &r) { outcome(w, id, r, "async"); }, &st);
        if (sim_choose(5) == 0 && reg.valid()) proxy->abortRequest(reg);
        break;
      }
      case 4: {
        ActionCallStatus st = ActionCallStatus::FailedUnknown;
        auto v = proxy->getStatus<LevelS>(&st, RequestTimeoutMs{w.hard ? 400 : 0});
        if (v) { auto t = text(0, v->get_v()); SimQuiet z; CHECK(w.levels.count(v->get_v()) && v->get_s() == t, "invented", "client %d read %d that was never set so", c.k, v->get_v()); }
        break;
      }
      case 5: sim_sleep(sim_choose(2) ? sim_choose(20) * MS : sim_choose(600) * MS); break;
    }
  static_cast<void>(waitFor([&] { return w.finalReq.load() || w.over.load(); }, 0));
  if (w.finalReq.load() && !w.over.load()) {
    bool ok = sync(false, 3000, true);
    int got[2];
    for (auto &g : got) { auto v = proxy->getStatus<LevelS>(nullptr, RequestTimeoutMs{3000}); g = v ? v->get_v() : -1; }
    SimQuiet z;
    for (int g : got) if (c.judged) CHECK(g == w.lastLevel, "not-latest", "client %d reads %d instead of %d", c.k, g, w.lastLevel);
    c.finalOk = ok;
  }
  static_cast<void>(waitFor([&] { return w.over.load(); }, 0));
  w.over.load();
  waiter.join();
  if (sim_choose(2)) csmgmt::shutdownAllClients();
  proxy->unregisterServiceStatusObserver(obs);
  proc.stopAndWait();
  SimQuiet z;
  sim_ev("client-ends", c.k, 0, 0, 0);
  c.ended = true;
}

static void session(bool hard, bool poor = false) {
  auto *wp = new World;   // never freed: processes that use it get killed
  World &w = *wp;
  w.hard = hard;
  if (poor) w.poor = 2 + (unsigned)sim_choose(12);
  int nc = 1 + (int)sim_choose(2), lives = 1 + (int)sim_choose(2), srv = -1;
  Pids pids;
  SrvArg *sa = nullptr;
  auto server = [&](int life) {
    { SimQuiet z; sa = new SrvArg{&w, life, {}}; }
    srv = sim_node_start("c19_server", sa, pids.next());
    CHECK(srv > 0, "harness", "no node left");
  };
  auto client = [&](int k) {
    Client *c;
    CliArg *ca;
    { SimQuiet z; c = new Client; c->k = k; w.clients.push_back(c); ca = new CliArg{&w, c}; }
    c->node = sim_node_start("c19_client", ca, pids.next());
    CHECK(c->node > 0, "harness", "no node left");
  };
  auto pause = [&] {
    if (sim_choose(2)) sim_sleep(sim_choose(2) ? sim_choose(20) * MS : sim_choose(1500) * MS);
    else for (uint64_t i = 0, n = sim_choose(600); i < n; i++) sim_yield();
  };
  bool first = sim_choose(2);
  if (first) server(0);
  for (int k = 0; k < nc; k++) client(k);
  if (!first) { pause(); server(0); }
  for (int life = 1; life <= lives; life++) {
    pause();
    switch (sim_choose(4)) {
      case 0: break;
      case 1: {   // a client dies, perhaps another comes
        Client *c = w.clients[sim_choose(w.clients.size())];
        if (c->dead) break;
        sim_node_kill(c->node);
        { SimQuiet z; c->dead = true; sim_ev("client-dies", c->k, 0, 0, 0); }
        if (sim_choose(2)) { pause(); client((int)w.clients.size()); }
        break;
      }
      default: {
        sim_node_kill(srv);
        { SimQuiet z; sim_ev("server-dies", life - 1, 0, 0, 0); }
        if (sim_choose(3)) pause();
        server(life);
      }
    }
  }
  sim_faults_stop();
  CHECK(sa->up.wait(BOUND), "not-served", "the server does not come up");
  sim_sleep(2000 * MS);   // by then a server that died is known to have died
  if (hard) {   // what could not be sent is lost, but who comes now must not notice
    for (auto *c : w.clients) c->judged = false;
    client((int)w.clients.size());
  }
  auto alive = [](Client &c) { return !c.dead; };
  auto judged = [](Client &c) { return !c.dead && c.judged; };
  auto expect = [&](const char *cls, const char *what, const std::function<bool(Client &)> &who, const std::function<bool(Client &)> &f) {
    auto all = [&] { for (auto *c : w.clients) if (who(*c) && !f(*c)) return false; return true; };
    static_cast<void>(waitFor(all, BOUND));
    SimQuiet z;
    for (auto *c : w.clients) if (who(*c)) CHECK(f(*c), cls, "client %d %s within %llu ms after the last fault", c->k, what, (unsigned long long)(BOUND / MS));
  };
  expect("not-available", "was not told that the service is available", judged, [](Client &c) { return avail(c); });
  expect("not-registered", "does not get the status after registering for it", judged, [](Client &c) { for (auto &r : c.status) if (r->got.empty()) return false; return !c.status.empty(); });
  int t0;
  { SimQuiet z; t0 = w.lastTick; }
  w.cmd = 1;
  static_cast<void>(waitFor([&] { return w.did.load() == 1; }, BOUND));
  CHECK(w.did.load() == 1, "stuck", "the server is stuck publishing");
  expect("missed", "does not get the last status", judged, [&](Client &c) { for (auto &r : c.status) if (r->got.empty() || r->got.back() != w.lastLevel) return false; return !c.status.empty(); });
  expect("missed", "does not get each of the last signals", judged, [&](Client &c) {
    for (auto &r : c.tick) {
      int n = 0;
      for (int v : r->got) n += v > t0;
      if (n != w.lastTick - t0) return false;
    }
    return !c.tick.empty();
  });
  w.finalReq = true;
  expect("not-served", "does not get its request served", alive, [](Client &c) { return c.finalOk >= 0; });
  { SimQuiet z; for (auto *c : w.clients) if (judged(*c)) CHECK(c->finalOk == 1, "not-served", "a request of client %d failed with no fault going on", c->k); }
  int how = (int)sim_choose(3);
  if (how == 0) sim_node_kill(srv);
  else { w.cmd = how == 1 ? 2 : 4; static_cast<void>(waitFor([&] { return w.did.load() == w.cmd.load(); }, BOUND)); CHECK(w.did.load() == w.cmd.load(), "stuck", "the server is stuck %s", how == 1 ? "in stopServing" : "shutting down"); }
  expect("not-unavailable", "was not told that the service went away", judged, [](Client &c) { return !avail(c); });
  w.over = true;
  expect("stuck", "does not end: a call was not released", alive, [](Client &c) { return c.ended; });
  if (how == 1) sim_node_kill(srv);
  for (auto *c : w.clients) sim_node_kill(c->node);
}

// Servers and clients that are closed and made again, at several addresses
namespace {
struct Shop { string name; int port; bool open; };
struct Town {
  vector<Shop> shops;
  std::deque<Req> reqs;
  std::atomic<int> over{0};
  std::atomic<bool> serving{false};
};
struct TownArg { Town *t; int k; Flag done; };
string shopText(int shop, int id) { SimQuiet z; return "s" + std::to_string(shop) + "r" + std::to_string(id); }
using EchoReq = lipc::Request<echo_request::input>;
struct Round {
  std::mutex m;
  std::deque<std::tuple<int, int, EchoReq>> kept;
  std::atomic<int> aborted{0};
  // answers one that is to be answered (or any)
  bool answer(Town &t, bool any) {
    std::tuple<int, int, EchoReq> x;
    {
      std::lock_guard lock(m);
      size_t i = 0;
      if (any && !kept.empty()) i = (size_t)sim_choose(kept.size());
      { SimQuiet z; while (i < kept.size() && !any && t.reqs[(size_t)std::get<0>(kept[i])].mode != Later) i++; }
      if (i >= kept.size()) return false;
      x = std::move(kept[i]);
      kept.erase(kept.begin() + (long)i);
    }
    auto [id, shop, r] = std::move(x);
    auto st = r.respond<echo_request::output>(id, shop, shopText(shop, id));
    SimQuiet z;
    sim_ev("respond", id, (int)st, 0, 0);
    return true;
  }
};
}  // namespace

extern "C" void c19_town(void *p) {
  auto *a = (TownArg *)p;
  Town &t = *a->t;
  int rounds = (int)sim_choose(3);
  AsyncProcessor proc;
  proc.launch();
  for (int round = 0; round <= rounds; round++) {
    bool last = round == rounds;
    auto rd = std::make_shared<Round>();
    vector<std::shared_ptr<lipc::Stub>> stubs;
    for (int i = 0; i < (int)t.shops.size(); i++) {
      auto stub = createStub(Address{t.shops[i].name, (Address::Port)t.shops[i].port}, "svc", sim_choose(2) ? maf::util::ExecutorIFPtr(proc->getAsyncExecutor()) : directExecutor());
      CHECK(stub, "create", "there is no server at address %s:%d the %dth time", t.shops[i].name.c_str(), t.shops[i].port, round + 1);
      bool abortable = sim_choose(2);
      stub->registerRequestHandler<echo_request::input>([&t, rd, i, abortable, round](EchoReq r) {
        auto in = r.getInput();
        CHECK(in, "damaged", "a request without its input");
        int id = in->get_id(), mode;
        auto text = shopText(i, id);
        {
          SimQuiet z;
          CHECK(id >= 0 && id < (int)t.reqs.size() && in->get_text() == text, "invented", "request %d came to %s, with %s", id, t.shops[(size_t)i].name.c_str(), in->get_text().c_str());
          CHECK(++t.reqs[(size_t)id].handled == 1, "twice", "request %d was handled twice", id);
          mode = t.reqs[(size_t)id].mode;
          sim_ev("handled", id, mode, i, round);
        }
        if (mode == Now) { r.respond<echo_request::output>(id, i, text); return; }
        if (abortable) {
          r.onAborted([&t, rd, id] {
            rd->aborted++;
            { SimQuiet z; sim_ev("abort", id, 0, 0, 0); CHECK(++t.reqs[(size_t)id].aborts == 1, "aborted-twice", "request %d is aborted twice", id); }
            rd->answer(t, true);
          }, directExecutor());
          SimQuiet z;
          t.reqs[(size_t)id].abortable = true;
        }
        std::lock_guard lock(rd->m);
        rd->kept.emplace_back(id, i, std::move(r));
        SimQuiet z;
        t.reqs[(size_t)id].kept = sim_ev("kept", id, i, 0, 0);
      });
      stub->startServing();
      for (int n = (int)sim_choose(4); n > 0 && !sim_choose(2); n--) { stub->stopServing(); stub->startServing(); }
      stubs.push_back(stub);
      if (!last && sim_choose(8) == 0) break;
    }
    { SimQuiet z; sim_ev("serving", round, last, 0, 0); }
    if (last) {
      int toggles = sim_choose(2) ? (int)sim_choose(40) : 0;
      for (int n = 0; n < toggles; n++) {
        size_t i = (size_t)sim_choose(t.shops.size());
        bool open;
        { SimQuiet z; open = t.shops[i].open = !t.shops[i].open; sim_ev(open ? "open" : "close", (int)i, 0, 0, 0); }
        if (open) stubs[i]->startServing(); else stubs[i]->stopServing();
        if (sim_choose(2)) sim_sleep(sim_choose(60) * MS);
      }
      t.serving = true;
    }
    for (uint64_t i = 0, n = sim_choose(3) ? sim_choose(60) : 0; last ? t.over.load() < 100 : i < n; i++) {
      static_cast<void>(waitFor([&] { return t.over.load() >= 100; }, 25 * MS));
      rd->answer(t, false);
    }
    uint64_t shutting;
    { SimQuiet z; shutting = sim_ev("shutting", round, 0, 0, 0); }
    csmgmt::shutdownAllServers();
    { SimQuiet z; sim_ev("shut", round, 0, 0, 0); }
    {
      std::lock_guard lock(rd->m);
      for (auto &[id, shop, r] : rd->kept) {
        bool valid = r.valid(), old, untold;
        { SimQuiet z; auto &q = t.reqs[(size_t)id]; old = q.kept < shutting; untold = q.abortable && !q.aborts; }
        if (old) CHECK(!valid && !untold, "not-released", "request %d is %s after its server has been shut down", id, valid ? "still valid" : "not aborted");
      }
    }
    if (sim_choose(2)) stubs.clear();
    while (rd->answer(t, true)) {}
  }
  proc.stopAndWait();
  a->done.set();
}

extern "C" void c19_shopper(void *p) {
  auto *a = (TownArg *)p;
  Town &t = *a->t;
  int cycles = (int)sim_choose(3);
  struct Seen { std::atomic<bool> up{false}; };
  struct Observer : ServiceStatusObserverIF {
    std::shared_ptr<Seen> s;
    int k, shop, again;
    Address addr;
    void onServiceStatusChanged(const ServiceID &, Availability, Availability n) override {
      s->up = n == Availability::Available;
      { SimQuiet z; sim_ev(n == Availability::Available ? "available" : "unavailable", k, shop, 0, 0); }
      if (again && n != Availability::Available) createProxy(addr, "svc", directExecutor());
    }
  };
  auto ask = [&t, a](const std::shared_ptr<lipc::Proxy> &proxy, int shop, int mode, unsigned ms) {
    int id;
    { SimQuiet z; id = (int)t.reqs.size(); t.reqs.push_back({id, mode, a->k}); sim_ev("ask", id, mode, shop, ms); }
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    auto in = std::make_shared<echo_request::input>(id, shopText(shop, id));
    auto r = proxy->sendRequest<echo_request::output>(in, &st, RequestTimeoutMs{ms});
    auto out = r.getOutput();
    auto text = shopText(shop, id);
    SimQuiet z;
    sim_ev("asked", id, (int)st, out ? 1 : 0, 0);
    if (out) CHECK(out->get_id() == id && out->get_answer() == shop && out->get_text() == text && t.reqs[(size_t)id].handled == 1, "wrong-answer", "request %d to %d got the answer of %d to request %d", id, shop, out->get_answer(), out->get_id());
    return st == ActionCallStatus::Success && out;
  };
  for (int cycle = 0; cycle <= cycles; cycle++) {
    bool last = cycle == cycles;
    vector<std::shared_ptr<lipc::Proxy>> proxies;
    vector<std::shared_ptr<Seen>> seen;
    vector<std::shared_ptr<Observer>> observers;
    for (int i = 0; i < (int)t.shops.size(); i++)
      for (int twice = sim_choose(3) == 0; twice >= 0; twice--) {
        auto proxy = createProxy(Address{t.shops[i].name, (Address::Port)t.shops[i].port}, "svc", directExecutor());
        CHECK(proxy, "create", "there is no client for address %s:%d the %dth time", t.shops[i].name.c_str(), t.shops[i].port, cycle + 1);
        if (twice) continue;
        auto o = std::make_shared<Observer>();
        o->s = std::make_shared<Seen>();
        o->k = a->k;
        o->shop = i;
        o->again = sim_choose(3) == 0;
        o->addr = Address{t.shops[i].name, (Address::Port)t.shops[i].port};
        proxy->registerServiceStatusObserver(o);
        proxies.push_back(proxy);
        seen.push_back(o->s);
        observers.push_back(o);
      }
    auto eventually = [&](bool up, uint64_t in) { return waitFor([&] { for (size_t i = 0; i < seen.size(); i++) if (seen[i]->up.load() != (up && t.shops[i].open)) return false; return true; }, in); };
    if (last) {
      CHECK(t.serving.load() || waitFor([&] { return t.serving.load(); }, BOUND), "stuck", "the server is not up");
      sim_sleep(2000 * MS);
    } else if (sim_choose(2)) static_cast<void>(waitFor([&] { for (auto &s : seen) if (!s->up.load()) return false; return true; }, (1 + sim_choose(1000)) * MS));
    if (last) CHECK(eventually(true, BOUND), "not-available", "client %d was not told which services are available", a->k);
    // one that is only released by the end
    auto released = std::make_shared<Flag>();
    int shop0 = (int)sim_choose(t.shops.size());
    std::thread pending([&, proxy = proxies[(size_t)shop0], shop0] { ask(proxy, shop0, Never, 0); released->set(); });
    for (int n = last ? (int)t.shops.size() : (int)sim_choose(6), j = 0; j < n; j++) {
      int shop = last ? j : (int)sim_choose(t.shops.size());
      bool ok = ask(proxies[(size_t)shop], shop, last ? Now : (int)sim_choose(2) ? Now : sim_choose(2) ? Later : Never, last ? 0 : 1 + (unsigned)sim_choose(60));
      if (last) CHECK(ok == t.shops[(size_t)shop].open, "not-served", "client %d gets its request to %d %sserved", a->k, shop, ok ? "" : "not ");
    }
    if (last) {
      t.over++;
      static_cast<void>(waitFor([&] { return t.over.load() >= 100; }, 0));
      t.over.load();
      // told by the server, not just noticed when its connection is checked next time
      CHECK(eventually(false, 50 * MS), "not-unavailable", "client %d was not told at once that the services are gone", a->k);
    }
    if (!last || sim_choose(2)) {
      csmgmt::shutdownAllClients();
      { SimQuiet z; sim_ev("closed", a->k, cycle, 0, 0); }
      CHECK(eventually(false, BOUND), "not-unavailable", "client %d was not told that the services of a closed client are gone", a->k);
    }
    CHECK(released->wait(BOUND), "stuck", "a pending request of client %d is not released", a->k);
    pending.join();
    for (size_t i = 0; i < proxies.size(); i++) proxies[i]->unregisterServiceStatusObserver(observers[i]);
  }
  a->done.set();
}

// A client that comes while the server changes its mind
namespace {
struct Fickle { std::atomic<bool> up{false}, over{false}, told{false}; bool open = false; Flag made, decided; std::atomic<int> done{0}; string client; };
}  // namespace
extern "C" void c19_fickle(void *p) {
  auto &f = *(Fickle *)p;
  auto stub = createStub(Address{"f", 1}, "svc", directExecutor());
  CHECK(stub, "create", "no stub");
  if (sim_choose(2)) stub->startServing();
  f.made.set();
  for (int n = 1 + (int)sim_choose(5); n > 0; n--) {
    if (sim_choose(8) == 0) sim_sleep(sim_choose(100) * MS);
    if (sim_choose(2)) static_cast<void>(waitFor([&] { return sim_listening(f.client.c_str()); }, 20 * MS));
    for (uint64_t i = 0, y = sim_choose(sim_choose(2) ? 400 : 60); i < y; i++) sim_yield();
    f.open = sim_choose(2);
    if (f.open) stub->startServing(); else stub->stopServing();
  }
  { SimQuiet z; sim_ev("decided", f.open, 0, 0, 0); }
  f.decided.set();
  static_cast<void>(waitFor([&] { return f.over.load(); }, 0));
  f.done++;
}
extern "C" void c19_curious(void *p) {
  auto &f = *(Fickle *)p;
  struct Observer : ServiceStatusObserverIF {
    Fickle &f;
    Observer(Fickle &f) : f(f) {}
    void onServiceStatusChanged(const ServiceID &, Availability, Availability n) override {
      f.told = n == Availability::Available;
      SimQuiet z;
      sim_ev(n == Availability::Available ? "available" : "unavailable", 0, 0, 0, 0);
    }
  };
  auto proxy = createProxy(Address{"f", 1}, "svc", directExecutor());
  CHECK(proxy, "create", "no proxy");
  proxy->registerServiceStatusObserver(std::make_shared<Observer>(f));
  static_cast<void>(waitFor([&] { return f.over.load(); }, 0));
  f.done++;
}
SIM_SCENARIO(c19_fickle, SIM_F_NET | SIM_F_SOFTNET, 0, 0) {
  Fickle *f;
  { SimQuiet z; f = new Fickle; }
  Pids pids;
  int a = sim_node_start("c19_fickle", f, pids.next()), pb = pids.next();
  { SimQuiet z; f->client = "f" + std::to_string(pb); }
  if (sim_choose(2)) f->made.wait();
  int b = sim_node_start("c19_curious", f, pb);
  CHECK(a > 0 && b > 0, "harness", "no node left");
  CHECK(f->decided.wait(BOUND), "stuck", "starting or stopping to serve does not end");
  sim_faults_stop();
  sim_sleep(1500 * MS);
  { SimQuiet z; CHECK(f->told.load() == f->open, "not-available", "a client was last told that the service is %savailable, but it is%s", f->told.load() ? "" : "un", f->open ? "" : " not"); }
  f->over = true;
  CHECK(waitFor([&] { return f->done.load() == 2; }, BOUND), "stuck", "no end");
  sim_node_kill(a);
  sim_node_kill(b);
}
SIM_SCENARIO(c19_lifecycle, SIM_F_NET | SIM_F_SOFTNET, 0, 0) {
  Town *t;
  vector<TownArg *> args;
  {
    SimQuiet z;
    t = new Town;   // never freed: processes that use it get killed
  }
  int n = 1 + (int)sim_choose(3);
  const char *names[] = {"m", "b", "x"};
  for (int i = 0; i < n; i++) t->shops.push_back({names[i], (int)sim_choose(4), true});
  int clients = 1 + (int)sim_choose(2);
  vector<int> nodes;
  Pids pids;
  for (int k = -1; k < clients; k++) {
    { SimQuiet z; args.push_back(new TownArg{t, k, {}}); }
    int node = sim_node_start(k < 0 ? "c19_town" : "c19_shopper", args.back(), pids.next());
    CHECK(node > 0, "harness", "no node left");
    nodes.push_back(node);
    if (sim_choose(2)) sim_sleep(sim_choose(600) * MS);
  }
  CHECK(waitFor([&] { return t->serving.load(); }, 10 * BOUND), "stuck", "the server does not come up");
  sim_faults_stop();
  CHECK(waitFor([&] { return t->over.load() == clients; }, 10 * BOUND), "stuck", "the clients do not come to their end");
  t->over = 100;
  for (auto *a : args) CHECK(a->done.wait(2 * BOUND), "stuck", "%s does not end", a->k < 0 ? "the server" : "a client");
  for (int node : nodes) sim_node_kill(node);
}

SIM_SCENARIO(c19_crash, SIM_F_NET | SIM_F_SOFTNET, 0, 0) { session(false); }
SIM_SCENARIO(c19_faults, SIM_F_NET, 0, 0) { session(true); }
// only clients run out of descriptors: they are told when what they send is lost, and watch the server again
SIM_SCENARIO(c19_poor_clients, SIM_F_NET | SIM_F_SOFTNET, 0, 0) { session(false, true); }
