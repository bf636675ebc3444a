// C17: service availability observers converge, pending calls are released.
#include "cs.h"

#include <maf/messaging/client-server/AsyncServiceStatusObserver.h>
namespace itc = maf::messaging::itc;
using maf::util::directExecutor;

namespace {
struct Op { uint64_t inv, ret = INF; int up; };    // start/stop, or registering/unregistering (up = -1)
struct Obs {
  int id, svc, kind;
  uint64_t regInv = 0, regRet = INF, unInv = INF, unRet = INF;
  bool dead = false;          // its executor or processor is gone
  vector<std::pair<Availability, uint64_t>> told;
};
struct World {
  itc::StubPtr stub[2];
  vector<std::unique_ptr<Op>> ops[2];
  vector<std::unique_ptr<Obs>> obs;
  std::atomic<int> budget{0};
};
Op *begin(World &w, int svc, int up, const char *k) {
  SimQuiet z;
  w.ops[svc].push_back(std::make_unique<Op>());
  auto *o = w.ops[svc].back().get();
  o->up = up;
  o->inv = sim_ev(k, svc, up, 0, 0);
  return o;
}
void done(Op *o) { SimQuiet z; o->ret = sim_ev("done", o->up, 0, 0, 0); }
void serve(World &w, int svc, bool up) {
  Op *o = begin(w, svc, up, up ? "start" : "stop");
  if (up) w.stub[svc]->startServing(); else w.stub[svc]->stopServing();
  done(o);
}
void told(Obs *o, Availability a) {
  SimQuiet z;
  uint64_t now = sim_ev("told", o->id, (int)a, 0, 0);
  CHECK(a == Availability::Available || a == Availability::Unavailable, "invented", "observer %d is told %d", o->id, (int)a);
  if (!o->told.empty()) CHECK(o->told.back().first != a, "told-twice", "observer %d is told of state %d twice in a row", o->id, (int)a);
  o->told.emplace_back(a, now);
}
Obs *newObs(World &w, int svc, int kind) {
  SimQuiet z;
  w.obs.push_back(std::make_unique<Obs>());
  auto *o = w.obs.back().get();
  o->id = (int)w.obs.size() - 1;
  o->svc = svc;
  o->kind = kind;
  return o;
}
struct Own : ServiceStatusObserverIF {
  std::function<void(Availability)> f;
  Own(std::function<void(Availability)> f) : f(std::move(f)) {}
  void onServiceStatusChanged(const ServiceID &, Availability, Availability a) override { f(a); }
};
const char *sids[] = {"svc", "other"};
}  // namespace

SIM_SCENARIO(c17_observers, 0, 0, 0) {
  auto wp = std::make_unique<World>();
  World &w = *wp;
  bool nested = sim_cfg(2), two = sim_cfg(3) == 0, held = sim_cfg(3) == 0;
  int nobs = 1 + (int)sim_cfg(3);
  w.budget = nested ? 3 : 0;
  AsyncProcessor procs[3];
  for (int c = 0; c < nobs; c++) procs[c].launch();
  for (int s : {0, 1}) w.stub[s] = itc::createStub(sids[s], directExecutor());
  struct Held { std::mutex m; vector<itc::Request<echo_request>> v; };
  auto held_ = std::make_shared<Held>();
  w.stub[0]->registerRequestHandler<echo_request>([held_](auto r) { std::lock_guard l(held_->m); held_->v.push_back(std::move(r)); });
  w.stub[0]->registerRequestHandler<poke_request>([](auto r) { r.respond(); });
  if (sim_choose(2)) serve(w, 0, true);

  // what an observer may do when it is told
  auto inside = [&](const itc::ProxyPtr &proxy, Obs *) {
    if (w.budget.load() <= 0 || w.budget.fetch_sub(1) <= 0) return;
    switch (sim_choose(6)) {
      case 0: { auto p = itc::createProxy(sim_choose(2) ? "other" : "third", directExecutor()); p->serviceStatus(); break; }
      case 1: { auto o = newObs(w, 1, 1); Op *x = begin(w, 1, -1, "observe"); o->regInv = x->inv;
        itc::createProxy("other", directExecutor())->registerServiceStatusObserver(std::make_shared<Own>([o](Availability a) { told(o, a); })); done(x); o->regRet = x->ret; break; }
      case 2: { auto o = newObs(w, 0, 1); Op *x = begin(w, 0, -1, "observe"); o->regInv = x->inv;
        proxy->registerServiceStatusObserver(std::make_shared<Own>([o](Availability a) { told(o, a); })); done(x); o->regRet = x->ret; break; }
      case 3: serve(w, 1, sim_choose(2)); break;
      case 4: serve(w, 0, sim_choose(2)); break;
      case 5: { ActionCallStatus st; proxy->sendRequest<poke_request>(&st); break; }
    }
  };
  vector<std::thread> ths;
  for (int c = 0; c < 1 + two; c++)
    ths.emplace_back([&, n = 1 + (int)sim_choose(4)] {
      for (int i = 0; i < n; i++) {
        if (sim_choose(2)) sim_sleep(sim_choose(3) * MS);
        serve(w, sim_choose(4) == 0, sim_choose(2));
      }
    });
  std::atomic<bool> over{false};
  vector<itc::ProxyPtr> keep(nobs);
  for (int c = 0; c < nobs; c++)
    ths.emplace_back([&, c, n = 1 + (int)sim_choose(3)] {
      bool direct = sim_choose(2);
      auto proxy = keep[c] = itc::createProxy("svc", direct ? directExecutor() : procs[c]->getAsyncExecutor());
      vector<std::pair<std::shared_ptr<ServiceStatusObserverIF>, Obs *>> mine;
      for (int i = 0; i < n; i++) {
        if (sim_choose(2)) sim_sleep(sim_choose(3) * MS);
        if (sim_choose(3) == 0 && !mine.empty()) {
          auto m = mine.back();
          mine.pop_back();
          Op *x = begin(w, 0, -1, "forget");
          m.second->unInv = x->inv;
          proxy->unregisterServiceStatusObserver(m.first);
          done(x);
          m.second->unRet = x->ret;
          continue;
        }
        auto *o = newObs(w, 0, (int)sim_choose(3));
        Op *x = begin(w, 0, -1, "observe");
        o->regInv = x->inv;
        std::shared_ptr<ServiceStatusObserverIF> ob;
        if (o->kind == 0) ob = proxy->onServiceStatusChanged([o, &inside, proxy, q = direct ? nullptr : procs[c].instance()](Availability, Availability a) { if (q) CHECK(this_processor::instance() == q, "wrong-thread", "an observer runs on a foreign thread"); told(o, a); inside(proxy, o); });
        else if (o->kind == 1) proxy->registerServiceStatusObserver(ob = std::make_shared<Own>([o, &inside, proxy](Availability a) { told(o, a); inside(proxy, o); }));
        else {
          auto sig = serviceStatusSignal(proxy);
          ob = sig;
          done(x);
          o->regRet = x->ret;
          if (sim_choose(2)) {
            auto r = sig->waitIfNot(Availability::Available, (long long)sim_choose(4));
            if (r.isReady()) { SimQuiet z; bool ever = false; for (auto &y : w.ops[0]) ever |= y->up == 1; CHECK(ever, "invented", "a service that was never started is reported available"); }
            else CHECK(r.isTimeout(), "interrupted", "a wait that nobody stopped was interrupted");
          }
        }
        if (o->regRet == INF) { done(x); o->regRet = x->ret; }
        mine.emplace_back(ob, o);
      }
      if (held && c == 0) { ActionCallStatus st; auto in = echo_request::make_input(1, "x"); proxy->sendRequest<echo_request>(in, &st); CHECK(st == ActionCallStatus::Success || st == ActionCallStatus::ActionBroken || st == ActionCallStatus::ServiceUnavailable, "status", "a held request ended with %d", (int)st); }
      static_cast<void>(waitFor([&] { return over.load(); }, 0));
      over.load();
      // the status signals: what they end with
      for (auto &m : mine)
        if (m.second->kind == 2) {
          auto sig = std::static_pointer_cast<ServiceStatusSignal>(m.first);
          auto truth = w.stub[0]->availability();
          CHECK(sig->currentStatus() == truth, "not-latest", "a status signal ends with %d, the service is %d", (int)sig->currentStatus(), (int)truth);
        }
    });
  sim_settle(50 * MS);
  for (int i = 0; i < 2; i++) for (int c = 0; c < nobs; c++) procs[c]->waitableExecute([] {}).wait();
  w.budget = 0;   // what observers do must not change the truth while it is compared
  for (int i = 0; i < 2; i++) for (int c = 0; c < nobs; c++) procs[c]->waitableExecute([] {}).wait();
  // pending requests are answered or released
  if (held) {
    if (sim_choose(2)) serve(w, 0, false);
    std::lock_guard l(held_->m);
    for (auto &r : held_->v) r.respond<echo_request::output>(1, 2, "y");
    held_->v.clear();
  }
  over = true;
  joinAll(ths);
  w.budget = 0;
  for (int i = 0; i < 4; i++) for (int c = 0; c < nobs; c++) procs[c]->waitableExecute([] {}).wait();
  for (int s : {0, 1}) {
    auto truth = w.stub[s]->availability();
    auto proxy = itc::createProxy(sids[s], directExecutor());
    CHECK(proxy->serviceStatus() == truth, "not-latest", "a proxy reports %d, the service is %d", (int)proxy->serviceStatus(), (int)truth);
    int now = -1;
    proxy->unregisterServiceStatusObserver(proxy->onServiceStatusChanged([&](Availability, Availability a) { now = (int)a; }));
    CHECK(now == (truth == Availability::Available ? (int)truth : -1), "not-latest", "a new observer is told %d, the service is %d", now, (int)truth);
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    if (s == 0) { proxy->sendRequest<poke_request>(&st); CHECK((st == ActionCallStatus::Success) == (truth == Availability::Available), "status", "a request ends with %d, the service is %d", (int)st, (int)truth); }
    SimQuiet z;
    for (auto &op : w.obs) {
      auto &o = *op;
      if (o.svc != s || o.kind == 2) continue;
      if (o.unInv != INF) {
        bool busy = false;
        for (auto &y : w.ops[s]) if (y->inv < o.unRet && y->ret > o.unRet) busy = true;
        if (!busy && o.kind == 1) for (auto &t : o.told) CHECK(t.second < o.unRet, "after-unregister", "observer %d was told of a change after it had unregistered", o.id);
        continue;
      }
      if (o.told.empty()) CHECK(truth == Availability::Unavailable, "missed", "observer %d was told nothing, the service is available", o.id);
      else CHECK(o.told.back().first == truth, "not-latest", "observer %d was last told %d, the service is %d", o.id, (int)o.told.back().first, (int)truth);
      // changes made one after the other while it was registered
      bool overlap = false;
      int cur = -1, n = 0;
      for (auto &a : w.ops[s]) {
        for (auto &b : w.ops[s]) if (a != b && a->up >= 0 && b->up >= 0 && a->inv < b->ret && b->inv < a->ret) overlap = true;
        if (a->up < 0) continue;
        if (a->inv > o.regRet && cur >= 0 && a->up != cur) n++;
        cur = a->up;
      }
      if (!overlap) CHECK((int)o.told.size() >= n, "missed", "observer %d was told of %zu changes, there were %d", o.id, o.told.size(), n);
    }
  }
  for (int s : {0, 1}) w.stub[s]->stopServing();
  for (int c = 0; c < nobs; c++) procs[c].stopAndWait();
}

// Stubs and proxies of one service created at once share one provider and one requester
SIM_SCENARIO(c17_factory, 0, 0, 0) {
  int n = 2 + (int)sim_cfg(2);
  vector<itc::StubPtr> stubs(n);
  vector<itc::ProxyPtr> proxies(n);
  vector<std::thread> ths;
  int starter = (int)sim_choose(n), order = (int)sim_choose(2);
  for (int i = 0; i < n; i++)
    ths.emplace_back([&, i] {
      for (int k = 0; k < 2; k++)
        if (k == order) stubs[i] = itc::createStub("svc", directExecutor());
        else { proxies[i] = itc::createProxy("svc", directExecutor()); CHECK(proxies[i], "null", "no proxy"); }
      CHECK(stubs[i], "null", "no stub");
      if (i == starter) stubs[i]->startServing();
      if (sim_choose(2)) { auto id = "side" + std::to_string(i); auto s = itc::createStub(id, directExecutor()); auto p = itc::createProxy(id, directExecutor()); s->startServing(); CHECK(p->serviceStatus() == Availability::Available, "not-latest", "a started service is not available"); }
    });
  joinAll(ths);
  int v = 0, got = -1;
  for (auto &s : stubs) CHECK(s->availability() == Availability::Available, "not-latest", "a stub of the same service is not available");
  for (auto &p : proxies) CHECK(p->serviceStatus() == Availability::Available, "not-latest", "a proxy of an available service is not available");
  proxies[0]->registerStatus<level_property::status>([&](const auto &s) { got = s->get_v(); });
  for (auto &s : stubs) { s->setStatus<level_property::status>(++v, "v"); CHECK(got == v, "not-shared", "a status set at another stub of the service does not arrive"); }
  // processors as observers
  AsyncProcessor proc;
  vector<int> told;
  proc->connect<ServiceStatusMsg>([&](const ServiceStatusMsg &m) { SimQuiet z; told.push_back((int)m.newStatus); CHECK(m.serviceID == "svc", "torn", "wrong service"); });
  proc.launch();
  auto ob = asyncServiceStatusObserver(proc.instance());
  proxies[1]->registerServiceStatusObserver(ob);
  stubs[0]->stopServing();
  stubs[1]->startServing();
  proc->waitableExecute([] {}).wait();
  { SimQuiet z; CHECK(told == (vector<int>{1, 0, 1}), "missed", "the processor was told %zu changes", told.size()); }
  proc.stopAndWait();
  stubs[0]->stopServing();
}

// many observers
SIM_SCENARIO(c17_many, 0, 0, 0) {
  auto stub = itc::createStub("many", directExecutor());
  int np = 1 + (int)sim_choose(2), no = 1 + (int)sim_choose(16);
  vector<itc::ProxyPtr> px;
  for (int i = 0; i < np; i++) px.push_back(itc::createProxy("many", directExecutor()));
  struct O { int last = -1, n = 0; bool off = false; };
  auto os = std::make_unique<vector<O>>(no);
  O *o = os->data();
  vector<std::shared_ptr<ServiceStatusObserverIF>> obs(no);
  for (int i = 0; i < no; i++)
    obs[i] = px[i % np]->onServiceStatusChanged([o, i](Availability, Availability a) {
      SimQuiet z;
      CHECK(!o[i].off, "after-unregister", "observer %d is told after it was unregistered", i);
      CHECK(o[i].last != (int)a, "twice", "observer %d is told %d twice in a row", i, (int)a);
      o[i].last = (int)a;
      o[i].n++;
    });
  for (int k = 0, n = 1 + (int)sim_choose(6); k < n; k++) {
    bool up = stub->availability() != Availability::Available;
    if (up) stub->startServing(); else stub->stopServing();
    for (int i = 0; i < no; i++) CHECK(o[i].off || o[i].last == (int)(up ? Availability::Available : Availability::Unavailable), "missed", "observer %d of %d was last told %d", i, no, o[i].last);
    if (sim_choose(2)) { int i = (int)sim_choose(no); if (!o[i].off) { px[i % np]->unregisterServiceStatusObserver(obs[i]); o[i].off = true; } }
  }
  stub->stopServing();
}
