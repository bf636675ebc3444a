// C15: status subscribers converge on the provider's latest value.
#include "cs.h"

#include <mutex>
namespace itc = maf::messaging::itc;
using maf::util::directExecutor;
using LevelS = level_property::status;
using OtherS = other_property::status;

namespace {
// One change of a property. value -1: removed
struct Set { int prop, value; uint64_t inv = 0, ret = INF; bool silent = false; };
struct Sub {
  int id, prop;
  bool serverSide = false, valid = false;
  uint64_t regInv = 0, regRet = INF, unInv = INF, unRet = INF;
  vector<std::pair<int, uint64_t>> got;     // value, when
  std::shared_ptr<int> token = std::make_shared<int>(0);
};
struct World {
  vector<std::unique_ptr<Set>> sets;
  vector<std::unique_ptr<Sub>> subs;
  Serving serving;
  itc::StubPtr stub;
  const Set *find(int prop, int v) const { for (auto &s : sets) if (s->prop == prop && s->value == v) return s.get(); return nullptr; }
};
string text(int prop, int v) { return string(prop ? "o" : "l") + std::to_string(v); }
template <class S> void checkValue(World &w, int prop, const S &st) {
  auto *s = w.find(prop, st->get_v());
  CHECK(s, "invented", "property %d has a value %d that nobody set", prop, st->get_v());
  CHECK(st->get_s() == text(prop, st->get_v()), "torn", "value %d of property %d has the text %s", st->get_v(), prop, st->get_s().c_str());
}
int setValue(World &w, int prop, int v) {
  Set *s;
  { SimQuiet z; w.sets.push_back(std::make_unique<Set>()); s = w.sets.back().get(); s->prop = prop; s->value = v; s->inv = sim_ev("set", prop, v, 0, 0); }
  auto st = prop ? w.stub->setStatus<OtherS>(v, text(prop, v)) : w.stub->setStatus<LevelS>(v, text(prop, v));
  SimQuiet z;
  s->ret = sim_ev("was-set", prop, v, (int)st, 0);
  return (int)st;
}
template <class S> void given(World &w, Sub *s, const std::shared_ptr<S> &st) {
  SimQuiet z;
  int v = st ? st->get_v() : -1;
  uint64_t now = sim_ev("given", s->id, v, 0, 0);
  if (st) checkValue(w, s->prop, st);
  if (!s->got.empty() && s->got.back().first != v && v >= 0)
    for (auto &g : s->got) CHECK(g.first != v, "out-of-order", "subscriber %d is given value %d again after another one", s->id, v);
  s->got.emplace_back(v, now);
}
Sub *add(World &w, int prop, bool serverSide) {
  SimQuiet z;
  w.subs.push_back(std::make_unique<Sub>());
  auto *s = w.subs.back().get();
  s->id = (int)w.subs.size() - 1;
  s->prop = prop;
  s->serverSide = serverSide;
  s->regInv = sim_ev("register", s->id, prop, serverSide, 0);
  return s;
}
// what a read may return: a value that was set before it ended, or none if it may never have been set
template <class S> void checkRead(World &w, int prop, uint64_t inv, uint64_t ret, const S &st, const char *how) {
  if (st) { checkValue(w, prop, st); CHECK(w.find(prop, st->get_v())->inv <= ret, "from-the-future", "%s returned a value that was set later", how); }
}
void rules(World &w, bool removals) {
  for (auto &sp : w.subs) {
    auto &s = *sp;
    if (!s.valid) { CHECK(s.got.empty(), "not-registered", "a callback whose registration failed was invoked"); continue; }
    uint64_t end = s.unInv, dead = INF;
    if (!s.serverSide) for (auto &c : w.serving.c) if (!c.up && c.ret > s.regInv) end = std::min(end, c.inv);
    // a registration does not outlive the service
    if (!s.serverSide) for (auto &c : w.serving.c) if (!c.up && c.inv > s.regRet) dead = std::min(dead, c.ret);
    // telling earlier changes may still be under way when it registers
    bool busy = false;
    for (auto &t : w.sets) if (t->inv < s.regInv && t->ret > s.regInv) busy = true;
    for (auto &r : w.subs) if (r->regInv < s.regInv && r->regRet > s.regInv) busy = true;
    for (auto &tp : w.sets) {
      auto &t = *tp;
      if (t.prop != s.prop) continue;
      // one who sets may leave the telling to another one who is at it
      uint64_t told = t.ret;
      for (bool more = true; more;) {
        more = false;
        for (auto &x : w.sets) if (x->inv < told && x->ret > told) told = x->ret, more = true;
        for (auto &x : w.subs) if (x->regInv < told && x->regRet > told) told = x->regRet, more = true;
      }
      size_t i = 0;
      while (i < s.got.size() && s.got[i].first != t.value) i++;
      bool got = i < s.got.size();
      if (t.inv > s.regRet && told < end && !t.silent) CHECK(got, "missed", "subscriber %d was not given value %d of property %d", s.id, t.value, s.prop);
      if (!got) continue;
      CHECK(t.inv < dead, "after-stop", "subscriber %d was given a value set after the service it had registered with had stopped", s.id);
      CHECK(t.inv < s.unRet, "after-unregister", "subscriber %d was given a value set after it had unregistered", s.id);
      CHECK(t.inv < s.got[i].second, "from-the-future", "subscriber %d was given a value before it was set", s.id);
      if (s.serverSide && !busy) CHECK(t.ret > s.regInv, "stale", "listener %d was told of a change from before it registered", s.id);
      for (auto &up : w.sets) {
        auto &u = *up;
        if (u.prop != s.prop || u.inv < t.ret) continue;        // u is newer than t for certain
        if (!busy) CHECK(u.ret > s.regInv, "stale", "subscriber %d was given value %d though %d was the current one when it registered", s.id, t.value, u.value);
        for (size_t k = 0; k < i; k++) CHECK(s.got[k].first != u.value, "out-of-order", "subscriber %d was given value %d after the newer %d", s.id, t.value, u.value);
      }
    }
    // registered for good
    if (end == INF && !removals) {
      auto cur = s.prop == 0 ? w.stub->getStatus<LevelS>() : nullptr;
      auto curO = s.prop == 1 ? w.stub->getStatus<OtherS>() : nullptr;
      int v = cur ? cur->get_v() : curO ? curO->get_v() : -1;
      bool must = !s.serverSide;
      for (auto &t : w.sets) if (t->prop == s.prop && t->inv > s.regRet) must = true;
      if (v >= 0 && must) CHECK(!s.got.empty() && s.got.back().first == v, "not-latest", "subscriber %d was last given %d, the current value is %d", s.id, s.got.empty() ? -1 : s.got.back().first, v);
    }
  }
  // two subscribers never see two values in different orders
  for (auto &a : w.subs)
    for (auto &b : w.subs) {
      if (a->prop != b->prop || a->id >= b->id || removals) continue;
      std::map<int, size_t> pos;
      for (size_t i = 0; i < a->got.size(); i++) pos.emplace(a->got[i].first, i);
      size_t last = 0;
      for (auto &g : b->got) {
        auto it = pos.find(g.first);
        if (it == pos.end()) continue;
        CHECK(it->second >= last, "different-orders", "subscribers %d and %d were given the values in different orders (at %d)", a->id, b->id, g.first);
        last = it->second;
      }
    }
}
}  // namespace

SIM_SCENARIO(c15_status, 0, 0, 0) {
  auto wp = std::make_unique<World>();
  World &w = *wp;
  int nset = 1 + (int)sim_cfg(2), nsub = 1 + (int)sim_cfg(3);
  bool stops = sim_cfg(4) == 0, nested = sim_cfg(3) == 0;
  AsyncProcessor server, cprocs[3];
  server.launch();
  w.stub = itc::createStub("svc", directExecutor());
  auto other = w.stub->with(server->getAsyncExecutor());
  w.serving.set(w.stub, true);
  std::atomic<int> next{0};
  bool first = sim_choose(2);
  if (first) setValue(w, 0, next++);
  for (int c = 0; c < nsub; c++) cprocs[c].launch();
  vector<std::thread> ths;
  std::atomic<bool> over{false};
  for (int t = 0; t < nset; t++)
    ths.emplace_back([&, n = 1 + (int)sim_choose(4)] {
      for (int i = 0; i < n; i++) {
        if (sim_choose(3) == 0) sim_sleep(sim_choose(2) * MS);
        int prop = sim_choose(4) == 0, v = next++;
        CHECK(setValue(w, prop, v) != (int)ActionCallStatus::NoAction, "not-changed", "a new value was not taken as a change");
        auto inv = sim_seq();
        auto st = w.stub->getStatus<LevelS>();
        SimQuiet z;
        checkRead(w, 0, inv, sim_seq(), st, "the stub");
      }
    });
  vector<itc::ProxyPtr> proxies(nsub);
  bool direct[3];
  for (int c = 0; c < nsub; c++) {
    maf::util::ExecutorIFPtr ex = directExecutor();
    if (!(direct[c] = sim_choose(2))) ex = cprocs[c]->getAsyncExecutor();
    if (sim_choose(3)) proxies[c] = itc::createProxy("svc", ex);
    else (proxies[c] = itc::createProxy("svc"))->setExecutor(ex);
    CHECK(proxies[c]->getExecutor() == ex && proxies[c]->serviceID() == "svc", "executor", "a proxy has another executor than the one it was given");
  }
  for (int c = 0; c < nsub; c++)
    ths.emplace_back([&, c, n = 1 + (int)sim_choose(3)] {
      auto &proxy = proxies[c];
      auto proc = direct[c] ? nullptr : cprocs[c].instance(), sproc = server.instance();
      auto here = [](const ProcessorInstance &q) { if (q) CHECK(this_processor::instance() == q, "wrong-thread", "a status callback runs on a foreign thread"); };
      vector<std::pair<RegID, Sub *>> mine;
      vector<std::pair<maf::signal_slots::Connection, Sub *>> cons;
      auto sub = [&](int prop) {
        Sub *s = add(w, prop, false);
        ActionCallStatus st = ActionCallStatus::FailedUnknown;
        RegID id;
        auto cb = [&w, s, nested, &next, proxy, proc, here, tok = s->token](const auto &v) {
          here(proc);
          given(w, s, v);
          if (nested && sim_choose(4) == 0) {
            if (sim_choose(2)) proxy->getStatus<OtherS>();
            else if (next.load() < 12 && s->prop == 0) setValue(w, 1, next++);
          }
        };
        if (prop) id = proxy->registerStatus<OtherS>(cb, &st);
        else id = proxy->registerStatus<LevelS>(cb, &st);
        SimQuiet z;
        s->regRet = sim_ev("registered", s->id, (int)st, id.valid(), 0);
        s->valid = id.valid();
        CHECK(id.valid() == (st == ActionCallStatus::Success), "status", "registration %d: id %s, status %d", s->id, id.valid() ? "valid" : "invalid", (int)st);
        CHECK(id.valid() || w.serving.maybe(false, s->regInv, s->regRet), "refused", "registration %d failed with status %d", s->id, (int)st);
        if (s->valid) mine.emplace_back(id, s);
      };
      auto unsub = [&](size_t i) {
        auto m = mine[i];
        mine.erase(mine.begin() + i);
        { SimQuiet z; m.second->unInv = sim_ev("unregister", m.second->id, 0, 0, 0); }
        proxy->unregister(m.first);
        SimQuiet z;
        m.second->unRet = sim_ev("unregistered", m.second->id, 0, 0, 0);
      };
      for (int i = 0; i < n; i++) {
        if (sim_choose(3) == 0) sim_sleep(sim_choose(2) * MS);
        switch (sim_choose(5)) {
          case 0: sub(sim_choose(4) == 0); break;
          case 1: if (!mine.empty()) unsub(sim_choose(mine.size())); else sub(0); break;
          case 2: {
            auto inv = sim_seq();
            ActionCallStatus cs = ActionCallStatus::FailedUnknown;
            auto st = proxy->getStatus<LevelS>(&cs);
            SimQuiet z;
            checkRead(w, 0, inv, sim_seq(), st, "getStatus");
            if (cs != ActionCallStatus::Success) CHECK(w.serving.maybe(false, inv, sim_seq()), "refused", "getStatus failed with %d", (int)cs);
            break;
          }
          case 3: {
            auto inv = sim_seq();
            auto f = std::make_shared<Flag>();
            auto cs = proxy->getStatus<LevelS>([&w, inv, f, proc, here](const level_property::status_ptr &st) { here(proc); { SimQuiet z; checkRead(w, 0, inv, sim_seq(), st, "the asynchronous getStatus"); CHECK(!f->get(), "told-twice", "an asynchronous getStatus was answered twice"); } f->set(); });
            if (cs == ActionCallStatus::Success && !stops) f->wait();
            break;
          }
          case 4:
            if (cons.size() < 2) {
              Sub *s = add(w, (int)sim_choose(2), true);
              maf::signal_slots::Connection con;
              bool async = !s->prop && sim_choose(2);
              auto cb = [&w, s, q = async ? sproc : nullptr, here, tok = s->token](const auto &v) { here(q); given(w, s, v); };
              if (s->prop) con = w.stub->registerNotification<OtherS>(std::function<void(const std::shared_ptr<OtherS> &)>(cb));
              else con = (async ? other : w.stub)->registerNotification<LevelS>(std::function<void(const std::shared_ptr<LevelS> &)>(cb));
              SimQuiet z;
              s->regRet = sim_ev("registered", s->id, 0, 1, 0);
              s->valid = true;
              cons.emplace_back(std::move(con), s);
            } else {
              auto &m = cons.back();
              { SimQuiet z; m.second->unInv = sim_ev("unregister", m.second->id, 0, 0, 0); }
              m.first.disconnect();
              { SimQuiet z; m.second->unRet = sim_ev("unregistered", m.second->id, 0, 0, 0); }
              cons.pop_back();
            }
            break;
        }
      }
      static_cast<void>(waitFor([&] { return over.load(); }, 0));
      over.load();
    });
  std::thread ctl([&] {
    if (stops)
      for (int i = 0, n = 1 + (int)sim_choose(2); i < n; i++) {
        sim_sleep(sim_choose(3) * MS);
        w.serving.set(w.stub, false);
        if (sim_choose(2)) sim_sleep(sim_choose(2) * MS);
        w.serving.set(w.stub, true);
      }
  });
  ctl.join();
  sim_settle(50 * MS);
  over = true;
  joinAll(ths);
  for (int i = 0; i < 2; i++) {   // a callback may set, which the others get
    server->waitableExecute([] {}).wait();
    for (int c = 0; c < nsub; c++) cprocs[c]->waitableExecute([] {}).wait();
  }
  {
    // what a new read and a new subscriber get is the current value
    auto cur = w.stub->getStatus<LevelS>();
    for (auto &p : proxies) {
      ActionCallStatus st;
      auto v = p->getStatus<LevelS>(&st);
      CHECK(st == ActionCallStatus::Success, "refused", "getStatus of an available service failed with %d", (int)st);
      CHECK(!cur == !v && (!v || v->get_v() == cur->get_v()), "not-latest", "getStatus returned %d, the current value is %d", v ? v->get_v() : -1, cur ? cur->get_v() : -1);
    }
    Sub *s = add(w, 0, false);
    { auto k = w.stub->cloneStatus<LevelS>(); CHECK(k && k->get_v() == (cur ? cur->get_v() : LevelS{}.get_v()), "not-latest", "a copy of the status has another value"); k->set_v(-7); auto again = w.stub->getStatus<LevelS>(); CHECK(!cur == !again && (!cur || again->get_v() == cur->get_v()), "torn", "changing a copy of the status changed the status"); }
    auto p = proxies[0]->with(directExecutor());
    p->registerStatus<LevelS>([&](const auto &v) { given(w, s, v); });
    s->valid = true;
    s->regRet = sim_seq();
  }
  rules(w, false);
  w.stub->stopServing();
  for (int c = 0; c < nsub; c++) cprocs[c].stopAndWait();
  server.stopAndWait();
}

// One setter and removals: every subscriber is given exactly the changes
SIM_SCENARIO(c15_removal, 0, 0, 0) {
  auto wp = std::make_unique<World>();
  World &w = *wp;
  AsyncProcessor cproc;
  cproc.launch();
  w.stub = itc::createStub("svc", directExecutor());
  w.serving.set(w.stub, true);
  bool direct = sim_choose(2);
  auto proxy = itc::createProxy("svc", direct ? directExecutor() : cproc->getAsyncExecutor());
  struct S { vector<int> got; };
  auto early = std::make_shared<S>(), late = std::make_shared<S>();
  vector<int> want;
  int cur = -1;
  if (sim_choose(2)) { w.stub->setStatus<LevelS>(cur = 100, text(0, 100)); want.push_back(100); }
  auto take = [](const std::shared_ptr<S> &s) { return [s](const level_property::status_ptr &v) { SimQuiet z; s->got.push_back(v ? v->get_v() : -1); sim_ev("given", s->got.back(), 0, 0, 0); if (v) CHECK(v->get_s() == text(0, v->get_v()), "torn", "value %d has the text %s", v->get_v(), v->get_s().c_str()); }; };
  proxy->registerStatus<LevelS>(take(early));
  std::thread reg([&] { sim_sleep(sim_choose(3) * MS); proxy->registerStatus<LevelS>(take(late)); });
  std::thread rd([&] { for (int i = 0; i < 3; i++) { sim_sleep(sim_choose(2) * MS); auto v = proxy->getStatus<LevelS>(); if (v) CHECK(v->get_s() == text(0, v->get_v()), "torn", "value %d has the text %s", v->get_v(), v->get_s().c_str()); } });
  for (int i = 0, n = 1 + (int)sim_choose(6); i < n; i++) {
    if (sim_choose(2)) sim_sleep(sim_choose(2) * MS);
    switch (sim_choose(3)) {
      case 0: { int v = (int)sim_choose(3); auto st = w.stub->setStatus<LevelS>(v, text(0, v)); ev("set", v, (int)st);
        CHECK((st == ActionCallStatus::NoAction) == (v == cur), "not-changed", "setting %d over %d returned %d", v, cur, (int)st);
        if (v != cur) { cur = v; want.push_back(v); } break; }
      case 1: w.stub->removeProperty<level_property>(true); ev("removed"); cur = -1; want.push_back(-1); break;
      case 2: { auto g = w.stub->getStatus<LevelS>(); CHECK((g ? g->get_v() : -1) == cur, "wrong-value", "the stub returns %d instead of %d", g ? g->get_v() : -1, cur); break; }
    }
  }
  reg.join();
  rd.join();
  cproc->waitableExecute([] {}).wait();
  { SimQuiet z; for (int v : want) sim_ev("want", v, 0, 0, 0); }
  auto compress = [](vector<int> v) { v.erase(std::unique(v.begin(), v.end()), v.end()); return v; };
  CHECK(compress(early->got) == compress(want), "missed", "the subscriber was not given exactly the changes");
  // the late one: the tail of it
  auto a = compress(want), b = compress(late->got);
  if (a.empty()) CHECK(b.empty(), "invented", "values out of nothing");
  if (cur >= 0) CHECK(!b.empty() && b.back() == cur, "not-latest", "the late subscriber was last given %d, the current value is %d", b.empty() ? -2 : b.back(), cur);
  CHECK(b.size() <= a.size() && std::equal(b.rbegin(), b.rend(), a.rbegin()), "missed", "the late subscriber was not given the latest changes");
  auto v = proxy->getStatus<LevelS>();
  CHECK((v ? v->get_v() : -1) == cur, "not-latest", "getStatus returned %d, the current value is %d", v ? v->get_v() : -1, cur);
  cproc.stopAndWait();
}

// many registrations, many values
SIM_SCENARIO(c15_many, 0, 0, 0) {
  auto stub = itc::createStub("many", directExecutor());
  stub->startServing();
  int np = 1 + (int)sim_choose(2), nr = 1 + (int)sim_choose(16), nv = 1 + (int)sim_choose(40);
  vector<itc::ProxyPtr> px;
  for (int i = 0; i < np; i++) px.push_back(itc::createProxy("many", directExecutor()));
  struct R { int last = 0; bool off = false; };
  auto rs = std::make_unique<vector<R>>(nr);
  R *r = rs->data();
  vector<RegID> ids(nr);
  for (int i = 0; i < nr; i++)
    ids[i] = px[i % np]->registerStatus<LevelS>([r, i](const auto &s) {
      SimQuiet z;
      CHECK(!r[i].off, "after-unregister", "registration %d is told after it ended", i);
      CHECK(s->get_v() == r[i].last + 1, "missed", "registration %d is given %d after %d", i, s->get_v(), r[i].last);
      r[i].last = s->get_v();
    });
  int at = (int)sim_choose(nv);
  for (int v = 1; v <= nv; v++) {
    stub->setStatus<LevelS>(v, "v");
    if (v == at) for (int i = 0; i < nr; i++) if (sim_choose(2)) { px[i % np]->unregister(ids[i]); r[i].off = true; }
  }
  for (int i = 0; i < nr; i++) CHECK(r[i].off || r[i].last == nv, "missed", "registration %d of %d was last given %d instead of %d", i, nr, r[i].last, nv);
  auto v = px[0]->getStatus<LevelS>();
  CHECK(v && v->get_v() == nv, "not-latest", "getStatus returned %d instead of %d", v ? v->get_v() : -1, nv);
  stub->stopServing();
}
