// C16: a broadcast signal reaches each current subscriber exactly once, in order.
#include "cs.h"

namespace itc = maf::messaging::itc;
using maf::util::directExecutor;
using TickA = tick_signal::attributes;
using TockA = tock_signal::attributes;

namespace {
enum Sig { Tick, Tock, Bare };
struct Cast { int sig, n; uint64_t inv = 0, ret = INF; };
struct Sub {
  int id, sig;
  bool server = false, valid = false, ordered = true;
  uint64_t regInv = 0, regRet = INF, unInv = INF, unRet = INF;
  vector<std::pair<int, uint64_t>> got;
  int bare = 0;
};
struct Gone { int sig; uint64_t inv, ret = INF; };
struct World {
  vector<std::unique_ptr<Cast>> casts;
  vector<std::unique_ptr<Sub>> subs;
  vector<std::unique_ptr<Gone>> gone;      // unregisterAll
  Serving serving;
  itc::StubPtr stub;
  std::atomic<int> next{0};
};
string text(int sig, int n) { return string(sig ? "tock " : "tick ") + std::to_string(n); }
void broadcast(World &w, int sig) {
  Cast *c;
  int n = w.next++;
  { SimQuiet z; w.casts.push_back(std::make_unique<Cast>()); c = w.casts.back().get(); c->sig = sig; c->n = n; c->inv = sim_ev("cast", sig, n, 0, 0); }
  ActionCallStatus st;
  if (sig == Tick) st = w.stub->broadcastSignal<TickA>(n, text(sig, n));
  else if (sig == Tock) st = w.stub->broadcastSignal<TockA>(n, text(sig, n));
  else st = w.stub->broadcastSignal<bare_signal>();
  SimQuiet z;
  c->ret = sim_ev("was-cast", sig, n, (int)st, 0);
  CHECK(st == ActionCallStatus::Success, "status", "the broadcast of signal %d returned %d", sig, (int)st);
}
void given(World &w, Sub *s, int n, const string &txt) {
  SimQuiet z;
  uint64_t now = sim_ev("given", s->id, n, 0, 0);
  const Cast *c = nullptr;
  for (auto &x : w.casts) if (x->n == n) c = x.get();
  CHECK(c && c->sig == s->sig, "invented", "subscriber %d of signal %d is given %d", s->id, s->sig, n);
  CHECK(txt == text(s->sig, n), "torn", "signal %d has the text %s", n, txt.c_str());
  for (auto &g : s->got) CHECK(g.first != n, "twice", "subscriber %d is given %d twice", s->id, n);
  s->got.emplace_back(n, now);
}
void given(World &w, Sub *s) {
  SimQuiet z;
  s->bare++;
  sim_ev("given", s->id, -1, 0, 0);
}
void rules(World &w) {
  for (auto &sp : w.subs) {
    auto &s = *sp;
    if (!s.valid) { CHECK(s.got.empty() && !s.bare, "not-registered", "a callback whose registration failed was invoked"); continue; }
    uint64_t end = s.unInv, dead = s.unRet;
    if (!s.server) {
      for (auto &c : w.serving.c) if (!c.up && c.ret > s.regInv) end = std::min(end, c.inv);
      // a registration does not outlive the service
      for (auto &c : w.serving.c) if (!c.up && c.inv > s.regRet) dead = std::min(dead, c.ret);
      for (auto &g : w.gone) if (g->sig == s.sig) {
        if (g->ret > s.regInv) end = std::min(end, g->inv);
        if (s.regRet < g->inv) dead = std::min(dead, g->ret);
      }
    }
    int must = 0, may = 0;
    for (auto &cp : w.casts) {
      auto &c = *cp;
      if (c.sig != s.sig) continue;
      bool needed = c.inv > s.regRet && c.ret < end, allowed = c.ret > s.regInv && c.inv < dead;
      must += needed;
      may += allowed;
      if (s.sig == Bare) continue;
      size_t i = 0;
      while (i < s.got.size() && s.got[i].first != c.n) i++;
      bool got = i < s.got.size();
      CHECK(got || !needed, "missed", "subscriber %d was not given signal %d", s.id, c.n);
      CHECK(!got || allowed, "not-subscribed", "subscriber %d was given signal %d while it was not registered", s.id, c.n);
      if (!got) continue;
      CHECK(c.inv < s.got[i].second, "from-the-future", "subscriber %d was given signal %d before it was broadcast", s.id, c.n);
      for (size_t k = 0; k < i; k++)
        for (auto &d : w.casts) if (d->n == s.got[k].first) CHECK(d->inv < c.ret, "out-of-order", "subscriber %d was given signal %d before %d", s.id, d->n, c.n);
    }
    if (s.sig == Bare) CHECK(s.bare >= must && s.bare <= may, "count", "subscriber %d was given %d signals instead of %d to %d", s.id, s.bare, must, may);
  }
}
}  // namespace

SIM_SCENARIO(c16_signal, 0, 0, 0) {
  auto wp = std::make_unique<World>();
  World &w = *wp;
  int ncast = 1 + (int)sim_cfg(2), nsub = 1 + (int)sim_cfg(3);
  bool stops = sim_cfg(4) == 0, nested = sim_cfg(3) == 0;
  AsyncProcessor server, cprocs[3];
  server.launch();
  w.stub = itc::createStub("svc", directExecutor());
  auto other = w.stub->with(server->getAsyncExecutor());
  w.serving.set(w.stub, true);
  for (int c = 0; c < nsub; c++) cprocs[c].launch();
  vector<std::thread> ths;
  std::atomic<bool> over{false};
  for (int t = 0; t < ncast; t++)
    ths.emplace_back([&, n = 1 + (int)sim_choose(4)] {
      for (int i = 0; i < n; i++) {
        if (sim_choose(3) == 0) sim_sleep(sim_choose(2) * MS);
        int r = (int)sim_choose(4);
        broadcast(w, r < 2 ? Tick : r == 2 ? Tock : Bare);
      }
    });
  vector<itc::ProxyPtr> proxies(nsub);
  vector<std::atomic<bool>> direct(nsub);
  for (int c = 0; c < nsub; c++) {
    direct[c] = sim_choose(2);
    proxies[c] = itc::createProxy("svc", direct[c] ? directExecutor() : cprocs[c]->getAsyncExecutor());
  }
  for (int c = 0; c < nsub; c++)
    ths.emplace_back([&, c, n = 1 + (int)sim_choose(4)] {
      auto &proxy = proxies[c];
      vector<std::pair<RegID, Sub *>> mine;
      vector<std::pair<maf::signal_slots::Connection, Sub *>> cons;
      auto add = [&](int sig, bool srv) {
        SimQuiet z;
        w.subs.push_back(std::make_unique<Sub>());
        auto *s = w.subs.back().get();
        s->id = (int)w.subs.size() - 1;
        s->sig = sig;
        s->server = srv;
        s->regInv = sim_ev("register", s->id, sig, srv, 0);
        return s;
      };
      auto sub = [&](int sig) {
        Sub *s = add(sig, false);
        ActionCallStatus st = ActionCallStatus::FailedUnknown;
        RegID id;
        auto proc = direct[c] ? nullptr : cprocs[c].instance();
        auto check = [proc] { if (proc) CHECK(this_processor::instance() == proc, "wrong-thread", "a signal callback runs on a foreign thread"); };
        auto cb = [&w, s, nested, check](const auto &a) {
          check();
          CHECK(a, "null", "a signal without its attributes");
          given(w, s, a->get_n(), a->get_s());
          if (nested && s->sig == Tick && w.next.load() < 10 && sim_choose(2)) broadcast(w, sim_choose(2) ? Tock : Bare);
        };
        if (sig == Tick) id = proxy->registerSignal<TickA>(cb, &st);
        else if (sig == Tock) id = proxy->registerSignal<TockA>(cb, &st);
        else id = proxy->registerSignal<bare_signal>([&w, s, check] { check(); given(w, s); }, &st);
        SimQuiet z;
        s->regRet = sim_ev("registered", s->id, (int)st, id.valid(), 0);
        s->valid = id.valid();
        CHECK(id.valid() == (st == ActionCallStatus::Success), "status", "registration %d: id %s, status %d", s->id, id.valid() ? "valid" : "invalid", (int)st);
        CHECK(id.valid() || w.serving.maybe(false, s->regInv, s->regRet), "refused", "registration %d failed with status %d", s->id, (int)st);
        if (s->valid) mine.emplace_back(id, s);
      };
      auto unsub = [&](size_t i) {
        auto m = mine[i];
        mine.erase(mine.begin() + i);
        { SimQuiet z; m.second->unInv = sim_ev("unregister", m.second->id, 0, 0, 0); }
        proxy->unregister(m.first);
        SimQuiet z;
        m.second->unRet = sim_ev("unregistered", m.second->id, 0, 0, 0);
      };
      for (int i = 0; i < n; i++) {
        if (sim_choose(3) == 0) sim_sleep(sim_choose(2) * MS);
        switch (sim_choose(6)) {
          case 0:
          case 1: { int r = (int)sim_choose(4); sub(r < 2 ? Tick : r == 2 ? Tock : Bare); break; }
          case 2: if (!mine.empty()) unsub(sim_choose(mine.size())); else sub(Tick); break;
          case 3: if (!mine.empty()) { unsub(sim_choose(mine.size())); sub(Tick); } break;
          case 4:
            if (cons.size() < 2) {
              Sub *s = add((int)sim_choose(3), true);
              maf::signal_slots::Connection con;
              auto cb = [&w, s](const auto &a) { CHECK(a, "null", "a signal without its attributes"); given(w, s, a->get_n(), a->get_s()); };
              auto stub = sim_choose(2) ? other : w.stub;
              if (s->sig == Tick) con = stub->registerNotification<TickA>(std::function<void(const std::shared_ptr<TickA> &)>(cb));
              else if (s->sig == Tock) con = stub->registerNotification<TockA>(std::function<void(const std::shared_ptr<TockA> &)>(cb));
              else con = stub->registerNotification<bare_signal>([&w, s] { given(w, s); });
              SimQuiet z;
              s->regRet = sim_ev("registered", s->id, 0, 1, 0);
              s->valid = true;
              cons.emplace_back(std::move(con), s);
            } else {
              auto &m = cons.back();
              { SimQuiet z; m.second->unInv = sim_ev("unregister", m.second->id, 0, 0, 0); }
              m.first.disconnect();
              { SimQuiet z; m.second->unRet = sim_ev("unregistered", m.second->id, 0, 0, 0); }
              cons.pop_back();
            }
            break;
          case 5:
            if (sim_choose(3) == 0) {
              int sig = (int)sim_choose(3);
              Gone *g;
              { SimQuiet z; w.gone.push_back(std::make_unique<Gone>()); g = w.gone.back().get(); g->sig = sig; g->inv = sim_ev("unregister-all", sig, 0, 0, 0); }
              auto st = proxy->unregisterAll(sig == Tick ? tick_signal::operationID() : sig == Tock ? tock_signal::operationID() : bare_signal::operationID());
              SimQuiet z;
              g->ret = sim_ev("unregistered-all", sig, (int)st, 0, 0);
              if (st != ActionCallStatus::Success) { CHECK(w.serving.maybe(false, g->inv, g->ret), "refused", "unregisterAll failed with %d", (int)st); g->sig = -1; }
            }
            break;
        }
      }
      static_cast<void>(waitFor([&] { return over.load(); }, 0));
      over.load();
    });
  std::thread ctl([&] {
    if (stops)
      for (int i = 0, n = 1 + (int)sim_choose(2); i < n; i++) {
        sim_sleep(sim_choose(3) * MS);
        w.serving.set(w.stub, false);
        if (sim_choose(2)) sim_sleep(sim_choose(2) * MS);
        w.serving.set(w.stub, true);
      }
  });
  ctl.join();
  sim_settle(50 * MS);
  // exactly the remaining ones
  for (int s : {Tick, Tock, Bare}) broadcast(w, s);
  over = true;
  joinAll(ths);
  for (int i = 0; i < 2; i++)   // a callback may broadcast to the others
    for (int c = 0; c < nsub; c++) cprocs[c]->waitableExecute([] {}).wait();
  server->waitableExecute([] {}).wait();
  rules(w);
  w.stub->stopServing();
  for (int c = 0; c < nsub; c++) cprocs[c].stopAndWait();
  server.stopAndWait();
}

// Callbacks that register and unregister from inside
SIM_SCENARIO(c16_inside, 0, 0, 0) {
  auto stub = itc::createStub("svc", directExecutor());
  stub->startServing();
  auto proxy = itc::createProxy("svc", directExecutor());
  struct St { RegID id; int got = 0, after = 0; bool un = false; };
  auto a = std::make_shared<St>(), b = std::make_shared<St>(), late = std::make_shared<St>();
  int mode = (int)sim_choose(3), at = (int)sim_choose(3), total = 3 + (int)sim_choose(3);
  a->id = proxy->registerSignal<TickA>([=](const tick_signal::attributes_ptr &t) {
    int got;
    { SimQuiet z; if (a->un) a->after++; got = a->got++; }
    CHECK(t && t->get_s() == text(Tick, t->get_n()), "torn", "signal with the text %s", t ? t->get_s().c_str() : "-");
    if (got != at) return;
    if (mode == 0) { proxy->unregister(a->id); SimQuiet z; a->un = true; }
    else if (mode == 1) { late->id = proxy->registerSignal<TickA>([late](const auto &) { SimQuiet z; late->got++; }); CHECK(late->id.valid(), "refused", "registering from a callback failed"); }
    else { proxy->unregister(b->id); SimQuiet z; b->un = true; }
  });
  b->id = proxy->registerSignal<TickA>([=](const tick_signal::attributes_ptr &) { SimQuiet z; b->got++; });
  std::thread t1([&] { for (int i = 0; i < total; i++) CHECK(stub->broadcastSignal<TickA>(i, text(Tick, i)) == ActionCallStatus::Success, "status", "broadcasting failed"); });
  std::thread t2([&] {
    auto id = proxy->registerSignal<TickA>([](const auto &) {});
    sim_sleep(sim_choose(2) * MS);
    proxy->unregister(id);
  });
  t1.join();
  t2.join();
  SimQuiet z;
  CHECK(a->got == (mode == 0 ? at + 1 : total), "count", "the subscriber was given %d signals (mode %d, at %d of %d)", a->got, mode, at, total);
  CHECK(!a->after, "not-subscribed", "a subscriber that unregistered itself was given another signal");
  CHECK(mode == 2 ? b->got >= at && b->got <= at + 1 : b->got == total, "count", "the other subscriber was given %d signals (mode %d, at %d of %d)", b->got, mode, at, total);
  if (mode == 1) CHECK(late->got >= total - at - 1 && late->got <= total - at, "count", "the late subscriber was given %d signals (at %d of %d)", late->got, at, total);
  else CHECK(!late->got, "count", "who are you");
}

// What the callbacks of proxies and stubs own may use both while it is destroyed
namespace {
struct House {
  itc::StubPtr stub;
  itc::ProxyPtr proxy;
  std::recursive_mutex m;
  vector<RegID> ids;
  vector<maf::signal_slots::Connection> cons;
  vector<std::shared_ptr<ServiceStatusObserverIF>> obs;
  std::atomic<int> alive{0}, left{25};
  std::atomic<bool> over{false};
};
GhostPtr haunt(House &h, int depth);
void deed(House &h, int what, int depth) {
  if (h.left-- < 0) return;
  auto g = depth > 0 ? haunt(h, depth - 1) : GhostPtr{};
  switch (what) {
    case 0: { auto id = h.proxy->registerSignal<TickA>([g](const auto &) {}); std::lock_guard l(h.m); h.ids.push_back(id); break; }
    case 1: { RegID id; { std::lock_guard l(h.m); if (h.ids.empty()) break; id = h.ids.back(); h.ids.pop_back(); } h.proxy->unregister(id); break; }
    case 2: h.stub->broadcastSignal<TickA>(1, text(Tick, 1)); break;
    case 3: h.proxy->unregisterAll(tick_signal::operationID()); break;
    case 4: h.stub->stopServing(); if (sim_choose(2)) h.stub->startServing(); break;
    case 5: h.stub->startServing(); break;
    case 6: h.proxy->sendRequestAsync<poke_request>([g](auto) {}); break;
    case 7: h.proxy->serviceStatus(); break;
    case 8: { maf::signal_slots::Connection c = h.stub->registerNotification<TickA>([g](const std::shared_ptr<TickA> &) {}); std::lock_guard l(h.m); h.cons.push_back(std::move(c)); break; }
    case 9: { maf::signal_slots::Connection c; { std::lock_guard l(h.m); if (h.cons.empty()) break; c = std::move(h.cons.back()); h.cons.pop_back(); } c.disconnect(); break; }
    case 10: { auto o = h.proxy->onServiceStatusChanged([g](Availability, Availability) {}); std::lock_guard l(h.m); h.obs.push_back(o); break; }
    case 11: { std::shared_ptr<ServiceStatusObserverIF> o; { std::lock_guard l(h.m); if (h.obs.empty()) break; o = h.obs.back(); h.obs.pop_back(); } h.proxy->unregisterServiceStatusObserver(o); break; }
  }
}
GhostPtr haunt(House &h, int depth) {
  int what = (int)sim_choose(14);
  h.alive++;
  return std::make_shared<Ghost>([&h, what, depth] {
    h.alive--;
    if (!h.over) deed(h, what, depth);
  });
}
}  // namespace
SIM_SCENARIO(c16_ghosts, 0, 0, 0) {
  auto hp = std::make_unique<House>();
  House &h = *hp;
  AsyncProcessor client;
  client.launch();
  bool async = sim_cfg(2);
  h.stub = itc::createStub("haunted", directExecutor());
  // requests are kept, so that their callbacks are destroyed when the service ends
  struct Held { std::recursive_mutex m; vector<itc::Request<poke_request>> v; };
  auto held = std::make_shared<Held>();
  h.stub->registerRequestHandler<poke_request>([held](auto r) {
    if (sim_choose(2)) { r.respond(); return; }
    std::lock_guard l(held->m);
    held->v.push_back(std::move(r));
  });
  h.proxy = itc::createProxy("haunted", async ? client->getAsyncExecutor() : directExecutor());
  h.stub->startServing();
  vector<std::thread> ths;
  std::atomic<int> ended{0};
  int nt = 1 + (int)sim_choose(3);
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, n = 2 + (int)sim_choose(7)] {
      for (int i = 0; i < n; i++) deed(h, (int)sim_choose(12), 2);
      ended++;
    });
  CHECK(waitFor([&] { return ended.load() == nt; }, 60000 * MS), "stuck", "registering, unregistering, broadcasting or requesting does not end");
  joinAll(ths);
  for (int i = 0; i < 2; i++) { client->waitableExecute([] {}).wait(); h.left = 0; }
  h.over = true;
  { decltype(h.ids) i; { std::lock_guard l(h.m); i.swap(h.ids); } for (auto &x : i) h.proxy->unregister(x); }
  { decltype(h.cons) i; { std::lock_guard l(h.m); i.swap(h.cons); } for (auto &x : i) x.disconnect(); }
  { decltype(h.obs) i; { std::lock_guard l(h.m); i.swap(h.obs); } for (auto &x : i) h.proxy->unregisterServiceStatusObserver(x); }
  h.stub->stopServing();
  { decltype(held->v) v; { std::lock_guard l(held->m); v.swap(held->v); } }
  h.stub->unregisterRequestHandler<poke_request>();
  for (int i = 0; i < 2; i++) client->waitableExecute([] {}).wait();
  client.stopAndWait();
  CHECK(h.alive == 0, "leaked-callback", "%d callbacks are still alive after everything was unregistered and the service has stopped", h.alive.load());
}

// many registrations, many broadcasts
SIM_SCENARIO(c16_many, 0, 0, 0) {
  auto stub = itc::createStub("many", directExecutor());
  stub->startServing();
  int np = 1 + (int)sim_choose(2), nr = 1 + (int)sim_choose(16), nb = 1 + (int)sim_choose(24);
  vector<itc::ProxyPtr> px;
  for (int i = 0; i < np; i++) px.push_back(itc::createProxy("many", directExecutor()));
  struct R { int n = 0; bool off = false; };
  auto rs = std::make_unique<vector<R>>(nr);
  R *r = rs->data();
  vector<RegID> ids(nr);
  for (int i = 0; i < nr; i++)
    ids[i] = px[i % np]->registerSignal<TickA>([r, i](const auto &a) {
      SimQuiet z;
      CHECK(!r[i].off, "after-unregister", "subscription %d is told after it ended", i);
      CHECK(a->get_n() == r[i].n, "missed", "subscription %d is given %d when %d is due", i, a->get_n(), r[i].n);
      r[i].n++;
    });
  int at = (int)sim_choose(nb);
  for (int b = 0; b < nb; b++) {
    stub->broadcastSignal<TickA>(b, "b");
    if (b == at) for (int i = 0; i < nr; i++) if (sim_choose(2)) { px[i % np]->unregister(ids[i]); r[i].off = true; }
  }
  for (int i = 0; i < nr; i++) CHECK(r[i].off || r[i].n == nb, "missed", "subscription %d of %d got %d of %d broadcasts", i, nr, r[i].n, nb);
  stub->stopServing();
}
