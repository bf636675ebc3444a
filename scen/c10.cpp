// C10: slot lifetime options keep their promise.
#include "common.h"
#include <cstring>

#include <maf/SignalSlots.h>
#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
using namespace maf::signal_slots;
using maf::messaging::AsyncProcessor;
using maf::messaging::Processor;

namespace {
constexpr uint64_t INF = ~0ull;
using Sig = Signal<int, string>;
struct Rec {                       // one slot
  int id, kind = 0, tid = -1;      // tid: thread it has to run on
  uint64_t onRet = INF, offInv = INF, offRet = INF;
  uint64_t deadInv = INF, deadRet = INF;   // its owner
  vector<int> got;
  bool viaExec = false;
};
struct Not { uint64_t inv = 0, ret = INF; };
struct World {
  vector<std::unique_ptr<Rec>> r;
  vector<std::unique_ptr<Not>> n;
  std::shared_ptr<int> token = std::make_shared<int>(0);
  Rec *add(int kind) { SimQuiet z; r.push_back(std::make_unique<Rec>()); r.back()->id = (int)r.size() - 1; r.back()->kind = kind; sim_ev("connect", r.back()->id, kind, 0, 0); return r.back().get(); }
  void on(Rec *x) { SimQuiet z; x->onRet = sim_ev("on", x->id, 0, 0, 0); }
  void offI(Rec *x) { SimQuiet z; if (x->offInv == INF) x->offInv = sim_ev("off-inv", x->id, 0, 0, 0); }
  void offR(Rec *x) { SimQuiet z; if (x->offRet == INF) x->offRet = sim_ev("off", x->id, 0, 0, 0); }
};
// what a slot does first
void invoked(World &w, Rec *x, int v, const string &s) {
  SimQuiet z;
  sim_ev("slot", x->id, v, 0, 0);
  CHECK(s == "n" + std::to_string(v), "wrong-value", "notification %d arrives as '%s'", v, s.c_str());
  if (x->tid >= 0) CHECK(sim_tid() == x->tid, "wrong-thread", "slot %d does not run on its executor", x->id);
  if (x->viaExec) CHECK(w.n[v]->inv < x->offRet, "after-disconnect", "slot %d is invoked for a notification that began after its disconnection", x->id);
  else CHECK(x->offRet == INF, "after-disconnect", "slot %d (kind %d) is invoked after its disconnection", x->id, x->kind);
  CHECK(x->deadRet == INF, "owner-dead", "slot %d (kind %d) is invoked after its owner was destroyed", x->id, x->kind);
  for (int g : x->got) CHECK(g != v, "invoked-twice", "slot %d is invoked twice for one notification", x->id);
  x->got.push_back(v);
}
struct Owner {
  World &w;
  Rec *x;
  std::shared_ptr<int> tok;
  char alive[24];
  Owner(World &w_, Rec *r) : w(w_), x(r), tok(w_.token) { memset(alive, 'a', sizeof alive); }
  ~Owner() { { SimQuiet z; x->deadRet = sim_ev("owner-dead", x->id, 0, 0, 0); } memset(alive, 'd', sizeof alive); }
  void method(const int &v, const string &s) {
    CHECK(alive[3] == 'a', "owner-dead", "a method runs on a destroyed owner");
    invoked(w, x, v, s);
    sim_yield();
    CHECK(alive[5] == 'a', "owner-dead", "the owner was destroyed while its method runs");
  }
};
}  // namespace

SIM_SCENARIO(c10_lifetimes, 0, 0, 0) {
  World w;
  auto sig = std::make_unique<Sig>();
  std::unique_ptr<AsyncProcessor> ap;
  int procTid = -1;
  auto p = Processor::create();
  ap = std::make_unique<AsyncProcessor>(p);
  ap->launch([&] { SimQuiet z; procTid = sim_tid(); });
  p->waitableExecute([] {}).wait();
  bool blocking = sim_cfg(3) == 0;
  auto ex = blocking ? p->getBlockingExecutor() : p->getAsyncExecutor();
  int nn = 1 + (int)sim_choose(2), nc = 1 + (int)sim_choose(3);
  vector<std::thread> ths;
  auto notify = [&] {
    Not *n; int id;
    { SimQuiet z; w.n.push_back(std::make_unique<Not>()); n = w.n.back().get(); id = (int)w.n.size() - 1; n->inv = sim_ev("notify", id, 0, 0, 0); }
    (*sig)(id, "n" + std::to_string(id));
    SimQuiet z; n->ret = sim_ev("notified", id, 0, 0, 0);
  };
  for (int t = 0; t < nn; t++)
    ths.emplace_back([&, k = 1 + (int)sim_choose(4)] { for (int i = 0; i < k; i++) notify(); });
  vector<vector<Connection>> left(nc);
  vector<vector<std::shared_ptr<Owner>>> owners(nc);
  for (int t = 0; t < nc; t++)
    ths.emplace_back([&, t, k = 1 + (int)sim_choose(3)] {
      for (int i = 0; i < k; i++) {
        int kind = (int)sim_choose(10);
        if (kind == 3 && blocking) kind = 8;   // the notification would wait for a task that waits for it
        Rec *x = w.add(kind);
        auto plain = [&w, x, tok = w.token](const int &v, const string &s) { invoked(w, x, v, s); };
        int stay = (int)sim_choose(3);
        switch (kind) {
          case 0: {                                    // scoped
            { ScopedConnection sc = sig->connect(plain); w.on(x); for (int j = 0; j < stay; j++) sim_yield(); w.offI(x); }
            w.offR(x);
            break;
          }
          case 1: {                                    // scoped, replaced by assignment; group
            Rec *y = w.add(kind);
            ScopedConnectionGroup g;
            {
              ScopedConnection sc = sig->connect(plain); w.on(x);
              sim_yield();
              ScopedConnection sd = sig->connect([&w, y, tok = w.token](const int &v, const string &s) { invoked(w, y, v, s); });
              w.on(y);
              w.offI(x);
              sc = std::move(sd);
              w.offR(x);
              for (int j = 0; j < stay; j++) sim_yield();
              if (stay) { g << std::move(sc); w.offI(y); g.clear(); }
              else w.offI(y);
            }
            w.offR(y);
            break;
          }
          case 2: case 3: {                            // disconnects itself while it runs
            int times = 1 + stay;
            if (kind == 3) { SimQuiet z; x->viaExec = true; x->tid = procTid; }
            auto cas = [&w, x, times, tok = w.token](ConnectionPtr con, const int &v, const string &s) {
              invoked(w, x, v, s);
              bool now; { SimQuiet z; now = (int)x->got.size() >= times && x->offRet == INF; }
              if (now) { w.offI(x); CHECK(con->disconnect(), "disconnect-failed", "a running slot could not disconnect itself"); w.offR(x); CHECK(!con->connected(), "still-connected", "connected() after disconnect()"); }
            };
            // (a blocking executor would wait for the notification that waits for it)
            auto c = kind == 2 ? sig->connect(cas) : sig->connect(cas, p->getAsyncExecutor());
            w.on(x);
            if (sim_choose(2)) left[t].push_back(std::move(c));
            break;
          }
          case 4: case 5: {                            // tracked owner, free slot
            auto o = std::make_shared<Owner>(w, x);
            if (kind == 5) { SimQuiet z; x->viaExec = true; x->tid = procTid; }
            auto f = [q = o.get()](const int &v, const string &s) { q->method(v, s); };
            auto c = kind == 4 ? sig->connect(std::shared_ptr<void>(o), f) : sig->connect(std::shared_ptr<void>(o), f, ex);
            w.on(x);
            for (int j = 0; j < stay; j++) sim_yield();
            { SimQuiet z; x->deadInv = sim_ev("owner-dying", x->id, 0, 0, 0); }
            if (stay < 2) o.reset(); else owners[t].push_back(std::move(o));
            break;
          }
          case 6: case 7: {                            // method of a shared owner
            auto o = std::make_shared<Owner>(w, x);
            if (kind == 7) { SimQuiet z; x->viaExec = true; x->tid = procTid; }
            auto c = kind == 6 ? sig->connect(o, &Owner::method) : sig->connect(o, &Owner::method, ex);
            w.on(x);
            for (int j = 0; j < stay; j++) sim_yield();
            { SimQuiet z; x->deadInv = sim_ev("owner-dying", x->id, 0, 0, 0); }
            if (stay < 2) o.reset(); else owners[t].push_back(std::move(o));
            break;
          }
          case 8: {                                    // on an executor
            { SimQuiet z; x->viaExec = true; x->tid = procTid; }
            auto c = sig->connect(plain, ex);
            w.on(x);
            for (int j = 0; j < stay; j++) sim_yield();
            if (sim_choose(2)) { w.offI(x); c.disconnect(); w.offR(x); }
            if (sim_choose(2)) left[t].push_back(std::move(c));
            break;
          }
          case 9: {                                    // handles move and die
            Connection a = sig->connect(plain), b;
            w.on(x);
            b = std::move(a);
            Connection c{std::move(b)};
            if (stay) { w.offI(x); CHECK(c.disconnect(), "disconnect-failed", "a moved connection does not disconnect"); w.offR(x); CHECK(!c.connected(), "still-connected", "connected() after disconnect()"); }
            else CHECK(c.connected(), "not-connected", "a moved connection is not connected");
            left[t].push_back(std::move(c));
            break;
          }
        }
      }
    });
  joinAll(ths);
  notify();
  p->waitableExecute([] {}).wait();
  {
    SimQuiet z;
    for (size_t v = 0; v < w.n.size(); v++)
      for (auto &x : w.r) {
        bool got = std::find(x->got.begin(), x->got.end(), (int)v) != x->got.end();
        // (an owner that dies before its executor comes to the invocation is not invoked)
        if (x->onRet < w.n[v]->inv && x->offInv > w.n[v]->ret && (x->viaExec ? x->deadInv == INF : x->deadInv > w.n[v]->ret))
          CHECK(got, "missed-slot", "notification %zu did not reach slot %d (kind %d), which was connected all the time", v, x->id, x->kind);
        if (!x->viaExec && x->offRet != INF) CHECK(!got || w.n[v]->inv < x->offRet, "after-disconnect", "notification %zu reached slot %d after its disconnection", v, x->id);
      }
  }
  // destroyed in any order
  int order = (int)sim_choose(3);
  if (order == 0) { sig.reset(); }
  if (order == 2) { std::thread a([&] { left.clear(); }), b([&] { owners.clear(); }); a.join(); b.join(); }
  for (auto &l : left) for (auto &c : l) { bool con = c.connected(); CHECK(!(order == 0 && con), "still-connected", "a connection of a destroyed signal reports connected"); if (sim_choose(2)) c.disconnect(); if (sim_choose(2)) c.reconnect(); }
  if (order == 1) { std::thread a([&] { sig.reset(); }), b([&] { left.clear(); }); a.join(); b.join(); }
  sig.reset();
  left.clear();
  owners.clear();
  ap->stopAndWait();
  ex.reset();
  SimQuiet z;
  CHECK(w.token.use_count() == 1, "leaked-slot", "%ld slots (or what they captured) are alive after signal and connections were destroyed", w.token.use_count() - 1);
}

SIM_SCENARIO(c10_waitable, 0, 0, 0) {
  struct Nt { uint64_t inv = 0, ret = INF; };
  struct W { vector<std::unique_ptr<Nt>> n; } w;
  auto sig = std::make_unique<Sig>();
  int nn = 1 + (int)sim_choose(2), nw = 1 + (int)sim_choose(3);
  vector<std::thread> ths, waiters;
  auto notify = [&] {
    Nt *n; int id;
    { SimQuiet z; w.n.push_back(std::make_unique<Nt>()); n = w.n.back().get(); id = (int)w.n.size() - 1; n->inv = sim_ev("notify", id, 0, 0, 0); }
    (*sig)(id, "n" + std::to_string(id));
    SimQuiet z; n->ret = sim_ev("notified", id, 0, 0, 0);
  };
  std::atomic<int> connecting{nw};
  bool finale = sim_choose(4) != 0;    // a last notification reaches everybody, or the signal dies
  for (int t = 0; t < nn; t++)
    ths.emplace_back([&, k = (int)sim_choose(4)] { for (int i = 0; i < k; i++) { if (sim_choose(2)) sim_sleep(sim_choose(3) * MS); notify(); } });
  for (int t = 0; t < nw; t++)
    waiters.emplace_back([&] {
      std::atomic<int> ran{0};
      int value = -1;
      uint64_t cinv, cret;
      { SimQuiet z; cinv = sim_ev("connect", 0, 0, 0, 0); }
      auto f = waitableConnect(*sig, std::function<void(const int &, const string &)>{[&](const int &v, const string &s) {
        CHECK(s == "n" + std::to_string(v), "wrong-value", "notification %d arrives as %s", v, s.c_str());
        CHECK(ran.fetch_add(1) == 0, "invoked-twice", "a waitable slot ran twice");
        value = v;
      }});
      { SimQuiet z; cret = sim_ev("connected", 0, 0, 0, 0); }
      connecting--;
      CHECK(f.valid(), "lost-invocation", "waitableConnect returned nothing to wait for");
      int how = (int)sim_choose(5);
      bool ok = false;
      uint64_t can = INF;
      std::thread canceller;
      if (how == 1) { f.cancel(); SimQuiet z; can = sim_ev("cancelled", 0, 0, 0, 0); }
      if (how == 4) canceller = std::thread([&] { if (sim_choose(2)) sim_sleep(sim_choose(4) * MS); f.cancel(); ev("cancelled"); });
      if (how == 2) ok = f.waitFor(std::chrono::milliseconds(sim_choose(5)));
      if (how == 3) ok = f.waitUtil(std::chrono::steady_clock::now() + std::chrono::milliseconds(sim_choose(5)));
      if (!ok && sim_choose(2)) { ok = f.wait(); if (how == 0) CHECK(ok || !finale, "lost-invocation", "wait() returned false though nobody cancelled"); }
      else if (!ok && how == 0) { ok = f.wait(); CHECK(ok || !finale, "lost-invocation", "wait() returned false though nobody cancelled"); }
      if (canceller.joinable()) canceller.join();
      CHECK(ok == (ran == 1), "wrong-return", "wait returned %d though the slot ran %d times", ok, ran.load());
      if (ok) {
        SimQuiet z;
        Nt *n = w.n[value].get();
        CHECK(n->ret > cinv, "stale-value", "a notification from before the connection arrived");
        CHECK(n->inv < can, "ran-after-cancel", "the slot ran for a notification that began after cancel() had returned");
        for (auto &o : w.n) CHECK(!(o->inv > cret && o->ret < n->inv), "missed-notification", "an earlier notification was missed");
      }
      if (ok) CHECK(!f.wait() && ran == 1, "invoked-twice", "a second wait ran the slot again");
    });
  joinAll(ths);
  waitFor([&] { return connecting == 0; }, 0);
  CHECK(connecting.load() == 0, "harness", "not connected");   // orders what follows after the connecting threads
  if (finale) notify(); else sig.reset();
  joinAll(waiters);
}

// What slots own may use the signal, or connections of it, while it is destroyed
namespace {
template <class Sig>
void ghosts() {
  struct W {
    std::unique_ptr<Sig> s = std::make_unique<Sig>();
    std::atomic<int> alive{0}, calls{0};
    std::atomic<bool> over{false};
    vector<std::shared_ptr<Connection>> cons;
  };
  auto wp = std::make_unique<W>();
  W &w = *wp;
  std::function<GhostPtr(int)> haunt = [&](int depth) {
    int what = (int)sim_choose(6);
    w.alive++;
    std::shared_ptr<ScopedConnection> other;
    if (what == 0 && depth) other = std::make_shared<ScopedConnection>(w.s->connect([&w, g = haunt(depth - 1)](int, string) { w.calls++; }));
    std::shared_ptr<Connection> c;
    if (what == 1 && !w.cons.empty()) c = w.cons[sim_choose(w.cons.size())];
    return std::make_shared<Ghost>([&, what, depth, other, c]() mutable {
      w.alive--;
      other.reset();
      if (c) { c->connected(); c->disconnect(); }
      if (w.over) return;   // the signal itself is being destroyed
      switch (what) {
        case 2: w.s->connectionCount(); break;
        case 3: if (depth) w.s->connect([&w, g = haunt(depth - 1)](int, string) { w.calls++; }); break;
        case 4: w.s->disconnect(); break;
        case 5: w.s->connected(); break;
      }
    });
  };
  int n = 2 + (int)sim_choose(5);
  for (int i = 0; i < n; i++) {
    auto c = std::make_shared<Connection>(w.s->connect([&, g = haunt(2)](int v, string) {
      w.calls++;
      if (v == 1 && sim_choose(3) == 0) w.s->disconnect();
      if (v == 2 && !w.cons.empty()) w.cons[sim_choose(w.cons.size())]->disconnect();
    }));
    w.cons.push_back(std::move(c));
  }
  for (int i = 0, k = (int)sim_choose(5); i < k; i++)
    switch (sim_choose(4)) {
      case 0: w.s->notify((int)sim_choose(3), "n"); break;
      case 1: w.cons[sim_choose(w.cons.size())]->disconnect(); break;
      case 2: w.cons[sim_choose(w.cons.size())] = std::make_shared<Connection>(); break;
      case 3: if (sim_choose(2)) w.s->disconnect(); break;
    }
  CHECK(w.s->connectionCount() <= 100, "count", "a signal says that it has %zu connections", w.s->connectionCount());
  if (sim_choose(2)) {
    for (int i = 0; i < 100 && w.s->connected(); i++) w.s->disconnect();
    size_t left = 0;
    for (auto &c : w.cons) left += c->connected();
    CHECK(w.s->connectionCount() == left && (left || !w.s->connected()), "count", "a signal says that it has %zu connections, it has %zu", w.s->connectionCount(), left);
  }
  if (sim_choose(2)) { auto all = std::move(w.cons); w.cons.clear(); }
  w.over = true;
  w.s.reset();
  { auto all = std::move(w.cons); }
  CHECK(w.alive == 0, "slot-leak", "%d objects owned by slots are still alive after the signal and its connections were destroyed", w.alive.load());
}
}  // namespace
SIM_SCENARIO(c10_ghosts, 0, 0, 0) {
  if (sim_choose(4)) ghosts<Sig>(); else ghosts<SCSignal<int, string>>();
}
