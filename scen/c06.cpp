// C06: routing reaches each registered processor once, joins and leaves are told once.
#include "common.h"

#include <maf/messaging/MsgConnectionGroup.h>
#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/Routing.h>
using namespace maf::messaging;
using Status = routing::ProcessorStatusUpdateMsg;

namespace {
constexpr uint64_t INF = ~0ull;
struct M { int id; string s; };
struct N { int id; string s; };

struct Proc {
  int n, id;                       // instance number, id number
  ProcessorInstance p;
  std::unique_ptr<AsyncProcessor> ap;
  uint64_t createInv = INF, createRet = INF, stopInv = INF, stopRet = INF;
  uint64_t runRet = INF;           // its thread was started
  uint64_t onM = INF, onN = INF;   // handlers connected
  uint64_t statInv = INF, statRet = INF;
  MsgConnection cm, cn, cs;
  vector<int> got;
  std::map<const Processor *, std::pair<int, int>> told;   // reachable, unreachable
  int stopsOut = 1;               // stop() calls that have not returned
};
struct Sent {
  int id, kind, target;            // kind: 0 post 1 send 2 postToAll 3 sendToAll; target id or -1
  char type;
  uint64_t inv = 0, ret = INF;
  bool ok = false;
};
struct World {
  vector<std::unique_ptr<Proc>> ps;
  vector<std::unique_ptr<Sent>> ms;
  Proc *byPtr(const Processor *p) {
    for (auto &x : ps) if (x->p.get() == p) return x.get();
    return nullptr;
  }
};
const char *ids[] = {"alpha", "beta", "gamma"};

struct Ctx {
  World w;
  int nId = 1;
  bool nestedOk = true;

  // P is certainly registered during [a, b]
  static bool sure(const Proc &x, uint64_t a, uint64_t b) { return x.createRet < a && x.stopInv > b; }
  static bool maybe(const Proc &x, uint64_t a, uint64_t b) { return x.createInv < b && x.stopRet > a; }

  void handled(Proc *me, char type, int id, const string &s) {
    SimQuiet z;
    uint64_t now = sim_ev("handle", me->n, id, 0, 0);
    Sent *m = w.ms[id].get();
    CHECK(m->type == type, "wrong-type", "message %d arrived at a handler of another type", id);
    CHECK(s == "v" + std::to_string(id), "wrong-value", "message %d arrived as '%s'", id, s.c_str());
    CHECK(m->target < 0 || m->target == me->id, "wrong-processor", "message %d for '%s' arrived at '%s'", id, ids[m->target], ids[me->id]);
    CHECK(std::find(me->got.begin(), me->got.end(), id) == me->got.end(), "delivered-twice", "message %d was delivered twice to one processor", id);
    CHECK(me->stopRet > m->inv, "after-stop", "message %d was sent after the processor it arrives at had stopped", id);
    me->got.push_back(id);
    if (m->target >= 0)
      for (auto &o : w.ps)
        CHECK(o.get() == me || std::find(o->got.begin(), o->got.end(), id) == o->got.end(), "delivered-twice", "message %d was delivered to two processors", id);
    (void)now;
  }
  void status(Proc *me, const Status &st) {
    SimQuiet z;
    auto sp = st.messageprocessor();
    CHECK(sp != nullptr, "status-of-nobody", "a status message names no processor though all are alive");
    sim_ev("status", me->n, st.ready(), 0, 0);
    Proc *o = w.byPtr(sp.get());
    // a processor that is being created is not known yet
    auto &t = me->told[sp.get()];
    if (st.ready()) {
      CHECK(++t.first == 1, "told-twice", "told %d times that a processor became reachable", t.first);
      CHECK(t.second == 0, "status-order", "told of the leave before the join");
    } else {
      CHECK(++t.second == 1, "told-twice", "told %d times that a processor became unreachable", t.second);
      CHECK(o && o->stopInv != INF, "status-lie", "told that a processor left which nobody stopped");
    }
  }
  Proc *create(int id) {
    uint64_t inv; { SimQuiet z; inv = sim_ev("create", id, 0, 0, 0); }
    auto p = Processor::create(ids[id]);
    SimQuiet z;
    uint64_t ret = sim_ev("created", id, !!p, 0, 0);
    if (!p) {
      bool ok = false;
      for (auto &x : w.ps) ok |= x->id == id && maybe(*x, inv, ret);
      // or another creation that has succeeded but not yet returned
      ok |= creating[id] > 1 || createdAt[id] > inv;
      CHECK(ok, "create-refused", "create(\"%s\") failed though no such processor existed", ids[id]);
      return nullptr;
    }
    for (auto &x : w.ps)
      CHECK(x->id != id || !sure(*x, inv, ret), "duplicate-id", "a second processor '%s' was created while one existed", ids[id]);
    w.ps.push_back(std::make_unique<Proc>());
    Proc *x = w.ps.back().get();
    x->n = (int)w.ps.size() - 1;
    x->id = id; x->p = p;
    x->createInv = inv; x->createRet = ret;
    createdAt[id] = ret;
    for (auto &y : w.ps)
      if (y.get() != x && y->id == id)
        CHECK(y->stopInv != INF, "duplicate-id", "two processors '%s' are alive", ids[id]);
    return x;
  }
  int creating[3] = {0, 0, 0};
  uint64_t createdAt[3] = {0, 0, 0};

  void setup(Proc *x) {
    int what = (int)sim_choose(4);    // which handlers
    if (sim_choose(3)) {
      { SimQuiet z; x->statInv = sim_ev("stat-inv", x->n, 0, 0, 0); }
      x->cs = x->p->connect<Status>([this, x](const Status &s) { status(x, s); });
      SimQuiet z; x->statRet = sim_ev("stat-on", x->n, 0, 0, 0);
    }
    if (what != 0) {
      x->cm = x->p->connect<M>([this, x](const M &m) {
        handled(x, 'M', m.id, m.s);
        if (nestedOk && sim_choose(3) == 0) route(x, (int)sim_choose(5), 'N', false);
      });
      SimQuiet z; x->onM = sim_ev("M-on", x->n, 0, 0, 0);
    }
    if (what != 1) {
      x->cn = x->p->connect<N>([this, x](const N &m) { handled(x, 'N', m.id, m.s); });
      SimQuiet z; x->onN = sim_ev("N-on", x->n, 0, 0, 0);
    }
    x->ap = std::make_unique<AsyncProcessor>(x->p);
    x->ap->launch();
    SimQuiet z; x->runRet = sim_seq();
  }
  void stop(Proc *x) {
    { SimQuiet z; uint64_t s = sim_ev("stop", x->n, 0, 0, 0); if (s < x->stopInv) x->stopInv = s; }
    x->p->stop();
    SimQuiet z;
    // the first of several stops may still be on its way out of the routing
    x->stopsOut--;
    uint64_t s = sim_ev("stopped", x->n, 0, 0, 0);
    if (x->stopsOut == 0) x->stopRet = s;
  }
  void find(int id) {
    uint64_t inv; { SimQuiet z; inv = sim_ev("find", id, 0, 0, 0); }
    auto p = sim_choose(2) ? Processor::findProcessor(ids[id]) : routing::findProcessor(ids[id]);
    SimQuiet z;
    uint64_t ret = sim_ev("found", id, !!p, 0, 0);
    if (p) {
      CHECK(p->id() == ids[id], "wrong-processor", "findProcessor(\"%s\") returned '%s'", ids[id], p->id().c_str());
      Proc *x = w.byPtr(p.get());
      if (x) CHECK(maybe(*x, inv, ret), "found-stopped", "findProcessor(\"%s\") returned a processor that had stopped", ids[id]);
      else CHECK(creating[id] > 0, "found-unknown", "findProcessor returned a processor nobody created");
    } else
      for (auto &x : w.ps) CHECK(x->id != id || !sure(*x, inv, ret), "not-found", "findProcessor(\"%s\") did not find the processor that exists", ids[id]);
  }
  void route(Proc *from, int kind, char type, bool wait) {
    if (kind == 4) { find((int)sim_choose(nId)); return; }
    Sent *m; int target;
    {
      SimQuiet z;
      target = kind < 2 ? (int)sim_choose(nId) : -1;
      w.ms.push_back(std::make_unique<Sent>());
      m = w.ms.back().get();
      m->id = (int)w.ms.size() - 1; m->kind = kind; m->target = target; m->type = type;
      m->inv = sim_ev("route", m->id, kind, target, type);
    }
    string v = "v" + std::to_string(m->id);
    bool ok = false;
    Processor::CompleteSignal s;
    switch (kind) {
      case 0: ok = type == 'M' ? routing::post<M>(ids[target], m->id, v) : routing::post<N>(ids[target], m->id, v); break;
      case 1: s = type == 'M' ? routing::send<M>(ids[target], m->id, v) : routing::send<N>(ids[target], m->id, v); ok = s.valid(); break;
      case 2: ok = type == 'M' ? routing::postToAll<M>(m->id, v) : routing::postToAll<N>(m->id, v); break;
      case 3: s = type == 'M' ? routing::sendToAll<M>(m->id, v) : routing::sendToAll<N>(m->id, v); ok = s.valid(); break;
    }
    {
      SimQuiet z;
      m->ok = ok;
      m->ret = sim_ev("routed", m->id, ok, 0, 0);
      bool must = false, may = false;
      for (auto &x : w.ps) {
        if (target >= 0 && x->id != target) continue;
        uint64_t on = type == 'M' ? x->onM : x->onN;
        must |= sure(*x, m->inv, m->ret) && on < m->inv;
        may |= maybe(*x, m->inv, m->ret);
      }
      CHECK(ok || !must, "refused", "%s of message %d failed though an addressed processor handles it", kind == 0 ? "post" : kind == 1 ? "send" : kind == 2 ? "postToAll" : "sendToAll", m->id);
      for (int i = 0; i < nId; i++) may |= creating[i] > 0;
      CHECK(!ok || may, "accepted-by-nobody", "message %d was accepted though no processor is registered", m->id);
    }
    if (wait && s.valid()) s.wait();
  }
};
}  // namespace

static void body(bool ownStop) {
  auto cp = std::make_unique<Ctx>();
  Ctx &c = *cp;
  World &w = c.w;
  c.nId = 1 + (int)sim_cfg(3);
  c.nestedOk = sim_cfg(4) != 0;
  auto create = [&](int id) -> Proc * {
    { SimQuiet z; c.creating[id]++; }
    Proc *x = c.create(id);
    { SimQuiet z; c.creating[id]--; }
    if (x) c.setup(x);
    return x;
  };
  int n0 = (int)sim_choose(c.nId + 1);
  vector<Proc *> keep;
  for (int i = 0; i < n0; i++) keep.push_back(create(i));
  int nt = 1 + (int)sim_choose(3);
  vector<std::thread> ths;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, t, n = 1 + (int)sim_choose(5)] {
      vector<Proc *> mine;
      if (t == 0) { for (auto *x : keep) mine.push_back(x); }
      for (int k = 0; k < n; k++) {
        int op = (int)sim_choose(9);
        if (op <= 1) {
          if (Proc *x = create((int)sim_choose(c.nId))) mine.push_back(x);
        } else if (op == 2 && !mine.empty()) {
          Proc *x = mine.back();
          mine.pop_back();
          int how = (int)sim_choose(ownStop ? 3 : 1);
          if (how == 0) c.stop(x);
          else if (how == 1) {
            auto f = std::make_shared<Flag>();
            { SimQuiet z; x->stopInv = sim_ev("stop", x->n, 0, 0, 0); }
            x->p->executeAsync([x, f] {
              this_processor::stop();
              { SimQuiet z; x->stopsOut--; x->stopRet = sim_ev("stopped", x->n, 0, 0, 0); }
              f->set();
            });
            f->wait();
          } else {
            { SimQuiet z; x->stopsOut = 2; }
            std::thread a([&] { c.stop(x); });
            c.stop(x);
            a.join();
          }
          if (sim_choose(2)) x->ap->wait();
        } else if (op == 3) {
          c.find((int)sim_choose(c.nId));
        } else {
          c.route(nullptr, (int)sim_choose(4), sim_choose(3) ? 'M' : 'N', sim_choose(2));
        }
      }
    });
  joinAll(ths);
  // everything accepted by processors that are still running is handled
  {
    // a stopped processor may still be in its last handler, which may route
    vector<Proc *> gone;
    { SimQuiet z; for (auto &x : w.ps) if (x->stopInv != INF) gone.push_back(x.get()); }
    for (auto *x : gone) x->ap->wait();
    // nested calls may route once more, so two rounds are enough
    for (int r = 0; r < 3; r++) {
      vector<Proc *> live;
      { SimQuiet z; for (auto &x : w.ps) if (x->stopInv == INF) live.push_back(x.get()); }
      for (auto *x : live) {
        auto f = std::make_shared<Flag>();
        CHECK(x->p->executeAsync([f] { f->set(); }), "refused", "a live processor refused a task");
        CHECK(f->wait(60000 * MS), "stuck", "a processor does not get through its messages");
      }
    }
  }
  {
    SimQuiet z;
    uint64_t now = sim_seq();
    for (auto &m : w.ms)
      for (auto &x : w.ps) {
        if (m->target >= 0 && m->target != x->id) continue;
        uint64_t on = m->type == 'M' ? x->onM : x->onN;
        bool got = std::count(x->got.begin(), x->got.end(), m->id) == 1;
        if (x->createRet < m->inv && on < m->inv && x->stopInv == INF)
          CHECK(got, "lost-message", "message %d (%s) was not delivered to processor %d, which was registered and handling it all the time", m->id, m->kind == 0 ? "post" : m->kind == 1 ? "send" : m->kind == 2 ? "postToAll" : "sendToAll", x->n);
        if (got) CHECK(m->ok || m->ret == INF, "refused-but-handled", "message %d was refused but delivered", m->id);
        if (m->ok && m->target >= 0) {
          bool any = false, live = true;
          for (auto &y : w.ps) if (y->id == m->target) { any |= std::count(y->got.begin(), y->got.end(), m->id) > 0; live &= y->stopInv == INF; }
          CHECK(any || !live, "lost-message", "message %d was accepted and never delivered", m->id);
        }
      }
    for (auto &o : w.ps) {
      if (o->statRet == INF || o->stopInv != INF) continue;
      for (auto &x : w.ps) {
        if (x == o) { CHECK(!o->told.count(o->p.get()), "status-of-itself", "a processor is told of its own join"); continue; }
        auto it = o->told.find(x->p.get());
        int r = it == o->told.end() ? 0 : it->second.first, u = it == o->told.end() ? 0 : it->second.second;
        if (x->createInv > o->statRet) CHECK(r == 1, "not-told", "processor %d was told %d times that processor %d became reachable", o->n, r, x->n);
        if (x->createRet < o->createInv) CHECK(r == 0 || x->stopRet > o->statInv, "status-lie", "told of a join that happened before");
        if (x->stopInv != INF && x->stopInv > o->statRet) CHECK(u == 1, "not-told", "processor %d was told %d times that processor %d became unreachable", o->n, u, x->n);
        if (x->stopInv == INF) CHECK(u == 0, "status-lie", "told of the leave of a processor that is alive");
      }
    }
    (void)now;
  }
  for (int i = 0; i < c.nId; i++) c.find(i);
  for (size_t i = 0;; i++) {
    Proc *x;
    { SimQuiet z; if (i >= w.ps.size()) break; x = w.ps[i].get(); }
    bool st; { SimQuiet z; st = x->stopInv == INF; }
    if (st) c.stop(x);
    x->ap->wait();
  }
  for (int i = 0; i < c.nId; i++) c.find(i);
  // the handlers refer to the world
  for (auto &x : w.ps) x->ap.reset();
}
SIM_SCENARIO(c06_routing, 0, 0, 0) { body(false); }
SIM_SCENARIO(c06_stops, SIM_F_TIMESKEW, 0, 0) { body(true); }

// several threads create a processor with one id at the same time
SIM_SCENARIO(c06_create_race, 0, 0, 0) {
  int nt = 2 + (int)sim_choose(3);
  bool again = sim_choose(2);
  vector<ProcessorInstance> got(nt);
  vector<std::thread> ths;
  std::atomic<int> live{0};
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, t] {
      got[t] = sim_choose(2) ? Processor::create("one") : makeProcessor("one");
      if (got[t]) {
        CHECK(live.fetch_add(1) == 0, "duplicate-id", "two processors with one id are alive");
        auto f = Processor::findProcessor("one");
        CHECK(f == got[t], "not-found", "the only processor 'one' is not the one that is found");
        if (again && sim_choose(2)) { live--; got[t]->stop(); CHECK(Processor::findProcessor("one") != got[t], "found-stopped", "a stopped processor is found"); }
      }
    });
  joinAll(ths);
  int n = 0;
  for (auto &g : got) n += g != nullptr;
  CHECK(n >= 1, "create-refused", "none of %d concurrent creations succeeded", nt);
  CHECK(n == 1 || again, "duplicate-id", "%d processors were created with one id", n);
  if (live == 1) CHECK(Processor::findProcessor("one") != nullptr, "not-found", "the live processor is not found");
  else {
    CHECK(!Processor::findProcessor("one"), "found-stopped", "a stopped processor is found");
    auto p = Processor::create("one");
    CHECK(p && Processor::findProcessor("one") == p, "create-refused", "an id cannot be used again after its processor stopped");
    p->stop();
  }
  for (auto &g : got) if (g) g->stop();
}

// many processors
SIM_SCENARIO(c06_many, 0, 0, 0) {
  struct Hi { int n; };
  int np = 2 + (int)sim_choose(11);
  vector<std::unique_ptr<AsyncProcessor>> ps;
  auto cnt = std::make_unique<vector<int>>(64);
  int *got = cnt->data(), *up = got + 16, *down = got + 32;
  for (int i = 0; i < np; i++) {
    auto p = Processor::create("p" + std::to_string(i));
    CHECK(p, "create-refused", "no processor p%d", i);
    p->connect<Hi>([got, i](const Hi &) { SimQuiet z; got[i]++; });
    p->connect<Status>([up, down, i](const Status &m) { SimQuiet z; (m.ready() ? up : down)[i]++; });
    ps.push_back(std::make_unique<AsyncProcessor>(p));
    ps.back()->launch();
  }
  auto flush = [&] { for (auto &p : ps) if (p) (*p)->waitableExecute([] {}).wait(); };
  flush();
  for (int i = 0; i < np; i++) {
    CHECK(Processor::findProcessor("p" + std::to_string(i)) == ps[i]->instance(), "not-found", "p%d of %d is not found", i, np);
    CHECK(up[i] == np - 1 - i, "status", "p%d was told %d processors that came after it, there are %d", i, up[i], np - 1 - i);
  }
  bool ok = sim_choose(2) ? routing::postToAll<Hi>(1) : (routing::sendToAll<Hi>(1).wait(), true);
  CHECK(ok, "refused", "nobody took a message for all");
  flush();
  for (int i = 0; i < np; i++) CHECK(got[i] == 1, got[i] ? "delivered-twice" : "lost-message", "p%d of %d got a message for all %d times", i, np, got[i]);
  int k = (int)sim_choose(np);
  CHECK(routing::post<Hi>("p" + std::to_string(k), 2), "refused", "p%d of %d cannot be reached", k, np);
  ps[k]->stopAndWait();
  CHECK(got[k] <= 2, "delivered-twice", "p%d got a message twice", k);
  ps[k].reset();
  flush();
  for (int i = 0; i < np; i++) if (i != k) CHECK(down[i] == 1 && got[i] == 1, "status", "p%d of %d was told %d times that one left", i, np, down[i]);
  for (auto &p : ps) if (p) p->stopAndWait();
}
