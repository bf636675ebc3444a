// C09: every notification reaches every connected slot exactly once.
#include "common.h"

#include <deque>

#include <maf/SignalSlots.h>
#include <maf/threading/MutexRef.h>
using namespace maf::signal_slots;

namespace {
constexpr uint64_t INF = ~0ull;
struct Per { uint64_t onInv, onRet = INF, offInv = INF, offRet = INF; bool fuzzy = false; };   // fuzzy: cleared while being connected
//   // one period of being connected
struct Slot {
  int id;
  vector<Per> per;
  vector<std::pair<int, uint64_t>> got;     // notification, sequence number
  int kind = 0;                             // what it does when invoked
  bool multi = true;
};
struct Not { uint64_t inv = 0, ret = INF; bool threw = false; int thread = 0; };
struct World {
  vector<std::unique_ptr<Slot>> s;
  vector<std::unique_ptr<Not>> n;
  int depth = 0, maxSlots = 14;
  Slot *add() { s.push_back(std::make_unique<Slot>()); s.back()->id = (int)s.size() - 1; return s.back().get(); }
  void onInv(Slot *x) { x->per.push_back({sim_ev("on-inv", x->id, 0, 0, 0)}); }
  void onRet(Slot *x, bool ok = true) { if (ok) x->per.back().onRet = sim_ev("on", x->id, 0, 0, 0); else x->per.pop_back(); }
  void offInv(Slot *x) { if (!x->per.empty() && x->per.back().offInv == INF) x->per.back().offInv = sim_ev("off-inv", x->id, 0, 0, 0); }
  void offRet(Slot *x) { if (!x->per.empty() && x->per.back().offRet == INF && x->per.back().offInv != INF) x->per.back().offRet = sim_ev("off", x->id, 0, 0, 0); }
};

template <class Sig>
struct Drv {
  World w;
  Sig sig;
  std::unique_ptr<Sig> fwd;         // forwards to sig
  bool mutate = true, throwers = false;
  vector<std::pair<Slot *, Connection>> pool;   // only touched inside slots
  int busy = 0;

  Drv() = default;
  template <class M> explicit Drv(M &&m) : sig{std::forward<M>(m)} {}

  std::function<void(const int &, const string &)> slotFn(Slot *x) {
    return [this, x](const int &v, const string &s) { invoked(x, v, s, {}); };
  }
  void invoked(Slot *x, int v, const string &s, ConnectionPtr con) {
    int op = 0;
    {
      SimQuiet z;
      uint64_t now = sim_ev("slot", x->id, v, 0, 0);
      CHECK(s == "n" + std::to_string(v), "wrong-value", "notification %d arrives as '%s'", v, s.c_str());
      Not *n = w.n[v].get();
      CHECK(n->inv < now && n->ret == INF, "late", "slot %d is invoked for notification %d, which is not running", x->id, v);
      CHECK(++busy == 1, "concurrent", "two slots of one signal run at the same time");
      bool connected = false, restless = false;
      for (auto &p : x->per) { connected |= p.offRet == INF; restless |= p.onRet > n->inv; }
      CHECK(connected, "after-disconnect", "slot %d is invoked for notification %d though its disconnection has finished", x->id, v);
      for (auto &g : x->got) CHECK(g.first != v || restless, "invoked-twice", "slot %d is invoked twice for notification %d", x->id, v);
      x->got.push_back({v, now});
      if (mutate && w.depth == 0 && sim_choose(4) == 0) op = 1 + (int)sim_choose(9);
      w.depth++;
    }
    bool thrown = false;
    if (sim_choose(3) == 0) sim_yield();
    switch (op) {
      case 1: case 2: {                     // a new slot, connected during the notification
        Slot *y; { SimQuiet z; y = (int)w.s.size() < w.maxSlots ? w.add() : nullptr; if (y) w.onInv(y); }
        if (y) { auto c = sig.connect(slotFn(y)); { SimQuiet z; w.onRet(y, c.connected()); } pool.emplace_back(y, std::move(c)); }
        break;
      }
      case 3: case 4:                       // disconnects some slot
        if (!pool.empty()) {
          auto &pc = pool[sim_choose(pool.size())];
          if (pc.second.connected()) {
            { SimQuiet z; w.offInv(pc.first); }
            CHECK(pc.second.disconnect(), "disconnect-failed", "disconnect() of a connected slot returned false");
            { SimQuiet z; w.offRet(pc.first); }
            CHECK(!pc.second.connected(), "still-connected", "connected() after disconnect()");
          }
        }
        break;
      case 5:                               // reconnects some slot
        for (auto &pc : pool)
          if (!pc.second.connected()) {
            { SimQuiet z; w.onInv(pc.first); }
            bool r = pc.second.reconnect();
            SimQuiet z;
            w.onRet(pc.first, r);
            break;
          }
        break;
      case 6: case 7:                       // disconnects itself
        if (con) {
          { SimQuiet z; w.offInv(x); }
          con->disconnect();
          SimQuiet z; w.offRet(x);
        }
        break;
      case 8:
        if (sim_choose(3) == 0) clear();
        break;
      case 9: thrown = throwers; break;
    }
    SimQuiet z;
    w.depth--;
    busy--;
    if (thrown) { w.n[v]->threw = true; sim_quiet(-1); struct Q { ~Q() { sim_quiet(1); } } q; throw std::runtime_error("slot"); }
  }
  void clear() {
    vector<Slot *> which;
    uint64_t inv;
    {
      SimQuiet z;
      inv = sim_ev("clear", 0, 0, 0, 0);
      for (auto &s : w.s) if (!s->per.empty() && s->per.back().offInv == INF) {
        if (s->per.back().onRet == INF) { s->per.back().fuzzy = true; continue; }
        which.push_back(s.get());
        w.offInv(s.get());
      }
    }
    sig.disconnect();
    SimQuiet z;
    ev("cleared");
    for (auto *s : which) w.offRet(s);
    // connected meanwhile
    for (auto &s : w.s) if (!s->per.empty() && s->per.back().offInv == INF && s->per.back().onRet > inv) s->per.back().fuzzy = true;
  }
  void notify(Sig &via) {
    Not *n; int id;
    {
      SimQuiet z;
      w.n.push_back(std::make_unique<Not>());
      n = w.n.back().get();
      id = (int)w.n.size() - 1;
      n->thread = sim_tid();
      n->inv = sim_ev("notify", id, 0, 0, 0);
    }
    string s = "n" + std::to_string(id);
    bool caught = false;
    try { if (sim_choose(2)) via(id, s); else via.notify(id, s); } catch (const std::runtime_error &) { caught = true; }
    SimQuiet z;
    n->ret = sim_ev("notified", id, 0, 0, 0);
    CHECK(caught == n->threw, "exception-lost", "an exception thrown by a slot %s", caught ? "came from nowhere" : "did not reach the notifying thread");
  }
  void final() {
    SimQuiet z;
    for (size_t v = 0; v < w.n.size(); v++) {
      Not &n = *w.n[v];
      for (auto &x : w.s) {
        bool sure = false;
        for (auto &p : x->per) sure |= !p.fuzzy && p.onRet < n.inv && p.offInv > n.ret;
        int c = 0;
        for (auto &g : x->got) c += g.first == (int)v;
        if (sure && !n.threw) CHECK(c == 1, "missed-slot", "notification %zu reached slot %d, which was connected all the time, %d times", v, x->id, c);
        bool maybe = false;
        for (auto &p : x->per) maybe |= p.onInv < n.ret && p.offRet > n.inv;
        CHECK(maybe || c == 0, "not-connected", "notification %zu reached slot %d, which was not connected", v, x->id);
      }
    }
  }
  void threads() {
    int nn = 1 + (int)sim_choose(2), nc = 1 + (int)sim_choose(2);
    vector<std::thread> ths;
    for (int t = 0; t < nn; t++)
      ths.emplace_back([&, k = 1 + (int)sim_choose(4)] { for (int i = 0; i < k; i++) notify(fwd && sim_choose(2) ? *fwd : sig); });
    for (int t = 0; t < nc; t++)
      ths.emplace_back([&, k = 1 + (int)sim_choose(4)] {
        vector<std::pair<Slot *, Connection>> mine;
        for (int i = 0; i < k; i++) {
          int op = (int)sim_choose(8);
          if (op <= 2 || mine.empty()) {
            Slot *x; { SimQuiet z; x = (int)w.s.size() < w.maxSlots ? w.add() : nullptr; if (x) w.onInv(x); }
            if (!x) continue;
            Connection c;
            switch (sim_choose(4)) {
              case 0: case 1: c = sig.connect(slotFn(x)); break;
              case 2: c = sig.connect([this, x](ConnectionPtr con, const int &v, const string &s) { invoked(x, v, s, con); }); break;
              case 3: c = sig.connect([this, x](const std::tuple<int, string> &t) { invoked(x, std::get<0>(t), std::get<1>(t), {}); }); break;
            }
            SimQuiet z;
            w.onRet(x);
            mine.emplace_back(x, std::move(c));
          } else if (op <= 4) {
            auto &m = mine[sim_choose(mine.size())];
            bool wasOn; { SimQuiet z; wasOn = m.first->per.back().offInv == INF; if (wasOn) w.offInv(m.first); }
            bool r = m.second.disconnect();
            SimQuiet z;
            if (r || wasOn) w.offRet(m.first);
          } else if (op == 5) {
            auto &m = mine[sim_choose(mine.size())];
            bool off; { SimQuiet z; off = m.first->per.back().offRet != INF; if (off) w.onInv(m.first); }
            if (off) {
              bool r = m.second.reconnect();
              SimQuiet z;
              w.onRet(m.first, r);
            }
          } else if (op == 6) {
            if (sim_choose(4) == 0) clear();
          } else {
            bool any = sig.connected();
            size_t c = sig.connectionCount();
            SimQuiet z;
            size_t maybe = w.s.size();
            CHECK(c <= maybe && (!any || maybe), "count-wrong", "connectionCount() is %zu with %zu slots ever connected", c, maybe);
          }
        }
        // handles die, slots stay
      });
    joinAll(ths);
    mutate = false;
    notify(sig);
    size_t on = 0, fz = 0;
    { SimQuiet z; for (auto &x : w.s) if (!x->per.empty() && x->per.back().offInv == INF) (x->per.back().fuzzy ? fz : on)++; }
    size_t c = sig.connectionCount();
    CHECK(c >= on && c <= on + fz && sig.connected() == (c != 0), "count-wrong", "connectionCount() is %zu with %zu slots connected", c, on);
    final();
  }
};
}  // namespace

SIM_SCENARIO(c09_churn, 0, 0, 0) {
  using S = Signal<int, string>;
  auto d = std::make_unique<Drv<S>>();
  d->mutate = sim_cfg(3) != 0;
  d->throwers = sim_cfg(3) == 0;
  if (sim_cfg(3) == 0) {
    d->fwd = std::make_unique<S>();
    d->fwd->connect(d->sig);
  }
  d->threads();
}

// two signals on one mutex
SIM_SCENARIO(c09_shared_mutex, 0, 0, 0) {
  using S = SharedMutexSignal<int, string>;
  std::recursive_mutex m;
  maf::threading::MutexReference<std::recursive_mutex> r1{m}, r2{m};
  auto a = std::make_unique<Drv<S>>(std::move(r1)), b = std::make_unique<Drv<S>>(std::move(r2));
  vector<std::thread> ths;
  ths.emplace_back([&] { a->threads(); });
  ths.emplace_back([&] { b->threads(); });
  joinAll(ths);
}

// a single-connection signal holds one slot at a time
SIM_SCENARIO(c09_single, 0, 0, 0) {
  using S = SCSignal<int, string>;
  S sig;
  std::atomic<int> holders{0};
  struct W { int owner = -1; vector<int> cnt; int notified = 0; } w;
  int nt = 2 + (int)sim_choose(2);
  w.cnt.resize(nt);
  vector<std::thread> ths;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, t, n = 1 + (int)sim_choose(4)] {
      for (int i = 0; i < n; i++) {
        bool mine = false;
        auto c = sig.connect([&, t](const int &v, const string &s) {
          CHECK(s == "n" + std::to_string(v), "wrong-value", "notification %d arrives as %s", v, s.c_str());
          SimQuiet z;
          w.cnt[t]++;
          CHECK(w.owner == t || w.owner < 0, "not-connected", "the slot of thread %d is invoked while thread %d holds the signal", t, w.owner);
        });
        mine = c.connected();
        if (mine) {
          int h = holders.fetch_add(1);
          CHECK(h == 0, "two-connections", "a single-connection signal has %d connections", h + 1);
          { SimQuiet z; w.owner = t; w.cnt[t] = 0; }
          sim_yield();
          int self = 0;
          if (sim_choose(2)) { sig(7, "n7"); self = 1; }
          { SimQuiet z; CHECK(w.cnt[t] >= self, "missed-slot", "a notification by the holder did not reach its slot"); w.owner = -1; }
          holders.fetch_sub(1);
          bool r = c.disconnect();
          CHECK(r, "disconnect-failed", "disconnect() of the connected slot returned false");
          if (sim_choose(2) && c.reconnect()) {
            CHECK(holders.fetch_add(1) == 0, "two-connections", "two connections after reconnect()");
            holders.fetch_sub(1);
            c.disconnect();
          }
        } else
          sig(8, "n8");
      }
    });
  joinAll(ths);
  CHECK(!sig.connected() && sig.connectionCount() == 0, "count-wrong", "a slot is connected after all were disconnected");
}


// Slots that their owner keeps, and the handles for them, against a model
namespace {
template <class Sig, bool One>
struct Kept {
  using SlotFn = std::function<void(const int &, const string &)>;
  enum { None, Ref, Ptr };
  struct K { std::shared_ptr<SlotFn> ps; int calls = 0, running = 0; };
  struct H { Connection c; int slot = -1, state = None; };   // a handle
  std::unique_ptr<Sig> sig = std::make_unique<Sig>();
  std::deque<K> k;
  std::deque<H> h;
  vector<int> in;                   // the slots connected, in order
  bool notifying = false, mutate = false;
  int v = 0;
  uint64_t steps = 0;

  int count(int s) { return (int)std::count(in.begin(), in.end(), s); }
  bool alive(int s) {
    if (s < 0) return false;
    if (k[s].ps || k[s].running || count(s)) return true;
    for (auto &x : h) if (x.slot == s && x.state == Ptr) return true;
    return false;
  }
  bool add(int s) { if (One && !in.empty()) return false; in.push_back(s); return true; }
  bool remove(int s) {
    auto i = std::find(in.begin(), in.end(), s);
    if (i == in.end()) return false;
    in.erase(i);
    return true;
  }
  int slot() {
    int s = (int)k.size();
    k.emplace_back();
    k[s].ps = std::make_shared<SlotFn>([this, s](const int &x, const string &t) {
      CHECK(x == v && t == "n" + std::to_string(v), "wrong-value", "notification %d arrives as %d '%s'", v, x, t.c_str());
      CHECK(notifying && count(s), "not-connected", "slot %d is invoked, it is not connected", s);
      CHECK(++k[s].calls <= 300, "invoked-twice", "slot %d is invoked %d times", s, k[s].calls);
      k[s].running++;
      if (mutate && steps < 120) for (int n = (int)sim_choose(3); n > 0; n--) step();
      k[s].running--;
    });
    return s;
  }
  void look() {
    size_t n = sig->connectionCount();
    CHECK(n == in.size() && sig->connected() == !in.empty(), "count-wrong", "connectionCount() is %zu, %zu slots are connected", n, in.size());
    for (auto &x : h) {
      bool want = x.state == Ref && count(x.slot);
      CHECK(x.c.connected() == want, "state-wrong", "the handle of slot %d says it is %sconnected", x.slot, want ? "not " : "");
    }
  }
  void step() {
    steps++;
    H *x = h.empty() ? nullptr : &h[sim_choose(h.size())];
    switch (sim_choose(10)) {
      case 0: case 1: case 2: {
        int s = !k.empty() && sim_choose(2) ? (int)sim_choose(k.size()) : (int)k.size() < 6 ? slot() : 0;
        if (!k[s].ps || k[s].running || h.size() > 12 || (notifying && in.size() > 5)) break;
        h.emplace_back();
        bool ok = add(s);
        sim_ev("connect", s, ok, 0, 0);
        h.back().c = sig->connect(k[s].ps);
        if (ok) { h.back().slot = s; h.back().state = Ref; }
        break;
      }
      case 3: case 4:
        if (x) {
          bool ok = x->state == Ref && alive(x->slot) && remove(x->slot);
          if (ok) x->state = Ptr;
          sim_ev("disconnect", x->slot, ok, 0, 0);
          bool r = x->c.disconnect();
          CHECK(r == ok, "disconnect-failed", "disconnect() of the handle of slot %d returned %d", x->slot, r);
        }
        break;
      case 5:
        if (x && !(notifying && in.size() > 5)) {
          bool ok = false;
          if (x->state == Ptr) {
            ok = !count(x->slot) && add(x->slot);
            x->state = ok ? Ref : None;
          }
          sim_ev("reconnect", x->slot, ok, 0, 0);
          bool r = x->c.reconnect();
          CHECK(r == ok, "reconnect-failed", "reconnect() of the handle of slot %d returned %d", x->slot, r);
        }
        break;
      case 6:
        if (!k.empty()) {
          int s = (int)sim_choose(k.size());
          if (!k[s].ps) break;
          bool ok = remove(s);
          sim_ev("remove", s, ok, 0, 0);
          bool r = sig->disconnect(k[s].ps);
          CHECK(r == ok, "disconnect-failed", "disconnect() of slot %d returned %d", s, r);
        }
        break;
      case 7:
        if (sim_choose(2)) { sim_ev("clear", 0, 0, 0, 0); in.clear(); sig->disconnect(); }
        else if (!k.empty() && sim_choose(2)) {
          int s = (int)sim_choose(k.size());
          k[s].ps.reset();          // its owner forgets it
          sim_ev("forget", s, alive(s), 0, 0);
        }
        break;
      case 8:
        if (notifying) break;
        if (sim_choose(3) == 0) {   // the signal moves, or ends and another comes
          if (sim_choose(2)) sig = std::make_unique<Sig>(std::move(*sig));
          else {
            sig = std::make_unique<Sig>();
            in.clear();
            for (auto &y : h) y.c = Connection(), y.slot = -1, y.state = None;
          }
        }
        break;
      case 9: if (x && sim_choose(3) == 0) { x->c = Connection(); x->slot = -1; x->state = None; } break;
    }
    look();
  }
  void notify() {
    v++;
    string t = "n" + std::to_string(v);
    for (auto &x : k) x.calls = 0;
    mutate = sim_choose(2);
    auto was = in;
    notifying = true;
    sim_ev("notify", v, (int)in.size(), mutate, 0);
    uint64_t before = steps;
    (*sig)(v, t);
    notifying = false;
    if (steps == before)
      for (int s = 0; s < (int)k.size(); s++) {
        int want = (int)std::count(was.begin(), was.end(), s);
        CHECK(k[s].calls == want, "missed-slot", "notification %d reached slot %d, connected %d times, %d times", v, s, want, k[s].calls);
      }
    look();
  }
  void run() {
    for (int n = 5 + (int)sim_choose(40); n > 0; n--) {
      if (sim_choose(4)) step(); else notify();
    }
    mutate = false;
    notify();
    sig.reset();
    for (auto &x : h) CHECK(!x.c.connected() && !x.c.disconnect(), "state-wrong", "the handle of slot %d outlives its signal", x.slot);
  }
};
}  // namespace
SIM_SCENARIO(c09_kept, 0, 0, 0) {
  switch (sim_cfg(4)) {
    case 0: Kept<SCSignal<int, string>, true>().run(); break;
    case 1: Kept<Signal<int, string>, false>().run(); break;
    case 2: Kept<SCSignalST<int, string>, true>().run(); break;
    case 3: Kept<SignalST<int, string>, false>().run(); break;
  }
}

// many slots
SIM_SCENARIO(c09_many, 0, 0, 0) {
  Signal<int, string> sig;
  int n = 1 + (int)sim_choose(40);
  auto cnt = std::make_unique<vector<int>>(40);
  int *got = cnt->data();
  vector<Connection> cs;
  for (int i = 0; i < n; i++) cs.push_back(sig.connect([got, i](int, const string &) { SimQuiet z; got[i]++; }));
  vector<char> off(n);
  vector<int> want(n);
  for (int round = 0; round < 3; round++) {
    for (int i = 0; i < n; i++)
      if (sim_choose(4) == 0) { if (off[i]) cs[i].reconnect(); else cs[i].disconnect(); off[i] = !off[i]; }
    CHECK((int)sig.connectionCount() == (int)std::count(off.begin(), off.end(), 0), "count", "%d slots are counted instead of %d", (int)sig.connectionCount(), (int)std::count(off.begin(), off.end(), 0));
    std::thread t([&] { sig(round, "x"); });
    sig(round, "x");
    t.join();
    for (int i = 0; i < n; i++) { want[i] += off[i] ? 0 : 2; CHECK(got[i] == want[i], off[i] ? "after-disconnect" : "missed-slot", "slot %d of %d was invoked %d times instead of %d", i, n, got[i], want[i]); }
  }
}
