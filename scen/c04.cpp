// C04: messages reach exactly the handlers connected for their type, once, in order.
#include "common.h"

#include <maf/messaging/MsgConnectionGroup.h>
#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
using namespace maf::messaging;

namespace {
struct MA { int id; string s; };
struct MB { int id; string s; };
struct MC { int id; string s; };
struct Sentinel { int id; };

struct H {                        // one handler (one connection)
  int type, id;
  bool on = false, sure = false, maybe = false;   // certainly, possibly connected
  uint64_t lastOn = 0, lastOff = 0;   // sequence numbers of the last change
  MsgConnection con;              // unless owned by the group
  bool grouped = false, dead = false;  // dead: disconnected by type, cannot come back
  bool anyInHandler = false;
};
struct MsgRec {
  int type, poster, n;
  uint64_t postInv = 0, postRet = 0;
  bool ret = false;
  bool handled = false, sentinelSeen = false;
  vector<int> got;                // handlers that were invoked
};
struct World {
  vector<std::unique_ptr<H>> hs;
  vector<std::unique_ptr<MsgRec>> ms;
  vector<int> lastPer[3];         // per type: last message id per poster
  uint64_t emptyAt[3] = {1, 1, 1};  // last sequence number at which no handler of the type was connected
  uint64_t someAt[3] = {0, 0, 0};   // last one at which one might be
  int procTid = -1;
  std::map<int, int> order[3];    // type -> poster -> last n
  struct Frame { int msg = -1; std::set<int> must, may, gone; };   // a message being handled and its obligations
  vector<Frame> frames = vector<Frame>(1);   // more than one: posted with waitablePost on the processor's own thread
  int nOn(int type) { int c = 0; for (auto &h : hs) c += h->type == type && h->sure; return c; }
  void touch() {
    for (int t = 0; t < 3; t++) if (!nOn(t)) emptyAt[t] = sim_seq();
    for (auto &h : hs) if (h->maybe) someAt[h->type] = sim_seq();
  }
};
// closes the notification of the current message: every obligation must be met
void closeMsg(World &w) {
  auto &f = w.frames.back();
  if (f.msg < 0) return;
  for (int h : f.must) sim_fail("missed-handler", "message %d was not handed to handler %d, which was connected", f.msg, h);
  f.msg = -1;
}
void openMsg(World &w, int id) {
  closeMsg(w);
  MsgRec *m = w.ms[id].get();
  CHECK(!m->handled, "handled-twice", "message %d is handed out a second time", id);
  m->handled = true;
  int &last = w.order[m->type][m->poster];
  CHECK(m->n > last, "order", "poster %d: message number %d is handled after number %d", m->poster, m->n, last);
  last = m->n;
  auto &f = w.frames.back();
  f.msg = id;
  f.must.clear(); f.may.clear(); f.gone.clear();
  for (auto &h : w.hs)
    if (h->type == m->type && h->on) f.must.insert(h->id);
}
void onOff(World &w, H *h, bool on) {
  w.touch();
  h->on = h->sure = h->maybe = on;
  sim_ev(on ? "on" : "off", h->id, h->type, 0, 0);
  for (auto &f : w.frames)
    if (f.msg >= 0 && w.ms[f.msg]->type == h->type) {
      if (on) f.may.insert(h->id), f.gone.erase(h->id);
      else f.must.erase(h->id), f.may.erase(h->id), f.gone.insert(h->id);
    }
  w.touch();
}
}  // namespace

// All changes of the connections happen on the processor's thread, in tasks or
// inside handlers, so what must be delivered is known exactly.
SIM_SCENARIO(c04_model, 0, 0, 0) {
  auto w = std::make_unique<World>();
  auto p = Processor::create();
  AsyncProcessor ap{p};
  std::unique_ptr<MsgConnectionGroup> grp = std::make_unique<MsgConnectionGroup>();
  w->touch();
  std::function<void(int)> change;
  // the processor's own thread posts as well: from tasks and from handlers
  constexpr int ownPoster = 50;
  int ownN = 0, ownLeft = 8, bursts = 0;
  auto postOne = [&](int t, int k) {
    MsgRec *m; int id;
    {
      SimQuiet z;
      w->ms.push_back(std::make_unique<MsgRec>());
      m = w->ms.back().get();
      id = (int)w->ms.size() - 1;
      m->type = (int)sim_choose(3); m->poster = t; m->n = k;
      m->postInv = sim_ev("post", id, m->type, t, 0);
    }
    string v = "v" + std::to_string(id);
    int how = t == ownPoster ? 1 + (int)sim_choose(4) : (int)sim_choose(3);
    if (how == 4) {   // a handler must not call itself
      SimQuiet z;
      for (auto &f : w->frames) if (f.msg >= 0 && w->ms[f.msg]->type == m->type) how = 3;
    }
    bool r;
    if (how == 0) {
      auto s = m->type == 0 ? p->waitablePost<MA>(id, v) : m->type == 1 ? p->waitablePost<MB>(id, v) : p->waitablePost<MC>(id, v);
      r = s.valid();
      if (r && sim_choose(2)) s.wait();
    } else if (how == 3)
      r = m->type == 0 ? this_processor::post<MA>(id, v) : m->type == 1 ? this_processor::post<MB>(MB{id, v}) : this_processor::post(makeMessage<MC>(id, v));
    else if (how == 4) {   // on the processor's own thread: handled before the call returns
      { SimQuiet z; m->poster = ownPoster + 1; w->frames.emplace_back(); }
      r = (m->type == 0 ? this_processor::waitablePost(makeMessage<MA>(id, v)) : m->type == 1 ? this_processor::waitablePost(makeMessage<MB>(id, v)) : this_processor::waitablePost(makeMessage<MC>(id, v))).valid();
      SimQuiet z;
      CHECK(m->handled || !r || w->emptyAt[m->type] >= m->postInv, "not-inline", "message %d was posted with waitablePost on the processor's own thread and is not handled when the call returns", id);
      closeMsg(*w);
      w->frames.pop_back();
    }
    else
      r = m->type == 0 ? p->post<MA>(id, v) : m->type == 1 ? p->post<MB>(MB{id, v}) : p->post(makeMessage<MC>(id, v));
    {
      SimQuiet z;
      w->touch();
      m->ret = r;
      m->postRet = sim_ev("posted", id, r, 0, 0);
      CHECK(r || w->emptyAt[m->type] >= m->postInv, "refused", "post of message %d returned false though a handler of type %d was connected all the time", id, m->type);
      CHECK(!r || w->someAt[m->type] >= m->postInv, "accepted-without-handler", "post of message %d returned true though no handler of type %d was connected", id, m->type);
      CHECK(r || !m->handled, "refused-but-handled", "post of message %d returned false but it was handled", id);
    }
    CHECK(p->post<Sentinel>(id), "refused", "a message with a connected handler was refused");
  };
  auto burst = [&] {
    for (int n = 1 + (int)sim_choose(3); n > 0 && ownLeft > 0; n--, ownLeft--) postOne(ownPoster, ++ownN);
  };
  auto invoked = [&](H *h, int id, const string &s) {
    bool mutate;
    {
      SimQuiet z;
      sim_ev("handle", h->id, id, 0, 0);
      if (w->procTid < 0) w->procTid = sim_tid();
      CHECK(w->procTid == sim_tid(), "wrong-thread", "a handler runs on T%d instead of T%d", sim_tid(), w->procTid);
      MsgRec *m = w->ms[id].get();
      CHECK(m->type == h->type, "wrong-type", "handler of type %d got message of type %d", h->type, m->type);
      CHECK(s == "v" + std::to_string(id), "wrong-value", "message %d arrived as '%s'", id, s.c_str());
      if (w->frames.back().msg != id) openMsg(*w, id);
      auto &f = w->frames.back();
      CHECK(std::find(m->got.begin(), m->got.end(), h->id) == m->got.end() || f.may.count(h->id), "invoked-twice", "handler %d was invoked twice for message %d", h->id, id);
      CHECK(f.must.count(h->id) || f.may.count(h->id), "not-connected", "handler %d was invoked for message %d though it is %s", h->id, id, h->on ? "connected later" : "not connected");
      f.must.erase(h->id);
      m->got.push_back(h->id);
      mutate = h->anyInHandler;
    }
    if (mutate && sim_choose(3) == 0) change(h->type);
    if (mutate && sim_choose(6) == 0) burst();
  };
  auto addHandler = [&](int type) {
    H *h;
    {
      SimQuiet z;
      w->hs.push_back(std::make_unique<H>());
      h = w->hs.back().get();
      h->type = type;
      h->id = (int)w->hs.size() - 1;
      h->anyInHandler = sim_choose(4) == 0;
      h->grouped = sim_choose(5) == 0;
      h->maybe = true;
    }
    MsgConnection c;
    if (type == 0) {
      SpecificMsgProcessingCallback<MA> f = [&, h](const MA &m) { invoked(h, m.id, m.s); };
      c = this_processor::instance() ? this_processor::connect<MA>(f) : p->connect<MA>(f);
    }
    else if (type == 1) c = p->connect<MB>([&, h](const MB &m) { invoked(h, m.id, m.s); });
    else c = p->connect(msgid<MC>(), [&, h](const Message &g) { auto &m = std::any_cast<const MC &>(g); invoked(h, m.id, m.s); });
    CHECK(c.connected(), "not-connected", "a new connection is not connected");
    if (h->grouped) grp->add(std::move(c)); else h->con = std::move(c);
    SimQuiet z;
    onOff(*w, h, true);
  };
  change = [&](int inHandlerType) {   // on the processor's thread
    int k = (int)sim_choose(8);
    auto pick = [&](bool on) -> H * {
      SimQuiet z;
      vector<H *> c;
      for (auto &h : w->hs) if (!h->grouped && !h->dead && h->on == on) c.push_back(h.get());
      return c.empty() ? nullptr : c[sim_choose(c.size())];
    };
    switch (k) {
      case 0: case 1: { bool few; { SimQuiet z; few = w->hs.size() < 10; } if (few) addHandler((int)sim_choose(3)); break; }
      case 2: case 3:
        if (H *h = pick(true)) {
          { SimQuiet z; h->sure = false; w->touch(); }
          h->con.disconnect();
          CHECK(!h->con.connected(), "still-connected", "handler %d is connected after disconnect", h->id);
          SimQuiet z; onOff(*w, h, false);
        }
        break;
      case 4: case 5:
        if (H *h = pick(false)) {
          { SimQuiet z; h->maybe = true; }
          h->con.reconnect();
          CHECK(h->con.connected(), "not-reconnected", "handler %d is not connected after reconnect", h->id);
          SimQuiet z; onOff(*w, h, true);
        }
        break;
      case 6: {
        int t = (int)sim_choose(3);
        bool open = t == inHandlerType;   // by type: from the next message on, judged outside of its own handlers only
        { SimQuiet z; for (auto &f : w->frames) open |= f.msg >= 0 && w->ms[f.msg]->type == t; }
        if (open) break;
        { SimQuiet z; for (auto &h : w->hs) if (h->type == t) h->sure = false; w->touch(); }
        if (t == 0) p->disconnect<MA>(); else if (t == 1) this_processor::disconnect<MB>(); else p->disconnect(msgid<MC>());
        SimQuiet z;
        for (auto &h : w->hs) if (h->type == t) { if (h->on) onOff(*w, h.get(), false); h->dead = true; }
        break;
      }
      case 7: {
        { SimQuiet z; for (auto &h : w->hs) if (h->grouped) h->sure = false; w->touch(); }
        if (sim_choose(2)) grp->disconnect(); else grp = std::make_unique<MsgConnectionGroup>();
        SimQuiet z;
        for (auto &h : w->hs) if (h->grouped && h->on) onOff(*w, h.get(), false);
        break;
      }
    }
    // only this thread changes the connections
    for (int t = 0; t < 3; t++) {
      bool any = false;
      { SimQuiet z; for (auto &h : w->hs) any |= h->type == t && h->on; }
      bool says = t == 0 ? p->connected<MA>() : t == 1 ? p->connected<MB>() : p->connected(msgid<MC>());
      CHECK(says == any, "connected", "connected() says %d for type %d, a handler is connected: %d", says, t, any);
    }
  };
  MsgConnection sen = p->connect<Sentinel>([&](const Sentinel &s) {
    SimQuiet z;
    closeMsg(*w);
    MsgRec *m = w->ms[s.id].get();
    w->touch();
    m->sentinelSeen = true;
    CHECK(m->handled || !m->ret || w->emptyAt[m->type] >= m->postInv, "lost-message", "message %d of type %d was posted (true), never handled, and a handler was connected all the time", s.id, m->type);
  });
  int n0 = (int)sim_choose(4);
  for (int i = 0; i < n0; i++) addHandler((int)sim_choose(3));
  ap.launch();
  int nt = 1 + (int)sim_choose(3);
  vector<std::thread> ths;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, t, n = 2 + (int)sim_choose(4)] {
      for (int k = 0; k < n; k++) {
        if (sim_choose(3) == 0) { p->executeAsync([&] { { SimQuiet z; closeMsg(*w); } change(-1); }); continue; }
        if (sim_choose(6) == 0) {
          { SimQuiet z; bursts++; }
          p->executeAsync([&] { { SimQuiet z; closeMsg(*w); } burst(); SimQuiet z; bursts--; });
          continue;
        }
        postOne(t, k + 1);
      }
    });
  joinAll(ths);
  bool ok = waitFor([&] { for (auto &m : w->ms) if (!m->sentinelSeen) return false; return bursts == 0; }, 60000 * MS);
  CHECK(ok, "lost-message", "a message with a handler connected all the time was not handled");
  ap.stopAndWait();
  SimQuiet z;
  closeMsg(*w);
}

// Connections change from any thread while messages are posted.
SIM_SCENARIO(c04_churn, 0, 0, 0) {
  struct Hd { uint64_t onRet = ~0ull, offInv = ~0ull, offRet = ~0ull; vector<int> got; };
  struct Ms { uint64_t inv = 0; bool ret = false; int poster = 0, n = 0; };
  struct W { vector<std::unique_ptr<Hd>> h; vector<std::unique_ptr<Ms>> m; int everOn = 0; } *w;
  std::unique_ptr<W> wp = std::make_unique<W>();
  w = wp.get();
  auto p = Processor::create();
  AsyncProcessor ap{p};
  std::map<int, std::map<int, int>> last;
  int procTid = -1, busy = 0;
  auto handler = [&](int h, const MA &m) {
    SimQuiet z;
    sim_ev("handle", h, m.id, 0, 0);
    CHECK(++busy == 1, "concurrent", "two handlers run at the same time");
    if (procTid < 0) procTid = sim_tid();
    CHECK(procTid == sim_tid(), "wrong-thread", "a handler does not run on the processor's thread");
    auto *H_ = w->h[h].get();
    for (int g : H_->got) CHECK(g != m.id, "handled-twice", "message %d was handed to handler %d twice", m.id, h);
    Ms *r = w->m[m.id].get();
    CHECK(m.s == "v" + std::to_string(m.id), "wrong-value", "message %d arrived as %s", m.id, m.s.c_str());
    CHECK(H_->offRet == ~0ull || r->inv < H_->offRet, "after-disconnect", "handler %d got message %d, which was posted after its disconnect had returned", h, m.id);
    int &l = last[h][r->poster];
    CHECK(r->n > l, "order", "handler %d: message %d of poster %d is handled after %d", h, r->n, r->poster, l);
    l = r->n;
    H_->got.push_back(m.id);
    busy--;
  };
  bool perm = sim_cfg(2);
  MsgConnection keep;
  auto newH = [&]() { SimQuiet z; w->h.push_back(std::make_unique<Hd>()); return (int)w->h.size() - 1; };
  if (perm) {
    int h = newH();
    keep = p->connect<MA>([&, h](const MA &m) { handler(h, m); });
    SimQuiet z; w->h[h]->onRet = sim_ev("on", h, 0, 0, 0);
  }
  ap.launch();
  vector<std::thread> ths;
  int np = 1 + (int)sim_choose(2), nc = 1 + (int)sim_choose(2);
  for (int t = 0; t < np; t++)
    ths.emplace_back([&, t, n = 1 + (int)sim_choose(5)] {
      for (int k = 0; k < n; k++) {
        Ms *m; int id; bool none;
        {
          SimQuiet z;
          w->m.push_back(std::make_unique<Ms>());
          m = w->m.back().get(); id = (int)w->m.size() - 1;
          m->poster = t; m->n = k + 1;
          m->inv = sim_ev("post", id, 0, 0, 0);
        }
        bool r = p->post<MA>(id, "v" + std::to_string(id));
        SimQuiet z;
        uint64_t s = sim_ev("posted", id, r, 0, 0);
        (void)s; (void)none;
        m->ret = r;
        bool through = false;
        for (auto &h : w->h) through |= h->onRet < m->inv && h->offInv == ~0ull;
        CHECK(r || !through, "refused", "post returned false though a handler was connected all the time");
        if (w->h.empty()) CHECK(!r, "accepted-without-handler", "post returned true though no handler was ever connected");
      }
    });
  for (int t = 0; t < nc; t++)
    ths.emplace_back([&, n = 1 + (int)sim_choose(4)] {
      for (int k = 0; k < n; k++) {
        int h = newH();
        auto c = p->connect<MA>([&, h](const MA &m) { handler(h, m); });
        { SimQuiet z; w->h[h]->onRet = sim_ev("on", h, 0, 0, 0); }
        if (sim_choose(2)) sim_sleep(sim_choose(3) * MS);
        else sim_yield();
        if (sim_choose(4)) {
          { SimQuiet z; w->h[h]->offInv = sim_ev("off-inv", h, 0, 0, 0); }
          c.disconnect();
          SimQuiet z; w->h[h]->offRet = sim_ev("off", h, 0, 0, 0);
        }
        // else: the handle is dropped, the handler stays connected
      }
    });
  joinAll(ths);
  Flag drained;
  p->executeAsync([&] { drained.set(); });
  CHECK(drained.wait(60000 * MS), "stuck", "the processor does not get through its messages");
  // without any handler nothing is accepted
  {
    SimQuiet z;
    for (auto &m : w->m)
      for (size_t h = 0; h < w->h.size(); h++)
        if (m->ret && w->h[h]->onRet < m->inv && w->h[h]->offInv == ~0ull)
          CHECK(std::count(w->h[h]->got.begin(), w->h[h]->got.end(), int(&m - &w->m[0])) == 1, "missed-handler", "message %d was not handed to handler %zu, which was connected all the time", int(&m - &w->m[0]), h);
  }
  p->disconnect<MA>();
  CHECK(!p->post<MA>(0, "x") && !p->waitablePost<MA>(0, "x").valid(), "accepted-without-handler", "post returned true after all handlers were disconnected");
  ap.stopAndWait();
}

// What handlers own may use the processor while it is destroyed
namespace {
struct Haunted {
  Processor *p;
  std::atomic<int> alive{0};
  std::atomic<bool> over{false};
};
GhostPtr haunt(Haunted &h, int depth) {
  int what = (int)sim_choose(7);
  h.alive++;
  return std::make_shared<Ghost>([&h, what, depth] {
    h.alive--;
    if (h.over) return;
    switch (what) {
      case 0: h.p->post<MA>(1, "a"); break;
      case 1: h.p->post<MB>(1, "b"); break;
      case 2: h.p->connected<MA>(); break;
      case 3: if (depth) h.p->connect<MB>([g = haunt(h, depth - 1)](const MB &) {}); break;
      case 4: h.p->disconnect<MB>(); break;
      case 5: h.p->waitablePost<MB>(2, "b"); break;
      case 6: break;
    }
  });
}
}  // namespace
SIM_SCENARIO(c04_ghosts, 0, 0, 0) {
  auto hp = std::make_unique<Haunted>();
  Haunted &h = *hp;
  AsyncProcessor ap{Processor::create("")};
  auto p = ap.instance();
  h.p = p.get();
  ap.launch();
  vector<std::thread> ths;
  std::atomic<int> done{0};
  int nt = 1 + (int)sim_choose(2);
  auto work = [&] {
    vector<MsgConnection> mine;
    for (int i = 0, k = 2 + (int)sim_choose(6); i < k; i++)
      switch (sim_choose(7)) {
        case 0: case 1: { auto c = p->connect<MA>([g = haunt(h, 2)](const MA &) { sim_yield(); }); mine.push_back(std::move(c)); break; }
        case 2: { auto c = p->connect<MB>([g = haunt(h, 2)](const MB &) {}); mine.push_back(std::move(c)); break; }
        case 3: p->disconnect<MA>(); break;
        case 4: if (!mine.empty()) { size_t x = sim_choose(mine.size()); mine[x].disconnect(); if (sim_choose(2)) mine.erase(mine.begin() + (long)x); } break;
        case 5: p->post<MA>(i, "x"); break;
        case 6: p->post<MB>(i, "y"); break;
      }
    { SimQuiet z; sim_ev("through", 0, 0, 0, 0); }
    mine.clear();
    done++;
  };
  for (int t = 0; t < nt; t++) ths.emplace_back(work);
  if (sim_choose(2)) { nt++; p->executeAsync(work); }
  CHECK(waitFor([&] { return done.load() == nt; }, 60000 * MS), "stuck", "connecting and disconnecting handlers does not end");
  joinAll(ths);
  p->disconnect<MA>();
  p->disconnect<MB>();
  ap.stopAndWait();
  h.over = true;
}

// many handlers, many messages
SIM_SCENARIO(c04_many, 0, 0, 0) {
  auto p = Processor::create();
  AsyncProcessor ap{p};
  int nh = 1 + (int)sim_choose(24), nm = 1 + (int)sim_choose(24);
  auto got = std::make_unique<vector<int>>(24);
  int *g = got->data();
  vector<MsgConnection> cs(nh);
  for (int h = 0; h < nh; h++)
    cs[h] = p->connect<MA>([g, h](const MA &m) { SimQuiet z; CHECK(m.id == g[h], "order", "handler %d gets message %d when %d is due", h, m.id, g[h]); g[h]++; });
  ap.launch();
  for (int i = 0; i < nm; i++) CHECK(p->post<MA>(i, "m"), "refused", "a message with handlers was refused");
  p->waitableExecute([] {}).wait();
  for (int h = 0; h < nh; h++) CHECK(g[h] == nm, "missed-handler", "handler %d of %d got %d of %d messages", h, nh, g[h], nm);
  vector<char> off(nh);
  p->waitableExecute([&] { for (int h = 0; h < nh; h++) if (sim_choose(2)) { off[h] = 1; cs[h].disconnect(); } }).wait();
  bool r = p->post<MA>(nm, "m");
  CHECK(r == (std::count(off.begin(), off.end(), 0) > 0), "refused", "post says %d with %d handlers", r, (int)std::count(off.begin(), off.end(), 0));
  p->waitableExecute([] {}).wait();
  for (int h = 0; h < nh; h++) CHECK(g[h] == nm + !off[h], off[h] ? "not-connected" : "missed-handler", "handler %d of %d got %d messages", h, nh, g[h]);
  ap.stopAndWait();
}
