// C13: blocking queue and lockable containers.
#include <maf/threading/AtomicObject.h>
#include <maf/threading/Lockable.h>
#include <maf/threading/Locker.h>
#include <maf/threading/Queue.h>

#include "lin.h"
using namespace maf;

namespace {
enum Op { PUSH, PUSHSEQ, TRYPOP, WAITMS, WAIT, WAITUNTIL, SIZE, EMPTY, CLOSE, REOPEN, CLEAR, CLEARCB, NOPS };
const char *opn[] = {"push", "pushseq", "tryPop", "waitFor", "wait", "waitUntil", "size", "empty", "close", "reOpen", "clear", "clearcb"};
struct QState {
  vector<int> q;
  bool closed = false;
  bool operator<(const QState &o) const { return std::tie(q, closed) < std::tie(o.q, o.closed); }
};
struct Less {
  bool operator()(int a, int b) const { return std::make_pair(a % 100, a) < std::make_pair(b % 100, b); }
};
template <bool PRIO>
bool qstep(QState &s, const LinOp &o) {
  auto ins = [&](int v) {
    s.q.push_back(v);
    if (PRIO) std::sort(s.q.begin(), s.q.end(), [](int a, int b) { return Less()(b, a); });
  };
  switch (o.kind) {
    case PUSH:
      if (o.res.size() != 1 || o.res[0] == (int64_t)s.closed) return false;   // push tells whether it was accepted
      if (!s.closed) ins((int)o.arg);
      return true;
    case PUSHSEQ:
      if (!s.closed) { ins((int)o.arg); ins((int)o.arg + 1); }
      return true;
    case TRYPOP: case WAITMS: case WAIT: case WAITUNTIL:
      if (o.res.empty()) return o.kind == WAIT ? s.closed : (s.closed || s.q.empty());
      if (s.closed || s.q.empty() || s.q.front() != o.res[0]) return false;
      s.q.erase(s.q.begin());
      return true;
    case SIZE: return (int64_t)s.q.size() == o.res[0];
    case EMPTY: return (int64_t)s.q.empty() == o.res[0];
    case CLOSE: s.closed = true; return true;
    case REOPEN: s.closed = false; return true;
    case CLEAR: s.q.clear(); return true;
    case CLEARCB: {
      if (o.res.size() != s.q.size()) return false;
      for (size_t i = 0; i < s.q.size(); i++) if (s.q[i] != o.res[i]) return false;
      s.q.clear();
      return true;
    }
  }
  return false;
}
template <class Q, bool PRIO>
void queueScenario() {
  Q q;
  int nt = 2 + (int)sim_choose(3);
  int flavour = (int)sim_cfg(4);   // 0 all ops, 1 producers/consumers, 2 with close/reopen, 3 waits and close
  vector<LinOp> ops;
  vector<std::thread> ths;
  vector<int> waiting(8, 0);
  std::atomic<int> closes{0};
  int next = 1;
  auto doOp = [&](int t, int kind) {
    LinOp o;
    { SimQuiet z; o.thread = t; o.kind = kind; o.arg = 0; o.inv = 0; o.ret = ~0ull; }
    int val = 0;
    {
      SimQuiet z;
      if (kind == PUSH) { val = next++; val = (int)sim_choose(90) + 100 * val; }
      else if (kind == PUSHSEQ) { next += 2; val = 100 * (next - 2) + (int)sim_choose(90); }
      o.arg = val;
      o.inv = sim_ev("inv", t, kind, val, 0);
    }
    uint64_t t0 = sim_now();
    uint64_t to = 0;
    int v = -1;
    bool got = false;
    vector<int64_t> res;
    switch (kind) {
      case PUSH: { const int c = val; bool in = val & 1 ? q.push(int(val)) : q.push(c); SimQuiet z; res = {in}; break; }
      case PUSHSEQ: { vector<int> sq; { SimQuiet z; sq = {val, val + 1}; } q.push(sq); SimQuiet z; vector<int>().swap(sq); break; }
      case TRYPOP: got = q.tryPop(v); break;
      case WAITMS: to = 1 + sim_choose(20); got = q.waitFor(v, (long long)to); to *= MS; break;
      case WAITUNTIL: to = 1 + sim_choose(20); got = q.waitUntil(v, std::chrono::steady_clock::now() + std::chrono::milliseconds(to)); to *= MS; break;
      case WAIT: waiting[t] = 1; got = q.wait(v); waiting[t] = 0; break;
      case SIZE: { auto n = (int64_t)q.size(); SimQuiet z; res = {n}; } break;
      case EMPTY: { auto n = (int64_t)q.empty(); SimQuiet z; res = {n}; } break;
      case CLOSE: closes++; q.close(); break;
      case REOPEN: q.reOpen(); break;
      case CLEAR: q.clear(); break;
      case CLEARCB: q.clear([&](int &x) { SimQuiet z; res.push_back(x); }); break;
    }
    SimQuiet z;
    if (got) res = {(int64_t)v};
    o.res = res;
    vector<int64_t>().swap(res);
    o.ret = sim_ev("ret", t, kind, got ? v : (o.res.empty() ? -1 : o.res[0]), 0);
    if ((kind == WAITMS || kind == WAITUNTIL) && !got && closes.load() == 0 && sim_now() - t0 < to)
      sim_fail("early-timeout", "%s of %llu ms gave up after %llu us on a queue nobody closed", opn[kind],
               (unsigned long long)(to / MS), (unsigned long long)((sim_now() - t0) / 1000));
    ops.push_back(o);
  };
  auto pick = [&](int t) -> int {
    switch (flavour) {
      case 0: return (int)sim_choose(NOPS);
      case 1: { static const int a[] = {PUSH, WAIT, TRYPOP, WAITMS, PUSHSEQ, PUSH, SIZE}; return (t & 1) ? a[sim_choose(2) ? 1 : 2 + sim_choose(2)] : a[(sim_choose(2)) ? 4 : 0]; }
      case 2: { static const int a[] = {PUSH, CLOSE, REOPEN, TRYPOP, WAITMS, CLEAR, CLEARCB, WAIT}; return a[sim_choose(8)]; }
      default: { static const int a[] = {WAIT, CLOSE, PUSH, WAITUNTIL, CLEAR}; return a[sim_choose(5)]; }
    }
  };
  for (int t = 0; t < nt; t++) {
    int n = 1 + (int)sim_choose(4);
    ths.emplace_back([&, t, n] {
      for (int i = 0; i < n; i++) doOp(t, pick(t));
    });
  }
  // progress: nobody may stay blocked in wait() on an open queue with items, or on a closed one
  for (int round = 0; round < 100; round++) {
    sim_settle(100 * MS);
    bool any = false;
    {
      SimQuiet z;
      for (int t = 0; t < nt; t++) any |= waiting[t];
    }
    if (!any) break;
    bool closed = q.isClosed();
    size_t n = q.size();
    if (closed || n) {
      sim_fail("stranded-waiter", "a consumer stays blocked in wait() although the queue %s", closed ? "is closed" : "has an item");
    }
    doOp(7, CLOSE);
    sim_settle(100 * MS);
    doOp(7, REOPEN);
  }
  joinAll(ths);
  doOp(7, SIZE);
  doOp(7, CLEARCB);
  SimQuiet z;
  if (!linearizable<QState>(ops, QState{}, qstep<PRIO>)) {
    string d;
    std::sort(ops.begin(), ops.end(), [](auto &a, auto &b) { return a.inv < b.inv; });
    for (auto &o : ops) {
      d += "  T" + std::to_string(o.thread) + " [" + std::to_string(o.inv) + "," + std::to_string(o.ret) + "] " + opn[o.kind] + "(" + std::to_string(o.arg) + ") ->";
      for (auto r : o.res) d += " " + std::to_string(r);
      d += "\n";
    }
    sim_fail("not-linearizable", "no sequential order of the queue explains:\n%s", d.c_str());
  }
}
}  // namespace

SIM_SCENARIO(c13_fifo_lin, 0, 0, 0) { queueScenario<threading::Queue<int>, false>(); }
SIM_SCENARIO(c13_prio_lin, 0, 0, 0) { queueScenario<threading::PriorityQueue<int, Less>, true>(); }

// producers and consumers over many items: conservation and per producer order
SIM_SCENARIO(c13_conserve, SIM_F_TIMESKEW, 0, 0) {
  threading::Queue<int> q;
  int np = 1 + (int)sim_choose(2), nc = 1 + (int)sim_choose(3), n = 1 + (int)sim_choose(6);
  vector<std::thread> pr, co;
  vector<vector<int>> got(nc);
  int how = (int)sim_cfg(3);
  for (int c = 0; c < nc; c++)
    co.emplace_back([&, c] {
      int v;
      for (;;) {
        bool ok = how == 0 ? q.wait(v) : how == 1 ? q.waitFor(v, 5ll) : q.waitUntil(v, std::chrono::system_clock::now() + 5ms);
        if (!ok && (how == 0 || q.isClosed())) break;
        if (!ok) continue;
        SimQuiet z;
        ev("pop", c, v);
        got[c].push_back(v);
      }
    });
  for (int p = 0; p < np; p++)
    pr.emplace_back([&, p] {
      for (int i = 0; i < n; i++) {
        ev("push", p, i);
        q.push(p * 100 + i);
        if (sim_choose(4) == 0) sim_sleep(sim_choose(8) * MS);
      }
    });
  joinAll(pr);
  auto left = [&] { size_t s = 0; for (auto &g : got) s += g.size(); return s; };
  bool ok = waitFor([&] { return left() == (size_t)(np * n); }, 10000 * MS);
  CHECK(ok, "stranded-item", "%zu of %d items were consumed although consumers kept waiting", left(), np * n);
  q.close();
  joinAll(co);
  SimQuiet z;
  std::set<int> all;
  for (auto &g : got) {
    std::map<int, int> last;
    for (int v : g) {
      CHECK(all.insert(v).second, "duplicate", "item %d was popped twice", v);
      auto it = last.find(v / 100);
      CHECK(it == last.end() || it->second < v, "order", "one consumer got item %d of a producer after item %d", v, it->second);
      last[v / 100] = v;
    }
  }
}

// critical sections exclude each other
SIM_SCENARIO(c13_lockable, 0, 0, 0) {
  struct Pair { int a = 0, b = 0; };
  threading::Lockable<Pair> lk;
  threading::AtomicObject<Pair> ao;
  threading::AtomicObject<std::shared_ptr<Pair>, std::recursive_mutex> ap{std::make_shared<Pair>()};
  threading::Lockable<vector<int>, std::recursive_mutex> lv;
  auto look = [&](const Pair &p, const char *w) {
    CHECK(p.a == p.b, "torn", "%s: a critical section saw a half-made change (%d,%d)", w, p.a, p.b);
  };
  // whole values assigned from anywhere, each one consistent
  threading::Lockable<Pair> la;
  threading::AtomicObject<Pair> aa;
  vector<char> assigned(100, 0);
  auto okay = [&](const Pair &p, const char *w) {
    look(p, w);
    SimQuiet z;
    CHECK(p.a == 0 || (p.a > 0 && p.a < 100 && assigned[p.a]), "made-up", "%s: holds %d, which nobody has assigned", w, p.a);
  };
  threading::Locker<> lo;
  Pair plain;
  int nt = 2 + (int)sim_choose(2), n = 1 + (int)sim_choose(4);
  vector<std::thread> ths;
  std::atomic<int> c[5] = {};
  auto bump = [&](Pair &p, const char *w) {
    look(p, w);
    p.a++;
    sim_yield();
    p.b++;
  };
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, t] {
      for (int i = 0; i < n; i++) {
        int k = (int)sim_choose(12);
        switch (k) {
          case 0: { auto r = lk.atomic(); bump(*r, "Lockable::atomic"); c[0]++; break; }
          case 1: { std::lock_guard g(lk); bump(*lk, "lock_guard(Lockable)"); c[0]++; break; }
          case 2: { auto r = ao.atomic(); auto r2 = std::move(r); bump(*r2.operator->(), "AtomicObject::atomic moved"); c[1]++; break; }
          case 3: { auto r = *ao; bump(*r.operator->(), "*AtomicObject"); c[1]++; break; }
          case 4: { auto r = ap.atomic(); bump(*r, "AtomicObject of pointer"); c[2]++; break; }
          case 5: { lv.atomic()->push_back(t * 100 + i); c[3]++; break; }
          case 6: { auto l = lo(plain); bump(*l, "Locker"); c[4]++; break; }
          case 8: { int v = 1 + t * 20 + i; { SimQuiet z; assigned[v] = 1; } la = Pair{v, v}; break; }
          case 9: { int v = 1 + t * 20 + i; { SimQuiet z; assigned[v] = 1; } aa = Pair{v, v}; break; }
          case 10: { auto r = la.atomic(); okay(*r, "assigned Lockable"); Pair was = *r; sim_yield(); CHECK(was.a == r->a && was.b == r->b, "torn", "a Lockable was assigned to during a critical section"); break; }
          case 11: { auto r = aa.atomic(); okay(*r.operator->(), "assigned AtomicObject"); Pair was = *r.operator->(); sim_yield(); CHECK(was.a == r->a && was.b == r->b, "torn", "an AtomicObject was assigned to during a critical section"); break; }
          case 7: { const auto &cl = lk; auto r = cl.atomic(); look(*r, "const Lockable::atomic"); break; }
        }
        ev("cs", t, k);
      }
    });
  joinAll(ths);
  {
    if (sim_choose(2)) { la = Pair{7, 7}; CHECK(la->a == 7 && la->b == 7, "lost-update", "a value assigned to a Lockable is not there"); }
    if (sim_choose(2)) { aa = Pair{8, 8}; auto r = aa.atomic(); CHECK(r->a == 8 && r->b == 8, "lost-update", "a value assigned to an AtomicObject is not there"); }
  }
  CHECK(lk->a == c[0] && lk->b == c[0], "lost-update", "Lockable: %d increments, %d/%d seen", c[0].load(), lk->a, lk->b);
  { auto r = ao.atomic(); CHECK(r->a == c[1] && r->b == c[1], "lost-update", "AtomicObject: %d increments, %d/%d seen", c[1].load(), r->a, r->b); }
  { auto r = ap.atomic(); CHECK(r->a == c[2] && r->b == c[2], "lost-update", "AtomicObject of pointer: %d increments, %d seen", c[2].load(), r->a); }
  CHECK((int)lv->size() == c[3], "lost-update", "Lockable vector: %d pushes, %zu kept", c[3].load(), lv->size());
  CHECK(plain.a == c[4] && plain.b == c[4], "lost-update", "Locker: %d increments, %d seen", c[4].load(), plain.a);
}

// What is in a queue may use it, or a lock held by those who do, while it is destroyed
SIM_SCENARIO(c13_ghosts, SIM_F_TIMESKEW, 0, 0) {
  struct W {
    std::recursive_mutex m;
    threading::Queue<GhostPtr> q;
    std::atomic<int> alive{0};
    std::atomic<bool> over{false};
  };
  auto wp = std::make_unique<W>();
  W &w = *wp;
  std::function<GhostPtr(int)> haunt = [&](int depth) {
    int what = (int)sim_choose(6);
    w.alive++;
    return std::make_shared<Ghost>([&, what, depth] {
      w.alive--;
      if (w.over) return;
      switch (what) {
        case 0: w.q.size(); break;
        case 1: if (depth) w.q.push(haunt(depth - 1)); break;
        case 2: { std::lock_guard l(w.m); sim_yield(); break; }
        case 3: w.q.empty(); break;
        case 4: if (depth) { GhostPtr g; w.q.tryPop(g); } break;
        case 5: if (sim_choose(3) == 0) w.q.close(); break;
      }
    });
  };
  vector<std::thread> ths;
  for (int t = 0, n = 1 + (int)sim_choose(2); t < n; t++)
    ths.emplace_back([&] {
      for (int i = 0, k = 1 + (int)sim_choose(6); i < k; i++) {
        std::unique_lock l(w.m, std::defer_lock);
        if (sim_choose(2)) l.lock();
        auto g = haunt(2);
        if (sim_choose(2)) w.q.push(g); else w.q.push(std::move(g));
        if (sim_choose(5) == 0) w.q.clear();
        if (sim_choose(8) == 0) w.q.clear([](GhostPtr &) { sim_yield(); });
      }
    });
  for (int t = 0, n = 1 + (int)sim_choose(2); t < n; t++)
    ths.emplace_back([&] {
      GhostPtr g;
      while (!w.q.isClosed()) {
        switch (sim_choose(4)) {
          case 0: w.q.wait(g); break;
          case 1: w.q.waitFor(g, 1ll + (long long)sim_choose(3)); break;
          case 2: w.q.waitUntil(g, std::chrono::system_clock::now() + std::chrono::milliseconds(1 + sim_choose(2))); break;
          case 3: w.q.tryPop(g); sim_sleep(1 * MS); break;
        }
      }
    });
  sim_sleep((1 + sim_choose(20)) * MS);
  w.q.close();
  joinAll(ths);
  w.q.clear();
  w.over = true;
  CHECK(w.alive == 0, "leaked-item", "%d items are still alive after the queue was cleared", w.alive.load());
}

// long queues
SIM_SCENARIO(c13_many, 0, 0, 0) {
  threading::Queue<int> q;
  int n = 0;
  for (int k = 0; k < 4; k++) {
    if (sim_choose(2)) {
      vector<int> seq;
      for (int i = (int)sim_choose(40); i > 0; i--) seq.push_back(n++);
      q.push(seq);
    } else
      for (int i = (int)sim_choose(40); i > 0; i--) { int v = n++; if (sim_choose(2)) q.push(v); else q.push(std::move(v)); }
  }
  CHECK((int)q.size() == n, "size", "a queue of %d items says %zu", n, q.size());
  std::atomic<int> sum{0}, cnt{0};
  vector<std::thread> ths;
  int nt = 1 + (int)sim_choose(2);
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&] {
      int last = -1, v;
      while (q.wait(v)) { CHECK(v > last, "order", "%d is taken after %d", v, last); last = v; sum += v; if (++cnt == n) q.close(); }
    });
  if (!n) q.close();
  joinAll(ths);
  CHECK(cnt == n && sum == n * (n - 1) / 2, "conservation", "%d of %d items were taken", cnt.load(), n);
}
