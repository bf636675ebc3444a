// C11: observables deliver the latest state and never an older one last.
#include "common.h"

#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/utils/Observable.h>
using namespace maf::messaging;
namespace ss = maf::signal_slots;

namespace {
// value number n of a source, as the state type of the observable
template <class T> T mk(int n);
template <> int mk<int>(int n) { return n; }
template <> string mk<string>(int n) { return "value number " + std::to_string(n) + " of this observable"; }
template <> vector<int> mk<vector<int>>(int n) { return vector<int>(3, n); }
int num(int v) { return v; }
int num(const string &s) {
  if (s.empty()) return 0;
  int n = -1;
  char tail[32] = {};
  if (sscanf(s.c_str(), "value number %d of this %31s", &n, tail) != 2 || s != mk<string>(n)) return -1;
  return n;
}
int num(const vector<int> &v) {
  if (v.empty()) return 0;
  return v == mk<vector<int>>(v[0]) ? v[0] : -1;
}
struct Op { int val; uint64_t inv, ret = ~0ull; bool mayEqual; };     // a change
struct Rd { int val; uint64_t inv, ret; };                             // a get
struct Ob {
  int id;
  uint64_t conInv = 0, conRet = ~0ull, disInv = ~0ull, disRet = ~0ull;
  vector<int> seen;
  bool delayed = false;   // through an executor
};
struct World {
  vector<Op> ops;
  vector<Rd> rds;
  vector<std::unique_ptr<Ob>> obs;
  int next = 1;
  size_t beginOp(int v, bool mayEqual) { ops.push_back({v, sim_ev("set", v, 0, 0, 0), ~0ull, mayEqual}); return ops.size() - 1; }
  void endOp(size_t i) { ops[i].ret = sim_ev("set-done", ops[i].val, 0, 0, 0); }
  Ob *add(bool delayed) {
    SimQuiet z;
    obs.push_back(std::make_unique<Ob>());
    obs.back()->id = (int)obs.size() - 1;
    obs.back()->delayed = delayed;
    return obs.back().get();
  }
  void saw(Ob *o, int v) {
    SimQuiet z;
    sim_ev("saw", o->id, v, 0, 0);
    CHECK(v >= 0, "torn-value", "observer %d was given a value that was never set", o->id);
    bool known = v == 0;
    for (auto &p : ops) known |= p.val == v;
    CHECK(known, "torn-value", "observer %d was given value %d, which nobody has set", o->id, v);
    if (!o->delayed) CHECK(o->disRet == ~0ull, "after-disconnect", "observer %d was given value %d after its disconnect had returned", o->id, v);
    o->seen.push_back(v);
  }
  // The observer connected all the time saw the sequence of the states.
  void verify(Ob *wit, int finalVal) {
    SimQuiet z;
    vector<int> seq = wit->seen;   // starts with the initial value
    CHECK(!seq.empty() && seq[0] == 0, "not-told", "an observer was not told the value when it connected");
    std::map<int, vector<int>> at;
    for (size_t i = 0; i < seq.size(); i++) {
      at[seq[i]].push_back((int)i);
      CHECK(!i || seq[i] != seq[i - 1], "told-equal", "value %d was announced twice in a row", seq[i]);
    }
    CHECK(seq.back() == finalVal, "stale-last", "the last value announced was %d, the current one is %d", seq.back(), finalVal);
    // each change of a value only one operation sets
    std::map<int, int> cnt;
    for (auto &o : ops) cnt[o.val]++;
    for (auto &o : ops)
      if (cnt[o.val] == 1) CHECK(at[o.val].size() == 1, "not-announced", "the change to %d was announced %zu times", o.val, at[o.val].size());
    for (auto &a : at)
      CHECK(a.first == 0 || (int)a.second.size() <= cnt[a.first], "announced-twice", "value %d was announced %zu times but set %d times", a.first, a.second.size(), cnt[a.first]);
    auto idx = [&](int v) { return at[v].size() == 1 ? at[v][0] : -1; };
    for (auto &a : ops)
      for (auto &b : ops)
        if (cnt[a.val] == 1 && cnt[b.val] == 1 && a.ret < b.inv) CHECK(idx(a.val) < idx(b.val), "order", "value %d was announced before %d though it was set after it", b.val, a.val);
    for (auto &r : rds) {
      CHECK(r.val >= 0 && (at.count(r.val)), "torn-value", "get returned %d, which was never announced", r.val);
      bool ok = false;
      for (int i : at[r.val]) {
        bool lo = true, hi = r.val == 0;
        for (auto &o : ops) {
          if (o.ret < r.inv && cnt[o.val] == 1 && idx(o.val) > i) lo = false;
          if (o.val == r.val && o.inv < r.ret) hi = true;
        }
        ok |= lo && hi;
      }
      CHECK(ok, "stale-get", "get returned %d, which was no longer or not yet the value", r.val);
    }
    for (auto &up : obs) {
      Ob *o = up.get();
      if (o == wit) continue;
      // find the place in the sequence; values may be repeated once around the connect
      auto fits = [&](size_t start) {
        size_t i = start; int dup = 0;
        for (size_t k = 0; k < o->seen.size(); k++) {
          if (k && i < seq.size() && o->seen[k] == seq[i - 1] && (i >= seq.size() || o->seen[k] != seq[i])) { if (++dup > 1) return false; continue; }
          if (i >= seq.size()) { if (k && o->seen[k] == seq[i - 1] && ++dup <= 1) continue; return false; }
          if (o->seen[k] != seq[i]) return false;
          i++;
        }
        // [start, i) was seen
        for (auto &p : ops) {
          if (cnt[p.val] != 1) continue;
          int x = idx(p.val);
          if (p.ret < o->conInv && x > (int)start) return false;                            // told an older value
          if (p.inv > o->conRet && p.ret < o->disInv && !(x >= (int)start && x < (int)i)) return false;  // missed a change
        }
        if (o->disInv == ~0ull && i != seq.size()) return false;
        return true;
      };
      bool ok = o->seen.empty() && o->disRet != ~0ull;
      for (size_t s = 0; s < seq.size() && !ok; s++) ok = fits(s);
      if (!ok) {
        string a, b;
        for (int v : o->seen) a += std::to_string(v) + " ";
        for (int v : seq) b += std::to_string(v) + " ";
        sim_fail("wrong-values", "observer %d saw [%s], the sequence of values was [%s]", o->id, a.c_str(), b.c_str());
      }
    }
  }
};

template <class O, class T>
void churn(O &o, bool single) {
  auto w = std::make_unique<World>();
  std::unique_ptr<AsyncProcessor> ap;
  bool useEx = !single && sim_cfg(2);
  if (useEx) { ap = std::make_unique<AsyncProcessor>(Processor::create()); ap->launch(); }
  Ob *wit = w->add(false);
  auto wc = o.connect([&, wit](const T &v) { w->saw(wit, num(v)); });
  auto reader = [&] {
    Rd r;
    { SimQuiet z; r.inv = sim_ev("get", 0, 0, 0, 0); }
    if (sim_choose(2)) r.val = num(o.get());
    else { auto c = o.immutable(); r.val = num(*c); }
    SimQuiet z;
    r.ret = sim_ev("got", r.val, 0, 0, 0);
    w->rds.push_back(r);
  };
  int nt = 1 + (int)sim_choose(3);
  vector<std::thread> ths;
  vector<ss::Connection> keep;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&] {
      int n = 1 + (int)sim_choose(4);
      std::map<Ob *, ss::Connection> mine;
      for (int k = 0; k < n; k++) switch (sim_choose(8)) {
          case 0: case 1: case 2: {
            int v; size_t op; int how = (int)sim_choose(4); bool eq = false;
            {
              SimQuiet z;
              if (w->next > 1 && sim_choose(5) == 0) v = 1 + (int)sim_choose(w->next - 1), eq = true; else v = w->next++;
              op = w->beginOp(v, eq);
            }
            if (how == 0) o.set(mk<T>(v));
            else if (how == 1) o = mk<T>(v);
            else if (how == 2) *o.mutable_() = mk<T>(v);
            else { auto r = o.mutable_(); *r = mk<T>(v); sim_yield(); CHECK(num(*r) == v, "not-exclusive", "the value changed under a reference that holds the observable"); }
            SimQuiet z; w->endOp(op);
            break;
          }
          case 3: reader(); break;
          case 4: case 5: {
            if (single) { reader(); break; }
            bool ex = useEx && sim_choose(2);
            Ob *b = w->add(ex);
            { SimQuiet z; b->conInv = sim_ev("connect", b->id, ex, 0, 0); }
            auto f = [w = w.get(), b](const T &v) { w->saw(b, num(v)); };
            auto c = ex ? o.connect(f, (*ap)->getAsyncExecutor()) : o.connect(f);
            { SimQuiet z; b->conRet = sim_ev("connected", b->id, 0, 0, 0); }
            if (!ex) { SimQuiet z; CHECK(!b->seen.empty(), "not-told", "observer %d was not told the value when it connected", b->id); }
            mine[b] = std::move(c);
            break;
          }
          case 6:
            if (!mine.empty()) {
              auto it = mine.begin();
              { SimQuiet z; it->first->disInv = sim_ev("disconnect", it->first->id, 0, 0, 0); }
              it->second.disconnect();
              { SimQuiet z; it->first->disRet = sim_ev("disconnected", it->first->id, 0, 0, 0); }
              mine.erase(it);
            }
            break;
          case 7: sim_yield(); break;
        }
    });
  joinAll(ths);
  if (ap) { Flag f; (*ap)->executeAsync([&] { f.set(); }); CHECK(f.wait(60000 * MS), "stuck", "the executor does not get through"); ap->stopAndWait(); }
  w->verify(wit, num(o.get()));
  wc.disconnect();
}
}  // namespace

SIM_SCENARIO(c11_values, 0, 0, 0) {
  switch (sim_cfg(6)) {
    case 0: { ss::Observable<int> o{0}; churn<decltype(o), int>(o, false); break; }
    case 1: { ss::Observable<string> o; churn<decltype(o), string>(o, false); break; }
    case 2: { ss::Observable<vector<int>> o; churn<decltype(o), vector<int>>(o, false); break; }
    case 3: { ss::SCObservable<string> o; churn<decltype(o), string>(o, true); break; }
    case 4: { std::recursive_mutex m; ss::SharedMutexObservable<string> o{m}; churn<decltype(o), string>(o, false); break; }
    default: { std::recursive_mutex m; ss::SharedMutexSCObservable<int> o{m}; churn<decltype(o), int>(o, true); break; }
  }
}

// read-modify-write through references: no update is lost, each step is announced
SIM_SCENARIO(c11_rmw, 0, 0, 0) {
  ss::Observable<int, string> o{0, ""};
  vector<int> seen; vector<string> seenS;
  auto c = o.connect([&](const int &v, const string &s) { SimQuiet z; ev("saw", v, (int64_t)s.size()); seen.push_back(v); seenS.push_back(s); });
  int nt = 2 + (int)sim_choose(2), steps = 0, letters = 0;
  vector<std::thread> ths;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, t] {
      int n = 1 + (int)sim_choose(3);
      for (int k = 0; k < n; k++) switch (sim_choose(5)) {
          case 0: { { SimQuiet z; steps++; } ++*o.mutable_<0>(); break; }
          case 1: { { SimQuiet z; steps++; } auto r = o.mutable_<0>(); int x = *r; sim_yield(); *r = x + 1; break; }
          case 2: { { SimQuiet z; letters++; } auto r = o.mutable_<1>(); r->push_back('a' + t); break; }
          case 3: { { SimQuiet z; letters++; steps++; } auto r = o.mutable_(); auto x = r.template get<0>(); r.template get<1>().push_back('a' + t); sim_yield(); r.template get<0>() = x + 1; break; }
          case 4: { auto s = o.get(); SimQuiet z; CHECK(std::get<0>(s) <= steps && (int)std::get<1>(s).size() <= letters, "torn-value", "the value is ahead of the changes"); break; }
        }
    });
  joinAll(ths);
  auto s = o.get();
  SimQuiet z;
  CHECK(std::get<0>(s) == steps && (int)std::get<1>(s).size() == letters, "lost-update", "%d increments ended at %d, %d appends at length %zu", steps, std::get<0>(s), letters, std::get<1>(s).size());
  CHECK(seen.back() == steps && (int)seenS.back().size() == letters, "stale-last", "the last value announced is not the current one");
  for (size_t i = 1; i < seen.size(); i++) {
    int a = seen[i] - seen[i - 1], b = (int)seenS[i].size() - (int)seenS[i - 1].size();
    CHECK(a >= 0 && a <= 1 && b >= 0 && b <= 1 && a + b > 0, "wrong-values", "announcement %zu goes from (%d,%zu) to (%d,%zu)", i, seen[i - 1], seenS[i - 1].size(), seen[i], seenS[i].size());
  }
}

// several states: single states are set, nothing is mixed up
SIM_SCENARIO(c11_multi, 0, 0, 0) {
  struct Src { vector<int> set; std::map<int, uint64_t> ret; };
  ss::Observable<int, string, vector<int>> o{0, string{}, vector<int>{}};
  int nx[3] = {1, 1, 1};
  struct Snap { int v[3]; };
  vector<Snap> seen;
  auto rec = [&](const int &a, const string &b, const vector<int> &c) {
    SimQuiet z;
    Snap s{{num(a), num(b), num(c)}};
    sim_ev("saw", s.v[0], s.v[1], s.v[2], 0);
    for (int i = 0; i < 3; i++) CHECK(s.v[i] >= 0 && s.v[i] < nx[i], "torn-value", "state %d was announced as %d, which nobody has set", i, s.v[i]);
    seen.push_back(s);
  };
  auto c0 = o.connect(rec);
  // what a slot finds the observable at is what it was told, also who connects from inside it is told that
  vector<ss::Connection> late;
  auto c2 = o.connect([&](const int &a, const string &b, const vector<int> &c) {
    auto cur = o.get();
    CHECK(num(std::get<0>(cur)) == num(a) && num(std::get<1>(cur)) == num(b) && num(std::get<2>(cur)) == num(c), "stale-get", "a slot told of (%d,%d,%d) finds the observable at (%d,%d,%d)", num(a), num(b), num(c), num(std::get<0>(cur)), num(std::get<1>(cur)), num(std::get<2>(cur)));
    if (late.size() < 2 && sim_choose(6) == 0) {
      int n = 0;
      auto con = o.connect([&n, want = num(a), live = std::make_shared<bool>(true)](const int &x, const string &, const vector<int> &) mutable {
        if (*live) { *live = false; n++; CHECK(num(x) == want, "stale-get", "who connects from inside a slot is told %d, the value is %d", num(x), want); }
      });
      CHECK(n == 1, "not-told", "who connects from inside a slot was told the value %d times", n);
      late.push_back(std::move(con));
    }
  });
  int tup = -1;
  auto c1 = o.connect(std::function<void(const std::tuple<int, string, vector<int>> &)>([&](auto &t) { SimQuiet z; tup = num(std::get<1>(t)); }));
  vector<std::thread> ths;
  int nt = 2 + (int)sim_choose(2), changes = 0;
  std::map<std::pair<int, int>, int> by;   // (state, value) -> thread
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, t] {
      int n = 1 + (int)sim_choose(3);
      int lastMine[3] = {};
      for (int k = 0; k < n; k++) {
        auto nv = [&](int i) { SimQuiet z; int v = nx[i]++; sim_ev("set", i, v, t, 0); return v; };
        switch (sim_choose(6)) {
          case 0: { int a = nv(0); { SimQuiet z; changes++; } o.set<0>(a); lastMine[0] = a; break; }
          case 1: { int a = nv(1); { SimQuiet z; changes++; } o.set<1>(mk<string>(a)); lastMine[1] = a; break; }
          case 2: { int a = nv(0), b = nv(2); { SimQuiet z; changes++; } o.set<0, 2>(a, mk<vector<int>>(b)); lastMine[0] = a; lastMine[2] = b; break; }
          case 3: { int a = nv(0), b = nv(1), d = nv(2); { SimQuiet z; changes++; } if (sim_choose(2)) o = std::tuple<int, string, vector<int>>(a, mk<string>(b), mk<vector<int>>(d)); else o.set(a, mk<string>(b), mk<vector<int>>(d)); lastMine[0] = a; lastMine[1] = b; lastMine[2] = d; break; }
          case 4: { int b = nv(1); { SimQuiet z; changes++; } *o.mutable_<1>() = mk<string>(b); lastMine[1] = b; break; }
          case 5: { auto x = o.get<1>(); CHECK(num(x) >= 0, "torn-value", "get<1> returned a value nobody has set"); auto all = o.get(); CHECK(num(std::get<2>(all)) >= 0, "torn-value", "get returned a value nobody has set"); break; }
        }
      }
      (void)lastMine;
    });
  joinAll(ths);
  auto s = o.get();
  SimQuiet z;
  CHECK(seen.back().v[0] == num(std::get<0>(s)) && seen.back().v[1] == num(std::get<1>(s)) && seen.back().v[2] == num(std::get<2>(s)), "stale-last", "the last states announced are not the current ones");
  CHECK(tup == num(std::get<1>(s)), "stale-last", "the last state given to the tuple slot is not the current one");
  if (sim_choose(3) == 0) {
    size_t told = seen.size();
    if (sim_choose(2)) o.silentSet<1>(mk<string>(900)); else o.silentSet(3, mk<string>(900), mk<vector<int>>(5));
    CHECK(seen.size() == told && num(o.get<1>()) == 900, "silent", "what was set silently is not there or was announced");
  }
  CHECK((int)seen.size() == 1 + changes, "not-announced", "%d changes were announced %zu times", changes, seen.size() - 1);
}

// A compound observable agrees with its sources once changes stop.
SIM_SCENARIO(c11_compound, 0, 0, 0) {
  auto a = std::make_unique<ss::Observable<int>>(0);
  auto b = std::make_unique<ss::Observable<string>>();
  AsyncProcessor ap{Processor::create()};
  bool ex = sim_cfg(2);
  ap.launch();
  using C = ss::CompoundObservable<int, string>;
  struct Seen { vector<int> x, y; };
  auto mine = std::make_shared<Seen>();
  // the order in which each source changed
  vector<int> sa, sb;
  auto wa = a->connect([&](const int &v) { SimQuiet z; sa.push_back(v); });
  auto wb = b->connect([&](const string &v) { SimQuiet z; sb.push_back(num(v)); });
  int nx = 1, ny = 1;
  auto changer = [&](int n) {
    for (int k = 0; k < n; k++) {
      int which = (int)sim_choose(2), v;
      { SimQuiet z; v = which ? ny++ : nx++; ev("set", which, v); }
      if (which) { if (sim_choose(2)) b->set(mk<string>(v)); else *b->mutable_() = mk<string>(v); }
      else { if (sim_choose(2)) a->set(v); else *a->mutable_() = v; }
    }
  };
  int nt = 1 + (int)sim_choose(2);
  vector<std::thread> ths;
  for (int t = 0; t < nt; t++) ths.emplace_back([&] { changer(1 + (int)sim_choose(3)); });
  std::unique_ptr<C> c;
  auto build = [&] {
    return ex ? std::make_unique<C>(std::shared_ptr<maf::util::ExecutorIF>(ap->getAsyncExecutor()), *a, *b) : std::make_unique<C>(*a, *b);
  };
  c = build();
  auto see = [mine](const int &x, const string &y) {
    SimQuiet z;
    ev("compound", x, num(y));
    CHECK(x >= 0 && num(y) >= 0, "torn-value", "the compound was given states nobody has set");
    mine->x.push_back(x);
    mine->y.push_back(num(y));
  };
  auto cc = c->connect(see);
  std::unique_ptr<C> second;   // comes and goes while changes happen
  ths.emplace_back([&] {
    int n = (int)sim_choose(3);
    for (int k = 0; k < n; k++) { auto t = build(); auto g = t->get(); (void)g; sim_yield(); }
  });
  joinAll(ths);
  Flag f;
  ap->executeAsync([&] { f.set(); });
  CHECK(f.wait(60000 * MS), "stuck", "the executor does not get through");
  std::atomic_thread_fence(std::memory_order_seq_cst);
  auto g = c->get();
  {
    SimQuiet z;
    CHECK(std::get<0>(g) == a->get() && num(std::get<1>(g)) == num(b->get()), "compound-stale", "the compound is (%d,%d), its sources are %d and %d", std::get<0>(g), num(std::get<1>(g)), a->get(), num(b->get()));
    CHECK(mine->x.back() == a->get() && mine->y.back() == num(b->get()), "stale-last", "the last states the compound announced are not the current ones");
    auto mono = [](const vector<int> &v, const vector<int> &ref, const char *n) {
      size_t at = 0;
      for (int x : v) {
        while (at < ref.size() && ref[at] != x) at++;
        CHECK(at < ref.size(), "order", "the compound announced value %d of source %s after a newer one", x, n);
      }
    };
    mono(mine->x, sa, "a");
    mono(mine->y, sb, "b");
  }
  // destruction in any order
  if (sim_choose(2)) { c.reset(); a.reset(); b.reset(); }
  else { a.reset(); b->set(mk<string>(1000)); b.reset(); auto last = c->get(); (void)last; c.reset(); }
  ap.stopAndWait();
}

// arithmetic on observables is a read-modify-write that nothing gets in between of
SIM_SCENARIO(c11_arith, 0, 0, 0) {
  ss::Observable<int> o{0};
  ss::Observable<unsigned, int> two{0u, 0};
  vector<int> seen, seenTwo;
  auto c = o.connect([&](const int &v) { CHECK(o.get() == v, "stale-get", "a slot told of %d finds the observable at %d", v, o.get()); SimQuiet z; ev("saw", v); seen.push_back(v); });
  auto c2 = two.connect([&](const unsigned &, const int &v) { SimQuiet z; seenTwo.push_back(v); });
  int nt = 2 + (int)sim_choose(2), ups = 0, downs = 0, twos = 0;
  unsigned bits = 0;
  vector<std::thread> ths;
  vector<int> got;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, t] {
      int n = 1 + (int)sim_choose(3);
      int last = 0;
      for (int k = 0; k < n; k++) {
        int r = 0;
        switch (sim_choose(8)) {
          case 0: { { SimQuiet z; ups++; } r = ++o; break; }
          case 1: { { SimQuiet z; ups++; } r = o++ + 1; break; }
          case 2: { { SimQuiet z; ups += 3; } r = o += 3; break; }
          case 3: { { SimQuiet z; ups++; } auto m = o.mutable_(); m = *m + 1; r = *m; break; }
          case 4: { { SimQuiet z; downs++; } two.mutable_<1>() -= 1; continue; }
          case 5: { unsigned b = 1u << (t * 4 + k); { SimQuiet z; bits |= b; } two.mutable_<0>() |= b; continue; }
          case 6: { { SimQuiet z; twos++; } ++two.mutable_<1>(); continue; }
          case 7: { int v = o.get(); CHECK(v >= last, "went-back", "the observable went from %d to %d, it was only increased", last, v); last = v; continue; }
        }
        CHECK(r > last, "went-back", "an increase ended at %d, it was at %d before", r, last);
        last = r;
        SimQuiet z;
        got.push_back(r);
      }
    });
  joinAll(ths);
  // nobody is told of what is set silently, it only is there
  size_t told = seen.size();
  if (sim_choose(2)) {
    *o.silentMutable() = 5000;
    CHECK(o.get() == 5000 && seen.size() == told, "silent", "what was set silently is not there or was announced");
    ++o;
    CHECK(o.get() == 5001 && seen.back() == 5001, "stale-last", "a change after a silent one was not announced");
    ups = 5001;
  }
  SimQuiet z;
  std::sort(got.begin(), got.end());
  CHECK(std::adjacent_find(got.begin(), got.end()) == got.end(), "lost-update", "two increases ended at the same value");
  CHECK(o.get() == ups, "lost-update", "the increases make %d, the observable is %d", ups, o.get());
  CHECK(seen.back() == ups, "stale-last", "the last value announced is %d, the current one %d", seen.back(), ups);
  for (size_t i = 1; i < seen.size(); i++) CHECK(seen[i] > seen[i - 1], "order", "%d was announced after %d, the observable was only increased", seen[i], seen[i - 1]);
  CHECK(two.get<0>() == bits && two.get<1>() == twos - downs, "lost-update", "%u bits and %d were set, the observable is %u and %d", bits, twos - downs, two.get<0>(), two.get<1>());
  CHECK(seenTwo.back() == twos - downs, "stale-last", "the last value announced is %d, the current one %d", seenTwo.back(), twos - downs);
}

// many values, many observers
SIM_SCENARIO(c11_many, 0, 0, 0) {
  ss::Observable<int> o(0);
  int nv = 1 + (int)sim_choose(80), no = 1 + (int)sim_choose(20);
  auto last = std::make_unique<vector<int>>(20, -1);
  int *l = last->data();
  vector<ss::Connection> cs;
  for (int i = 0; i < no; i++) cs.push_back(o.connect([l, i](int v) { SimQuiet z; CHECK(v == l[i] + 1, "gap", "observer %d is given %d after %d", i, v, l[i]); l[i] = v; }));
  for (int v = 1; v <= nv; v++) { o = v; if (sim_choose(4) == 0) o = v; }
  for (int i = 0; i < no; i++) CHECK(l[i] == nv, "not-latest", "observer %d was last given %d instead of %d", i, l[i], nv);
  CHECK(o.get() == nv, "not-latest", "the value is %d instead of %d", o.get(), nv);
}
