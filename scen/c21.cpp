// C21: log messages reach the right sink whole and once, and only at levels that are switched on, whatever thread logs
// and whatever thread switches levels.
#include "lin.h"

#include <maf/logging/Logger.h>
#include <maf/threading/Lockable.h>

using namespace maf;
using maf::logging::LogLevels;

namespace {
constexpr int nLevels = 6;
enum Kind { Enable, Disable, Change, Stop, Allowed, Log };
struct Got { int sink; int times; int tid; uint64_t seq; string text; };
struct World {
  vector<LinOp> ops;
  std::map<int, Got> got;         // message id -> delivery
  vector<string> body;
  vector<int> level;
  vector<int> tid;
  vector<uint64_t> inv, ret;
};
string bodyOf(int id, int len) { return "<m" + std::to_string(id) + ":" + string((size_t)len, char('a' + id % 26)) + ">"; }

// one message through one of the ways to log; returns its level's bit
template <class A, class B>
void logOne(int lv, int how, const A &a, const B &b) {
  switch (how) {
    case 0: logging::log((logging::LogLevel)(1 << lv), a, b); break;
    case 1:
      switch (lv) {
        case 0: logging::info(a, b); break;
        case 1: logging::warn(a, b); break;
        case 2: logging::error(a, b); break;
        case 3: logging::fatal(a, b); break;
        case 4: logging::debug(a, b); break;
        case 5: logging::verbose(a, b); break;
      }
      break;
    default:
      switch (lv) {
        case 0: MAF_LOGGER_INFO(a, b); break;
        case 1: MAF_LOGGER_WARN(a, b); break;
        case 2: MAF_LOGGER_ERROR(a, b); break;
        case 3: MAF_LOGGER_FATAL(a, b); break;
        case 4: MAF_LOGGER_DEBUG(a, b); break;
        case 5: MAF_LOGGER_VERBOSE(a, b); break;
      }
      break;
  }
}
bool step(int &mask, const LinOp &o) {
  switch (o.kind) {
    case Enable: mask |= (int)o.arg; return true;
    case Disable: mask &= ~(int)o.arg; return true;
    case Change: mask = (int)o.arg; return true;
    case Stop: mask = 0; return true;
    case Allowed: case Log: return o.res[0] == ((mask & o.arg) != 0);
  }
  return false;
}
}  // namespace

SIM_SCENARIO(c21_levels, 0, 0, 0) {
  World w;
  int phase = 0;
  int sinkId = 0;
  auto sink = [&](int s) {
    return [&w, s, &phase](const string &m) {
      sim_yield();
      SimQuiet z;
      auto p = m.find("<m");
      CHECK(p != string::npos && phase, "foreign-text", "the sink got '%s', which nobody logged", m.c_str());
      int id = atoi(m.c_str() + p + 2);
      CHECK(id >= 0 && id < (int)w.body.size(), "foreign-text", "the sink got '%s', which nobody logged", m.c_str());
      CHECK(m.compare(p, w.body[id].size(), w.body[id]) == 0 && m.find("<m", p + 1) == string::npos, "damaged-text", "message %s arrived as '%s'", w.body[id].c_str(), m.c_str());
      auto &g = w.got[id];
      g.sink = s;
      CHECK(++g.times == 1, "logged-twice", "message %d reached a sink twice", id);
      sim_ev("sink", id, s, 0, 0);
      CHECK(w.ret[id] == ~0ull, "late", "message %d reached the sink after the call that logged it had returned", id);
      CHECK(w.tid[id] == sim_tid(), "wrong-thread", "message %d reached the sink on another thread", id);
    };
  };
  int rounds = 1 + (int)sim_choose(2);
  int out = -1, err = -1;
  for (int r = 0; r < rounds; r++) {
    int mask = (int)sim_choose(64);
    {
      // (re)configured while nobody logs
      int how = (int)sim_choose(r ? 4 : 2);   // 0 out and err, 1 out only, 2 err only, 3 neither
      logging::LoggingFunctionType o, e;
      int so = -1, se = -1;
      { SimQuiet z; if (how < 2) o = sink(so = sinkId++); if (how == 0 || how == 2) e = sink(se = sinkId++); }
      logging::init((LogLevels)mask, o, e);
      SimQuiet z;
      if (so >= 0) out = so;
      err = se >= 0 ? se : out;
      w.ops.clear();
      phase = 1;
    }
    int nt = 1 + (int)sim_choose(3);
    auto act = [&](int t, int k) {
      LinOp op;
      op.thread = t;
      op.kind = k;
      int m = 1 << sim_choose(nLevels);
      if (k != Log && sim_choose(3) == 0) m |= 1 << sim_choose(nLevels);
      op.arg = m;
      if (k == Change) op.arg = (int)sim_choose(64);
      size_t at;
      int id = -1, lv = 0, how = 0;
      {
        SimQuiet z;
        if (k == Log) {
          lv = __builtin_ctz(m);
          how = (int)sim_choose(3);
          // the macros look at the levels several times, then they are judged while no level changes only
          id = (int)w.body.size();
          w.body.push_back(bodyOf(id, sim_choose(12) == 0 ? 3000 : (int)sim_choose(2) * 40));
          w.level.push_back(lv);
          w.tid.push_back(sim_tid());
          w.ret.push_back(~0ull);
          w.inv.push_back(0);
        }
        op.inv = sim_ev("op", k, m, id, how);
        op.ret = ~0ull;
        op.res = {0};
        w.ops.push_back(op);
        at = w.ops.size() - 1;
      }
      bool r1 = false;
      switch (k) {
        case Enable: logging::enable((LogLevels)op.arg); break;
        case Disable: logging::disable((LogLevels)op.arg); break;
        case Change: logging::changeLogLevels((LogLevels)op.arg); break;
        case Stop: logging::stopLogging(); break;
        case Allowed: r1 = logging::allowed((LogLevels)op.arg); break;
        case Log: {
          string b;
          { SimQuiet z; b = w.body[id]; }
          logOne(lv, how, b.substr(0, 3), b.substr(3));
          break;
        }
      }
      SimQuiet z;
      w.ops[at].ret = sim_ev("done", k, r1, id, 0);
      if (k == Allowed) w.ops[at].res = {r1};
      if (k == Log) {
        w.ret[id] = w.ops[at].ret;
        bool got = w.got.count(id);
        w.ops[at].res = {got};
        if (got) {
          int want = lv == 0 || lv >= 4 ? out : err;
          CHECK(w.got[id].sink == want, "wrong-sink", "message %d of level %d reached sink %d instead of %d", id, 1 << lv, w.got[id].sink, want);
        }
        // a macro may ask several times; what it did must be explained by one of the answers
        if (how == 2) w.ops[at].arg = 0;
      }
    };
    vector<std::thread> ths;
    for (int t = 0; t < nt; t++)
      ths.emplace_back([&, t, n = 1 + (int)sim_choose(4)] {
        for (int i = 0; i < n; i++) {
          static const int kinds[] = {Enable, Disable, Enable, Disable, Change, Stop, Allowed, Allowed, Log, Log, Log, Log};
          act(t, kinds[sim_choose(12)]);
        }
      });
    joinAll(ths);
    // every level as it is left
    int left = 0;
    for (int l = 0; l < nLevels; l++) {
      LinOp op;
      op.thread = 9; op.kind = Allowed; op.arg = 1 << l;
      { SimQuiet z; op.inv = sim_ev("left", l, 0, 0, 0); }
      bool a = logging::allowed((LogLevels)(1 << l));
      SimQuiet z;
      op.res = {a};
      op.ret = sim_ev("left-is", l, a, 0, 0);
      w.ops.push_back(op);
      left |= a << l;
    }
    {
      SimQuiet z;
      vector<LinOp> judged;
      for (auto &o : w.ops) if (!(o.kind == Log && o.arg == 0)) judged.push_back(o);
      if (!linearizable(judged, mask, step)) {
        string d;
        static const char *nm[] = {"enable", "disable", "change", "stop", "allowed", "log"};
        for (auto &o : judged) d += "  T" + std::to_string(o.thread) + " " + nm[o.kind] + "(" + std::to_string(o.arg) + ") = " + std::to_string(o.res[0]) + " [" + std::to_string(o.inv) + "," + std::to_string(o.ret) + "]\n";
        sim_fail("levels", "no order of the calls explains which levels were on (at first %d):\n%s", mask, d.c_str());
      }
    }
    // nothing changes any more: every way to log obeys the levels
    for (int l = 0; l < nLevels; l++) {
      int id, how = (int)sim_choose(3);
      string b;
      {
        SimQuiet z;
        id = (int)w.body.size();
        w.body.push_back(bodyOf(id, 5));
        w.tid.push_back(sim_tid());
        w.ret.push_back(~0ull);
        w.inv.push_back(sim_ev("log", id, l, how, 0));
        w.level.push_back(l);
        b = w.body[id];
      }
      logOne(l, how, b.substr(0, 4), b.substr(4));
      SimQuiet z;
      w.ret[id] = sim_ev("logged", id, 0, 0, 0);
      bool want = left >> l & 1;
      CHECK(!w.got.count(id) || want, "logged-though-off", "message %d of level %d was logged though the level is off", id, 1 << l);
      CHECK(w.got.count(id) || !want, "lost-message", "message %d of level %d was not logged though the level is on", id, 1 << l);
      if (want) {
        int s = l == 0 || l >= 4 ? out : err;
        CHECK(w.got[id].sink == s, "wrong-sink", "message %d of level %d reached sink %d instead of %d", id, 1 << l, w.got[id].sink, s);
      }
    }
    SimQuiet z;
    phase = 0;
  }
  logging::init(logging::LOG_LEVEL_SILENCE, [](const string &) {}, [](const string &) {});
}

// a sink that itself logs (at a level that is off), uses locks or switches the log off does not block anybody
SIM_SCENARIO(c21_sinks, 0, 0, 0) {
  std::atomic<int> in{0}, total{0};
  threading::Lockable<vector<string>> lines;
  int what = (int)sim_cfg(3);
  logging::init(logging::LOG_LEVEL_FROM_INFO, [&](const string &s) {
    in++;
    sim_yield();
    if (what == 0) lines.atomic()->push_back(s);
    if (what == 1) logging::debug("nobody sees this");
    if (what == 2 && total == 2) logging::stopLogging();
    total++;
    in--;
  });
  int nt = 1 + (int)sim_choose(3), n = 1 + (int)sim_choose(3);
  vector<std::thread> ths;
  for (int t = 0; t < nt; t++)
    ths.emplace_back([&, t] { for (int i = 0; i < n; i++) MAF_LOGGER_WARN("thread ", t, " line ", i); });
  joinAll(ths);
  CHECK(in == 0, "still-in-sink", "a call that logs has returned before its sink");
  if (what != 2) CHECK(total == nt * n, "lost-message", "%d of %d messages were logged", total.load(), nt * n);
  else CHECK(total >= std::min(nt * n, 3), "lost-message", "%d of %d messages were logged", total.load(), nt * n);
  if (what == 0) {
    std::map<string, int> c;
    for (auto &l : *lines.atomic()) c[l]++;
    CHECK((int)c.size() == nt * n, "damaged-text", "%zu different lines instead of %d", c.size(), nt * n);
  }
  logging::init(logging::LOG_LEVEL_SILENCE, [](const string &) {}, [](const string &) {});
}
