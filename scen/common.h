// Helpers shared by the scenarios. Oracles only look at values returned by the
// public API and at events the workload's own callbacks record.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "../sim/sim.h"

using std::string;
using std::vector;
using namespace std::chrono_literals;

constexpr uint64_t MS = 1000000ull;

struct Hist {
  const SimEv *e;
  size_t n;
  Hist() { n = sim_hist(&e); }
  const SimEv *begin() const { return e; }
  const SimEv *end() const { return e + n; }
};
inline bool is(const SimEv &e, const char *k) { return !__builtin_strcmp(e.kind, k); }

template <class F>
std::thread spawn(F f) {
  return std::thread(std::move(f));
}
// joins, in order
inline void joinAll(vector<std::thread> &v) {
  for (auto &t : v)
    if (t.joinable()) t.join();
}
#define CHECK(cond, cls, ...)            \
  do {                                   \
    if (!(cond)) sim_fail(cls, __VA_ARGS__); \
  } while (0)

// Order-preserving flag set by one thread and awaited by the simulator
// (no synchronisation edge is created by waiting).
struct Flag {
  std::atomic<int> v{0};
  void set(int x = 1) { v.store(x, std::memory_order_relaxed); }
  int get() { return v.load(std::memory_order_relaxed); }
  static bool pred(void *p) { return static_cast<Flag *>(p)->v.load(std::memory_order_relaxed) != 0; }
  bool wait(uint64_t timeout_ns = 0) { return sim_wait(pred, this, timeout_ns); }
};
// waits until a std::function predicate holds (evaluated quietly)
inline bool waitFor(std::function<bool()> f, uint64_t timeout_ns) {
  return sim_wait([](void *p) { return (*static_cast<std::function<bool()> *>(p))(); }, &f, timeout_ns);
}
// does something when the last one who has it lets it go
struct Ghost {
  std::function<void()> f;
  explicit Ghost(std::function<void()> g) : f(std::move(g)) {}
  Ghost(const Ghost &) = delete;
  ~Ghost() { if (f) f(); }
};
using GhostPtr = std::shared_ptr<Ghost>;
