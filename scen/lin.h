// Linearizability checker (Wing & Gong with memoisation) for short histories.
#pragma once
#include "common.h"

struct LinOp {
  int thread;
  int kind;
  int64_t arg;
  vector<int64_t> res;      // result values
  uint64_t inv, ret;        // global event sequence numbers; ret==~0: pending
};
// Model: bool step(State&, const LinOp&) -> legal?
template <class State, class Step>
bool linearizable(const vector<LinOp> &ops, State init, Step step) {
  size_t n = ops.size();
  if (n > 60) return true;
  std::set<std::pair<uint64_t, State>> seen;
  uint64_t must = 0;
  for (size_t i = 0; i < n; i++)
    if (ops[i].ret != ~0ull) must |= 1ull << i;
  std::function<bool(uint64_t, State)> rec = [&](uint64_t done, State st) -> bool {
    if ((done & must) == must) return true;
    if (!seen.insert({done, st}).second) return false;
    uint64_t minRet = ~0ull;
    for (size_t i = 0; i < n; i++)
      if (!(done >> i & 1)) minRet = std::min(minRet, ops[i].ret);
    for (size_t i = 0; i < n; i++) {
      if (done >> i & 1) continue;
      if (ops[i].inv > minRet) continue;
      State s2 = st;
      if (step(s2, ops[i]) && rec(done | 1ull << i, std::move(s2))) return true;
    }
    return false;
  };
  return rec(0, init);
}
