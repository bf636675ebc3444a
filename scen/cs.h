// The service contract used by the client/server scenarios.
#pragma once
#include "common.h"

#include <maf/ITCProxy.h>
#include <maf/ITCStub.h>
#include <maf/Messaging.h>
#include <maf/messaging/client-server/ServiceStatusSignal.h>
#include <maf/utils/DirectExecutor.h>

#include <cassert>
// clang-format off
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
REQUEST(echo)
    INPUT((int, id), (std::string, text))
    OUTPUT((int, id), (int, answer), (std::string, text))
ENDREQUEST(echo)
VOID_REQUEST(poke)
VOID_REQUEST(nobody)
PROPERTY(level)
    STATUS((int, v), (std::string, s))
ENDPROPERTY(level)
PROPERTY(other)
    STATUS((int, v), (std::string, s))
ENDPROPERTY(other)
SIGNAL(tick)
    ATTRIBUTES((int, n), (std::string, s))
ENDSIGNAL(tick)
SIGNAL(tock)
    ATTRIBUTES((int, n), (std::string, s))
ENDSIGNAL(tock)
VOID_SIGNAL(bare)
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>
// clang-format on
using namespace maf::messaging;
// Process identifiers of the simulated processes: alike in their last digits, in their low bits, or of different lengths
struct Pids {
  int base = 100, step = 1, k = 0;
  Pids() {
    static const int bases[] = {100, 1, 9, 98, 995, 32766, 65534}, steps[] = {1, 1, 10, 100, 1000, 256, 32768, 65536};
    base = bases[sim_cfg(sizeof bases / sizeof *bases)];
    step = steps[sim_cfg(sizeof steps / sizeof *steps)];
  }
  int next() { return base + step * k++; }
};
constexpr uint64_t INF = ~0ull;

// Intervals during which a service may have been available / unavailable,
// from the recorded calls of startServing and stopServing (one thread calls them).
struct Serving {
  struct Change { bool up; uint64_t inv, ret; };
  vector<Change> c;
  // may it have been down (up) at some moment of [a, b]?
  bool maybe(bool up, uint64_t a, uint64_t b) const {
    bool cur = false;
    uint64_t from = 0;
    for (auto &x : c) {
      if (cur == up && from <= b && x.ret >= a) return true;
      if (x.up == up) from = x.inv;   // it begins somewhere in the call
      cur = x.up;
    }
    return cur == up && from <= b;
  }
  template <class S> void set(S &stub, bool up, int tag = 0) {
    { SimQuiet z; c.push_back({up, sim_ev(up ? "start" : "stop", tag, 0, 0, 0), INF}); }
    size_t i = c.size() - 1;
    if (up) stub->startServing(); else stub->stopServing();
    SimQuiet z;
    c[i].ret = sim_ev(up ? "started" : "stopped", tag, 0, 0, 0);
  }
};
