// Interface between the scenarios (compiled together with maf into node.so,
// instrumented) and the simulator (the simhost executable, not instrumented).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
// ---- decisions -----------------------------------------------------------
// Workload choice in [0,n). 0 is the "simplest" value (minimiser target).
uint64_t sim_choose(uint64_t n);
// Fault decision: non-zero with probability 1/oneIn when faults are enabled
// for the run; value in [1,n].
uint64_t sim_fault(const char *kind, uint64_t oneIn, uint64_t n);
// Per run configuration choice in [0,n) (swarm configuration).
uint64_t sim_cfg(uint64_t n);

// ---- history -------------------------------------------------------------
struct SimEv {
  const char *kind;
  int64_t a, b, c, d;
  uint64_t seq;
  uint64_t time;  // ns
  int tid;
  int node;
};
// Appends an event to the history and returns its sequence number.
uint64_t sim_ev(const char *kind, int64_t a, int64_t b, int64_t c, int64_t d);
size_t sim_hist(const SimEv **out);
void sim_probe(const char *name);
[[noreturn]] void sim_fail(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));

// ---- time / scheduling ---------------------------------------------------
uint64_t sim_now();     // simulated steady clock, ns
uint64_t sim_seq();     // global event sequence number
void sim_yield();       // a scheduling point
void sim_sleep(uint64_t ns);
int sim_tid();
// Blocks the calling thread until pred(arg) is true, or timeout_ns (0 = none)
// of simulated time passed. pred is evaluated by the simulator, quietly.
bool sim_wait(bool (*pred)(void *), void *arg, uint64_t timeout_ns);
// Lets everything run until no thread but the caller is runnable (timers due
// later than now + horizon_ns are left alone).
void sim_settle(uint64_t horizon_ns);
// Number of threads of this run that are neither finished nor killed.
int sim_live_threads();
// Nesting switches instrumentation, scheduling points and memory checks off
// for the calling thread (oracles, bookkeeping).
void sim_quiet(int delta);
void sim_clock_jump(int64_t ns);  // jump of the wall clock (system_clock)
// from now on no fault and no spurious behaviour is injected and scheduling is fair
void sim_faults_stop();
void sim_stall_thread(int tid, uint64_t ns);  // slow thread: not scheduled for ns

// ---- nodes ---------------------------------------------------------------
// Starts entry(arg) (an extern "C" symbol of node.so) in a fresh copy of the
// program (own globals) and returns the node id (>0), or -1.
int sim_node_start(const char *entry, void *arg, int pid);
void sim_node_kill(int node);      // crash: threads stop, descriptors close
bool sim_node_done(int node);      // entry returned
int sim_node();
// the calling node runs out of descriptors now and then, whatever the scenario's faults
void sim_node_poor(uint64_t oneIn);
void sim_wait_node(int node);
// the next `failures` allocations to fail in the calling thread, each fails one time in oneIn
void sim_alloc_faults(int failures, uint64_t oneIn);
// from now on thread creation fails now and then in the calling thread (0: never)
void sim_thread_faults(uint64_t oneIn);
// an allocation of more than n bytes is a violation from now on (0 = none is)
void sim_alloc_limit(uint64_t n);

// ---- network -------------------------------------------------------------
int sim_open_fds(int node);
uint64_t sim_net_bytes();
bool sim_listening(const char *name);
// Records what every connection made from now on sends
void sim_tap(int on);
size_t sim_tap_count();
size_t sim_tap_get(size_t i, const char **dest, int *node, const char **bytes);

struct SimScenario {
  const char *name;
  void (*body)();
  // options
  uint32_t flags;
  uint64_t stepCap;      // scheduling points before fair mode (0 = default)
  uint64_t timeCapMs;    // simulated time cap (0 = default)
};
enum : uint32_t {
  SIM_F_TIMESKEW = 1,   // allow time to advance while threads are runnable
  SIM_F_NORACE = 2,     // no data race verdicts in this scenario
  SIM_F_NOSPUR = 4,     // no spurious wakeups
  SIM_F_NONPREEMPT_PLAIN = 8,
  SIM_F_NET = 16,
  SIM_F_SOFTNET = 32,  // only network faults a transport can hide (no EMFILE, ENOBUFS)
};
// node.so exports: extern "C" const SimScenario *sim_scenarios(size_t *n);
}

#ifdef __cplusplus
struct SimQuiet {
  SimQuiet() { sim_quiet(1); }
  ~SimQuiet() { sim_quiet(-1); }
};
#define SIM_SCENARIO(nm, fl, steps, ms)                                  \
  static void nm##_body();                                               \
  static SimReg nm##_reg{SimScenario{#nm, nm##_body, (fl), (steps), (ms)}}; \
  static void nm##_body()
struct SimReg {
  explicit SimReg(const SimScenario &s);
};
inline void ev(const char *k, int64_t a = 0, int64_t b = 0, int64_t c = 0,
               int64_t d = 0) {
  sim_ev(k, a, b, c, d);
}
#endif
