// Internals of the simulator.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <time.h>

#include "sim.h"

namespace sim {

constexpr int MAXT = 64;           // threads per run
constexpr int MAXNODE = 12;
constexpr uint64_t REGION = 0x200000000000ull;
constexpr uint64_t STACKSZ = 512 * 1024;
constexpr uint64_t STACKS = MAXT * STACKSZ;
constexpr uint64_t HEAP = REGION + STACKS;
constexpr uint64_t REGIONSZ = 512ull << 20;
constexpr uint64_t REGION_END = REGION + REGIONSZ;
constexpr uint64_t HEAP_LIMIT_ALLOC = 64ull << 20;  // bigger requests: bad_alloc

enum WaitKind : uint8_t {
  W_NONE, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_SLEEP, W_NET, W_ONCE, W_GUARD,
  W_RWLOCK, W_PRED, W_SETTLE, W_NODE,
};
enum TState : uint8_t { T_RUN, T_BLOCKED, T_DONE, T_DEAD };
enum SpKind : uint8_t {
  SP_LOCK = 1, SP_UNLOCK, SP_TRYLOCK, SP_CWAIT, SP_NOTIFY, SP_ATOMIC, SP_FUTEX,
  SP_CREATE, SP_JOIN, SP_YIELD, SP_NET, SP_PLAIN, SP_CLOCK, SP_ONCE, SP_GUARD,
  SP_USER, SP_BLOCK, SP_EXIT,
};
// decision kinds
enum DKind : uint8_t {
  K_SCHED = 1, K_PLAIN, K_BLOCK, K_WORK, K_FAULT, K_TIME, K_SPUR, K_PICKW, K_CFG,
};

struct Decision {
  uint64_t key;
  uint64_t val;
};
inline uint64_t mkkey(int tid, int kind, uint16_t sub, uint32_t idx) {
  return (uint64_t(uint8_t(tid)) << 56) | (uint64_t(uint8_t(kind)) << 48) |
         (uint64_t(sub) << 32) | idx;
}

constexpr int SSTK = 192;
struct Thread {
  int id;
  int node;
  volatile uint32_t go;     // futex word: 1 = has the baton
  TState state;
  WaitKind wk;
  const void *wobj;
  uint64_t deadline;        // ~0 none
  bool timedOut;
  bool dlReal, dlRealNext;  // the deadline is one of the wall clock
  bool notified;
  bool detached;
  bool (*pred)(void *);
  void *parg;
  uint64_t settleLimit;
  uint64_t stallUntil;
  int quiet;
  int allocFault;
  uint64_t allocOneIn, threadOneIn;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  int64_t prio;
  uint64_t nsp, nblk, nwork, nplain, nextPlain, ntime, nspur, npick, ncfg;
  struct { uint16_t sub; uint32_t n; } fcount[48];
  int nfc;
  uint32_t vc[MAXT];
  void *ss[SSTK];
  int sp;                   // shadow stack depth (may exceed SSTK)
  size_t planPos;           // replay of K_PLAIN
  const void *acc_pc;
  int *errno_loc;
};

struct Cfg {
  int mode;                 // 0 random, 1 PCT, 2 round robin-ish sequential
  uint32_t pnum;            // random: switch with prob 1/pnum
  int pctDepth;
  uint64_t pctLen;
  uint64_t plainMean;       // 0 = off
  uint64_t timeOneIn;       // 0 = off
  uint64_t spurOneIn;       // 0 = off
  uint64_t faultScale;      // 0 = off; 1 = nominal, 2 = half as often, ...
  uint8_t fill;
  uint64_t tick;
};

constexpr size_t MAXDEC = 1 << 17;
constexpr size_t MAXHIST = 1 << 15;
constexpr int MAXPROBE = 128;
constexpr int MAXFK = 64;
struct Named { char name[40]; uint64_t n; };
struct Result {             // shared with the parent
  volatile int status;      // 0 none, 1 ok, 2 violation, 3 harness problem
  char cls[64];
  char sig[512];
  char msg[4096];
  uint64_t hash, isig, hsig;
  uint64_t steps, switches, preempts, simtime, plain, hist;
  uint64_t threads;
  uint64_t ndec;
  int nprobe, nfk;
  Named probe[MAXPROBE];
  Named fk[MAXFK];
  char sample[2048];
  char stacks[16384];
  Decision dec[MAXDEC];
};

extern Result *R;
extern __thread Thread *cur;
extern Thread T[MAXT];
extern int nT;
extern bool g_on;
extern bool g_faultsOff;
extern uint64_t g_now, g_steps, g_seq;
extern Cfg C;
extern bool g_replay;
extern int g_trace;
extern bool g_norace;
extern uint32_t g_scflags;
extern int g_nodePid[MAXNODE];
extern bool g_nodeDead[MAXNODE];

struct Rng {
  uint64_t s;
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

void sp(SpKind k);                 // scheduling point
void block(WaitKind k, const void *obj, uint64_t deadline);  // until woken
void wake(const void *obj, WaitKind k);                      // all
int wakeOne(const void *obj, WaitKind k);                    // picks one; -1 none
uint64_t decide(DKind k, uint16_t sub, uint64_t idx, uint64_t exploreVal);
uint64_t faultDecide(const char *kind, uint64_t oneIn, uint64_t n);
void fault_hit(const char *kind);
[[noreturn]] void fail(const char *cls, const char *sig, const char *fmt, ...);
[[noreturn]] void vfail(const char *cls, const char *sig, const char *fmt, va_list ap);
[[noreturn]] void harness(const char *fmt, ...);
void mix(uint64_t v);
void traceln(const char *fmt, ...);
void symname(const void *pc, char *out, size_t n);
void stackText(Thread *t, char *out, size_t n, int maxf);

// memory (rt.cpp)
void rt_init();
void rt_start();                   // in the child, before the run
void rt_add_globals(uint64_t lo, uint64_t hi);
void vcAcquire(const void *obj);
void vcRelease(const void *obj);
void vcReleaseStore(const void *obj);
void checkAccess(const void *p, size_t n, bool write, const void *pc);
void checkLive(const void *p, size_t n, const char *what);

// net.cpp
extern bool g_softnet;
extern uint32_t g_poor[];
extern uint64_t g_allocMax;
void net_reset();
void net_kill_node(int node);
bool net_describe(char *out, size_t n);

void hostYieldTo(Thread *t);
Thread *newThread(void *(*fn)(void *), void *arg, int node);
void runScenario(const SimScenario *sc, uint64_t seed, const Decision *plan,
                 size_t nplan, bool replay, int trace);
extern void *g_libs[MAXNODE];
extern int g_nlibs;

struct QuietGuard {
  Thread *t;
  QuietGuard() : t(cur) { if (t) t->quiet++; }
  ~QuietGuard() { if (t) t->quiet--; }
};
}  // namespace sim
