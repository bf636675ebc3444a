#include "core.h"

#include <chrono>
#include <initializer_list>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>

extern "C" char *__cxa_demangle(const char *, char *, size_t *, int *);

namespace sim {

Result *R;
__thread Thread *cur;
Thread T[MAXT];
int nT;
bool g_on;
bool g_faultsOff;
uint64_t g_now, g_steps, g_seq;
int64_t g_wallOff;
Cfg C;
bool g_replay;
int g_trace;
bool g_norace;
uint32_t g_scflags;
int g_nodePid[MAXNODE];
bool g_softnet;
uint32_t g_poor[MAXNODE + 1];
uint64_t g_allocMax;
bool g_nodeDead[MAXNODE];
static int g_nodeMain[MAXNODE];
static int g_nNodes = 1;
void *g_libs[MAXNODE];
int g_nlibs;

static Rng g_pol, g_wrk;
static bool g_fair;
static uint64_t g_capFair, g_capHard, g_timeCap;
static uint64_t g_hash, g_isig, g_hsig;
static uint64_t g_nextDl;
static uint64_t g_pctNext[16];
static int g_pctN, g_pctI;
static int64_t g_pctLow;
static SimEv *g_hist;
static size_t g_nhist;
static const SimScenario *g_sc;

// ---------------------------------------------------------------- plan map
static Decision *g_plan;
static size_t g_planCap;
static const Decision *g_planList;
static size_t g_planN;
static void planLoad(const Decision *d, size_t n) {
  g_planList = d;
  g_planN = n;
  g_planCap = 64;
  while (g_planCap < n * 2 + 2) g_planCap *= 2;
  g_plan = (Decision *)calloc(g_planCap, sizeof(Decision));
  for (size_t i = 0; i < n; i++) {
    size_t h = (d[i].key * 0x9E3779B97F4A7C15ull) >> 20 & (g_planCap - 1);
    while (g_plan[h].key && g_plan[h].key != d[i].key) h = (h + 1) & (g_planCap - 1);
    g_plan[h] = d[i];
  }
}
static uint64_t planGet(uint64_t key) {
  if (!g_plan) return 0;
  size_t h = (key * 0x9E3779B97F4A7C15ull) >> 20 & (g_planCap - 1);
  while (g_plan[h].key) {
    if (g_plan[h].key == key) return g_plan[h].val;
    h = (h + 1) & (g_planCap - 1);
  }
  return 0;
}
static uint64_t planNextPlain(int tid, uint64_t after) {
  uint64_t best = ~0ull;
  for (size_t i = 0; i < g_planN; i++) {
    uint64_t k = g_planList[i].key;
    if ((k >> 56) == (uint64_t)(uint8_t)tid && ((k >> 48) & 0xff) == K_PLAIN) {
      uint64_t idx = k & 0xffffffffull;
      if (idx > after && idx < best) best = idx;
    }
  }
  return best;
}
static void record(uint64_t key, uint64_t val) {
  if (!val) return;
  if (R->ndec < MAXDEC) R->dec[R->ndec] = Decision{key, val};
  R->ndec++;
  mix(key);
  mix(val);
}
uint64_t decide(DKind k, uint16_t sub, uint64_t idx, uint64_t exploreVal) {
  uint64_t key = mkkey(cur ? cur->id : 255, k, sub, (uint32_t)idx);
  uint64_t v = g_replay ? planGet(key) : exploreVal;
  record(key, v);
  return v;
}

// ---------------------------------------------------------------- hashing
void mix(uint64_t v) {
  g_hash ^= v + 0x9E3779B97F4A7C15ull + (g_hash << 6) + (g_hash >> 2);
  g_hash *= 0xff51afd7ed558ccdull;
  g_hash ^= g_hash >> 32;
}
static void mixTo(uint64_t &h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
}
static uint64_t strh(const char *s) {
  uint64_t h = 1469598103934665603ull;
  while (*s) h = (h ^ (uint8_t)*s++) * 1099511628211ull;
  return h;
}

void traceln(const char *fmt, ...) {
  if (!g_trace) return;
  char b[1024];
  int n = snprintf(b, sizeof b, "[%6llu t=%llu.%06llums T%d] ",
                   (unsigned long long)g_steps,
                   (unsigned long long)(g_now / 1000000),
                   (unsigned long long)(g_now % 1000000), cur ? cur->id : -1);
  va_list ap;
  va_start(ap, fmt);
  n += vsnprintf(b + n, sizeof b - n - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  syscall(SYS_write, g_trace, b, n);
}

// ---------------------------------------------------------------- symbols
struct Sym { uint64_t a, sz; const char *n; };
struct Lib { uint64_t base, lo, hi; Sym *s; size_t n; };
static Lib g_lib[MAXNODE];
static int g_nlib;
void loadSyms(void *handle) {
  struct link_map *lm;
  if (dlinfo(handle, RTLD_DI_LINKMAP, &lm)) return;
  int fd = open(lm->l_name, O_RDONLY);
  if (fd < 0) return;
  struct stat st;
  fstat(fd, &st);
  char *m = (char *)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
  close(fd);
  auto *eh = (Elf64_Ehdr *)m;
  auto *ph = (Elf64_Phdr *)(m + eh->e_phoff);
  Lib &l = g_lib[g_nlib++];
  l.base = lm->l_addr;
  l.lo = ~0ull;
  for (int i = 0; i < eh->e_phnum; i++)
    if (ph[i].p_type == PT_LOAD) {
      uint64_t a = l.base + ph[i].p_vaddr, e = a + ph[i].p_memsz;
      if (a < l.lo) l.lo = a;
      if (e > l.hi) l.hi = e;
      if (ph[i].p_flags & PF_W) rt_add_globals(a, e);
    }
  if (g_nlib > 1) { l.s = g_lib[0].s; l.n = g_lib[0].n; return; }
  auto *sh = (Elf64_Shdr *)(m + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++)
    if (sh[i].sh_type == SHT_SYMTAB) {
      auto *sy = (Elf64_Sym *)(m + sh[i].sh_offset);
      size_t n = sh[i].sh_size / sizeof *sy;
      const char *str = m + sh[sh[i].sh_link].sh_offset;
      l.s = (Sym *)malloc(n * sizeof(Sym));
      for (size_t j = 0; j < n; j++)
        if (ELF64_ST_TYPE(sy[j].st_info) == STT_FUNC && sy[j].st_value)
          l.s[l.n++] = Sym{sy[j].st_value, sy[j].st_size, str + sy[j].st_name};
      qsort(l.s, l.n, sizeof(Sym), [](const void *a, const void *b) {
        auto x = ((Sym *)a)->a, y = ((Sym *)b)->a;
        return x < y ? -1 : x > y;
      });
    }
}
void symname(const void *pc, char *out, size_t n) {
  uint64_t p = (uint64_t)pc - 1;
  for (int i = 0; i < g_nlib; i++) {
    Lib &l = g_lib[i];
    if (p < l.lo || p >= l.hi) continue;
    uint64_t off = p - l.base;
    size_t lo = 0, hi = l.n;
    while (lo < hi) {
      size_t m = (lo + hi) / 2;
      if (l.s[m].a <= off) lo = m + 1; else hi = m;
    }
    if (lo) {
      int st = 0;
      char *d = __cxa_demangle(l.s[lo - 1].n, nullptr, nullptr, &st);
      snprintf(out, n, "%s", d ? d : l.s[lo - 1].n);
      free(d);
      return;
    }
  }
  Dl_info di;
  if (dladdr(pc, &di) && di.dli_sname) {
    snprintf(out, n, "%s", di.dli_sname);
    return;
  }
  snprintf(out, n, "?");
}
static void pcOff(const void *pc, char *out, size_t n) {
  uint64_t p = (uint64_t)pc - 1;
  for (int i = 0; i < g_nlib; i++)
    if (p >= g_lib[i].lo && p < g_lib[i].hi) {
      snprintf(out, n, "node.so+0x%llx", (unsigned long long)(p - g_lib[i].base));
      return;
    }
  snprintf(out, n, "%p", pc);
}
void stackText(Thread *t, char *out, size_t n, int maxf) {
  size_t w = 0;
  out[0] = 0;
  int d = t->sp < SSTK ? t->sp : SSTK;
  for (int i = d - 1; i >= 0 && maxf-- > 0 && w + 300 < n; i--) {
    char s[220], o[40];
    // ss[i] is the call site's return address; the frame is its caller
    symname(t->ss[i], s, sizeof s);
    pcOff(t->ss[i], o, sizeof o);
    s[180] = 0;
    w += snprintf(out + w, n - w, "      called from %s [%s]\n", s, o);
  }
}

// ---------------------------------------------------------------- results
static const char *wkName(int k) {
  static const char *n[] = {"none", "mutex", "cond", "future", "join", "sleep", "net",
                            "once", "static-init", "rwlock", "pred", "settle", "node"};
  return n[k];
}
[[noreturn]] static void finish(int status) {
  R->hash = g_hash;
  R->isig = g_isig;
  R->hsig = g_hsig;
  R->steps = g_steps;
  R->simtime = g_now;
  R->hist = g_nhist;
  R->threads = nT;
  uint64_t pl = 0;
  for (int i = 0; i < nT; i++) pl += T[i].nplain;
  R->plain = pl;
  size_t w = 0;
  for (size_t i = 0; i < g_nhist && w + 120 < sizeof R->sample; i++)
    w += snprintf(R->sample + w, sizeof R->sample - w, "%s(%lld,%lld,%lld,%lld)@T%d;",
                  g_hist[i].kind, (long long)g_hist[i].a, (long long)g_hist[i].b,
                  (long long)g_hist[i].c, (long long)g_hist[i].d, g_hist[i].tid);
  __sync_synchronize();
  R->status = status;
  _exit(status == 1 ? 0 : 1);
}
void vfail(const char *cls, const char *sig, const char *fmt, va_list ap) {
  if (!g_on || R->status) { _exit(9); }
  g_on = false;
  snprintf(R->cls, sizeof R->cls, "%s", cls);
  snprintf(R->sig, sizeof R->sig, "%s", sig ? sig : "");
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  size_t w = 0;
  for (int i = 0; i < nT && w + 2000 < sizeof R->stacks; i++) {
    Thread *t = &T[i];
    if (t->state == T_DONE) continue;
    w += snprintf(R->stacks + w, sizeof R->stacks - w, "  T%d node %d %s%s\n", i, t->node,
                  t == cur ? "RUNNING" : t->state == T_RUN ? "runnable" :
                  t->state == T_DEAD ? "killed" : "blocked on ",
                  t->state == T_BLOCKED ? wkName(t->wk) : "");
    stackText(t, R->stacks + w, sizeof R->stacks - w, 10);
    w += strlen(R->stacks + w);
  }
  mix(strh(cls));
  traceln("VIOLATION %s: %s", cls, R->msg);
  finish(2);
}
void fail(const char *cls, const char *sig, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfail(cls, sig, fmt, ap);
}
void harness(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  snprintf(R->cls, sizeof R->cls, "harness");
  finish(3);
}
static void named(Named *tab, int &n, int cap, const char *name) {
  for (int i = 0; i < n; i++)
    if (!strcmp(tab[i].name, name)) { tab[i].n++; return; }
  if (n < cap) {
    snprintf(tab[n].name, sizeof tab[n].name, "%s", name);
    tab[n].n = 1;
    n++;
  }
}
void fault_hit(const char *k) { named(R->fk, R->nfk, MAXFK, k); traceln("fault %s", k); }

// ---------------------------------------------------------------- switching
static long rawfutex(volatile uint32_t *a, int op, uint32_t v) {
  long ret;
  register long r10 asm("r10") = 0;
  register long r8 asm("r8") = 0;
  register long r9 asm("r9") = 0;
  asm volatile("syscall" : "=a"(ret)
               : "a"(SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10), "r"(r8), "r"(r9)
               : "rcx", "r11", "memory");
  return ret;
}
static void waitBaton(Thread *t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
    rawfutex(&t->go, FUTEX_WAIT_PRIVATE, 0);
}
static void give(Thread *t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  rawfutex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}
static void switchTo(Thread *n, int k) {
  Thread *t = cur;
  if (n == t) return;
  R->switches++;
  mix(((uint64_t)t->id << 56) ^ ((uint64_t)n->id << 48) ^ ((uint64_t)k << 40) ^ t->nsp ^
      (t->nplain << 20));
  mixTo(g_isig, ((uint64_t)n->id << 32) ^ ((uint64_t)k << 24) ^ t->nsp);
  if (g_trace) traceln("switch to T%d (%d)", n->id, k);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
  give(n);
  waitBaton(t);
}

static bool alive(Thread *t) { return t->state == T_RUN || t->state == T_BLOCKED; }
static bool runnable(Thread *t) { return t->state == T_RUN && g_now >= t->stallUntil; }

// The harness' own waits (W_PRED) time out only when nothing else can run.
static void recomputeDl(bool withPred = false) {
  uint64_t d = ~0ull;
  for (int i = 0; i < nT; i++) {
    Thread *t = &T[i];
    if (t->state == T_BLOCKED && t->deadline < d && (withPred || t->wk != W_PRED)) d = t->deadline;
    if (t->state == T_RUN && t->stallUntil > g_now && t->stallUntil < d) d = t->stallUntil;
  }
  g_nextDl = d;
}
static void fireDue(bool withPred = false) {
  for (int i = 0; i < nT; i++) {
    Thread *t = &T[i];
    if (t->state == T_BLOCKED && t->deadline <= g_now && (withPred || t->wk != W_PRED)) {
      t->state = T_RUN;
      t->timedOut = true;
      t->deadline = ~0ull;
    }
  }
  recomputeDl();
}
static void evalPreds() {
  for (int i = 0; i < nT; i++) {
    Thread *t = &T[i];
    if (t->state == T_BLOCKED && t->wk == W_PRED && t->pred) {
      bool ok;
      {
        QuietGuard q;
        ok = t->pred(t->parg);
      }
      if (ok) { t->state = T_RUN; t->timedOut = false; t->deadline = ~0ull; }
    }
  }
}

static int runset(Thread **out) {
  int n = 0;
  for (int i = 0; i < nT; i++)
    if (runnable(&T[i])) out[n++] = &T[i];
  return n;
}
static Thread *rrNext(Thread *t, Thread **rs, int n) {
  for (int i = 0; i < n; i++)
    if (rs[i]->id > t->id) return rs[i];
  return n ? rs[0] : nullptr;
}
static Thread *hiPrio(Thread **rs, int n) {
  Thread *b = rs[0];
  for (int i = 1; i < n; i++)
    if (rs[i]->prio > b->prio) b = rs[i];
  return b;
}

// The caller cannot continue: choose who runs next, moving time if needed.
static Thread *pickBlocked() {
  Thread *rs[MAXT];
  for (;;) {
    evalPreds();
    int n = runset(rs);
    if (n) {
      cur->nblk++;
      Thread *def = rrNext(cur, rs, n), *c = def;
      if (n > 1) {
        if (!g_replay) {
          if (g_fair) c = def;
          else if (C.mode == 1) c = hiPrio(rs, n);
          else if (C.mode == 0) c = rs[g_pol.below(n)];
          decide(K_BLOCK, 0, cur->nblk, c == def ? 0 : 1 + c->id);
        } else {
          uint64_t v = decide(K_BLOCK, 0, cur->nblk, 0);
          if (v && v - 1 < (uint64_t)nT && runnable(&T[v - 1])) c = &T[v - 1];
        }
      }
      return c;
    }
    recomputeDl(true);
    Thread *st = nullptr;
    for (int i = 0; i < nT; i++)
      if (T[i].state == T_BLOCKED && T[i].wk == W_SETTLE &&
          (g_nextDl == ~0ull || g_nextDl > T[i].settleLimit)) { st = &T[i]; break; }
    if (st) { st->state = T_RUN; continue; }
    if (g_nextDl == ~0ull) {
      char what[800]; size_t w = 0; what[0] = 0;
      for (int i = 0; i < nT && w < 600; i++)
        if (T[i].state == T_BLOCKED)
          w += snprintf(what + w, sizeof what - w, "%sT%d:%s", w ? " " : "", i, wkName(T[i].wk));
      fail("deadlock", "", "no thread can run and no timer is pending: %s", what);
    }
    if (g_nextDl > g_now) g_now = g_nextDl;
    if (g_now > g_timeCap) fail("no-progress", "", "main workload not finished after %llu ms of simulated time",
                                (unsigned long long)(g_now / 1000000));
    g_steps++;
    if (g_steps >= g_capHard) fail("livelock", "", "no completion within %llu steps (timers only)", (unsigned long long)g_steps);
    fireDue(true);
  }
}

static Thread *chooseAtSp(SpKind k) {
  Thread *rs[MAXT];
  Thread *t = cur;
  bool self = runnable(t);
  int n = runset(rs);
  if (n == 0) return pickBlocked();
  if (n == 1 && self) return t;
  Thread *def = (!self || k == SP_YIELD || g_fair) ? rrNext(t, rs, n) : t;
  Thread *c = def;
  if (g_replay) {
    uint64_t v = g_fair ? 0 : decide(K_SCHED, 0, t->nsp, 0);
    if (v && v - 1 < (uint64_t)nT && runnable(&T[v - 1])) c = &T[v - 1];
    return c;
  }
  if (g_fair) return def;
  if (C.mode == 0) {
    if (k == SP_YIELD || !self || g_pol.below(C.pnum) == 0) c = rs[g_pol.below(n)];
  } else if (C.mode == 1) {
    if (g_pctI < g_pctN && g_steps >= g_pctNext[g_pctI]) {
      g_pctI++;
      t->prio = --g_pctLow;
    }
    if (k == SP_YIELD) t->prio = --g_pctLow;
    c = hiPrio(rs, n);
  }
  decide(K_SCHED, 0, t->nsp, c == def ? 0 : 1 + c->id);
  return c;
}

void sp(SpKind k) {
  Thread *t = cur;
  if (!t || t->quiet || !g_on) return;
  g_steps++;
  g_now += C.tick;
  t->nsp++;
  if (g_steps >= g_capFair && !g_fair) { g_fair = true; g_faultsOff = true; }
  if (g_steps >= g_capHard)
    fail("livelock", "", "no completion within %llu scheduling points", (unsigned long long)g_steps);
  if ((C.timeOneIn || g_replay) && !g_faultsOff) {
    uint64_t v = 0;
    if (!g_replay && g_pol.below(C.timeOneIn) == 0) v = 1 + g_pol.below(7);
    v = decide(K_TIME, 0, t->nsp, v);
    if (v) {
      fault_hit("slow-thread(time advances)");
      recomputeDl();
      uint64_t before = g_now;
      uint64_t nd = g_nextDl == ~0ull ? g_now : g_nextDl;
      switch (v) {
        case 1: g_now += 10000; break;
        case 2: g_now += 1000000; break;
        case 3: g_now += 20000000; break;
        case 4: if (nd > g_now) g_now = nd; break;
        case 5: if (nd > g_now) g_now = nd + 1000000; break;
        case 6: g_now += 150000000; break;
        default: t->stallUntil = g_now + 3000000; break;
      }
      // bounds of the harness are not consumed by injected delays
      if (uint64_t d = g_now - before) {
        g_timeCap += d;
        for (int i = 0; i < nT; i++)
          if (T[i].state == T_BLOCKED) {
            if (T[i].wk == W_PRED && T[i].deadline != ~0ull) T[i].deadline += d;
            if (T[i].wk == W_SETTLE) T[i].settleLimit += d;
          }
      }
      fireDue();
    }
  }
  if (g_now >= g_nextDl) fireDue();
  if ((g_steps & 31) == 0) evalPreds();
  Thread *n = chooseAtSp(k);
  if (n != t) {
    R->preempts++;
    switchTo(n, k);
  }
}

static void drawPlain(Thread *t) {
  if (g_replay) t->nextPlain = planNextPlain(t->id, t->nplain);
  else if (!C.plainMean || g_fair || g_faultsOff) t->nextPlain = ~0ull;
  else t->nextPlain = t->nplain + 1 + g_pol.below(2 * C.plainMean);
}
// called by rt.cpp when nplain reached nextPlain
void plainPreempt() {
  Thread *t = cur;
  Thread *rs[MAXT];
  int n = runset(rs);
  Thread *c = t;
  if (g_replay) {
    uint64_t v = decide(K_PLAIN, 0, t->nplain, 0);
    if (v && v - 1 < (uint64_t)nT && runnable(&T[v - 1])) c = &T[v - 1];
  } else if (n > 1) {
    c = rs[g_pol.below(n)];
    decide(K_PLAIN, 0, t->nplain, c == t ? 0 : 1 + c->id);
    if (C.mode == 1 && c != t) t->prio = --g_pctLow;
  }
  drawPlain(t);
  if (c != t) {
    R->preempts++;
    fault_hit("preempt-inside-code");
    switchTo(c, SP_PLAIN);
  }
}
void plainCap() { fail("livelock", "", "a thread runs without end (memory access cap)"); }

void block(WaitKind k, const void *obj, uint64_t deadline) {
  Thread *t = cur;
  t->wk = k;
  t->wobj = obj;
  t->deadline = deadline;
  t->dlReal = t->dlRealNext && deadline < ~0ull - 1;
  t->dlRealNext = false;
  t->timedOut = false;
  t->notified = false;
  t->state = T_BLOCKED;
  if (deadline < g_nextDl && k != W_PRED) g_nextDl = deadline;
  Thread *n = pickBlocked();
  if (n != t) switchTo(n, SP_BLOCK);
  t->wk = W_NONE;
  t->wobj = nullptr;
}
void wake(const void *obj, WaitKind k) {
  for (int i = 0; i < nT; i++)
    if (T[i].state == T_BLOCKED && T[i].wk == k && (!obj || T[i].wobj == obj)) {
      T[i].state = T_RUN;
      T[i].notified = true;
      T[i].deadline = ~0ull;
    }
}
int wakeOne(const void *obj, WaitKind k) {
  int c[MAXT], n = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].state == T_BLOCKED && T[i].wk == k && T[i].wobj == obj) c[n++] = i;
  if (!n) return -1;
  uint64_t v = 0;
  if (n > 1) {
    cur->npick++;
    v = decide(K_PICKW, 0, cur->npick, g_fair || g_replay ? 0 : g_pol.below(n));
  }
  int i = c[v % n];
  T[i].state = T_RUN;
  T[i].notified = true;
  T[i].deadline = ~0ull;
  return i;
}

uint64_t faultDecide(const char *kind, uint64_t oneIn, uint64_t n) {
  Thread *t = cur;
  if (!t || t->quiet || !g_on || g_faultsOff) return 0;
  uint16_t sub = (uint16_t)(strh(kind) & 0xffff);
  uint32_t idx = 0;
  int i = 0;
  for (; i < t->nfc; i++)
    if (t->fcount[i].sub == sub) break;
  if (i == t->nfc) {
    if (t->nfc == 48) return 0;
    t->fcount[t->nfc++] = {sub, 0};
  }
  idx = ++t->fcount[i].n;
  uint64_t v = 0;
  if (!g_replay && C.faultScale && g_pol.below(oneIn * C.faultScale) == 0) v = 1 + g_pol.below(n);
  v = decide(K_FAULT, sub, idx, v);
  if (v > n) v = n;
  if (v) fault_hit(kind);
  return v;
}

// ---------------------------------------------------------------- threads
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static pthread_key_t g_exitKey;

static void threadExit(void *p) {
  Thread *t = (Thread *)p;
  if (cur != t) return;
  // drop to the end of the destructor order: run last
  t->quiet++;
  vcRelease(t);
  t->state = T_DONE;
  wake(t, W_JOIN);
  if (g_trace) traceln("thread exit");
  if (t->id == 0) harness("thread 0 left its body");
  Thread *n = pickBlocked();
  R->switches++;
  mix(0xE0000000ull + t->id * 64 + n->id);
  mixTo(g_isig, 0xE000 + n->id);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
  give(n);
  for (;;) waitBaton(t);
}
static void *trampoline(void *p) {
  Thread *t = (Thread *)p;
  waitBaton(t);
  cur = t;
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = (void *)(REGION + (uint64_t)t->id * STACKSZ + 4096);
  ss.ss_size = 60 * 1024;
  sigaltstack(&ss, nullptr);
  pthread_setspecific(g_exitKey, t);
  t->ret = t->fn(t->arg);
  return t->ret;
}
Thread *newThread(void *(*fn)(void *), void *arg, int node) {
  if (nT >= MAXT) harness("too many threads in one run");
  Thread *t = &T[nT];
  memset(t, 0, sizeof *t);
  t->id = nT++;
  t->node = node;
  t->state = T_RUN;
  t->deadline = ~0ull;
  t->fn = fn;
  t->arg = arg;
  t->prio = 1000 + (int64_t)(g_replay ? 0 : g_pol.below(1000000));
  drawPlain(t);
  if (cur) {
    for (int i = 0; i < MAXT; i++) t->vc[i] = cur->vc[i];
    cur->vc[cur->id]++;
  }
  t->vc[t->id] = 1;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, (void *)(REGION + (uint64_t)t->id * STACKSZ + 65536), STACKSZ - 65536);
  int e = real_create(&t->pt, &a, trampoline, t);
  if (e) harness("pthread_create failed: %d", e);
  return t;
}

// ---------------------------------------------------------------- crash handling
static void onSig(int sg, siginfo_t *si, void *uc) {
  auto *u = (ucontext_t *)uc;
  void *pc = (void *)u->uc_mcontext.gregs[REG_RIP];
  char s[300];
  symname((char *)pc + 1, s, sizeof s);
  char o[60];
  pcOff((char *)pc + 1, o, sizeof o);
  if (sg == SIGSEGV || sg == SIGBUS) {
    uint64_t a = (uint64_t)si->si_addr;
    fail("crash", s, "signal %d at address %s0x%llx in %s [%s]", sg, a < 4096 ? "(null page) " : "",
         a < 65536 ? (unsigned long long)a : 0ull, s, o);
  }
  fail("crash", s, "signal %d in %s [%s]", sg, s, o);
}
static void onTerminate() {
  std::exception_ptr e = std::current_exception();
  char what[512] = "terminate() without exception (joinable thread destroyed?)";
  char sig[200] = "terminate";
  if (cur) cur->quiet++;
  if (e) {
    try { std::rethrow_exception(e); }
    catch (const std::exception &x) {
      snprintf(what, sizeof what, "uncaught %s: %s", typeid(x).name(), x.what());
      snprintf(sig, sizeof sig, "%s", typeid(x).name());
    }
    catch (...) { snprintf(what, sizeof what, "uncaught exception of unknown type"); }
  }
  fail("terminate", sig, "%s", what);
}

// ---------------------------------------------------------------- run
static int g_logLevels;
static void nodeInit(int k) {
  if (g_logLevels)
    if (auto f = (void (*)(int))dlsym(g_libs[k], "sim_node_init")) f(g_logLevels);
}
static void *t0main(void *) {
  g_logLevels = sim_cfg(6) == 1 ? (sim_cfg(2) ? 0xff : 0x0f) : 0;
  if (g_logLevels) fault_hit("logging-on");
  nodeInit(0);
  g_sc->body();
  traceln("scenario body done");
  if (R->status == 0) finish(1);
  return nullptr;
}
void runScenario(const SimScenario *sc, uint64_t seed, const Decision *plan, size_t nplan,
                 bool replay, int trace) {
  g_sc = sc;
  g_replay = replay;
  g_trace = trace;
  g_scflags = sc->flags;
  g_norace = sc->flags & SIM_F_NORACE;
  g_softnet = sc->flags & SIM_F_SOFTNET;
  memset(g_poor, 0, sizeof g_poor);
  g_allocMax = 0;
  g_now = 1000ull * 1000000000ull;
  g_hash = 0x1234;
  g_nextDl = ~0ull;
  g_hist = (SimEv *)mmap(nullptr, MAXHIST * sizeof(SimEv), PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Rng base{seed};
  g_wrk.s = base.next();
  g_pol.s = base.next();
  if (replay) planLoad(plan, nplan);
  g_capFair = sc->stepCap ? sc->stepCap : 30000;
  g_capHard = g_capFair + 60000;
  g_timeCap = g_now + (sc->timeCapMs ? sc->timeCapMs : 600000) * 1000000ull;
  // swarm configuration of this run
  Rng c{base.next()};
  memset(&C, 0, sizeof C);
  uint64_t m = c.below(10);
  if (m < 5) { C.mode = 0; static const uint32_t ps[] = {2, 3, 5, 10, 25, 60}; C.pnum = ps[c.below(6)]; }
  else { C.mode = 1; C.pctDepth = 1 + c.below(6); C.pctLen = 40ull << c.below(6); }
  static const uint64_t pm[] = {0, 0, 0, 25, 80, 300, 1000, 4000};
  C.plainMean = (sc->flags & SIM_F_NONPREEMPT_PLAIN) ? 0 : pm[c.below(8)];
  static const uint64_t tm[] = {0, 0, 0, 400, 100, 40};
  C.timeOneIn = (sc->flags & SIM_F_TIMESKEW) ? tm[c.below(6)] : 0;
  static const uint64_t su[] = {0, 0, 20, 5};
  C.spurOneIn = (sc->flags & SIM_F_NOSPUR) ? 0 : su[c.below(4)];
  static const uint64_t fs[] = {0, 1, 1, 2, 4};
  C.faultScale = fs[c.below(5)];
  static const uint64_t tk[] = {20, 100, 1000};
  // these two alter behaviour and are part of the recorded decisions
  cur = nullptr;
  static const uint8_t fl[] = {0x00, 0xCD, 0xFF};
  R->ndec = 0;
  C.fill = fl[decide(K_CFG, 1, 0, c.below(3)) % 3];
  C.tick = tk[decide(K_CFG, 2, 0, c.below(3)) % 3];
  if (C.mode == 1) {
    uint64_t pts[16];
    for (int i = 0; i < C.pctDepth; i++) pts[i] = c.below(C.pctLen);
    for (int i = 0; i < C.pctDepth; i++)
      for (int j = i + 1; j < C.pctDepth; j++)
        if (pts[j] < pts[i]) { uint64_t x = pts[i]; pts[i] = pts[j]; pts[j] = x; }
    for (int i = 0; i < C.pctDepth; i++) g_pctNext[i] = pts[i];
    g_pctN = C.pctDepth;
  }
  g_nodePid[0] = 1000;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSig;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  std::set_terminate(onTerminate);
  real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
  pthread_key_create(&g_exitKey, threadExit);
  net_reset();
  rt_start();
  g_on = true;
  Thread *t = newThread(t0main, nullptr, 0);
  give(t);
  for (;;) pause();
}
}  // namespace sim

using namespace sim;

// ================================================================ scenario API
extern "C" {
uint64_t sim_choose(uint64_t n) {
  if (n <= 1) return 0;
  Thread *t = cur;
  uint64_t v = decide(K_WORK, 0, ++t->nwork, g_replay ? 0 : g_wrk.below(n));
  return v < n ? v : v % n;
}
uint64_t sim_cfg(uint64_t n) {
  if (n <= 1) return 0;
  Thread *t = cur;
  uint64_t v = decide(K_CFG, 9, ++t->ncfg, g_replay ? 0 : g_wrk.below(n));
  return v % n;
}
uint64_t sim_fault(const char *kind, uint64_t oneIn, uint64_t n) {
  return faultDecide(kind, oneIn, n);
}
uint64_t sim_ev(const char *kind, int64_t a, int64_t b, int64_t c, int64_t d) {
  if (!g_on) return 0;
  if (g_nhist >= MAXHIST) fail("livelock", "history", "history overflow: more than %zu events", MAXHIST);
  SimEv &e = g_hist[g_nhist++];
  e = SimEv{kind, a, b, c, d, ++g_seq, g_now, cur ? cur->id : -1, cur ? cur->node : 0};
  uint64_t h = strh(kind);
  mix(h); mix(a); mix(b); mix(c); mix(d);
  mixTo(g_hsig, h); mixTo(g_hsig, a); mixTo(g_hsig, b); mixTo(g_hsig, c);
  mixTo(g_hsig, e.tid);
  if (g_trace) traceln("EV %s %lld %lld %lld %lld", kind, (long long)a, (long long)b, (long long)c, (long long)d);
  return g_seq;
}
size_t sim_hist(const SimEv **out) { *out = g_hist; return g_nhist; }
void sim_probe(const char *name) { named(R->probe, R->nprobe, MAXPROBE, name); }
void sim_fail(const char *cls, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfail(cls, "", fmt, ap);
}
uint64_t sim_now() { return g_now; }
uint64_t sim_seq() { return g_seq; }
void sim_yield() { sp(SP_USER); }
int sim_tid() { return cur ? cur->id : -1; }
int sim_node() { return cur ? cur->node : 0; }
void sim_node_poor(uint64_t oneIn) { if (cur) g_poor[cur->node] = (uint32_t)oneIn; }
void sim_sleep(uint64_t ns) {
  sp(SP_USER);
  block(W_SLEEP, nullptr, g_now + ns);
}
bool sim_wait(bool (*pred)(void *), void *arg, uint64_t timeout_ns) {
  Thread *t = cur;
  sp(SP_USER);
  {
    QuietGuard q;
    if (pred(arg)) return true;
  }
  uint64_t until = timeout_ns ? g_now + timeout_ns : ~0ull;
  for (;;) {
    t->pred = pred;
    t->parg = arg;
    block(W_PRED, nullptr, until);
    t->pred = nullptr;
    // synchronises with whatever made it true (harness-level edge)
    QuietGuard q;
    if (pred(arg)) return true;
    if (g_now >= until) return false;
    // it was true when this thread was woken and is not any more
  }
}
void sim_settle(uint64_t horizon) {
  cur->settleLimit = g_now + horizon;
  block(W_SETTLE, nullptr, ~0ull);
}
int sim_live_threads() {
  int n = 0;
  for (int i = 0; i < nT; i++) n += alive(&T[i]);
  return n;
}
void sim_quiet(int d) { if (cur) cur->quiet += d; }
void sim_clock_jump(int64_t ns) {
  g_wallOff += ns;
  fault_hit("wall-clock-jump");
  if (g_trace) traceln("wall clock jumps by %lld ns", (long long)ns);
  // like the kernel: waits until a wall clock time follow the clock
  for (int i = 0; i < nT; i++)
    if (T[i].state == T_BLOCKED && T[i].dlReal && T[i].deadline != ~0ull) {
      int64_t d = (int64_t)T[i].deadline - ns;
      T[i].deadline = d < (int64_t)g_now ? g_now : (uint64_t)d;
      if (T[i].deadline < g_nextDl) g_nextDl = T[i].deadline;
    }
}
void sim_faults_stop() {
  g_faultsOff = true;
  for (int i = 0; i < nT; i++) T[i].nextPlain = g_replay ? T[i].nextPlain : ~0ull;
}
void sim_stall_thread(int tid, uint64_t ns) {
  T[tid].stallUntil = g_now + ns;
  recomputeDl();
  fault_hit("stalled-thread");
}
struct NodeArg { void (*fn)(void *); void *arg; int node; };
static void *nodeMain(void *p) {
  auto *a = (NodeArg *)p;
  nodeInit(a->node);
  a->fn(a->arg);
  return nullptr;
}
int sim_node_start(const char *entry, void *arg, int pid) {
  if (g_nNodes >= g_nlibs || g_nNodes >= MAXNODE) return -1;
  int k = g_nNodes++;
  auto *a = (NodeArg *)malloc(sizeof(NodeArg));
  a->fn = (void (*)(void *))dlsym(g_libs[k], entry);
  if (!a->fn) harness("no symbol %s", entry);
  a->arg = arg;
  a->node = k;
  g_nodePid[k] = pid;
  Thread *t = newThread(nodeMain, a, k);
  g_nodeMain[k] = t->id;
  traceln("node %d starts (pid %d)", k, pid);
  sp(SP_CREATE);
  return k;
}
void sim_node_kill(int node) {
  traceln("node %d killed", node);
  g_nodeDead[node] = true;
  for (int i = 0; i < nT; i++)
    if (T[i].node == node && alive(&T[i])) T[i].state = T_DEAD;
  net_kill_node(node);
  wake(nullptr, W_NODE);
  fault_hit("node-crash");
  sp(SP_USER);
}
bool sim_node_done(int node) {
  Thread *t = &T[g_nodeMain[node]];
  return t->state == T_DONE || t->state == T_DEAD;
}
void sim_wait_node(int node) {
  Thread *t = &T[g_nodeMain[node]];
  sp(SP_JOIN);
  while (t->state != T_DONE && t->state != T_DEAD) block(W_JOIN, t, ~0ull);
  vcAcquire(t);
}
void sim_alloc_limit(uint64_t n) { g_allocMax = n; }
void sim_alloc_faults(int on, uint64_t oneIn) {
  cur->allocFault = on;
  cur->allocOneIn = oneIn;
}
void sim_thread_faults(uint64_t oneIn) { cur->threadOneIn = oneIn; }

// ================================================================ pthreads
#define ACTIVE (cur && g_on)

static void lockMutex(pthread_mutex_t *m) {
  auto &d = m->__data;
  int me = cur->id + 1;
  bool rec = (d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  if (d.__lock == me) {
    if (rec) { d.__count++; return; }
    char s[1200];
    stackText(cur, s, sizeof s, 4);
    fail("deadlock", "self", "thread locks a mutex it already holds:\n%s", s);
  }
  while (d.__lock) block(W_MUTEX, m, ~0ull);
  d.__lock = me;
  d.__count = 1;
  vcAcquire(m);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!ACTIVE) return 0;
  if (cur->quiet) {  // bookkeeping never contends in a meaningful way
    return 0;
  }
  checkLive(m, sizeof *m, "lock of a mutex");
  sp(SP_LOCK);
  lockMutex(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!ACTIVE || cur->quiet) return 0;
  checkLive(m, sizeof *m, "trylock of a mutex");
  sp(SP_TRYLOCK);
  auto &d = m->__data;
  if (d.__lock && d.__lock != cur->id + 1) return EBUSY;
  if (d.__lock == cur->id + 1) {
    if ((d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { d.__count++; return 0; }
    return EBUSY;
  }
  d.__lock = cur->id + 1;
  d.__count = 1;
  vcAcquire(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!ACTIVE || cur->quiet) return 0;
  checkLive(m, sizeof *m, "unlock of a mutex");
  auto &d = m->__data;
  if (d.__lock != cur->id + 1) {
    char s[1200];
    stackText(cur, s, sizeof s, 4);
    fail("mutex-misuse", "unlock", "unlock of a mutex not held by the thread (owner T%d):\n%s", d.__lock - 1, s);
  }
  if (--d.__count) return 0;
  vcRelease(m);
  d.__lock = 0;
  wake(m, W_MUTEX);
  sp(SP_UNLOCK);
  return 0;
}
static uint64_t toDeadline(clockid_t c, const struct timespec *ts);
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) {
  if (!ACTIVE || cur->quiet) return 0;
  checkLive(m, sizeof *m, "lock of a mutex");
  sp(SP_LOCK);
  auto &d = m->__data;
  uint64_t dl = toDeadline(c, ts);
  if (d.__lock == cur->id + 1 && (d.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { d.__count++; return 0; }
  while (d.__lock) {
    if (g_now >= dl) return ETIMEDOUT;
    block(W_MUTEX, m, dl);
  }
  d.__lock = cur->id + 1;
  d.__count = 1;
  vcAcquire(m);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts);
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  memset(m, 0, sizeof *m);
  if (a) {
    int ty = 0;
    pthread_mutexattr_gettype(a, &ty);
    m->__data.__kind = ty;
  }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (ACTIVE && !cur->quiet && m->__data.__lock)
    fail("mutex-misuse", "destroy", "a locked mutex is destroyed");
  return 0;
}

// ---- condition variables
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl) {
  checkLive(c, sizeof *c, "wait on a condition variable");
  sp(SP_CWAIT);
  auto &d = m->__data;
  if (d.__lock != cur->id + 1) fail("mutex-misuse", "cond-wait", "condition wait without holding the mutex");
  int cnt = d.__count;
  bool spur = false;
  cur->nspur++;
  if (!g_faultsOff && (C.spurOneIn || g_replay))
    spur = decide(K_SPUR, 0, cur->nspur, !g_replay && g_pol.below(C.spurOneIn) == 0) != 0;
  vcRelease(m);
  d.__lock = 0;
  d.__count = 0;
  wake(m, W_MUTEX);
  int ret = 0;
  if (spur) {
    fault_hit("spurious-wakeup");
    sp(SP_CWAIT);
  } else if (dl <= g_now) {
    sp(SP_CWAIT);
    ret = ETIMEDOUT;
  } else {
    block(W_COND, c, dl);
    if (!cur->notified && cur->timedOut) ret = ETIMEDOUT;
  }
  while (d.__lock) block(W_MUTEX, m, ~0ull);
  d.__lock = cur->id + 1;
  d.__count = cnt;
  vcAcquire(m);
  return ret;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!ACTIVE || cur->quiet) return 0;
  return condWait(c, m, ~0ull);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!ACTIVE || cur->quiet) return ETIMEDOUT;
  return condWait(c, m, toDeadline(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  if (!ACTIVE || cur->quiet) return ETIMEDOUT;
  return condWait(c, m, toDeadline(k, ts));
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!ACTIVE || cur->quiet) return 0;
  checkLive(c, sizeof *c, "notify of a condition variable");
  sp(SP_NOTIFY);
  checkLive(c, sizeof *c, "notify of a condition variable");
  wakeOne(c, W_COND);
  sp(SP_NOTIFY);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!ACTIVE || cur->quiet) return 0;
  checkLive(c, sizeof *c, "notify of a condition variable");
  sp(SP_NOTIFY);
  checkLive(c, sizeof *c, "notify of a condition variable");
  wake(c, W_COND);
  sp(SP_NOTIFY);
  return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
  if (!ACTIVE || cur->quiet) return 0;
  for (int i = 0; i < nT; i++)
    if (T[i].state == T_BLOCKED && T[i].wk == W_COND && T[i].wobj == c)
      fail("use-after-free", "cond", "a condition variable is destroyed while T%d waits on it", i);
  return 0;
}

// ---- rwlock: state in the object: __readers = readers, __cur_writer = owner+1
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (!ACTIVE || cur->quiet) return 0;
  checkLive(l, sizeof *l, "lock of a rwlock");
  sp(SP_LOCK);
  auto &d = l->__data;
  if (d.__cur_writer == cur->id + 1) fail("deadlock", "self", "read lock of a rwlock the thread holds for writing");
  while (d.__cur_writer) block(W_RWLOCK, l, ~0ull);
  d.__readers++;
  vcAcquire(l);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (!ACTIVE || cur->quiet) return 0;
  checkLive(l, sizeof *l, "lock of a rwlock");
  sp(SP_LOCK);
  auto &d = l->__data;
  if (d.__cur_writer == cur->id + 1) fail("deadlock", "self", "write lock of a rwlock the thread holds for writing");
  while (d.__cur_writer || d.__readers) block(W_RWLOCK, l, ~0ull);
  d.__cur_writer = cur->id + 1;
  vcAcquire(l);
  vcAcquire((char *)l + 1);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  if (!ACTIVE || cur->quiet) return 0;
  sp(SP_TRYLOCK);
  if (l->__data.__cur_writer) return EBUSY;
  l->__data.__readers++;
  vcAcquire(l);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  if (!ACTIVE || cur->quiet) return 0;
  sp(SP_TRYLOCK);
  if (l->__data.__cur_writer || l->__data.__readers) return EBUSY;
  l->__data.__cur_writer = cur->id + 1;
  vcAcquire(l);
  vcAcquire((char *)l + 1);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!ACTIVE || cur->quiet) return 0;
  auto &d = l->__data;
  if (d.__cur_writer == cur->id + 1) {
    vcRelease(l);
    d.__cur_writer = 0;
  } else if (d.__readers > 0 && !d.__cur_writer) {
    vcRelease((char *)l + 1);
    d.__readers--;
  } else
    fail("mutex-misuse", "rwunlock", "unlock of a rwlock that is not held");
  wake(l, W_RWLOCK);
  sp(SP_UNLOCK);
  return 0;
}
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }

// ---- threads
int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!ACTIVE) {
    auto rc = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    return rc(out, a, fn, arg);
  }
  if (cur->threadOneIn && faultDecide("thread-EAGAIN", cur->threadOneIn, 1)) return EAGAIN;
  Thread *t = newThread(fn, arg, cur->node);
  *out = t->pt;
  sp(SP_CREATE);
  return 0;
}
static Thread *byPt(pthread_t p) {
  for (int i = 0; i < nT; i++)
    if (pthread_equal(T[i].pt, p)) return &T[i];
  return nullptr;
}
int pthread_join(pthread_t p, void **ret) {
  if (!ACTIVE) return 0;
  Thread *t = byPt(p);
  if (!t) return ESRCH;
  if (t == cur) return EDEADLK;
  sp(SP_JOIN);
  while (t->state != T_DONE) block(W_JOIN, t, ~0ull);
  vcAcquire(t);
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!ACTIVE) return 0;
  Thread *t = byPt(p);
  if (t) t->detached = true;
  return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!ACTIVE || cur->quiet) {
    if (*o != 2) { *o = 1; fn(); *o = 2; }
    return 0;
  }
  sp(SP_ONCE);
  while (*o == 1) block(W_ONCE, o, ~0ull);
  if (*o == 2) { vcAcquire(o); return 0; }
  *o = 1;
  try { fn(); }
  catch (...) {
    *o = 0;
    wake(o, W_ONCE);
    throw;
  }
  *o = 2;
  vcRelease(o);
  wake(o, W_ONCE);
  return 0;
}
int sched_yield() noexcept {
  if (!ACTIVE) return 0;
  sp(SP_YIELD);
  return 0;
}

// ---- function statics
int __cxa_guard_acquire(uint8_t *g) {
  if (!ACTIVE || cur->quiet) {
    if (g[0]) return 0;
    g[1] = 1;
    return 1;
  }
  sp(SP_GUARD);
  for (;;) {
    if (g[0]) { vcAcquire(g); return 0; }
    if (!g[1]) { g[1] = 1; g[2] = (uint8_t)(cur->id + 1); return 1; }
    if (g[2] == cur->id + 1) fail("deadlock", "static-init", "recursive initialisation of a function static");
    block(W_GUARD, g, ~0ull);
  }
}
void __cxa_guard_release(uint8_t *g) {
  g[1] = 0;
  g[0] = 1;
  if (!ACTIVE || cur->quiet) return;
  vcRelease(g);
  wake(g, W_GUARD);
  sp(SP_GUARD);
}
void __cxa_guard_abort(uint8_t *g) {
  g[1] = 0;
  if (!ACTIVE || cur->quiet) return;
  wake(g, W_GUARD);
}

// ================================================================ time
static const int64_t WALL0 = 1700000000ll * 1000000000ll;
static uint64_t toDeadline(clockid_t c, const struct timespec *ts) {
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
  if (c == CLOCK_REALTIME) v -= WALL0 + g_wallOff;
  cur->dlRealNext = c == CLOCK_REALTIME;
  if (v < 0) return 0;
  if (v > (__int128)4000000000ll * 1000000000ll) return ~0ull - 1;
  return (uint64_t)v;
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (!ACTIVE) return (int)syscall(SYS_clock_gettime, c, ts);
  if (!cur->quiet) {
    g_now += C.tick;
    if (g_now >= g_nextDl) fireDue();
  }
  int64_t v = (int64_t)g_now;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v += WALL0 + g_wallOff;
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  sp(SP_CLOCK);
  return 0;
}
time_t time(time_t *t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *rem) {
  if (!ACTIVE) return 0;
  sp(SP_YIELD);
  uint64_t dl = (flags & TIMER_ABSTIME) ? toDeadline(c, ts)
                                        : g_now + ts->tv_sec * 1000000000ull + ts->tv_nsec;
  if (dl > g_now) block(W_SLEEP, nullptr, dl);
  if (rem) rem->tv_sec = rem->tv_nsec = 0;
  return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
  return clock_nanosleep(CLOCK_MONOTONIC, 0, ts, rem);
}
int usleep(useconds_t us) {
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return clock_nanosleep(CLOCK_MONOTONIC, 0, &ts, nullptr);
}
pid_t getpid() noexcept {
  if (!ACTIVE) return (pid_t)syscall(SYS_getpid);
  return g_nodePid[cur->node];
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept {
  const char *b = strrchr(f, '/');
  if (!g_on) { fprintf(stderr, "assert %s %s:%u\n", e, f, l); abort(); }
  fail("assert", fn, "assertion `%s' failed at %s:%u", e, b ? b + 1 : f, l);
}
}  // extern "C"

// ================================================================ std::future
namespace std {
struct __atomic_futex_unsigned_base {
  bool _M_futex_wait_until(unsigned *addr, unsigned val, bool has_timeout,
                                  chrono::seconds s, chrono::nanoseconds ns);
  bool _M_futex_wait_until_steady(unsigned *addr, unsigned val, bool has_timeout,
                                         chrono::seconds s, chrono::nanoseconds ns);
  static void _M_futex_notify_all(unsigned *addr);
};
static bool fwait(unsigned *addr, unsigned val, uint64_t dl) {
  if (!ACTIVE) return true;
  checkLive(addr, 4, "wait on a future");
  sp(SP_FUTEX);
  if (*(volatile unsigned *)addr != val) return true;
  if (dl <= g_now) return false;
  block(W_FUTEX, addr, dl);
  return cur->notified || !cur->timedOut;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *addr, unsigned val, bool has,
                                                       chrono::seconds s, chrono::nanoseconds ns) {
  struct timespec ts = {(time_t)s.count(), (long)ns.count()};
  return fwait(addr, val, has ? toDeadline(CLOCK_REALTIME, &ts) : ~0ull);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *addr, unsigned val, bool has,
                                                              chrono::seconds s, chrono::nanoseconds ns) {
  struct timespec ts = {(time_t)s.count(), (long)ns.count()};
  return fwait(addr, val, has ? toDeadline(CLOCK_MONOTONIC, &ts) : ~0ull);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *addr) {
  if (!ACTIVE) return;
  sp(SP_FUTEX);
  wake(addr, W_FUTEX);
  sp(SP_FUTEX);
}
}  // namespace std
