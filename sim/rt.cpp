// Run-time for code compiled with -fsanitize=thread (only the instrumentation
// of the compiler is used, not its library): scheduling points at atomics,
// optional preemption at plain accesses, a happens-before race detector and a
// never-reusing heap with use-after-free / out-of-bounds detection.
#include <new>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>

#include "core.h"

namespace sim {
void plainPreempt();
void plainCap();

static uint8_t *st_shadow;        // one byte per 8 bytes of region
struct Slot { uint32_t clk; uint8_t tid, mask, flags, used; const void *pc; };
enum { F_W = 1, F_AT = 2, F_FREE = 4 };
struct Cell { Slot s[4]; };
static Cell *rc_shadow;           // one cell per 8 bytes of region
static uint64_t g_bump = HEAP;
static struct { uint64_t lo, hi; } g_glob[MAXNODE * 4];
static int g_nglob;
static Cell *g_gcell[MAXNODE * 4];

struct Hdr {                      // in front of each block
  uint64_t magic;
  uint64_t size;
  int32_t atid, ftid;
  const void *astk[5];
  const void *fstk[5];
  uint64_t pad;
};
static_assert(sizeof(Hdr) % 16 == 0, "");
constexpr uint64_t MAGIC = 0x51b10c4a110ca7edull;

void rt_init() {
  void *p = mmap((void *)REGION, REGIONSZ, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)REGION) { perror("mmap region"); _exit(7); }
  st_shadow = (uint8_t *)mmap(nullptr, REGIONSZ / 8, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  rc_shadow = (Cell *)mmap(nullptr, REGIONSZ / 8 * sizeof(Cell), PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (st_shadow == MAP_FAILED || rc_shadow == MAP_FAILED) { perror("mmap shadow"); _exit(7); }
  for (int i = 0; i < MAXT; i++)  // below each stack: alt stack, then a guard page
    mprotect((void *)(REGION + i * STACKSZ + 65536), 4096, PROT_NONE);
}
void rt_add_globals(uint64_t lo, uint64_t hi) {
  if (g_nglob >= MAXNODE * 4) return;
  lo &= ~7ull;
  g_glob[g_nglob] = {lo, hi};
  g_gcell[g_nglob] = (Cell *)mmap(nullptr, ((hi - lo) / 8 + 2) * sizeof(Cell), PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_nglob++;
}
void rt_start() {}

// ---------------------------------------------------------------- vector clocks of objects
struct VObj { const void *key; uint32_t vc[MAXT]; };
constexpr size_t NVOBJ = 1 << 15;
static VObj *g_vobj;
static size_t g_nvobj;
static VObj *vobj(const void *k, bool create) {
  if (!g_vobj)
    g_vobj = (VObj *)mmap(nullptr, NVOBJ * sizeof(VObj), PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t h = ((uint64_t)k * 0x9E3779B97F4A7C15ull) >> 40 & (NVOBJ - 1);
  while (g_vobj[h].key && g_vobj[h].key != k) h = (h + 1) & (NVOBJ - 1);
  if (g_vobj[h].key) return &g_vobj[h];
  if (!create) return nullptr;
  if (++g_nvobj > NVOBJ * 3 / 4) harness("too many synchronisation objects");
  g_vobj[h].key = k;
  return &g_vobj[h];
}
void vcAcquire(const void *o) {
  VObj *v = vobj(o, false);
  if (!v) return;
  uint32_t *c = cur->vc;
  for (int i = 0; i < nT; i++)
    if (v->vc[i] > c[i]) c[i] = v->vc[i];
}
void vcRelease(const void *o) {
  VObj *v = vobj(o, true);
  uint32_t *c = cur->vc;
  for (int i = 0; i < nT; i++)
    if (c[i] > v->vc[i]) v->vc[i] = c[i];
  c[cur->id]++;
}
void vcReleaseStore(const void *o) {
  VObj *v = vobj(o, true);
  memcpy(v->vc, cur->vc, sizeof v->vc);
  cur->vc[cur->id]++;
}

// ---------------------------------------------------------------- reports
static void frames(const void *const *f, int n, char *out, size_t sz) {
  size_t w = 0;
  out[0] = 0;
  for (int i = 0; i < n && f[i] && w + 260 < sz; i++) {
    char s[220];
    symname(f[i], s, sizeof s);
    s[160] = 0;
    w += snprintf(out + w, sz - w, "%s%s", i ? " < " : "", s);
  }
}
static void curFrames(const void *pc, const void **f, int n) {
  int k = 0;
  if (pc) f[k++] = pc;
  int d = cur->sp < SSTK ? cur->sp : SSTK;
  for (int i = d - 1; i >= 0 && k < n; i--) f[k++] = cur->ss[i];
  for (; k < n; k++) f[k] = nullptr;
}
[[noreturn]] static void badMem(const char *cls, const void *p, size_t n, const char *what, const void *pc) {
  cur->quiet++;
  // find the block
  uint64_t a = (uint64_t)p & ~15ull;
  Hdr *h = nullptr;
  for (int i = 0; i < 65536 && a >= HEAP; i++, a -= 16) {
    Hdr *c = (Hdr *)a;
    if (c->magic == MAGIC) { h = c; break; }
  }
  const void *f[5];
  curFrames(pc, f, 5);
  char s1[1200], s2[1200] = "", s3[1200] = "", fn[256];
  frames(f, 5, s1, sizeof s1);
  symname(f[0], fn, sizeof fn);
  if (h) {
    frames(h->astk, 5, s2, sizeof s2);
    if (h->ftid >= 0) frames(h->fstk, 5, s3, sizeof s3);
  }
  fail(cls, fn,
       "%s of %zu bytes at offset %lld of a %llu byte block\n    by T%d: %s\n    block allocated by T%d: %s\n    freed by T%d: %s",
       what, n, h ? (long long)((uint64_t)p - (uint64_t)(h + 1)) : -1ll,
       h ? (unsigned long long)h->size : 0ull, cur->id, s1, h ? h->atid : -1, s2,
       h ? h->ftid : -1, s3);
}
static inline bool inHeap(uint64_t a) { return a >= HEAP && a < REGION_END; }
static void stateCheck(uint64_t a, size_t n, bool w, const void *pc, const char *what) {
  uint64_t e = a + n;
  for (uint64_t g = a & ~7ull; g < e; g += 8) {
    uint8_t s = st_shadow[(g - REGION) >> 3];
    uint64_t lastInG = (e < g + 8 ? e : g + 8) - g;  // bytes used of the granule
    if (s >= 1 && s <= 8 && lastInG <= s) continue;
    if (s == 0xF) badMem("use-after-free", (void *)a, n, what, pc);
    badMem("heap-out-of-bounds", (void *)a, n, what, pc);
  }
}
void checkLive(const void *p, size_t n, const char *what) {
  if (!cur || cur->quiet || !g_on) return;
  if (inHeap((uint64_t)p)) {
    char b[80];
    snprintf(b, sizeof b, "%s in freed or invalid memory:", what);
    uint64_t a = (uint64_t)p, e = a + n;
    for (uint64_t g = a & ~7ull; g < e; g += 8) {
      uint8_t s = st_shadow[(g - REGION) >> 3];
      if (s >= 1 && s <= 8) continue;
      badMem(s == 0xF ? "use-after-free" : "heap-out-of-bounds", p, n, b, nullptr);
    }
  }
}
[[noreturn]] static void race(Slot &o, const void *p, bool w, const void *pc, bool freeing) {
  cur->quiet++;
  const void *f[5];
  curFrames(pc, f, 5);
  char s1[1200], a[260], b[260], s2[1200];
  frames(f, 5, s1, sizeof s1);
  symname(f[0], a, sizeof a);
  symname(o.pc, b, sizeof b);
  a[200] = b[200] = 0;
  const void *of[1] = {o.pc};
  frames(of, 1, s2, sizeof s2);
  char sig[512];
  bool sw = strcmp(a, b) > 0;
  snprintf(sig, sizeof sig, "%s|%s", sw ? b : a, sw ? a : b);
  fail("data-race", sig, "%s by T%d: %s\n    is not ordered with the earlier %s by T%d in %s", freeing ? "delete" : w ? "write" : "read",
       cur->id, s1, o.flags & F_FREE ? "delete" : o.flags & F_W ? "write" : "read", o.tid, s2);
}
static inline void raceCell(Cell &c, uint8_t mask, uint8_t fl, const void *p, const void *pc) {
  Thread *t = cur;
  Slot *dst = nullptr;
  for (int i = 0; i < 4; i++) {
    Slot &s = c.s[i];
    if (!s.used) { if (!dst) dst = &s; continue; }
    if (s.tid == t->id) {
      if ((s.mask & mask) == s.mask && ((fl & F_W) || !(s.flags & F_W)) &&
          (!(fl & F_AT) || (s.flags & F_AT)))
        dst = &s;  // subsumed
      continue;
    }
    if (!(s.mask & mask)) continue;
    bool ordered = s.clk < t->vc[s.tid] || (s.clk == t->vc[s.tid]);
    if (!ordered) {
      if (((s.flags | fl) & F_W) && !((s.flags & F_AT) && (fl & F_AT))) race(s, p, fl & F_W, pc, fl & F_FREE);
    } else if ((s.mask & mask) == s.mask && (fl & F_W))
      dst = &s;  // ordered before this write: superseded
  }
  if (!dst) dst = &c.s[((uint64_t)p >> 3 ^ t->nplain) & 3];
  dst->clk = t->vc[t->id];
  dst->tid = (uint8_t)t->id;
  dst->mask = mask;
  dst->flags = fl;
  dst->used = 1;
  dst->pc = pc;
}
static inline Cell *cellOf(uint64_t g) {
  if (g >= REGION && g < REGION_END) return &rc_shadow[(g - REGION) >> 3];
  for (int i = 0; i < g_nglob; i++)
    if (g >= g_glob[i].lo && g < g_glob[i].hi) return &g_gcell[i][(g - g_glob[i].lo) >> 3];
  return nullptr;
}
static inline void raceCheck(uint64_t a, size_t n, uint8_t fl, const void *pc) {
  if (g_norace) return;
  uint64_t e = a + n;
  for (uint64_t g = a & ~7ull; g < e; g += 8) {
    Cell *c = cellOf(g);
    if (!c) return;
    uint64_t lo = a > g ? a - g : 0, hi = e < g + 8 ? e - g : 8;
    uint8_t mask = (uint8_t)(((1u << (hi - lo)) - 1) << lo);
    raceCell(*c, mask, fl, (void *)g, pc);
  }
}
static inline void access(const void *p, size_t n, bool w, const void *pc) {
  Thread *t = cur;
  if (!t || t->quiet || !g_on) return;
  uint64_t a = (uint64_t)p;
  if (++t->nplain >= t->nextPlain) plainPreempt();
  if (t->nplain > 20000000) plainCap();
  if (inHeap(a)) stateCheck(a, n, w, pc, w ? "write" : "read");
  raceCheck(a, n, w ? F_W : 0, pc);
}
void checkAccess(const void *p, size_t n, bool w, const void *pc) { access(p, n, w, pc); }

// ---------------------------------------------------------------- allocator
static void *arenaAlloc(size_t n, size_t align) {
  Thread *t = cur;
  if (g_allocMax && n > g_allocMax && !t->quiet)
    fail("over-allocation", "allocate", "%zu bytes at once were asked for, no message is longer than %llu", n, (unsigned long long)g_allocMax);
  uint64_t a = g_bump + sizeof(Hdr);
  if (align < 16) align = 16;
  a = (a + align - 1) & ~(align - 1);
  uint64_t sz = n ? n : 1;
  uint64_t end = (a + sz + 15) & ~15ull;
  if (n > HEAP_LIMIT_ALLOC || end + 16 >= REGION_END) return nullptr;
  g_bump = end + 16;
  Hdr *h = (Hdr *)a - 1;
  h->magic = MAGIC;
  h->size = n;
  h->atid = t->id;
  h->ftid = -1;
  if (!t->quiet) curFrames(nullptr, h->astk, 5);
  uint64_t g = (a - REGION) >> 3;
  uint64_t full = sz / 8;
  memset(st_shadow + g, 8, full);
  if (sz % 8) st_shadow[g + full] = (uint8_t)(sz % 8);
  if (C.fill) memset((void *)a, C.fill, sz);
  return (void *)a;
}
static void arenaFree(void *p, const void *pc) {
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != MAGIC) { if (g_on) badMem("bad-free", p, 0, "delete of something that is no block:", pc); return; }
  if (h->ftid >= 0) { if (g_on) badMem("double-free", p, 0, "second delete", pc); return; }
  Thread *t = cur;
  if (t && g_on && !t->quiet) {
    h->ftid = t->id;
    curFrames(pc, h->fstk, 5);
    if (h->size <= 4096) raceCheck((uint64_t)p, h->size ? h->size : 1, F_W | F_FREE, pc);
    uint64_t g = ((uint64_t)p - REGION) >> 3;
    memset(st_shadow + g, 0xF, ((h->size ? h->size : 1) + 7) / 8);
  } else {
    h->ftid = t ? t->id : 0;
    uint64_t g = ((uint64_t)p - REGION) >> 3;
    memset(st_shadow + g, 0xF, ((h->size ? h->size : 1) + 7) / 8);
  }
}
static void *allocate(size_t n, size_t al, bool nothrow) {
  void *p;
  if (cur && g_on) {
    if (cur->allocFault && !cur->quiet && faultDecide("alloc-failure", cur->allocOneIn, 1)) { cur->allocFault--; p = nullptr; }
    else p = arenaAlloc(n, al);
  } else if (al > 16) {
    if (posix_memalign(&p, al, n)) p = nullptr;
  } else
    p = malloc(n ? n : 1);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static void release(void *p, const void *pc) {
  if (!p) return;
  if (inHeap((uint64_t)p)) arenaFree(p, pc);
  else if ((cur && g_on)) {}   // allocated before the run: never reused
  else free(p);
}
}  // namespace sim
using namespace sim;

#define PC __builtin_return_address(0)
void *operator new(size_t n) { return allocate(n, 16, false); }
void *operator new[](size_t n) { return allocate(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return allocate(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return allocate(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return allocate(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return allocate(n, (size_t)a, false); }
void operator delete(void *p) noexcept { release(p, PC); }
void operator delete[](void *p) noexcept { release(p, PC); }
void operator delete(void *p, size_t) noexcept { release(p, PC); }
void operator delete[](void *p, size_t) noexcept { release(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { release(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { release(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { release(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { release(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { release(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { release(p, PC); }

extern "C" {
void __tsan_init() {}
// Coverage (tools/cov.py only): nodes are then compiled with trace-pc-guard. One shared byte per edge.
static uint8_t *covMap;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  const char *f = getenv("SIM_COV");
  if (!f || a == b) return;
  if (!covMap) {
    int fd = (int)syscall(SYS_open, f, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 4 << 20)) return;
    void *p = mmap(nullptr, 4 << 20, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) return;
    covMap = (uint8_t *)p;
  }
  if (!*a) for (uint32_t i = 1; a < b; a++) *a = i++;   // every copy of a node numbers its edges alike
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (covMap && *g) covMap[*g] = 1; }
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) {
  const char *f = getenv("SIM_COV");
  Dl_info d;
  if (!f || a == b || !dladdr((void *)a, &d)) return;
  char nm[512];
  snprintf(nm, sizeof nm, "%s.pcs", f);
  if (FILE *o = fopen(nm, "w")) {
    for (; a < b; a += 2) fprintf(o, "%lx\n", (unsigned long)(a[0] - (uintptr_t)d.dli_fbase));
    fclose(o);
  }
}
void __tsan_func_entry(void *pc) {
  Thread *t = cur;
  if (!t) return;
  if (t->sp < SSTK) t->ss[t->sp] = pc;
  if (++t->sp > 4000 && g_on) fail("crash", "recursion", "unbounded recursion");
}
void __tsan_func_exit() {
  Thread *t = cur;
  if (t && t->sp > 0) t->sp--;
}
#define RW(n)                                                             \
  void __tsan_read##n(void *p) { access(p, n, false, PC); }               \
  void __tsan_write##n(void *p) { access(p, n, true, PC); }               \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); }     \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); }     \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); }      \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }      \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, PC); } \
  void __tsan_read_write##n(void *p) { access(p, n, true, PC); }          \
  void __tsan_unaligned_read_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *v) {
  if (*p != v) access(p, 8, true, PC);
}
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_read_range(void *p, size_t n) { if (n) access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { if (n) access(p, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n) { access(s, n, false, PC); access(d, n, true, PC); }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (n) { access(s, n, false, PC); access(d, n, true, PC); }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (n) access(d, n, true, PC);
  return memset(d, c, n);
}

static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static inline bool atBegin(const volatile void *p, size_t n, bool w, const void *pc) {
  Thread *t = cur;
  if (!t || t->quiet || !g_on) return false;
  sp(SP_ATOMIC);
  uint64_t a = (uint64_t)p;
  if (inHeap(a)) stateCheck(a, n, w, pc, w ? "atomic write" : "atomic read");
  raceCheck(a, n, (w ? F_W : 0) | F_AT, pc);
  return true;
}
#define ATOMICS(bits, ty)                                                          \
  ty __tsan_atomic##bits##_load(const volatile ty *p, int mo) {                    \
    bool on = atBegin(p, sizeof(ty), false, PC);                                   \
    ty v = *p;                                                                     \
    if (on && acq(mo)) vcAcquire((const void *)p);                                 \
    return v;                                                                      \
  }                                                                                \
  void __tsan_atomic##bits##_store(volatile ty *p, ty v, int mo) {                 \
    bool on = atBegin(p, sizeof(ty), true, PC);                                    \
    if (on && rel(mo)) vcReleaseStore((const void *)p);                            \
    *p = v;                                                                        \
  }                                                                                \
  ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int mo) {                \
    bool on = atBegin(p, sizeof(ty), true, PC);                                    \
    if (on && acq(mo)) vcAcquire((const void *)p);                                 \
    if (on && rel(mo)) vcRelease((const void *)p);                                 \
    ty o = *p;                                                                     \
    *p = v;                                                                        \
    return o;                                                                      \
  }                                                                                \
  static inline bool cas##bits(volatile ty *p, ty *c, ty v, int mo, int fmo, const void *pc) { \
    bool on = atBegin(p, sizeof(ty), true, pc);                                    \
    ty o = *p;                                                                     \
    if (o == *c) {                                                                 \
      if (on && acq(mo)) vcAcquire((const void *)p);                               \
      if (on && rel(mo)) vcRelease((const void *)p);                               \
      *p = v;                                                                      \
      return true;                                                                 \
    }                                                                              \
    if (on && acq(fmo)) vcAcquire((const void *)p);                                \
    *c = o;                                                                        \
    return false;                                                                  \
  }                                                                                \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int mo, int f) { return cas##bits(p, c, v, mo, f, PC); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int mo, int f) { return cas##bits(p, c, v, mo, f, PC); }   \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty c, ty v, int mo, int f) { cas##bits(p, &c, v, mo, f, PC); return c; }
#define RMW(bits, ty, nm, expr)                                                    \
  ty __tsan_atomic##bits##_fetch_##nm(volatile ty *p, ty v, int mo) {              \
    bool on = atBegin(p, sizeof(ty), true, PC);                                    \
    if (on && acq(mo)) vcAcquire((const void *)p);                                 \
    if (on && rel(mo)) vcRelease((const void *)p);                                 \
    ty o = *p;                                                                     \
    *p = (ty)(expr);                                                               \
    return o;                                                                      \
  }
#define ALL(bits, ty) ATOMICS(bits, ty) RMW(bits, ty, add, o + v) RMW(bits, ty, sub, o - v) \
  RMW(bits, ty, and, o &v) RMW(bits, ty, or, o | v) RMW(bits, ty, xor, o ^ v) RMW(bits, ty, nand, ~(o & v))
typedef unsigned __int128 u128;
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t) ALL(128, u128)
void __tsan_atomic_thread_fence(int) {
  Thread *t = cur;
  if (!t || t->quiet || !g_on) return;
  sp(SP_ATOMIC);
  static char fence;
  vcAcquire(&fence);
  vcRelease(&fence);
}
void __tsan_atomic_signal_fence(int) {}
}
