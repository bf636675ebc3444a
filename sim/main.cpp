#include <algorithm>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include "core.h"

namespace sim { void loadSyms(void *h); }
using namespace sim;

static const SimScenario *g_sc0;
static size_t g_nsc0;

static uint64_t realNs() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000000000ull + ts.tv_nsec;
}
static std::vector<std::string> split(const std::string &s, char c) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p <= s.size()) {
    size_t e = s.find(c, p);
    if (e == std::string::npos) e = s.size();
    if (e > p) v.push_back(s.substr(p, e - p));
    p = e + 1;
  }
  return v;
}
static std::vector<std::string> g_libPaths;
static int g_opened = 0;
static void openLibs(int n) {
  for (; g_opened < n && g_opened < (int)g_libPaths.size() && g_opened < MAXNODE; g_opened++) {
    void *h = dlopen(g_libPaths[g_opened].c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(7); }
    g_libs[g_opened] = h;
    loadSyms(h);
  }
  g_nlibs = g_opened;
  if (!g_sc0) {
    auto f = (const SimScenario *(*)(size_t *))dlsym(g_libs[0], "sim_scenarios");
    if (!f) { fprintf(stderr, "no sim_scenarios\n"); exit(7); }
    g_sc0 = f(&g_nsc0);
  }
}
static const SimScenario *scen(const std::string &n) {
  for (size_t i = 0; i < g_nsc0; i++)
    if (n == g_sc0[i].name) return &g_sc0[i];
  fprintf(stderr, "no scenario %s\n", n.c_str());
  exit(7);
}

static void resetResult() {
  R->status = 0;
  memset(R, 0, offsetof(Result, dec));
}
// What ended children held comes back with a delay, a long one on a busy machine.
static void letMemoryReturn() {
  for (int k = 0; k < 40; k++) {
    char buf[512] = {};
    int fd = open("/proc/meminfo", O_RDONLY | O_CLOEXEC);
    if (fd < 0) return;
    ssize_t n = read(fd, buf, sizeof buf - 1);
    close(fd);
    const char *a = n > 0 ? strstr(buf, "MemAvailable:") : nullptr;
    const char *t = n > 0 ? strstr(buf, "MemTotal:") : nullptr;
    if (!a || !t) return;
    if (strtoull(a + 13, nullptr, 10) * 4 > strtoull(t + 9, nullptr, 10)) return;
    usleep(50000);
  }
}

// Runs one simulated execution in a child. Returns status (4 = real time hang).
static int runChild(const SimScenario *sc, uint64_t seed, const std::vector<Decision> *plan, int traceFd) {
  resetResult();
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(7); }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    // Newer kernels give a threaded process a private futex hash whose resizing keeps the dead
    // process's memory until several RCU grace periods later, which adds up to gigabytes at our
    // fork rate: ask for the global hash (PR_FUTEX_HASH, SET_SLOTS, 0; fails harmlessly elsewhere).
    prctl(78, 1, 0ul, 0ul, 0ul);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    dup2(nul, 1);
    if (!getenv("SIM_STDERR")) dup2(nul, 2);
    runScenario(sc, seed, plan ? plan->data() : nullptr, plan ? plan->size() : 0, plan != nullptr, traceFd);
    _exit(8);
  }
  uint64_t t0 = realNs();
  int st = 0;
  for (;;) {
    struct timespec to = {1, 0};
    sigset_t ss;
    sigemptyset(&ss);
    sigaddset(&ss, SIGCHLD);
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    sigtimedwait(&ss, nullptr, &to);
    if (realNs() - t0 > 60000000000ull) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      snprintf(R->cls, sizeof R->cls, "hang");
      snprintf(R->msg, sizeof R->msg, "the run did not reach a scheduling point for 60 s of real time");
      R->status = 4;
      return 4;
    }
  }
  if (R->status == 0) {
    R->status = 3;
    snprintf(R->cls, sizeof R->cls, "harness");
    snprintf(R->msg, sizeof R->msg, "child ended without a result (wait status 0x%x)", st);
  }
  return R->status;
}

static uint64_t availKb() {
  FILE *f = fopen("/proc/meminfo", "r");
  if (!f) return ~0ull;
  char l[200];
  unsigned long long kb = ~0ull;
  while (fgets(l, sizeof l, f))
    if (sscanf(l, "MemAvailable: %llu", &kb) == 1) break;
  fclose(f);
  return kb;
}
struct Shared {                  // per worker
  uint64_t runs, ok, nontrivial, steps, switches, preempts, simns, hist, plain, decisions, threads;
  uint64_t viol, knownHits;
  int np, nf;
  Named probe[256], fk[128];
  uint64_t scruns[128];
  uint64_t nis, nhs;
  char known[64][160];
  uint64_t knownN[64];
  int status;                    // 0 running, 1 done, 2 violation, 3 harness error
  char scn[64], cls[64], sig[512], msg[4096], replay[512];
  uint64_t vseed;
  char samples[3][2400];
  int nsamples;
};
static void addNamed(Named *t, int &n, int cap, const Named &x) {
  for (int i = 0; i < n; i++)
    if (!strcmp(t[i].name, x.name)) { t[i].n += x.n; return; }
  if (n < cap) t[n++] = x;
}

struct KnownF { std::string cls, sig, msg, text; };
static std::vector<KnownF> g_known;
static int knownIdx(const Result *r) {
  for (size_t i = 0; i < g_known.size(); i++)
    if (g_known[i].cls == r->cls && strstr(r->sig, g_known[i].sig.c_str()) && strstr(r->msg, g_known[i].msg.c_str()))
      return (int)i;
  return -1;
}

static bool same(const Result *r, const std::string &cls, const std::string &sig) {
  if (r->status != 2) return false;
  return cls == r->cls && sig == r->sig;
}
static std::vector<Decision> takeDec() {
  size_t n = std::min<uint64_t>(R->ndec, MAXDEC);
  return std::vector<Decision>(R->dec, R->dec + n);
}
static std::vector<Decision> minimise(const SimScenario *sc, uint64_t seed, std::vector<Decision> d,
                                      const std::string &cls, const std::string &sig, double secs, int &trials) {
  uint64_t end = realNs() + (uint64_t)(secs * 1e9);
  trials = 0;
  auto test = [&](const std::vector<Decision> &x) {
    trials++;
    runChild(sc, seed, &x, 0);
    return same(R, cls, sig);
  };
  if (!test(d)) return {};
  d = takeDec();
  size_t chunk = std::max<size_t>(1, d.size() / 2);
  while (realNs() < end) {
    bool any = false;
    for (size_t i = 0; i < d.size() && realNs() < end;) {
      std::vector<Decision> x(d.begin(), d.begin() + i);
      x.insert(x.end(), d.begin() + std::min(d.size(), i + chunk), d.end());
      if (test(x)) {
        std::vector<Decision> nd = takeDec();
        if (nd.size() < d.size()) { d = nd; any = true; continue; }
      }
      i += chunk;
    }
    if (chunk > 1) chunk /= 2;
    else if (!any) break;
  }
  for (size_t i = 0; i < d.size() && realNs() < end; i++) {
    int kind = (d[i].key >> 48) & 0xff;
    if (kind != K_WORK) continue;
    while (d[i].val > 1 && realNs() < end) {
      std::vector<Decision> x = d;
      x[i].val = d[i].val / 2;
      if (test(x) && takeDec().size() <= d.size()) { d = takeDec(); if (i >= d.size()) break; }
      else break;
    }
  }
  return d;
}
static const char *kindName(int k) {
  static const char *n[] = {"?", "sched", "preempt", "afterblock", "workload", "fault", "time", "spurious", "notify-pick", "cfg"};
  return k < 10 ? n[k] : "?";
}
static void writeReplay(const std::string &path, const SimScenario *sc, uint64_t seed, const std::string &cls,
                        const std::string &sig, const std::vector<Decision> &d, const std::string &prop,
                        size_t origDec, int trials) {
  // final run with trace
  std::string tr = path + ".tmp";
  int fd = open(tr.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  runChild(sc, seed, &d, fd);
  FILE *f = fopen(path.c_str(), "w");
  fprintf(f, "simreplay 1\nproperty %s\nscenario %s\nseed %llu\nclass %s\nsig %s\nhash %016llx\n", prop.c_str(), sc->name,
          (unsigned long long)seed, cls.c_str(), sig.c_str(), (unsigned long long)R->hash);
  fprintf(f, "decisions %zu\n", d.size());
  for (auto &x : d)
    fprintf(f, "%016llx %llu # T%d %s %u\n", (unsigned long long)x.key, (unsigned long long)x.val,
            (int)(int8_t)(x.key >> 56), kindName((x.key >> 48) & 0xff), (unsigned)x.key);
  fprintf(f, "# minimised from %zu decisions in %d trials\n# violation %s: ", origDec, trials, cls.c_str());
  for (const char *c = R->msg; *c; c++) { fputc(*c, f); if (*c == '\n') fprintf(f, "# "); }
  fprintf(f, "\n# threads:\n# ");
  for (const char *c = R->stacks; *c; c++) { fputc(*c, f); if (*c == '\n') fprintf(f, "# "); }
  fprintf(f, "\n# trace:\n");
  off_t sz = lseek(fd, 0, SEEK_END), from = sz > 400000 ? sz - 400000 : 0;
  lseek(fd, from, SEEK_SET);
  char buf[4096];
  ssize_t n;
  bool nl = true;
  while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0)
    for (ssize_t i = 0; i < n; i++) {
      if (nl) fprintf(f, "#   ");
      fputc(buf[i], f);
      nl = buf[i] == '\n';
    }
  fprintf(f, "\n");
  syscall(SYS_close, fd);
  unlink(tr.c_str());
  fclose(f);
}
static bool readReplay(const char *path, std::string &sc, uint64_t &seed, std::string &cls, std::string &sig,
                       std::string &prop, uint64_t &hash, std::vector<Decision> &d) {
  FILE *f = fopen(path, "r");
  if (!f) return false;
  char line[8192];
  while (fgets(line, sizeof line, f)) {
    std::string l = line;
    while (!l.empty() && (l.back() == '\n')) l.pop_back();
    if (l.empty() || l[0] == '#') continue;
    auto rest = [&](const char *k) { return l.substr(strlen(k) + 1); };
    if (!l.compare(0, 9, "property ")) prop = rest("property");
    else if (!l.compare(0, 9, "scenario ")) sc = rest("scenario");
    else if (!l.compare(0, 5, "seed ")) seed = strtoull(rest("seed").c_str(), nullptr, 10);
    else if (!l.compare(0, 6, "class ")) cls = rest("class");
    else if (!l.compare(0, 4, "sig ")) sig = rest("sig");
    else if (!l.compare(0, 5, "hash ")) hash = strtoull(rest("hash").c_str(), nullptr, 16);
    else if (!l.compare(0, 9, "decisions") || !l.compare(0, 9, "simreplay")) {}
    else {
      char *e;
      uint64_t k = strtoull(l.c_str(), &e, 16);
      d.push_back(Decision{k, strtoull(e, nullptr, 10)});
    }
  }
  fclose(f);
  return true;
}
static uint64_t runSeed(uint64_t base, const char *sc, uint64_t i) {
  Rng r{base * 0x9E3779B97F4A7C15ull + i};
  uint64_t h = r.next();
  while (*sc) h = (h ^ (uint8_t)*sc++) * 1099511628211ull;
  Rng q{h};
  return q.next() >> 1;
}
static void jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

int main(int argc, char **argv) {
  int per = personality(0xffffffff);
  if (!(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR_TRIED")) {
    personality(per | ADDR_NO_RANDOMIZE);
    setenv("SIM_NOASLR_TRIED", "1", 1);
    execv("/proc/self/exe", argv);
  }
  if (argc < 2) return 7;
  std::string cmd = argv[1];
  std::string libs, scens, out, replaydir = ".", prop = "X", knownFile, file;
  uint64_t seed = 1, runs = 1000, one = 0, from = 0;
  double secs = 60, minSecs = 20;
  int workers = 8, nodes = 0;
  bool trace = false;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--lib") libs = nx();
    else if (a == "--scen") scens = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--runs") runs = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--from") from = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--one") one = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--secs") secs = atof(nx().c_str());
    else if (a == "--minsecs") minSecs = atof(nx().c_str());
    else if (a == "--workers") workers = atoi(nx().c_str());
    else if (a == "--nodes") nodes = atoi(nx().c_str());
    else if (a == "--out") out = nx();
    else if (a == "--prop") prop = nx();
    else if (a == "--replaydir") replaydir = nx();
    else if (a == "--known") knownFile = nx();
    else if (a == "--trace") trace = true;
    else file = a;
  }
  g_libPaths = split(libs, ',');
  rt_init();
  R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sigset_t ss;
  sigemptyset(&ss);
  sigaddset(&ss, SIGCHLD);
  sigprocmask(SIG_BLOCK, &ss, nullptr);
  openLibs(std::max(1, nodes));

  if (cmd == "list") {
    for (size_t i = 0; i < g_nsc0; i++) printf("%s\n", g_sc0[i].name);
    return 0;
  }
  if (cmd == "replay") {
    std::string sc, cls, sig, pr;
    uint64_t hash = 0, sd = 0;
    std::vector<Decision> d;
    if (!readReplay(file.c_str(), sc, sd, cls, sig, pr, hash, d)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 7; }
    const SimScenario *s = scen(sc);
    openLibs(s->flags & SIM_F_NET ? (int)g_libPaths.size() : 1);
    int fd = trace ? dup(2) : 0;
    runChild(s, sd, &d, fd);
    printf("status %d class %s sig %s hash %016llx expected %016llx\n%s\n%s", R->status, R->cls, R->sig,
           (unsigned long long)R->hash, (unsigned long long)hash, R->msg, R->stacks);
    return R->status == 2 && cls == R->cls && hash == R->hash ? 0 : 1;
  }
  if (cmd == "one") {
    const SimScenario *s = scen(scens);
    openLibs(s->flags & SIM_F_NET ? (int)g_libPaths.size() : 1);
    uint64_t sd = one ? one : runSeed(seed, s->name, from);
    int fd = trace ? dup(2) : 0;
    runChild(s, sd, nullptr, fd);
    printf("status %d class %s sig %s hash %016llx steps %llu switches %llu hist %llu dec %llu simms %llu\n%s\n%s%s\n", R->status, R->cls, R->sig,
           (unsigned long long)R->hash, (unsigned long long)R->steps, (unsigned long long)R->switches,
           (unsigned long long)R->hist, (unsigned long long)R->ndec, (unsigned long long)(R->simtime / 1000000), R->msg, R->stacks, R->sample);
    return R->status == 1 ? 0 : 1;
  }
  if (cmd == "selftest") {
    // every seed twice (recorded and re-run), plus a replay from its own decisions
    uint64_t bad = 0, n = 0;
    for (auto &sn : split(scens, ',')) {
      const SimScenario *s = scen(sn);
      openLibs(s->flags & SIM_F_NET ? (int)g_libPaths.size() : 1);
      for (uint64_t i = from; i < from + runs; i++) {
        uint64_t sd = runSeed(seed, s->name, i);
        runChild(s, sd, nullptr, 0);
        uint64_t h1 = R->hash; int s1 = R->status;
        auto d = takeDec();
        runChild(s, sd, nullptr, 0);
        uint64_t h2 = R->hash; int s2 = R->status;
        runChild(s, sd, &d, 0);
        uint64_t h3 = R->hash; int s3 = R->status;
        n++;
        printf("%s %llu %016llx %d\n", s->name, (unsigned long long)sd, (unsigned long long)h1, s1);
        if (h1 != h2 || s1 != s2 || h1 != h3 || s1 != s3) {
          bad++;
          fprintf(stderr, "NONDETERMINISTIC %s seed %llu: %016llx/%d %016llx/%d replay %016llx/%d\n", s->name,
                  (unsigned long long)sd, (unsigned long long)h1, s1, (unsigned long long)h2, s2, (unsigned long long)h3, s3);
        }
      }
    }
    fflush(stdout);
    fprintf(stderr, "selftest: %llu seeds, %llu diverging\n", (unsigned long long)n, (unsigned long long)bad);
    return bad ? 1 : 0;
  }
  if (cmd != "explore") return 7;

  if (!knownFile.empty()) {
    if (FILE *f = fopen(knownFile.c_str(), "r")) {
      char line[4096];
      while (fgets(line, sizeof line, f)) {
        std::string l = line;
        while (!l.empty() && l.back() == '\n') l.pop_back();
        auto v = std::vector<std::string>();
        size_t p = 0;
        for (;;) {
          size_t e = l.find('\t', p);
          v.push_back(l.substr(p, e == std::string::npos ? e : e - p));
          if (e == std::string::npos) break;
          p = e + 1;
        }
        if (v.size() >= 4) g_known.push_back({v[0], v[1], v[2], v[3]});
      }
      fclose(f);
    }
  }
  auto names = split(scens, ',');
  std::vector<const SimScenario *> scs;
  bool net = false;
  for (auto &n : names) { scs.push_back(scen(n)); net |= (scs.back()->flags & SIM_F_NET) != 0; }
  openLibs(net ? (int)g_libPaths.size() : 1);
  constexpr size_t MAXH = 1 << 20;
  auto *sh = (Shared *)mmap(nullptr, sizeof(Shared) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto *hs = (uint64_t *)mmap(nullptr, MAXH * 16 * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  auto *stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto *nextRun = (uint64_t *)(stop + 16);
  *nextRun = 0;
  uint64_t t0 = realNs();
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int ncpu = (int)sysconf(_SC_NPROCESSORS_ONLN);
      cpu_set_t cs;
      CPU_ZERO(&cs);
      CPU_SET(w % (ncpu > 0 ? ncpu : 1), &cs);
      sched_setaffinity(0, sizeof cs, &cs);
      // own result buffer
      R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      Shared &s = sh[w];
      uint64_t *ih = hs + (size_t)w * MAXH * 2, *hh = ih + MAXH;
      int stalls = 0;
      for (unsigned turn = 0;; turn++) {
        if (turn % 32 == 0) letMemoryReturn();
        if (*stop) break;
        if ((s.runs & 255) == 255)   // let the kernel catch up with freeing dead children
          for (int z = 0; z < 50 && availKb() < 5000000; z++) usleep(100000);
        uint64_t i = __atomic_fetch_add(nextRun, 1, __ATOMIC_SEQ_CST);
        if (i >= runs) break;
        if (realNs() - t0 > (uint64_t)(secs * 1e9)) break;
        size_t si = i % scs.size();
        const SimScenario *sc = scs[si];
        uint64_t sd = runSeed(seed, sc->name, i / scs.size());
        int st = runChild(sc, sd, nullptr, 0);
        s.runs++;
        s.scruns[si]++;
        s.steps += R->steps;
        s.switches += R->switches;
        s.preempts += R->preempts;
        if (R->simtime > 1000ull * 1000000000ull) s.simns += R->simtime - 1000ull * 1000000000ull;
        s.hist += R->hist;
        s.plain += R->plain;
        s.threads += R->threads;
        s.decisions += R->ndec;
        for (int k = 0; k < R->nprobe; k++) addNamed(s.probe, s.np, 256, R->probe[k]);
        for (int k = 0; k < R->nfk; k++) addNamed(s.fk, s.nf, 128, R->fk[k]);
        if (R->hist >= 3 && R->threads >= 2 && (R->preempts >= 1 || R->nfk >= 1)) {
          s.nontrivial++;
          if (s.nis < MAXH) ih[s.nis++] = R->isig ^ (R->hsig << 1);
          if (s.nhs < MAXH) hh[s.nhs++] = R->hsig;
          if (w == 0 && s.nsamples < 3 && (s.runs % 7) == 1) {
            snprintf(s.samples[s.nsamples], sizeof s.samples[0], "scenario=%s seed=%llu steps=%llu switches=%llu decisions=%llu history=%.1900s",
                     sc->name, (unsigned long long)sd, (unsigned long long)R->steps, (unsigned long long)R->switches,
                     (unsigned long long)R->ndec, R->sample);
            s.nsamples++;
          }
        }
        if (st == 1) { s.ok++; continue; }
        if (st == 3) {
          s.status = 3;
          snprintf(s.scn, sizeof s.scn, "%s", sc->name);
          snprintf(s.msg, sizeof s.msg, "%s", R->msg);
          s.vseed = sd;
          *stop = 1;
          break;
        }
        if (int k = knownIdx(R); k >= 0) { s.knownN[k]++; s.knownHits++; continue; }
        // gate: the same seed again must give the same run
        std::string cls = R->cls, sig = R->sig;
        uint64_t h1 = R->hash;
        auto dec = takeDec();
        bool full = R->ndec <= MAXDEC;
        int st2 = runChild(sc, sd, nullptr, 0);
        if (st2 == 4 && st != 4) st2 = runChild(sc, sd, nullptr, 0);
        // the machine stood still, not the run: one that hangs hangs again
        if (st == 4 && st2 == 1 && ++stalls < 6) { s.ok++; continue; }
        if (st2 != st || (st == 2 && R->hash != h1)) {
          s.status = 3;
          snprintf(s.scn, sizeof s.scn, "%s", sc->name);
          snprintf(s.msg, sizeof s.msg, "same seed, different run: %s %016llx vs %s %016llx", cls.c_str(), (unsigned long long)h1, R->cls, (unsigned long long)R->hash);
          s.vseed = sd;
          *stop = 1;
          break;
        }
        if (*stop) break;
        *stop = 1;
        s.viol++;
        s.vseed = sd;
        snprintf(s.scn, sizeof s.scn, "%s", sc->name);
        snprintf(s.cls, sizeof s.cls, "%s", cls.c_str());
        snprintf(s.sig, sizeof s.sig, "%s", sig.c_str());
        int trials = 0;
        std::vector<Decision> m;
        if (st == 2 && full) m = minimise(sc, sd, dec, cls, sig, minSecs, trials);
        if (m.empty() && st == 2) {
          runChild(sc, sd, &dec, 0);
          if (!same(R, cls, sig)) {
            // an empty plan may be a legitimate minimum
            std::vector<Decision> none;
            runChild(sc, sd, &none, 0);
            if (!same(R, cls, sig)) {
              s.status = 3;
              snprintf(s.msg, sizeof s.msg, "replay from decisions does not reproduce %s", cls.c_str());
              break;
            }
          } else m = dec;
        }
        char path[500];
        snprintf(path, sizeof path, "%s/%s-%s-%llu.replay", replaydir.c_str(), prop.c_str(), sc->name, (unsigned long long)sd);
        writeReplay(path, sc, sd, cls, sig, m, prop, dec.size(), trials);
        snprintf(s.msg, sizeof s.msg, "%s", R->msg);
        snprintf(s.replay, sizeof s.replay, "%s", path);
        s.status = 2;
        break;
      }
      if (!s.status) s.status = 1;
      _exit(0);
    }
    pids.push_back(p);
  }
  int dead = 0;
  for (auto p : pids) {
    int st;
    waitpid(p, &st, 0);
    if (st != 0) dead++;
  }
  double wall = (realNs() - t0) / 1e9;
  Shared *a = (Shared *)calloc(1, sizeof(Shared));
  int rc = 0, bw = -1;
  std::vector<uint64_t> I, H;
  for (int w = 0; w < workers; w++) {
    Shared &s = sh[w];
    a->runs += s.runs; a->ok += s.ok; a->nontrivial += s.nontrivial; a->steps += s.steps; a->switches += s.switches;
    a->preempts += s.preempts; a->simns += s.simns; a->hist += s.hist; a->plain += s.plain; a->decisions += s.decisions;
    a->threads += s.threads;
    a->knownHits += s.knownHits;
    for (int k = 0; k < 64; k++) a->knownN[k] += s.knownN[k];
    for (int k = 0; k < 128; k++) a->scruns[k] += s.scruns[k];
    for (int k = 0; k < s.np; k++) addNamed(a->probe, a->np, 256, s.probe[k]);
    for (int k = 0; k < s.nf; k++) addNamed(a->fk, a->nf, 128, s.fk[k]);
    I.insert(I.end(), hs + (size_t)w * MAXH * 2, hs + (size_t)w * MAXH * 2 + s.nis);
    H.insert(H.end(), hs + (size_t)w * MAXH * 2 + MAXH, hs + (size_t)w * MAXH * 2 + MAXH + s.nhs);
    if (s.status == 2) { bw = w; rc = 1; }
    if (s.status == 3 && rc == 0) { bw = w; rc = 3; }
  }
  if (dead && rc == 0) rc = 3;
  std::sort(I.begin(), I.end());
  I.erase(std::unique(I.begin(), I.end()), I.end());
  std::sort(H.begin(), H.end());
  H.erase(std::unique(H.begin(), H.end()), H.end());
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(f, "{\"rc\":%d,\"wall\":%.3f,\"runs\":%llu,\"ok\":%llu,\"nontrivial\":%llu,\"distinct_interleavings\":%zu,\"distinct_histories\":%zu,", rc, wall,
          (unsigned long long)a->runs, (unsigned long long)a->ok, (unsigned long long)a->nontrivial, I.size(), H.size());
  fprintf(f, "\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"sim_s\":%.6f,\"events\":%llu,\"accesses\":%llu,\"decisions\":%llu,\"threads\":%llu,\"dead_workers\":%d,",
          (unsigned long long)a->steps, (unsigned long long)a->switches, (unsigned long long)a->preempts, a->simns / 1e9,
          (unsigned long long)a->hist, (unsigned long long)a->plain, (unsigned long long)a->decisions, (unsigned long long)a->threads, dead);
  fprintf(f, "\"scenarios\":{");
  for (size_t i = 0; i < scs.size(); i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", scs[i]->name, (unsigned long long)a->scruns[i]);
  fprintf(f, "},\"faults\":{");
  for (int i = 0; i < a->nf; i++) { if (i) fputc(',', f); jstr(f, a->fk[i].name); fprintf(f, ":%llu", (unsigned long long)a->fk[i].n); }
  fprintf(f, "},\"probes\":{");
  for (int i = 0; i < a->np; i++) { if (i) fputc(',', f); jstr(f, a->probe[i].name); fprintf(f, ":%llu", (unsigned long long)a->probe[i].n); }
  fprintf(f, "},\"known\":[");
  for (size_t i = 0; i < g_known.size() && i < 64; i++) { if (i) fputc(',', f); fprintf(f, "{\"n\":%llu,\"what\":", (unsigned long long)a->knownN[i]); jstr(f, g_known[i].text.c_str()); fputc('}', f); }
  fprintf(f, "],\"samples\":[");
  for (int i = 0, c = 0; i < sh[0].nsamples; i++) { if (c++) fputc(',', f); jstr(f, sh[0].samples[i]); }
  fprintf(f, "]");
  if (bw >= 0) {
    Shared &s = sh[bw];
    fprintf(f, ",\"violation\":{\"scenario\":"); jstr(f, s.scn);
    fprintf(f, ",\"class\":"); jstr(f, s.cls);
    fprintf(f, ",\"sig\":"); jstr(f, s.sig);
    fprintf(f, ",\"msg\":"); jstr(f, s.msg);
    fprintf(f, ",\"seed\":%llu,\"replay\":", (unsigned long long)s.vseed); jstr(f, s.replay);
    fprintf(f, "}");
  }
  fprintf(f, "}\n");
  if (f != stdout) fclose(f);
  return rc;
}
