// The explorer: depth-first enumeration of choice sequences with iterative
// deviation bounding, visited-state pruning, parallel workers with work
// donation, crash capture and replay.  Not instrumented.
#include "explore.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {
namespace ex {

static double realNow() {
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static const int kSlots = 128;
static const int kSlotPts = 6000;
static const int kOutcomes = 1 << 15;

struct Slot {
  int used;
  int len;
  int lim;
  Point pts[kSlotPts];
};

struct Shared {
  int lock;
  int stop;        // stop exploring
  int capped;      // time cap hit
  int idle;
  int workers;
  int hungry;
  int failed;
  int diverged;
  uint64_t execs, steps, nodes, prunes, discards, keys, donated, maxDepth;
  double deadline;
  // failure record
  char failMsg[kMsg];
  char failObs[kObs];
  int failN;
  int failCost;
  Point failPts[kMaxPoints];
  // outcomes
  uint64_t outcomes[kOutcomes];
  int nOutcomes;
  char samples[6][400];
  int nSamples;
  int tableFull;
  Slot slots[kSlots];
};

struct WorkerState {
  Exec e;
  volatile int running;        // inside an execution
  volatile double started;
};

static Shared* sh;
static uint64_t* table;
static uint64_t tableMask;
static WorkerState* ws;  // array, one per worker (+1 for replay)
static Exec* cur;
static WorkerState* me;

Exec* current() { return cur; }
void setCurrent(Exec* e) { cur = e; }

static void lockS() {
  while (__atomic_exchange_n(&sh->lock, 1, __ATOMIC_ACQUIRE)) {
    struct timespec t = {0, 20000};
    syscall(SYS_nanosleep, &t, nullptr);
  }
}
static void unlockS() { __atomic_store_n(&sh->lock, 0, __ATOMIC_RELEASE); }

// true: already visited with at least this much budget left.
static bool visited(uint64_t key, int remaining) {
  if (key == 0) return false;
  if (remaining > 14) remaining = 14;
  uint64_t tag = key & ~0xFull;
  if (tag == 0) tag = 16;
  uint64_t idx = (key * 0x9E3779B97F4A7C15ull >> 20) & tableMask;
  for (int probe = 0; probe < 64; probe++, idx = (idx + 1) & tableMask) {
    for (;;) {
      uint64_t v = __atomic_load_n(&table[idx], __ATOMIC_RELAXED);
      if (v == 0) {
        if (__atomic_compare_exchange_n(&table[idx], &v, tag | (remaining + 1),
                                        false, __ATOMIC_RELAXED,
                                        __ATOMIC_RELAXED)) {
          __atomic_fetch_add(&sh->keys, 1, __ATOMIC_RELAXED);
          return false;
        }
        continue;
      }
      if ((v & ~0xFull) != tag) break;
      int r = int(v & 0xF) - 1;
      if (r >= remaining) return true;
      if (__atomic_compare_exchange_n(&table[idx], &v, tag | (remaining + 1),
                                      false, __ATOMIC_RELAXED,
                                      __ATOMIC_RELAXED))
        return false;
    }
  }
  sh->tableFull = 1;
  return false;
}

int point(Exec* e, int n, int nfree, uint32_t sig, uint64_t key) {
  int i = e->npts;
  if (i >= kMaxPoints) {
    snprintf(e->msg, kMsg, "more than %d choice points in one execution", kMaxPoints);
    e->result = kFail;
    return -1;
  }
  Point& p = e->pts[i];
  int opt;
  if (i < e->replay) {
    if (e->checkSig && (p.sig != sig || p.n != n || p.nfree != nfree)) {
      snprintf(e->msg, kMsg,
               "replay diverged at point %d: recorded n=%d nfree=%d sig=%x, now n=%d nfree=%d sig=%x",
               i, p.n, p.nfree, p.sig, n, nfree, sig);
      e->result = kDiverged;
      return -1;
    }
    opt = p.chosen;
    if (opt >= n) {
      snprintf(e->msg, kMsg, "replay diverged at point %d: option %d of %d", i, opt, n);
      e->result = kDiverged;
      return -1;
    }
  } else {
    if (e->cached && key &&
        visited(key ^ (uint64_t(sig) * 0xD6E8FEB86659FD93ull), e->bound - e->cost)) {
      e->result = kPruned;
      return -1;
    }
    opt = 0;
  }
  p.n = n;
  p.nfree = nfree;
  p.sig = sig;
  p.chosen = opt;
  p.cost = e->cost;
  if (opt >= nfree) e->cost++;
  e->npts = i + 1;
  return opt;
}

static void recordFailure(const Exec* e, const char* msg) {
  lockS();
  if (!sh->failed) {
    sh->failed = 1;
    snprintf(sh->failMsg, kMsg, "%s", msg);
    memcpy(sh->failObs, e->obs, kObs);
    sh->failN = e->npts;
    sh->failCost = e->cost;
    memcpy(sh->failPts, e->pts, sizeof(Point) * e->npts);
    sh->stop = 1;
  }
  unlockS();
}

void crashed(const char* what) {
  if (cur && sh && me) {
    Exec* e = &me->e;
    if (!me->running) e->npts = 0;  // during the warm-up execution
    e->result = kFail;
    snprintf(e->msg, kMsg, "%s", what);
    recordFailure(e, e->msg);
  }
}

static void recordOutcome(const Exec* e) {
  uint64_t h = e->outcomeHash;
  if (!h) return;
  uint64_t idx = h % kOutcomes;
  for (int k = 0; k < 200; k++, idx = (idx + 1) % kOutcomes) {
    uint64_t v = __atomic_load_n(&sh->outcomes[idx], __ATOMIC_RELAXED);
    if (v == h) return;
    if (v == 0) {
      lockS();
      if (sh->outcomes[idx] == 0) {
        sh->outcomes[idx] = h;
        sh->nOutcomes++;
        if (sh->nSamples < 6)
          snprintf(sh->samples[sh->nSamples++], 400, "%s", e->outcome);
      }
      unlockS();
      return;
    }
  }
}

static void runOnce(Exec* e) {
  e->npts = 0;
  e->cost = 0;
  e->result = kOk;
  e->msg[0] = 0;
  e->obs[0] = 0;
  e->obsLen = 0;
  e->outcomeHash = 0;
  e->outcome[0] = 0;
  e->steps = 0;
  cur = e;
  me->started = realNow();
  me->running = 1;
  engineRun(e);
  me->running = 0;
}

static int gBound;
static int lims[kMaxPoints];

static bool optOk(const Point& p, int opt, int lim) {
  if (opt >= lim) return false;
  return p.cost + (opt >= p.nfree ? 1 : 0) <= gBound;
}

static void donate(Exec* e, int base) {
  if (__atomic_load_n(&sh->hungry, __ATOMIC_RELAXED) <= 0) return;
  for (int i = base; i < e->npts && i < kSlotPts; i++) {
    Point& p = e->pts[i];
    if (!optOk(p, p.chosen + 1, lims[i])) continue;
    lockS();
    int s = -1;
    for (int k = 0; k < kSlots; k++)
      if (!sh->slots[k].used) {
        s = k;
        break;
      }
    if (s >= 0) {
      Slot& sl = sh->slots[s];
      memcpy(sl.pts, e->pts, sizeof(Point) * (i + 1));
      sl.pts[i].chosen = p.chosen + 1;
      sl.len = i + 1;
      sl.lim = lims[i];
      sl.used = 1;
      sh->donated++;
      if (sh->hungry > 0) sh->hungry--;
      lims[i] = p.chosen + 1;
    }
    unlockS();
    return;
  }
}

static void dfs(Exec* e, int prefix, int base) {
  int replay = prefix;
  bool first = true;
  for (;;) {
    if (sh->stop) return;
    if (!first) donate(e, base);
    first = false;
    e->replay = replay;
    e->checkSig = true;
    e->bound = gBound;
    e->cached = true;
    runOnce(e);
    __atomic_fetch_add(&sh->execs, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&sh->steps, e->steps, __ATOMIC_RELAXED);
    if (e->npts > replay)
      __atomic_fetch_add(&sh->nodes, e->npts - replay, __ATOMIC_RELAXED);
    if ((uint64_t)e->npts > sh->maxDepth) sh->maxDepth = e->npts;
    switch (e->result) {
      case kFail:
        recordFailure(e, e->msg);
        return;
      case kDiverged:
        sh->diverged = 1;
        recordFailure(e, e->msg);
        return;
      case kPruned:
        __atomic_fetch_add(&sh->prunes, 1, __ATOMIC_RELAXED);
        break;
      case kDiscard:
        __atomic_fetch_add(&sh->discards, 1, __ATOMIC_RELAXED);
        break;
      case kOk:
        recordOutcome(e);
        break;
    }
    if (realNow() > sh->deadline) {
      sh->capped = 1;
      sh->stop = 1;
      return;
    }
    for (int i = replay; i < e->npts; i++) lims[i] = e->pts[i].n;
    int i = e->npts - 1;
    for (; i >= base; i--) {
      Point& p = e->pts[i];
      if (optOk(p, p.chosen + 1, lims[i])) {
        p.chosen++;
        replay = i + 1;
        break;
      }
    }
    if (i < base) return;
  }
}

static void worker(int id) {
  me = &ws[id];
  Exec* e = &me->e;
  if (id == 0) {
    dfs(e, 0, 0);
  }
  for (;;) {
    // take work
    lockS();
    sh->idle++;
    bool registered = false;
    int got = -1;
    for (;;) {
      if (sh->stop) break;
      for (int k = 0; k < kSlots; k++)
        if (sh->slots[k].used) {
          got = k;
          break;
        }
      if (got >= 0) break;
      if (sh->idle == sh->workers) {
        sh->stop |= 2;
        break;
      }
      if (!registered) {
        sh->hungry++;
        registered = true;
      }
      if (sh->hungry == 0) sh->hungry = 1;
      unlockS();
      struct timespec t = {0, 200000};
      syscall(SYS_nanosleep, &t, nullptr);
      lockS();
    }
    if (got < 0) {
      unlockS();
      return;
    }
    Slot& sl = sh->slots[got];
    int len = sl.len;
    memcpy(e->pts, sl.pts, sizeof(Point) * len);
    lims[len - 1] = sl.lim;
    sl.used = 0;
    sh->idle--;
    unlockS();
    dfs(e, len, len - 1);
  }
}

// Raw storage: scenarios register before the initialisers of this file run.
alignas(Scenario) static unsigned char gScenRaw[200 * sizeof(Scenario)];
static Scenario* const gScen = (Scenario*)gScenRaw;
static int gNScen;

}  // namespace ex

#define PUBLIC __attribute__((visibility("default")))
PUBLIC void registerScenario(const Scenario& s) {
  ((Scenario*)ex::gScenRaw)[ex::gNScen++] = s;
}

static bool gThorough;
PUBLIC bool thorough() { return gThorough; }

PUBLIC void outcomeC(const char* s) {
  ex::Exec* e = ex::current();
  uint64_t h = 1469598103934665603ull;
  for (const char* q = s; *q; q++) h = (h ^ (unsigned char)*q) * 1099511628211ull;
  e->outcomeHash = (e->outcomeHash * 31) ^ h;
  if (!e->outcomeHash) e->outcomeHash = 1;
  size_t l = strlen(e->outcome);
  snprintf(e->outcome + l, sizeof(e->outcome) - l, "%s%s", l ? " | " : "", s);
}

namespace ex {

static void jsonStr(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

static void* smap(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(2);
  }
  return p;
}

// A process hangs if it used too much processor time since it started the
// execution, or has used none for too long (a slow machine is not a hang).
static double gHang = 30;
static double cpuOf(pid_t pid) {
  char path[64], buf[1024];
  snprintf(path, sizeof path, "/proc/%d/stat", (int)pid);
  FILE* f = fopen(path, "r");
  if (!f) return 0;
  size_t n = fread(buf, 1, sizeof buf - 1, f);
  fclose(f);
  buf[n] = 0;
  char* p = strrchr(buf, ')');
  unsigned long ut = 0, st = 0;
  if (!p || sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st) != 2) return 0;
  return double(ut + st) / sysconf(_SC_CLK_TCK);
}
struct HangWatch {
  double started = -1, cpu0 = 0, mark = 0, markCpu = 0, polled = 0;
  bool hung(pid_t pid, double start, double limit) {
    double t = realNow();
    if (t - polled < 0.2) return false;
    polled = t;
    double c = cpuOf(pid);
    if (start != started) {
      started = start;
      cpu0 = markCpu = c;
      mark = t;
      return false;
    }
    if (c - markCpu > 0.3) mark = t, markCpu = c;
    return c - cpu0 > limit || t - mark > limit;
  }
};

// Runs one recorded schedule in a child.  Returns true if it failed; message
// in ws[slot].e.msg.
static bool replayChild(const Scenario& sc, const Bounds& b, int slot, const Point* pts, int n,
                        double limit, bool verbose, bool* diverged) {
  WorkerState& w = ws[slot];
  memset(&w.e, 0, sizeof(Exec));
  pid_t pid = fork();
  if (pid == 0) {
    me = &w;
    engineScenario(sc, b);
    Exec* e = &w.e;
    memcpy(e->pts, pts, sizeof(Point) * n);
    e->replay = n;
    e->checkSig = true;
    e->cached = false;
    e->bound = 1000000;
    e->verbose = verbose;
    runOnce(e);
    fflush(nullptr);
    _exit(e->result == kFail ? 10 : e->result == kDiverged ? 11 : 0);
  }
  double t0 = realNow();
  HangWatch watch;
  for (;;) {
    int st;
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) {
      if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == 11) *diverged = true;
        if (c == 0) return false;
        if (c != 10 && c != 11 && !w.e.msg[0])
          snprintf(w.e.msg, kMsg, "process exited with status %d", c);
        return c != 11;
      }
      if (!w.e.msg[0]) snprintf(w.e.msg, kMsg, "process died by signal %d", WTERMSIG(st));
      return true;
    }
    if (watch.hung(pid, t0, limit)) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      snprintf(w.e.msg, kMsg, "hang: execution did not finish in %.0f s", limit);
      return true;
    }
    usleep(2000);
  }
}


// Explores one scenario at one bound.  Returns false if a failure was recorded.
static void exploreBound(const Scenario& sc, const Bounds& b, int bound, int workers, double deadline) {
  int keepOut = sh->nOutcomes;
  (void)keepOut;
  sh->lock = 0;
  sh->stop = 0;
  sh->capped = 0;
  sh->idle = 0;
  sh->hungry = 0;
  sh->workers = workers;
  sh->deadline = deadline;
  for (int k = 0; k < kSlots; k++) sh->slots[k].used = 0;
  gBound = bound;
  pid_t pids[64];
  HangWatch watches[64];
  fflush(nullptr);
  for (int i = 0; i < workers; i++) {
    ws[i].running = 0;
    pid_t p = fork();
    if (p == 0) {
      me = &ws[i];
      engineScenario(sc, b);
      worker(i);
      _exit(0);
    }
    pids[i] = p;
  }
  int live = workers;
  while (live > 0) {
    int st;
    pid_t r = waitpid(-1, &st, WNOHANG);
    if (r > 0) {
      for (int i = 0; i < workers; i++)
        if (pids[i] == r) {
          pids[i] = 0;
          live--;
          bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
          if (!clean) {
            sh->lock = 0;
            char m[200];
            if (WIFSIGNALED(st))
              snprintf(m, sizeof m, "process died by signal %d", WTERMSIG(st));
            else
              snprintf(m, sizeof m, "process exited with status %d", WEXITSTATUS(st));
            if (!sh->failed) {
              if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
                fprintf(stderr, "worker killed\n");
                sh->diverged = 1;
              }
              recordFailure(&ws[i].e, ws[i].e.msg[0] ? ws[i].e.msg : m);
            }
            sh->stop = 1;
          }
        }
      continue;
    }
    if (r < 0 && errno == ECHILD) break;
    double t = realNow();
    for (int i = 0; i < workers; i++)
      if (pids[i] && ws[i].running && t - ws[i].started > 1 && watches[i].hung(pids[i], ws[i].started, gHang)) {
        kill(pids[i], SIGKILL);
        waitpid(pids[i], &st, 0);
        pids[i] = 0;
        live--;
        sh->lock = 0;
        recordFailure(&ws[i].e, "hang: execution did not finish");
        sh->stop = 1;
      }
    if ((sh->stop & 1) && sh->failed) {
      // give the others a moment, then end them
      static double t1;
      static int lastFail = 0;
      if (lastFail != sh->failed) t1 = t, lastFail = sh->failed;
      if (t - t1 > 5)
        for (int i = 0; i < workers; i++)
          if (pids[i]) kill(pids[i], SIGKILL);
    }
    usleep(1000);
  }
}

}  // namespace ex
}  // namespace mc

using namespace mc;
using namespace mc::ex;

extern "C" __attribute__((visibility("default"))) int mc_main(int argc, char** argv) {
  const char* tier = "quick";
  const char* only = nullptr;
  const char* replay = nullptr;
  const char* outdir = ".";
  int workers = 8;
  double budget = 60;       // seconds for all scenarios
  int maxBound = -1;
  bool list = false, verbose = false;
  int logTable = 23;
  for (int i = 1; i < argc; i++) {
    auto is = [&](const char* s) { return !strcmp(argv[i], s) && i + 1 < argc; };
    if (is("--tier")) tier = argv[++i];
    else if (is("--only")) only = argv[++i];
    else if (is("--replay")) replay = argv[++i];
    else if (is("--out")) outdir = argv[++i];
    else if (is("--workers")) workers = atoi(argv[++i]);
    else if (is("--budget")) budget = atof(argv[++i]);
    else if (is("--bound")) maxBound = atoi(argv[++i]);
    else if (is("--table")) logTable = atoi(argv[++i]);
    else if (is("--hang")) gHang = atof(argv[++i]);
    else if (!strcmp(argv[i], "--list")) list = true;
    else if (!strcmp(argv[i], "-v")) verbose = true;
    else {
      fprintf(stderr, "bad argument %s\n", argv[i]);
      return 2;
    }
  }
  bool th = !strcmp(tier, "thorough");
  gThorough = th;
  if (list) {
    for (int i = 0; i < gNScen; i++) printf("%s\n", gScen[i].name);
    return 0;
  }
  sh = (Shared*)smap(sizeof(Shared));
  ws = (WorkerState*)smap(sizeof(WorkerState) * (workers + 1));
  size_t tsize = size_t(1) << logTable;
  tableMask = tsize - 1;
  table = (uint64_t*)smap(tsize * 8);
  engineInit();

  if (replay) {
    FILE* f = fopen(replay, "r");
    if (!f) {
      perror(replay);
      return 2;
    }
    char name[200] = "";
    static Point pts[kMaxPoints];
    int n = 0;
    char line[1 << 16];
    while (fgets(line, sizeof line, f)) {
      if (sscanf(line, "scenario %199s", name) == 1) continue;
      char tr[40];
      if (sscanf(line, "tier %39s", tr) == 1) {
        th = !strcmp(tr, "thorough");
        gThorough = th;
        continue;
      }
      unsigned a, b2, c, d;
      if (sscanf(line, "choice %u of %u free %u sig %x", &a, &b2, &c, &d) == 4) {
        pts[n].chosen = a;
        pts[n].n = b2;
        pts[n].nfree = c;
        pts[n].sig = d;
        n++;
      }
    }
    fclose(f);
    for (int i = 0; i < gNScen; i++)
      if (!strcmp(gScen[i].name, name)) {
        bool div = false;
        Bounds b = th ? gScen[i].thorough : gScen[i].quick;
        bool fail = replayChild(gScen[i], b, workers, pts, n, 60, verbose, &div);
        printf("replay %s: %s %s\n", name, div ? "DIVERGED" : fail ? "FAILS" : "passes",
               ws[workers].e.msg);
        printf("observed: %s\n", ws[workers].e.obs);
        return div ? 2 : fail ? 1 : 0;
      }
    fprintf(stderr, "no scenario %s\n", name);
    return 2;
  }

  auto selected = [&](const Scenario& s) {
    if (only && !strstr(s.name, only)) return false;
    return (s.tiers & (th ? 2 : 1)) != 0;
  };
  double tEnd = realNow() + budget;
  int rc = 0;
  // Iterate the bound over all scenarios: every scenario completes bound k
  // before any starts bound k+1, so that a time cap leaves a uniform bound.
  struct St {
    bool done, failed, capped;
    int completed;
    uint64_t execs, steps, nodes, prunes, discards, keys, donated, maxDepth;
    int nOutcomes;
    char samples[6][400];
    int nSamples;
    double wall;
    uint64_t outs[kOutcomes];
    int tableFull;
  };
  St* st = (St*)smap(sizeof(St) * (gNScen + 1));
  for (int i = 0; i < gNScen; i++) st[i].completed = -1;
  int top = 0;
  for (int i = 0; i < gNScen; i++) {
    int p = th ? gScen[i].thorough.preemptions : gScen[i].quick.preemptions;
    if (p > top) top = p;
  }
  bool stopAll = false;
  for (int bound = 0; bound <= top && !stopAll; bound++) {
    int remainingScen = 0;
    for (int i = 0; i < gNScen; i++) {
      int p = th ? gScen[i].thorough.preemptions : gScen[i].quick.preemptions;
      if (selected(gScen[i]) && bound <= p && !st[i].capped) remainingScen++;
    }
    for (int i = 0; i < gNScen && !stopAll; i++) {
      const Scenario& sc = gScen[i];
      if (!selected(sc)) continue;
      Bounds b = th ? sc.thorough : sc.quick;
      int maxp = b.preemptions;
      if (maxBound >= 0 && maxBound < maxp) maxp = maxBound;
      if (bound > maxp || st[i].capped) continue;
      double t0 = realNow();
      if (t0 > tEnd && bound > 0) {
        st[i].capped = true;
        remainingScen--;
        continue;
      }
      // Fair share of what is left (a minimum of 2 s).
      double share = (tEnd - t0) / (remainingScen > 0 ? remainingScen : 1);
      if (bound < top) share = (tEnd - t0) * 0.6;
      if (share < 2) share = 2;
      remainingScen--;
      memset(table, 0, 0);
      if (true) {  // fresh table
        madvise(table, tsize * 8, MADV_REMOVE);
      }
      sh->execs = sh->steps = sh->nodes = sh->prunes = sh->discards = 0;
      sh->keys = sh->donated = sh->maxDepth = 0;
      sh->failed = sh->diverged = 0;
      sh->tableFull = 0;
      sh->nSamples = st[i].nSamples;
      sh->nOutcomes = st[i].nOutcomes;
      memcpy(sh->outcomes, st[i].outs, sizeof(st[i].outs));
      memcpy(sh->samples, st[i].samples, sizeof(sh->samples));
      exploreBound(sc, b, bound, workers, t0 + share);
      st[i].wall += realNow() - t0;
      if (!sh->capped || sh->failed || bound == 0 || sh->execs > st[i].execs) {
        st[i].execs = sh->execs;
        st[i].steps = sh->steps;
        st[i].nodes = sh->nodes;
        st[i].prunes = sh->prunes;
        st[i].discards = sh->discards;
        st[i].keys = sh->keys;
        st[i].donated = sh->donated;
        st[i].maxDepth = sh->maxDepth;
      }
      st[i].tableFull |= sh->tableFull;
      st[i].nOutcomes = sh->nOutcomes;
      st[i].nSamples = sh->nSamples;
      memcpy(st[i].outs, sh->outcomes, sizeof(st[i].outs));
      memcpy(st[i].samples, sh->samples, sizeof(sh->samples));
      if (sh->failed) {
        st[i].failed = true;
        stopAll = true;
        // Replay twice before reporting.
        bool div = sh->diverged;
        int confirmed = 0;
        char m1[kMsg] = "", m2[kMsg] = "";
        static Point pts[kMaxPoints];
        int n = sh->failN;
        memcpy(pts, sh->failPts, sizeof(Point) * n);
        if (!div) {
          if (replayChild(sc, b, workers, pts, n, gHang, false, &div)) confirmed++;
          snprintf(m1, kMsg, "%s", ws[workers].e.msg);
          if (!div && replayChild(sc, b, workers, pts, n, gHang, false, &div)) confirmed++;
          snprintf(m2, kMsg, "%s", ws[workers].e.msg);
        }
        char path[1000];
        snprintf(path, sizeof path, "%s/%s.replay", outdir, sc.name);
        FILE* f = fopen(path, "w");
        if (f) {
          fprintf(f, "scenario %s\ntier %s\nbound %d\nmessage %s\nreplayed %d of 2: %s\nobserved %s\n",
                  sc.name, th ? "thorough" : "quick", bound, sh->failMsg, confirmed, m1, sh->failObs);
          for (int k = 0; k < n; k++)
            fprintf(f, "choice %u of %u free %u sig %x\n", pts[k].chosen, pts[k].n, pts[k].nfree,
                    pts[k].sig);
          fclose(f);
        }
        printf("{\"fail\":\"%s\",\"confirmed\":%d,\"diverged\":%d,\"replay\":", sc.name, confirmed,
               div ? 1 : 0);
        jsonStr(stdout, path);
        printf(",\"message\":");
        jsonStr(stdout, sh->failMsg);
        printf(",\"replay_message\":");
        jsonStr(stdout, m2);
        printf("}\n");
        fflush(stdout);
        rc = (confirmed == 2 && !div) ? 1 : 2;
      } else if (sh->capped) {
        st[i].capped = true;
      } else {
        st[i].completed = bound;
      }
      if (verbose)
        fprintf(stderr, "%s bound %d: execs %lu keys %lu prunes %lu steps %lu nodes %lu outcomes %d %.2fs%s\n",
                sc.name, bound, sh->execs, sh->keys, sh->prunes, sh->steps, sh->nodes, sh->nOutcomes,
                realNow() - t0, sh->capped ? " CAPPED" : "");
    }
  }
  for (int i = 0; i < gNScen; i++) {
    if (!selected(gScen[i])) continue;
    int want = th ? gScen[i].thorough.preemptions : gScen[i].quick.preemptions;
    printf("{\"scenario\":\"%s\",\"engine\":\"%s\",\"bound_requested\":%d,\"bound_completed\":%d,"
           "\"capped\":%s,\"failed\":%s,\"executions\":%lu,\"pruned\":%lu,\"discarded\":%lu,"
           "\"states\":%lu,\"choice_points\":%lu,\"steps\":%lu,\"max_choices\":%lu,\"outcomes\":%d,"
           "\"table_full\":%d,\"wall\":%.2f,\"samples\":[",
           gScen[i].name, engineName, want, st[i].completed, st[i].capped ? "true" : "false",
           st[i].failed ? "true" : "false", st[i].execs, st[i].prunes, st[i].discards, st[i].keys,
           st[i].nodes, st[i].steps, st[i].maxDepth, st[i].nOutcomes, st[i].tableFull, st[i].wall);
    for (int k = 0; k < st[i].nSamples; k++) {
      if (k) putchar(',');
      jsonStr(stdout, st[i].samples[k]);
    }
    printf("]}\n");
  }
  fflush(stdout);
  // skip static destructors of the harness
  _exit(rc);
}
