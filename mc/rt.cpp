// Concurrent engine: user threads are fibers on one OS thread; every
// synchronisation operation is a scheduling point decided by the explorer.
// Provides the __tsan_* callbacks emitted by -fsanitize=thread, and
// interposes pthreads, static-initialisation guards, clocks and the heap.
#include "rt.h"

#include <new>

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define PUBLIC __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define RET __builtin_return_address(0)

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* __cxa_get_globals();
extern char __libc_single_threaded;
}

namespace mc {
namespace ex {
const char* engineName = "interleaving";
}
namespace rt {

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

static const size_t kStack = 512 * 1024;
static const uintptr_t R_BASE = 0x200000000000ull;
static const size_t kStacks = kStack * NF;
static const size_t kArena = size_t(192) << 20;
static const size_t R_SIZE = kStacks + kArena;
static const uintptr_t A_BASE = R_BASE + kStacks;
static const int SLOTS = 8;
static const u64 kForever = ~0ull;

enum Kind {
  K_NONE, K_LOCK, K_TRYLOCK, K_CWAIT, K_CWAITING, K_NOTIFY, K_NOTIFYALL, K_JOIN,
  K_LOAD, K_STORE, K_RMW, K_GUARD, K_YIELD, K_QUIESCE, K_SLEEP, K_CHOOSE,
  K_UNLOCK, K_EXIT, K_REF, K_LOG, K_CELL, K_AWAIT, K_ONCE, K_RWLOCK, K_NET = 64
};

struct TlsDtor {
  void (*fn)(void*);
  void* obj;
};

struct Fiber {
  int id;
  void* sp;
  char* stackLo;
  bool used, done, joined, detached;
  int kind;
  const void* obj;
  EnabledFn en;
  void* arg;
  u64 deadline;
  bool fired;        // deadline fired
  bool notified;     // condition wait
  bool spurious;
  u64 H;
  u64 vc[NF];
  int savedErrno;
  void* eh[2];
  char* tls;
  void* (*start)(void*);
  void* startArg;
  void* ret;
  TlsDtor dtors[32];
  int ndtors;
  void* specific[32];
  int refDepth;
};

struct Obj {
  const void* addr;
  u32 gen;
  int owner;       // fiber id, -1 free
  int count;
  u32 touched;     // fibers that used it
  int readers;
  bool guardDone;
  u64 H, R;
  u64 vc[NF];
  u8 waiters[NF];
  int nwaiters;
};

static const int kObjs = 1 << 15;

struct Block {
  u32 off;      // from A_BASE
  u32 size;
  u32 live;
  int fiber;
  void* pc[6];
};

static const int kBlocks = 1 << 20;
static const int kEvents = 16384;
static const int kEventBytes = 1 << 22;

struct State {
  bool on;
  bool inited;
  ex::Exec* e;
  Bounds b;
  const Scenario* sc;
  Fiber f[NF];
  int nf;
  Fiber* cur;
  void* hostSp;
  int hostErrno;
  u64 epoch;       // clock base of this execution
  u64 maxClock;
  u64 now;
  long steps;
  long accesses;
  int consec;
  u32 gen;
  Obj objs[kObjs];
  int nObjs;
  // arena
  size_t top, floor;
  Block* blocks;
  u32 nblocks, floorBlocks;
  u32* blockOf;    // per 16 bytes: index+1
  u8* alloc;       // per 8 bytes: 0 none, 1..8 valid bytes, 0xFD freed
  u64* shadow;     // SLOTS per 8 bytes
  u32* shadowPc;   // verbose only
  // executable image
  uintptr_t exeLo, exeHi, textLo, textHi;
  struct Seg { uintptr_t lo, hi; char* snap; u64* shadow; } seg[4];
  int nseg;
  char* tlsPtr;
  size_t tlsSize;
  const char* tlsInit;
  size_t tlsInitSize;
  // base heap blocks restored before each execution
  char* heapSnap;
  bool snapped;
  long cells[256];
  struct Ev { int off, len, th; } ev[kEvents];
  int nev;
  char evBytes[kEventBytes];
  int evOff;
  bool ending;
  char altstack[65536];
  int specificKeys;
  struct AtExit { void (*fn)(void*); void* arg; } atexits[256];
  int natexits;
};

static State* g;

static const char* kindName(int k) {
  static const char* n[] = {"none", "lock", "trylock", "cond_wait", "cond_waiting", "notify_one",
                            "notify_all", "join", "load", "store", "rmw", "static_init", "yield",
                            "quiesce", "sleep", "choose", "unlock", "exit", "refcount", "log", "cell",
                            "await", "once", "rwlock"};
  if (k < (int)(sizeof(n) / sizeof(n[0]))) return n[k];
  return "syscall";
}

static inline u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9E3779B97F4A7C15ull + (b ^ (b >> 29)) * 0xBF58476D1CE4E5B9ull + 0x1234567;
  x ^= x >> 31;
  x *= 0x94D049BB133111EBull;
  x ^= x >> 29;
  return x;
}

bool active() { return g && g->on; }
const Bounds& bounds() { return g->b; }
u64 virtualNow() { return g->now; }
bool verbose() { return g->e->verbose; }
void endFail(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g->e->msg, ex::kMsg, fmt, ap);
  va_end(ap);
  g->e->result = ex::kFail;
}
bool fromExe(void* ret) {
  uintptr_t a = (uintptr_t)ret;
  return a >= g->textLo && a < g->textHi;
}
void mixHash(u64 v) { g->cur->H = mix(g->cur->H, v); }

// ---------------------------------------------------------------- switching
extern "C" void mc_switch(void** from, void* to);
asm(R"(
.text
.hidden mc_switch
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

static void saveFiber(Fiber* f) {
  f->savedErrno = errno;
  void** eh = (void**)__cxa_get_globals();
  f->eh[0] = eh[0];
  f->eh[1] = eh[1];
  if (g->tlsSize) memcpy(f->tls, g->tlsPtr, g->tlsSize);
}
static void loadFiber(Fiber* f) {
  errno = f->savedErrno;
  void** eh = (void**)__cxa_get_globals();
  eh[0] = f->eh[0];
  eh[1] = f->eh[1];
  if (g->tlsSize) memcpy(g->tlsPtr, f->tls, g->tlsSize);
}

[[noreturn]] static void toHost() {
  void* dummy;
  g->on = false;
  mc_switch(&dummy, g->hostSp);
  __builtin_unreachable();
}

static int backtraceHex(char* out, size_t n, void** fp, void* pc) {
  size_t l = 0;
  out[0] = 0;
  uintptr_t lo = R_BASE, hi = R_BASE + R_SIZE;
  if (pc) l += snprintf(out + l, n - l, " %p", pc);
  for (int i = 0; i < 40 && l + 20 < n; i++) {
    uintptr_t a = (uintptr_t)fp;
    if (a < lo || a + 16 > hi || (a & 7)) break;
    void* ret = fp[1];
    if (!ret) break;
    if (fromExe(ret)) l += snprintf(out + l, n - l, " %p", ret);
    void** nfp = (void**)fp[0];
    if (nfp <= fp) break;
    fp = nfp;
  }
  return (int)l;
}

[[noreturn]] static void finish(ex::Result r) {
  g->e->result = r;
  g->e->steps = g->steps;
  toHost();
}

[[noreturn]] static void vfailAt(void** fp, void* pc, const char* fmt, va_list ap) {
  char* m = g->e->msg;
  int n = vsnprintf(m, ex::kMsg, fmt, ap);
  if (n > ex::kMsg - 1000) n = ex::kMsg - 1000;
  n += snprintf(m + n, ex::kMsg - n, " [thread %d; stack", g->cur ? g->cur->id : -1);
  n += backtraceHex(m + n, ex::kMsg - n - 2, fp, pc);
  snprintf(m + n, ex::kMsg - n, "]");
  finish(ex::kFail);
}
[[noreturn]] static void failAt(void* pc, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfailAt((void**)__builtin_frame_address(0), pc, fmt, ap);
}

// ------------------------------------------------------------------ objects
static Obj* lookup(const void* a) {
  u64 h = mix((u64)a, 77) & (kObjs - 1);
  for (int i = 0; i < kObjs; i++, h = (h + 1) & (kObjs - 1)) {
    Obj& o = g->objs[h];
    if (o.gen != g->gen) {
      o.addr = a;
      o.gen = g->gen;
      o.owner = -1;
      o.count = 0;
      o.touched = 0;
      o.readers = 0;
      o.guardDone = false;
      o.H = 0x55;
      o.R = 0;
      memset(o.vc, 0, sizeof(o.vc));
      o.nwaiters = 0;
      g->nObjs++;
      return &o;
    }
    if (o.addr == a) return &o;
  }
  failAt(RET, "too many synchronisation objects");
}

static void doWrite(Obj* o, int kind) {
  Fiber* f = g->cur;
  o->touched |= 1u << f->id;
  f->H = mix(mix(f->H, kind), o->H + o->R);
  o->H = f->H;
  o->R = 0;
}
static void doRead(Obj* o, int kind) {
  Fiber* f = g->cur;
  o->touched |= 1u << f->id;
  f->H = mix(mix(f->H, kind), o->H);
  o->R += mix(f->H, 3);
}
static void acq(Obj* o) {
  Fiber* f = g->cur;
  for (int i = 0; i < NF; i++)
    if (o->vc[i] > f->vc[i]) f->vc[i] = o->vc[i];
}
static void bump(Fiber* f) {
  f->vc[f->id]++;
  if (f->vc[f->id] > g->maxClock) g->maxClock = f->vc[f->id];
}
static void rel(Obj* o, bool join = true) {
  Fiber* f = g->cur;
  for (int i = 0; i < NF; i++)
    if (!join || f->vc[i] > o->vc[i]) o->vc[i] = f->vc[i];
  bump(f);
}
void opRead(const void* p, int kind) { doRead(lookup(p), kind); }
void opWrite(const void* p, int kind) { doWrite(lookup(p), kind); }
void acquire(const void* p) { acq(lookup(p)); }
void release(const void* p) { rel(lookup(p)); }

// ---------------------------------------------------------------- scheduler
static bool always(void*) { return true; }
static bool never(void*) { return false; }

static void describe(char* out, size_t n) {
  size_t l = 0;
  for (int i = 0; i < g->nf && l < n; i++) {
    Fiber* f = &g->f[i];
    l += snprintf(out + l, n - l, " t%d:%s", i,
                  f->done ? "done" : kindName(f->kind));
    if (l + 30 < n && !f->done && f != g->cur && f->sp) {
      // saved registers: r15 r14 r13 r12 rbx rbp, then the return address
      l += snprintf(out + l, n - l, " [stack");
      size_t room = n - l - 2;
      if (room > 130) room = 130;
      l += backtraceHex(out + l, room, (void**)((void**)f->sp)[5], nullptr);
      l += snprintf(out + l, n - l, "]");
    }
  }
}

static u64 stateKey(int curTag) {
  u64 s = mix(g->now, curTag);
  for (int i = 0; i < g->nf; i++) {
    Fiber* f = &g->f[i];
    s += mix(f->H, 1000 + i * 2 + (f->done ? 1 : 0));
  }
  s += mix(g->nf, 99);
  return s ? s : 1;
}

static void switchTo(Fiber* to) {
  Fiber* from = g->cur;
  if (from == to) return;
  g->consec = 0;
  saveFiber(from);
  g->cur = to;
  mc_switch(&from->sp, to->sp);
  // resumed
  loadFiber(g->cur);
}

static void tracePoint(Fiber* next) {
  if (!g->e->verbose) return;
  fprintf(stderr, "  step %ld: t%d runs: %s(%p)\n", g->steps, next->id, kindName(next->kind), next->obj);
}

static bool enabledOf(Fiber* f) {
  if (f->done || !f->used) return false;
  // a condition waiter always needs its mutex, even when its deadline passed
  return f->kind == K_CWAITING ? f->en(f->arg) : (f->fired || f->en(f->arg));
}

// Decides which fiber runs next; cur's pending operation is recorded.
static void dispatch() {
  Fiber* me = g->cur;
  for (;;) {
    struct Opt { Fiber* f; int how; } opts[NF * 3];
    int n = 0, nfree;
    bool meEn = enabledOf(me);
    bool forced = g->consec > 2000;
    if (meEn && !forced) opts[n++] = {me, 0};
    for (int k = 1; k < g->nf + 1; k++) {
      Fiber* f = &g->f[(me->id + k) % g->nf];
      if (f == me || !f->used || f->done) continue;
      if (f->kind == K_QUIESCE) continue;
      if (enabledOf(f)) opts[n++] = {f, 0};
    }
    if (meEn && forced) {
      if (n == 0) opts[n++] = {me, 0};
      else g->consec = 0;
    }
    nfree = (meEn && !forced) ? 1 : n;
    if (n == 0) {
      // quiescent: release a quiesce() caller first, then let time pass
      for (int i = 0; i < g->nf; i++)
        if (!g->f[i].done && g->f[i].kind == K_QUIESCE) {
          opts[n++] = {&g->f[i], 0};
          break;
        }
      nfree = n;
      if (n == 0) {
        Fiber* best = nullptr;
        for (int i = 0; i < g->nf; i++) {
          Fiber* f = &g->f[i];
          if (!f->done && f->deadline && !f->fired && f->deadline != kForever && (!best || f->deadline < best->deadline))
            best = f;
        }
        if (best) {
          opts[n++] = {best, 3};
          nfree = n;
        }
      }
      if (n == 0) {
        bool all = true;
        for (int i = 0; i < g->nf; i++)
          if (!g->f[i].done) all = false;
        if (all) finish(ex::kOk);
        char d[1500];
        describe(d, sizeof d);
        failAt(nullptr, "deadlock: no thread can run:%s", d);
      }
    } else {
      if (g->b.timeouts)
        for (int i = 0; i < g->nf; i++) {
          Fiber* f = &g->f[i];
          if (!f->done && f->deadline && f->deadline != kForever && !f->fired && !f->en(f->arg)) {
            // the wait may expire now; it can only run if its mutex is free
            f->fired = true;
            bool ok = f->kind == K_CWAITING ? f->en(f->arg) : true;
            f->fired = false;
            if (ok) opts[n++] = {f, 1};
          }
        }
    }
    // (with n == 0 this is a deadlock, which a spurious wakeup must not hide)
    if (g->b.spurious)
      for (int i = 0; i < g->nf; i++) {
        Fiber* f = &g->f[i];
        if (!f->done && f->kind == K_CWAITING && !f->notified && !f->fired && !f->spurious) {
          f->spurious = true;
          bool ok = f->en(f->arg);
          f->spurious = false;
          if (ok) opts[n++] = {f, 2};
        }
      }
    int pick = 0;
    if (n > 1) {
      u32 sig = (u32)(me->id * 131 + me->kind * 7 + n * 1009 + (meEn ? 5 : 0) + nfree * 31);
      for (int i = 0; i < n; i++) sig = sig * 33 + opts[i].f->id * 64 + opts[i].f->kind + opts[i].how * 4096;
      pick = ex::point(g->e, n, nfree, sig, stateKey((meEn && !forced) ? me->id : 255));
      if (pick < 0) finish(g->e->result);
    }
    Fiber* f = opts[pick].f;
    if (opts[pick].how == 3) {  // nobody can run: time passes
      f->fired = true;
      if (f->deadline > g->now) g->now = f->deadline;
      continue;
    }
    if (opts[pick].how == 1) {
      f->fired = true;
      if (f->deadline > g->now) g->now = f->deadline;
    } else if (opts[pick].how == 2) {
      f->spurious = true;
    }
    tracePoint(f);
    if (f == me) {
      g->consec++;
      return;
    }
    switchTo(f);
    return;
  }
}

bool schedPoint(int kind, const void* obj, EnabledFn en, void* arg, u64 deadline) {
  Fiber* me = g->cur;
  g->steps++;
  if (UNLIKELY(g->steps > g->b.horizon)) {
    char d[1500];
    describe(d, sizeof d);
    failAt(RET, "livelock: execution did not end within %ld steps:%s", g->b.horizon, d);
  }
  me->kind = kind;
  me->obj = obj;
  me->en = en;
  me->arg = arg;
  me->deadline = deadline;
  me->fired = false;
  dispatch();
  bool fired = me->fired;
  me->deadline = 0;
  me->kind = K_NONE;
  return !fired;
}

// -------------------------------------------------------------------- heap
static void checkRange(uintptr_t a, size_t n, bool w, void* pc);

static void* arenaAlloc(size_t n, size_t align, void* pc, void** fp) {
  if (align < 16) align = 16;
  size_t off = (g->top + 16 + align - 1) & ~(align - 1);
  if (n > kArena - off - 64) {
    if (n > (size_t(1) << 40)) failAt(pc, "allocation of %zu bytes", n);
    failAt(pc, "execution exceeded its memory limit (%zu bytes used, %zu requested)", g->top, n);
  }
  if (g->nblocks >= kBlocks - 1) failAt(pc, "execution exceeded its allocation count limit");
  size_t sz = n ? n : 1;
  g->top = off + sz;
  Block& b = g->blocks[g->nblocks];
  b.off = off;
  b.size = n;
  b.live = 1;
  b.fiber = g->cur ? g->cur->id : -1;
  b.pc[0] = pc;
  for (int i = 1; i < 6; i++) b.pc[i] = nullptr;
  if (fp) {
    for (int i = 1; i < 6; i++) {
      uintptr_t a = (uintptr_t)fp;
      if (a < R_BASE || a >= A_BASE || (a & 7)) break;
      b.pc[i] = fp[1];
      void** nfp = (void**)fp[0];
      if (nfp <= fp) break;
      fp = nfp;
    }
  }
  g->blockOf[off / 16] = ++g->nblocks;
  size_t gr = off / 8;
  size_t full = n / 8;
  memset(g->alloc + gr, 8, full);
  if (n % 8) g->alloc[gr + full] = n % 8;
  char* p = (char*)(A_BASE + off);
  memset(p, 0xCD, sz);
  // A fresh block: no earlier accesses in this execution (bump allocation).
  return p;
}

static void arenaFree(void* p, void* pc) {
  size_t off = (uintptr_t)p - A_BASE;
  u32 bi = (off % 16) ? 0 : g->blockOf[off / 16];
  if (!bi || bi > g->nblocks || g->blocks[bi - 1].off != off) failAt(pc, "free of invalid pointer %p", p);
  Block& b = g->blocks[bi - 1];
  if (!b.live) failAt(pc, "double free of %p", p);
  if (bi - 1 < g->floorBlocks) {
    // block that existed before the execution began: restored afterwards
    checkRange((uintptr_t)p, b.size, true, pc);
    b.live = 0;
    memset(g->alloc + off / 8, 0xFD, (b.size + 7) / 8);
    return;
  }
  checkRange((uintptr_t)p, b.size, true, pc);
  b.live = 0;
  memset(g->alloc + off / 8, 0xFD, (b.size + 7) / 8);
  // Destroyed contents become visible to any later (wrong) reader.
  memset(p, 0xDD, b.size);
}

static inline bool inArena(const void* p) {
  uintptr_t a = (uintptr_t)p;
  return a >= A_BASE && a < A_BASE + kArena;
}

// ----------------------------------------------------------- access checking
static void raceReport(uintptr_t a, size_t n, bool w, u64 slot, u32 pcOther, void* pc) {
  failAt(pc, "data race: %s of %zu bytes at %p by thread %d conflicts with earlier %s by thread %d (other pc 0x%x)",
         w ? "write" : "read", n, (void*)a, g->cur->id, (slot >> 8) & 1 ? "write" : "read",
         int((slot >> 12) & 15), pcOther);
}

static inline void granule(u64* s, u32* pcs, u8 mask, bool w, uintptr_t a, size_t n, void* pc) {
  Fiber* f = g->cur;
  u64 clk = f->vc[f->id];
  u64 mine = (clk << 16) | (u64(f->id) << 12) | (u64(w) << 8) | mask;
  if (LIKELY(s[0] == mine)) return;
  int put = -1, oldest = 0;
  u64 epoch = g->epoch;
  for (int i = 0; i < SLOTS; i++) {
    u64 v = s[i];
    u64 c = v >> 16;
    if (c < epoch) {
      if (put < 0) put = i;
      if (v == 0 || true) {
        // slots are filled in order within an execution, but stale ones may
        // be anywhere: keep scanning only while live entries may follow
      }
      continue;
    }
    int t = (v >> 12) & 15;
    u8 m = v & 0xFF;
    bool vw = (v >> 8) & 1;
    if (t == f->id) {
      if (vw <= w && (m & ~mask) == 0) {
        if (put < 0 || (s[put] >> 16) < epoch) put = i;
        else s[i] = 0;
      }
      continue;
    }
    if ((m & mask) && (w || vw) && c > f->vc[t] && g->b.racecheck)
      raceReport(a, n, w, v, pcs ? pcs[i] : 0, pc);
    if (w && (m & ~mask) == 0 && c <= f->vc[t]) {
      if (put < 0) put = i;
      else s[i] = 0;
    }
    if ((s[oldest] >> 16) > c) oldest = i;
  }
  if (put < 0) put = oldest;
  s[put] = mine;
  if (pcs) pcs[put] = (u32)(uintptr_t)pc;
}

static void checkAlloc(uintptr_t a, size_t n, bool w, void* pc) {
  size_t off = a - A_BASE;
  size_t gi = off / 8;
  size_t end = off + n;
  for (; gi * 8 < end; gi++) {
    u8 st = g->alloc[gi];
    if (LIKELY(st == 8)) continue;
    size_t hi = end - gi * 8;
    if (hi > 8) hi = 8;
    if (st == 0xFD) failAt(pc, "use after free: %s of %zu bytes at %p", w ? "write" : "read", n, (void*)a);
    if (hi > st)
      failAt(pc, "out-of-bounds %s of %zu bytes at %p", w ? "write" : "read", n, (void*)a);
  }
}

static void shadowRange(u64* sh, u32* pcs, uintptr_t base, uintptr_t a, size_t n, bool w, void* pc) {
  uintptr_t end = a + n;
  uintptr_t x = a;
  while (x < end) {
    size_t gi = (x - base) / 8;
    unsigned lo = (x - base) & 7;
    unsigned len = 8 - lo;
    if (len > end - x) len = end - x;
    u8 mask = u8(((1u << len) - 1) << lo);
    granule(sh + gi * SLOTS, pcs ? pcs + gi * SLOTS : nullptr, mask, w, x, n, pc);
    x += len;
  }
}

static void checkRange(uintptr_t a, size_t n, bool w, void* pc) {
  if (n == 0) return;
  if (a - R_BASE < R_SIZE) {
    if (a >= A_BASE) checkAlloc(a, n, w, pc);
    else {
      uintptr_t lo = (uintptr_t)g->cur->stackLo;
      if (a - lo < kStack) return;
    }
    shadowRange(g->shadow, g->shadowPc, R_BASE, a, n, w, pc);
    return;
  }
  for (int i = 0; i < g->nseg; i++)
    if (a >= g->seg[i].lo && a < g->seg[i].hi) {
      shadowRange(g->seg[i].shadow, nullptr, g->seg[i].lo & ~7ull, a, n, w, pc);
      return;
    }
}

static inline void access(void* p, size_t n, bool w, void* pc) {
  if (UNLIKELY(!g || !g->on)) return;
  uintptr_t a = (uintptr_t)p;
  if (UNLIKELY(++g->accesses > g->b.accesses))
    failAt(pc, "hang: execution made more than %ld memory accesses", g->b.accesses);
  if (a - (uintptr_t)g->cur->stackLo < kStack) return;
  if (a < 4096) return;  // faults by itself
  checkRange(a, n, w, pc);
}

void memRead(const void* p, size_t n) { access((void*)p, n, false, RET); }
void memWrite(const void* p, size_t n) { access((void*)p, n, true, RET); }

// ------------------------------------------------------------------- fibers
static Fiber* newFiber(void* (*start)(void*), void* arg);

static void runTlsDtors(Fiber* f) {
  while (f->ndtors > 0) {
    TlsDtor d = f->dtors[--f->ndtors];
    d.fn(d.obj);
  }
}

static void fiberExit() {
  Fiber* f = g->cur;
  runTlsDtors(f);
  f->done = true;
  f->kind = K_EXIT;
  f->H = mix(f->H, K_EXIT);
  Obj* o = lookup(f);
  rel(o);
  g->steps++;
  dispatch();
  abort();
}

static void fiberMain() {
  Fiber* f = g->cur;
  loadFiber(f);
  try {
    f->ret = f->start(f->startArg);
  } catch (...) {
    failAt(nullptr, "uncaught exception in thread %d (std::terminate)", f->id);
  }
  fiberExit();
}

asm(R"(
.text
.hidden mc_fiber_entry
.globl mc_fiber_entry
.type mc_fiber_entry,@function
mc_fiber_entry:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp, %ebp
  andq $-16, %rsp
  call mc_fiber_main
  ud2
  .cfi_endproc
.size mc_fiber_entry,.-mc_fiber_entry
)");
extern "C" void mc_fiber_entry();
extern "C" __attribute__((visibility("hidden"))) void mc_fiber_main() { fiberMain(); }

static Fiber* newFiber(void* (*start)(void*), void* arg) {
  if (g->nf >= NF) failAt(nullptr, "more than %d threads in one execution", NF);
  Fiber* f = &g->f[g->nf];
  char* tls = f->tls;
  memset(f, 0, sizeof *f);
  f->tls = tls;
  f->id = g->nf++;
  f->stackLo = (char*)(R_BASE + kStack * f->id);
  f->used = true;
  f->start = start;
  f->startArg = arg;
  f->kind = K_YIELD;
  f->en = always;
  if (g->tlsSize) {
    memset(f->tls, 0, g->tlsSize);
    memcpy(f->tls, g->tlsInit, g->tlsInitSize);
  }
  void** sp = (void**)(f->stackLo + kStack);
  *--sp = nullptr;
  *--sp = nullptr;
  *--sp = (void*)mc_fiber_entry;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  f->sp = sp;
  for (int i = 0; i < NF; i++) f->vc[i] = g->epoch - 1;
  f->vc[f->id] = g->epoch;
  return f;
}

// ---------------------------------------------------------------- execution
static void* mainBody(void*) {
  g->sc->fn();
  return nullptr;
}

static bool reachableFromGlobals() {
  // Conservative marking from the executable's writable data.
  bool changed = true;
  for (u32 i = g->floorBlocks; i < g->nblocks; i++)
    if (g->blocks[i].live == 2) g->blocks[i].live = 1;
  auto scan = [&](uintptr_t lo, uintptr_t hi) {
    bool any = false;
    for (uintptr_t a = (lo + 7) & ~7ull; a + 8 <= hi; a += 8) {
      uintptr_t v = *(uintptr_t*)a;
      if (v < A_BASE || v >= A_BASE + g->top) continue;
      // find block containing v
      size_t off = v - A_BASE;
      u32 lo2 = 0, hi2 = g->nblocks;
      while (lo2 < hi2) {
        u32 m = (lo2 + hi2) / 2;
        if (g->blocks[m].off <= off) lo2 = m + 1;
        else hi2 = m;
      }
      if (lo2 == 0) continue;
      Block& b = g->blocks[lo2 - 1];
      if (off > b.off + b.size) continue;
      if (b.live == 1) {
        b.live = 2;
        any = true;
      }
    }
    return any;
  };
  for (int i = 0; i < g->nseg; i++) scan(g->seg[i].lo, g->seg[i].hi);
  while (changed) {
    changed = false;
    for (u32 i = 0; i < g->nblocks; i++) {
      Block& b = g->blocks[i];
      if (b.live == 2) {
        b.live = 3;
        scan(A_BASE + b.off, A_BASE + b.off + b.size);
        changed = true;
      }
    }
  }
  bool leak = false;
  for (u32 i = g->floorBlocks; i < g->nblocks; i++)
    if (g->blocks[i].live == 1) leak = true;
  for (u32 i = 0; i < g->nblocks; i++)
    if (g->blocks[i].live == 3) g->blocks[i].live = i < g->floorBlocks ? 1 : 4;
  return !leak;
}

static void reset() {
  // heap
  memset(g->alloc + g->floor / 8, 0, (g->top - g->floor) / 8 + 16);
  g->top = g->floor;
  for (u32 i = 0; i < g->floorBlocks; i++) {
    Block& b = g->blocks[i];
    if (b.live == 0 && b.fiber == -2) continue;
    if (b.live == 0) {  // freed during an execution: revive
      b.live = 1;
      memset(g->alloc + b.off / 8, 8, b.size / 8);
      if (b.size % 8) g->alloc[b.off / 8 + b.size / 8] = b.size % 8;
    }
  }
  g->nblocks = g->floorBlocks;
  g->gen++;
  g->nObjs = 0;
  g->epoch = g->maxClock + 2;
  g->maxClock = g->epoch;
  g->nf = 0;
  g->now = 1000ull * 1000000000ull;
  g->steps = 0;
  g->accesses = 0;
  g->consec = 0;
  g->nev = 0;
  g->natexits = 0;
  g->evOff = 0;
  g->ending = false;
  memset(g->cells, 0, sizeof(g->cells));
  netReset();
}

static void restoreGlobals() {
  if (!g->snapped) return;
  for (int i = 0; i < g->nseg; i++)
    memcpy((void*)g->seg[i].lo, g->seg[i].snap, g->seg[i].hi - g->seg[i].lo);
  char* p = g->heapSnap;
  for (u32 i = 0; i < g->floorBlocks; i++) {
    Block& b = g->blocks[i];
    if (b.fiber == -2) continue;
    memcpy((void*)(A_BASE + b.off), p, b.size);
    p += b.size;
  }
}

static void snapshot() {
  for (int i = 0; i < g->nseg; i++)
    memcpy(g->seg[i].snap, (void*)g->seg[i].lo, g->seg[i].hi - g->seg[i].lo);
  size_t total = 0;
  for (u32 i = 0; i < g->floorBlocks; i++) {
    Block& b = g->blocks[i];
    if (b.live == 0) b.fiber = -2;  // dead for good
    else {
      b.live = 1;
      total += b.size;
    }
  }
  g->heapSnap = (char*)__libc_malloc(total + 1);
  char* p = g->heapSnap;
  for (u32 i = 0; i < g->floorBlocks; i++) {
    Block& b = g->blocks[i];
    if (b.fiber == -2) continue;
    memcpy(p, (void*)(A_BASE + b.off), b.size);
    p += b.size;
  }
  g->snapped = true;
}

static void execute(ex::Exec* e) {
  restoreGlobals();
  reset();
  g->e = e;
  Fiber hostSave;
  static char hostTls[65536];
  hostSave.tls = hostTls;
  if (g->tlsSize > sizeof hostTls) abort();
  saveFiber(&hostSave);
  Fiber* f = newFiber(mainBody, nullptr);
  f->H = 12345;
  g->cur = f;
  g->on = true;
  mc_switch(&g->hostSp, f->sp);
  g->on = false;
  g->cur = nullptr;
  loadFiber(&hostSave);
  if (e->result == ex::kOk) {
    // end-of-execution checks
    if (g->b.leakcheck) {
      bool any = false;
      for (u32 i = g->floorBlocks; i < g->nblocks; i++)
        if (g->blocks[i].live) any = true;
      if (any && !reachableFromGlobals()) {
        int count = 0;
        size_t bytes = 0;
        Block* first = nullptr;
        for (u32 i = g->floorBlocks; i < g->nblocks; i++)
          if (g->blocks[i].live == 1) {
            count++;
            bytes += g->blocks[i].size;
            if (!first) first = &g->blocks[i];
          }
        e->result = ex::kFail;
        int n = snprintf(e->msg, ex::kMsg, "memory leak: %d blocks (%zu bytes) not released; first of %u bytes allocated by thread %d [stack",
                 count, bytes, first->size, first->fiber);
        for (int k = 0; k < 6; k++)
          if (first->pc[k]) n += snprintf(e->msg + n, ex::kMsg - n, " %p", first->pc[k]);
        snprintf(e->msg + n, ex::kMsg - n, "]");
      }
    }
    if (e->result == ex::kOk) netEnd();
  }
}

static void onSignal(int sig, siginfo_t* si, void* uc) {
  ucontext_t* u = (ucontext_t*)uc;
  char m[ex::kMsg];
  const char* name = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT (abort, assertion or std::terminate)"
                     : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGPIPE ? "SIGPIPE" : "signal";
  int n = snprintf(m, sizeof m, "crash: %s addr %p [thread %d; stack", name, sig == SIGABRT ? nullptr : si->si_addr,
                   g && g->cur ? g->cur->id : -1);
  if (g) n += backtraceHex(m + n, sizeof m - n - 2, (void**)u->uc_mcontext.gregs[REG_RBP],
                    (void*)u->uc_mcontext.gregs[REG_RIP]);
  if (sig == SIGABRT && g && g->cur) {
    // scan the stack for return addresses into the executable
    uintptr_t sp = u->uc_mcontext.gregs[REG_RSP];
    uintptr_t hi = (uintptr_t)g->cur->stackLo + kStack;
    int cnt = 0;
    for (uintptr_t a = sp; a + 8 <= hi && cnt < 14 && n + 20 < (int)sizeof m; a += 8)
      if (fromExe(*(void**)a)) {
        n += snprintf(m + n, sizeof m - n, " %p", *(void**)a);
        cnt++;
      }
  }
  snprintf(m + n, sizeof m - n, "]");
  ex::crashed(m);
  _exit(9);
}

static int phdrCb(struct dl_phdr_info* info, size_t, void*) {
  // the first entry is the executable
  uintptr_t relLo = 0, relHi = 0;
  for (int i = 0; i < info->dlpi_phnum; i++)
    if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
      relLo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
      relHi = (relLo + info->dlpi_phdr[i].p_memsz + 4095) & ~4095ull;
      relHi = relLo + info->dlpi_phdr[i].p_memsz;
    }
  for (int i = 0; i < info->dlpi_phnum; i++) {
    const auto& p = info->dlpi_phdr[i];
    uintptr_t lo = info->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
    if (p.p_type == PT_LOAD) {
      if (!g->exeLo || lo < g->exeLo) g->exeLo = lo;
      if (hi > g->exeHi) g->exeHi = hi;
      if (p.p_flags & PF_X) {
        g->textLo = lo;
        g->textHi = hi;
      }
      if (p.p_flags & PF_W) {
        if (relLo >= lo && relLo < hi) lo = (relHi + 4095) & ~4095ull;
        if (lo < hi && g->nseg < 4) {
          auto& s = g->seg[g->nseg++];
          s.lo = lo;
          s.hi = hi;
          s.snap = (char*)mmap(nullptr, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
          s.shadow = (u64*)mmap(nullptr, (hi - lo + 16) * SLOTS, PROT_READ | PROT_WRITE,
                                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        }
      }
    } else if (p.p_type == PT_TLS) {
      g->tlsPtr = (char*)info->dlpi_tls_data;
      g->tlsSize = p.p_memsz;
      g->tlsInit = (const char*)(info->dlpi_addr + p.p_vaddr);
      g->tlsInitSize = p.p_filesz;
    }
  }
  return 1;
}

static void* pmap(size_t n, uintptr_t at = 0) {
  void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (p == MAP_FAILED || (at && (uintptr_t)p != at)) {
    perror("mmap");
    _exit(2);
  }
  return p;
}

}  // namespace rt

namespace ex {
using namespace rt;

void engineInit() {
  __libc_single_threaded = 0;
  State* s = (State*)pmap(sizeof(State));
  s->epoch = 10;
  s->maxClock = 10;
  s->gen = 1;
  g = s;
  pmap(R_SIZE, R_BASE);
  for (int i = 0; i < NF; i++) mprotect((void*)(R_BASE + kStack * i), 4096, PROT_NONE);
  g->alloc = (u8*)pmap(kArena / 8 + 64);
  g->shadow = (u64*)pmap(R_SIZE * SLOTS);
  g->blockOf = (u32*)pmap(kArena / 16 * 4 + 64);
  g->blocks = (Block*)pmap(sizeof(Block) * kBlocks);
  dl_iterate_phdr(phdrCb, nullptr);
  for (int i = 0; i < NF; i++) g->f[i].tls = (char*)__libc_malloc(g->tlsSize + 64);
  stack_t ss = {};
  ss.ss_sp = g->altstack;
  ss.ss_size = sizeof g->altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPIPE}) sigaction(sig, &sa, nullptr);
}

void engineScenario(const Scenario& s, const Bounds& b) {
  g->sc = &s;
  g->b = b;
  g->floor = 0;
  g->top = 0;
  g->floorBlocks = 0;
  g->nblocks = 0;
  if (b.warmup) {
    // One execution on the default schedule initialises lazily created
    // static state; its effects become part of the initial state.
    Exec* e = (Exec*)pmap(sizeof(Exec));
    e->bound = 0;
    e->cached = false;
    Exec* save = g->e;
    setCurrent(e);
    Bounds b2 = b;
    g->b = b2;
    g->b.leakcheck = false;
    execute(e);
    g->b = b;
    g->e = save;
    // Keep static-lifetime blocks; the rest (if the execution failed half way)
    // is simply never reused.
    g->floor = (g->top + 4095) & ~4095ull;
    g->top = g->floor;
    g->floorBlocks = g->nblocks;
    munmap(e, sizeof(Exec));
  }
  snapshot();
}

void engineRun(Exec* e) {
  if (e->verbose && !g->shadowPc) g->shadowPc = (u32*)pmap(R_SIZE / 2 * SLOTS);
  execute(e);
}

}  // namespace ex

// ----------------------------------------------------------- public harness API
using namespace rt;

PUBLIC void fail(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfailAt((void**)__builtin_frame_address(0), nullptr, fmt, ap);
}
PUBLIC void discard() { finish(ex::kDiscard); }

static int chooseN(int n, int nfree, const char* what) {
  if (!g->on) return 0;
  if (n <= 1) return 0;
  u32 sig = 0xC0000000u + n * 31 + nfree;
  for (const char* p = what; *p; p++) sig = sig * 33 + (u8)*p;
  int r = ex::point(g->e, n, nfree, sig, stateKey(g->cur->id));
  if (r < 0) finish(g->e->result);
  g->cur->H = mix(g->cur->H, 500 + r);
  if (g->e->verbose) fprintf(stderr, "  choose %s = %d of %d\n", what, r, n);
  return r;
}
PUBLIC int choose(int n, const char* what) { return chooseN(n, n, what); }
PUBLIC int deviate(int n, const char* what) { return chooseN(n, 1, what); }

static const char kLogObj = 0;

PUBLIC void observe(const char* fmt, ...) {
  if (!g->on) return;
  va_list ap;
  va_start(ap, fmt);
  int room = ex::kObs - g->e->obsLen - 2;
  if (room > 1) {
    int n = vsnprintf(g->e->obs + g->e->obsLen, room, fmt, ap);
    if (n > room - 1) n = room - 1;
    g->e->obsLen += n;
    g->e->obs[g->e->obsLen++] = ' ';
    g->e->obs[g->e->obsLen] = 0;
  }
  va_end(ap);
  opWrite(&kLogObj, K_LOG);
}
PUBLIC void yield() {
  if (g->on) schedPoint(K_YIELD, nullptr, always, nullptr);
}
PUBLIC long now() {
  opWrite(&kLogObj, K_LOG);
  return g->steps;
}
PUBLIC void quiesce() {
  schedPoint(K_QUIESCE, nullptr, never, nullptr);
  for (int i = 0; i < g->nf; i++)
    if (&g->f[i] != g->cur) g->cur->H = mix(g->cur->H, g->f[i].H);
}
PUBLIC void set(int c, long v) {
  opWrite(&g->cells[c], K_CELL);
  g->cells[c] = v;
}
PUBLIC long get(int c) {
  opWrite(&g->cells[c], K_CELL);
  return g->cells[c];
}
PUBLIC long add(int c, long v) {
  opWrite(&g->cells[c], K_CELL);
  return g->cells[c] += v;
}
struct AwaitArg { int c; long v; };
PUBLIC void await(int c, long v) {
  AwaitArg a = {c, v};
  schedPoint(K_AWAIT, &g->cells[c], [](void* p) { auto a = (AwaitArg*)p; return g->cells[a->c] >= a->v; }, &a);
  opWrite(&g->cells[c], K_CELL);
}
PUBLIC void publish(int c) {
  opWrite(&g->cells[c], K_CELL);
  release(&g->cells[c]);
}
PUBLIC void subscribe(int c) {
  opWrite(&g->cells[c], K_CELL);
  acquire(&g->cells[c]);
}
PUBLIC void eventC(const char* s, size_t n) {
  opWrite(&kLogObj, K_LOG);
  if (g->nev >= kEvents || g->evOff + (int)n > kEventBytes) failAt(RET, "too many events");
  auto& e = g->ev[g->nev++];
  e.off = g->evOff;
  e.len = n;
  e.th = g->cur->id;
  memcpy(g->evBytes + g->evOff, s, n);
  g->evOff += n;
  if (g->e->verbose) fprintf(stderr, "  event t%d: %.*s\n", e.th, (int)(n > 200 ? 200 : n), s);
}
PUBLIC int eventCount() {
  opWrite(&kLogObj, K_LOG);
  return g->nev;
}
PUBLIC const char* eventText(int i, size_t* len) {
  *len = g->ev[i].len;
  return g->evBytes + g->ev[i].off;
}
PUBLIC int eventThread(int i) { return g->ev[i].th; }
PUBLIC int self() { return g->cur->id; }
PUBLIC long liveBlocks() {
  long n = 0;
  for (u32 i = g->floorBlocks; i < g->nblocks; i++) n += g->blocks[i].live != 0;
  return n;
}

}  // namespace mc

using namespace mc;
using namespace mc::rt;

// ==================================================================== pthreads
static bool mtxFree(void* p) {
  Obj* o = (Obj*)p;
  return o->owner < 0;
}
static bool isRec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

static void checkSync(const void* p, size_t n, void* pc) {
  if (inArena(p)) checkAlloc((uintptr_t)p, n, false, pc);
}

// Recursive mutexes: the enabled test runs on behalf of another fiber, so the
// owner must be compared with the waiting fiber, handled by taking the fast
// path before the scheduling point.
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active()) return 0;
  checkSync(m, sizeof *m, RET);
  Obj* o = lookup(m);
  if (o->owner == g->cur->id && isRec(m)) {
    o->count++;
    return 0;
  }
  schedPoint(K_LOCK, m, mtxFree, o);
  checkSync(m, sizeof *m, RET);
  o->owner = g->cur->id;
  o->count = 1;
  acq(o);
  doWrite(o, K_LOCK);
  return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!active()) return 0;
  checkSync(m, sizeof *m, RET);
  schedPoint(K_TRYLOCK, m, always, nullptr);
  Obj* o = lookup(m);
  doWrite(o, K_TRYLOCK);
  if (o->owner == g->cur->id && isRec(m)) {
    o->count++;
    return 0;
  }
  if (o->owner >= 0) return EBUSY;
  o->owner = g->cur->id;
  o->count = 1;
  acq(o);
  return 0;
}
static int timedLock(pthread_mutex_t* m, u64 dl) {
  Obj* o = lookup(m);
  bool ok = schedPoint(K_LOCK, m, mtxFree, o, dl);
  doWrite(o, K_LOCK);
  if (!ok) return ETIMEDOUT;
  o->owner = g->cur->id;
  o->count = 1;
  acq(o);
  return 0;
}
static u64 tsNs(const struct timespec* t) {
  if (t->tv_sec < 0) return 1;
  unsigned __int128 v = (unsigned __int128)t->tv_sec * 1000000000ull + t->tv_nsec;
  if (v >= (unsigned __int128)kForever) return kForever;
  u64 r = (u64)v;
  return r ? r : 1;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  if (!active()) return 0;
  return timedLock(m, tsNs(t));
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* t) {
  if (!active()) return 0;
  return timedLock(m, tsNs(t));
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!active()) return 0;
  checkSync(m, sizeof *m, RET);
  Obj* o = lookup(m);
  if (o->owner != g->cur->id) failAt(RET, "mutex unlocked by thread %d which does not hold it (owner %d)", g->cur->id, o->owner);
  if (--o->count > 0) return 0;
  o->owner = -1;
  rel(o);
  doWrite(o, K_UNLOCK);
  return 0;
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(m, 0, sizeof *m);
  if (a) {
    int t = 0;
    pthread_mutexattr_gettype(a, &t);
    m->__data.__kind = t;
  }
  return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!active()) return 0;
  Obj* o = lookup(m);
  if (o->owner >= 0) failAt(RET, "mutex destroyed while locked");
  return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  memset(c, 0, sizeof *c);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
  if (!active()) return 0;
  Obj* o = lookup(c);
  for (int i = 0; i < o->nwaiters; i++)
    if (!g->f[o->waiters[i]].notified) failAt(RET, "condition variable destroyed while thread %d waits on it", o->waiters[i]);
  return 0;
}

struct CondWait {
  Fiber* f;
  Obj* m;
};
static bool condReady(void* p) {
  CondWait* w = (CondWait*)p;
  return (w->f->notified || w->f->fired || w->f->spurious) && w->m->owner < 0;
}

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline, void* pc) {
  checkSync(c, sizeof *c, pc);
  checkSync(m, sizeof *m, pc);
  schedPoint(K_CWAIT, c, always, nullptr);
  checkSync(c, sizeof *c, pc);
  Obj* co = lookup(c);
  Obj* mo = lookup(m);
  Fiber* f = g->cur;
  if (mo->owner != f->id) failAt(pc, "condition wait without holding the mutex");
  int cnt = mo->count;
  doWrite(co, K_CWAIT);
  co->waiters[co->nwaiters++] = f->id;
  f->notified = false;
  f->spurious = false;
  mo->owner = -1;
  mo->count = 0;
  rel(mo);
  doWrite(mo, K_UNLOCK);
  CondWait w = {f, mo};
  bool inTime;
  if (deadline && deadline <= g->now) {
    // already expired
    f->fired = true;
    deadline = 0;
    // must still reacquire the mutex
    for (int i = 0; i < co->nwaiters; i++)
      if (co->waiters[i] == f->id) {
        memmove(co->waiters + i, co->waiters + i + 1, co->nwaiters - i - 1);
        co->nwaiters--;
        break;
      }
    schedPoint(K_LOCK, m, mtxFree, mo);
    f->fired = false;
    inTime = false;
  } else {
    inTime = schedPoint(K_CWAITING, c, condReady, &w, deadline);
    if (f->notified) inTime = true;
    // leave the queue
    for (int i = 0; i < co->nwaiters; i++)
      if (co->waiters[i] == f->id) {
        memmove(co->waiters + i, co->waiters + i + 1, co->nwaiters - i - 1);
        co->nwaiters--;
        break;
      }
  }
  f->fired = false;
  f->notified = false;
  f->spurious = false;
  checkSync(m, sizeof *m, pc);
  mo->owner = f->id;
  mo->count = cnt;
  acq(mo);
  doWrite(co, K_CWAITING);
  doWrite(mo, K_LOCK);
  f->H = mix(f->H, inTime ? 1 : 2);
  return inTime ? 0 : ETIMEDOUT;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!active()) return 0;
  return condWait(c, m, 0, RET);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!active()) return 0;
  return condWait(c, m, tsNs(t), RET);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) {
  if (!active()) return 0;
  return condWait(c, m, tsNs(t), RET);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  if (!active()) return 0;
  checkSync(c, sizeof *c, RET);
  schedPoint(K_NOTIFY, c, always, nullptr);
  checkSync(c, sizeof *c, RET);
  Obj* o = lookup(c);
  doWrite(o, K_NOTIFY);
  int cand[NF], n = 0;
  for (int i = 0; i < o->nwaiters; i++)
    if (!g->f[o->waiters[i]].notified) cand[n++] = o->waiters[i];
  if (n > 0) {
    int k = n > 1 ? mc::choose(n, "notify_one") : 0;
    g->f[cand[k]].notified = true;
  }
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!active()) return 0;
  checkSync(c, sizeof *c, RET);
  schedPoint(K_NOTIFYALL, c, always, nullptr);
  checkSync(c, sizeof *c, RET);
  Obj* o = lookup(c);
  doWrite(o, K_NOTIFYALL);
  for (int i = 0; i < o->nwaiters; i++) g->f[o->waiters[i]].notified = true;
  return 0;
}

EXPORT int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*start)(void*), void* arg) {
  if (!active()) {
    fprintf(stderr, "pthread_create outside an execution\n");
    abort();
  }
  Fiber* me = g->cur;
  Fiber* f = newFiber(start, arg);
  for (int i = 0; i < NF; i++)
    if (i != f->id) f->vc[i] = me->vc[i];
  bump(me);
  f->H = mix(me->H, 7000 + f->id);
  me->H = mix(me->H, 7100);
  access(t, sizeof *t, true, RET);
  *t = (pthread_t)(f->id + 1);
  return 0;
}
static bool joinReady(void* p) { return ((Fiber*)p)->done; }
EXPORT int pthread_join(pthread_t t, void** ret) {
  if (!active()) return 0;
  int id = (int)t - 1;
  if (id < 0 || id >= g->nf) failAt(RET, "join of an invalid thread");
  Fiber* f = &g->f[id];
  if (f == g->cur) return EDEADLK;
  if (f->joined || f->detached) failAt(RET, "thread joined twice or joined after detach");
  schedPoint(K_JOIN, f, joinReady, f);
  f->joined = true;
  acq(lookup(f));
  g->cur->H = mix(g->cur->H, f->H);
  if (ret) *ret = f->ret;
  return 0;
}
EXPORT int pthread_detach(pthread_t t) {
  if (!active()) return 0;
  g->f[(int)t - 1].detached = true;
  return 0;
}
EXPORT pthread_t pthread_self(void) {
  if (!active()) return (pthread_t)1;
  return (pthread_t)(g->cur->id + 1);
}
static bool onceReady(void* p) { return ((Obj*)p)->owner < 0; }
EXPORT int pthread_once(pthread_once_t* c, void (*fn)(void)) {
  if (!active()) {
    if (*c != 2) {
      *c = 2;
      fn();
    }
    return 0;
  }
  Obj* o = lookup(c);
  if (*c == 2 && !o->guardDone && o->touched == 0) return 0;
  schedPoint(K_ONCE, c, onceReady, o);
  doWrite(o, K_ONCE);
  acq(o);
  if (*c == 2) return 0;
  o->owner = g->cur->id;
  try {
    fn();
  } catch (...) {
    o->owner = -1;
    rel(o);
    throw;
  }
  *c = 2;
  o->guardDone = true;
  o->owner = -1;
  doWrite(o, K_ONCE);
  rel(o);
  return 0;
}
// pthread read/write locks (std::shared_mutex)
static bool rwRdOk(void* p) { return ((Obj*)p)->owner < 0; }
static bool rwWrOk(void* p) { Obj* o = (Obj*)p; return o->owner < 0 && o->readers == 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!active()) return 0;
  Obj* o = lookup(l);
  schedPoint(K_RWLOCK, l, rwRdOk, o);
  o->readers++;
  acq(o);
  doWrite(o, K_RWLOCK);
  return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!active()) return 0;
  Obj* o = lookup(l);
  schedPoint(K_RWLOCK, l, rwWrOk, o);
  o->owner = g->cur->id;
  acq(o);
  doWrite(o, K_RWLOCK);
  return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!active()) return 0;
  Obj* o = lookup(l);
  schedPoint(K_RWLOCK, l, always, o);
  doWrite(o, K_RWLOCK);
  if (!rwRdOk(o)) return EBUSY;
  o->readers++;
  acq(o);
  return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!active()) return 0;
  Obj* o = lookup(l);
  schedPoint(K_RWLOCK, l, always, o);
  doWrite(o, K_RWLOCK);
  if (!rwWrOk(o)) return EBUSY;
  o->owner = g->cur->id;
  acq(o);
  return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!active()) return 0;
  Obj* o = lookup(l);
  if (o->owner == g->cur->id) o->owner = -1;
  else if (o->readers > 0) o->readers--;
  else failAt(RET, "unlock of a read/write lock that is not held");
  rel(o);
  doWrite(o, K_RWLOCK);
  return 0;
}
EXPORT int sched_yield(void) {
  if (active()) schedPoint(K_YIELD, nullptr, always, nullptr);
  return 0;
}
static void sleepNs(u64 ns) {
  u64 dl = ns > kForever - g->now ? kForever : g->now + ns;
  schedPoint(K_SLEEP, nullptr, never, nullptr, dl ? dl : 1);
  g->cur->H = mix(g->cur->H, 4242);
}
EXPORT int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (!active()) return syscall(SYS_nanosleep, t, rem);
  sleepNs(tsNs(t));
  return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem) {
  if (!active()) return syscall(SYS_clock_nanosleep, c, flags, t, rem);
  u64 ns = tsNs(t);
  if (flags & TIMER_ABSTIME) ns = ns > g->now ? ns - g->now : 0;
  sleepNs(ns);
  return 0;
}
EXPORT int usleep(useconds_t us) {
  if (!active()) {
    struct timespec t = {us / 1000000, (us % 1000000) * 1000};
    return syscall(SYS_nanosleep, &t, nullptr);
  }
  sleepNs(us * 1000ull);
  return 0;
}
EXPORT int clock_gettime(clockid_t c, struct timespec* t) {
  if (!active()) return syscall(SYS_clock_gettime, c, t);
  t->tv_sec = g->now / 1000000000ull;
  t->tv_nsec = g->now % 1000000000ull;
  return 0;
}
EXPORT int gettimeofday(struct timeval* t, void*) {
  if (!active()) return syscall(SYS_gettimeofday, t, nullptr);
  t->tv_sec = g->now / 1000000000ull;
  t->tv_usec = g->now % 1000000000ull / 1000;
  return 0;
}
EXPORT int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) {
  if (!active()) return 0;
  Fiber* f = g->cur;
  if (f->ndtors < 32) f->dtors[f->ndtors++] = {fn, obj};
  return 0;
}

// Static-lifetime objects created by an execution: their destructors run when
// the scenario says so (mc::exitHandlers), never at the real exit.
EXPORT int __cxa_atexit(void (*fn)(void*), void* obj, void* dso) {
  if (!active()) {
    static int (*real)(void (*)(void*), void*, void*);
    if (!real) real = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_atexit");
    return real(fn, obj, dso);
  }
  if (g->natexits >= 256) failAt(RET, "too many static objects");
  g->atexits[g->natexits++] = {fn, obj};
  return 0;
}
PUBLIC void mc::exitHandlers() {
  while (g->natexits > 0) {
    auto a = g->atexits[--g->natexits];
    a.fn(a.arg);
  }
}

// ================================================================ static init
EXPORT int __cxa_guard_acquire(u64* gd) {
  char* b = (char*)gd;
  if (!active()) return *b ? 0 : 1;
  Obj* o = lookup(gd);
  if (*b) {
    if (o->touched) {
      acq(o);
      doRead(o, K_GUARD);
    }
    return 0;
  }
  if (o->owner == g->cur->id) failAt(RET, "recursive initialisation of a local static");
  schedPoint(K_GUARD, gd, mtxFree, o);
  doWrite(o, K_GUARD);
  acq(o);
  if (*b) return 0;
  o->owner = g->cur->id;
  return 1;
}
EXPORT void __cxa_guard_release(u64* gd) {
  *(char*)gd = 1;
  if (!active()) return;
  Obj* o = lookup(gd);
  o->owner = -1;
  o->guardDone = true;
  doWrite(o, K_GUARD);
  rel(o);
}
EXPORT void __cxa_guard_abort(u64* gd) {
  if (!active()) return;
  Obj* o = lookup(gd);
  o->owner = -1;
  doWrite(o, K_GUARD);
  rel(o);
}

// ======================================================================= heap
static void* newImpl(size_t n, size_t al, void* pc, void** fp) {
  if (active()) return arenaAlloc(n, al, pc, fp);
  void* p = al > 16 ? __libc_memalign(al, n ? n : 1) : __libc_malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
static void delImpl(void* p, void* pc) {
  if (!p) return;
  if (inArena(p)) {
    if (active()) arenaFree(p, pc);
    return;
  }
  __libc_free(p);
}
#define FP ((void**)__builtin_frame_address(0))
PUBLIC void* operator new(size_t n) { return newImpl(n, 16, RET, FP); }
PUBLIC void* operator new[](size_t n) { return newImpl(n, 16, RET, FP); }
PUBLIC void* operator new(size_t n, const std::nothrow_t&) noexcept { return newImpl(n, 16, RET, FP); }
PUBLIC void* operator new[](size_t n, const std::nothrow_t&) noexcept { return newImpl(n, 16, RET, FP); }
PUBLIC void* operator new(size_t n, std::align_val_t a) { return newImpl(n, (size_t)a, RET, FP); }
PUBLIC void* operator new[](size_t n, std::align_val_t a) { return newImpl(n, (size_t)a, RET, FP); }
PUBLIC void operator delete(void* p) noexcept { delImpl(p, RET); }
PUBLIC void operator delete[](void* p) noexcept { delImpl(p, RET); }
PUBLIC void operator delete(void* p, size_t) noexcept { delImpl(p, RET); }
PUBLIC void operator delete[](void* p, size_t) noexcept { delImpl(p, RET); }
PUBLIC void operator delete(void* p, std::align_val_t) noexcept { delImpl(p, RET); }
PUBLIC void operator delete[](void* p, std::align_val_t) noexcept { delImpl(p, RET); }
PUBLIC void operator delete(void* p, size_t, std::align_val_t) noexcept { delImpl(p, RET); }
PUBLIC void operator delete[](void* p, size_t, std::align_val_t) noexcept { delImpl(p, RET); }

EXPORT void* malloc(size_t n) {
  if (active() && fromExe(RET)) return arenaAlloc(n, 16, RET, FP);
  return __libc_malloc(n);
}
EXPORT void free(void* p) {
  if (!p) return;
  if (inArena(p)) {
    if (active()) arenaFree(p, RET);
    return;
  }
  __libc_free(p);
}
EXPORT void* calloc(size_t a, size_t b) {
  if (active() && fromExe(RET)) {
    void* p = arenaAlloc(a * b, 16, RET, FP);
    memset(p, 0, a * b);
    return p;
  }
  return __libc_calloc(a, b);
}
EXPORT void* realloc(void* p, size_t n) {
  if (p ? inArena(p) : (active() && fromExe(RET))) {
    void* q = arenaAlloc(n, 16, RET, FP);
    if (p) {
      u32 bi = g->blockOf[((uintptr_t)p - A_BASE) / 16];
      if (!bi) failAt(RET, "realloc of invalid pointer");
      size_t old = g->blocks[bi - 1].size;
      memcpy(q, p, old < n ? old : n);
      arenaFree(p, RET);
    }
    return q;
  }
  return __libc_realloc(p, n);
}
EXPORT int posix_memalign(void** out, size_t al, size_t n) {
  *out = active() && fromExe(RET) ? arenaAlloc(n, al, RET, FP) : __libc_memalign(al, n);
  return *out ? 0 : ENOMEM;
}
EXPORT void* aligned_alloc(size_t al, size_t n) {
  return active() && fromExe(RET) ? arenaAlloc(n, al, RET, FP) : __libc_memalign(al, n);
}

// ================================================================== __tsan_*
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
#define ACC(N)                                                                  \
  EXPORT void __tsan_read##N(void* a) { access(a, N, false, RET); }              \
  EXPORT void __tsan_write##N(void* a) { access(a, N, true, RET); }              \
  EXPORT void __tsan_unaligned_read##N(void* a) { access(a, N, false, RET); }    \
  EXPORT void __tsan_unaligned_write##N(void* a) { access(a, N, true, RET); }    \
  EXPORT void __tsan_read_write##N(void* a) { access(a, N, true, RET); }         \
  EXPORT void __tsan_unaligned_read_write##N(void* a) { access(a, N, true, RET); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
EXPORT void __tsan_read_range(void* a, size_t n) { access(a, n, false, RET); }
EXPORT void __tsan_write_range(void* a, size_t n) { access(a, n, true, RET); }
EXPORT void __tsan_vptr_update(void** a, void* v) {
  if (active() && inArena(a)) checkAlloc((uintptr_t)a, 8, true, RET);
  if (active() && *a != v) access(a, 8, true, RET);
}
EXPORT void __tsan_vptr_read(void** a) { access(a, 8, false, RET); }
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n) {
  access((void*)s, n, false, RET);
  access(d, n, true, RET);
  return memcpy(d, s, n);
}
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n) {
  access((void*)s, n, false, RET);
  access(d, n, true, RET);
  return memmove(d, s, n);
}
EXPORT void* __tsan_memset(void* d, int c, size_t n) {
  access(d, n, true, RET);
  return memset(d, c, n);
}

static inline bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void atomicCheck(const volatile void* a, size_t n, void* pc) {
  if (inArena((const void*)a)) checkAlloc((uintptr_t)a, n, false, pc);
}

static bool inExeData(const volatile void* a) {
  uintptr_t x = (uintptr_t)a;
  for (int i = 0; i < g->nseg; i++)
    if (x >= g->seg[i].lo && x < g->seg[i].hi) return true;
  return false;
}

template <typename T>
static T aLoad(const volatile T* a, int mo, void* pc) {
  if (!active()) return *a;
  atomicCheck(a, sizeof(T), pc);
  if (sizeof(T) == 1 && inExeData(a)) {
    // Possibly the guard of a function-local static.
    Obj* o = lookup((const void*)a);
    if (!o->touched && *a == 1) return *a;   // completed before this execution
    if (o->guardDone || o->owner >= 0) {
      schedPoint(K_LOAD, (const void*)a, always, nullptr);
      if (*a) acq(o);
      doRead(o, K_LOAD);
      return *a;
    }
  }
  schedPoint(K_LOAD, (const void*)a, always, nullptr);
  atomicCheck(a, sizeof(T), pc);
  Obj* o = lookup((const void*)a);
  if (isAcq(mo)) acq(o);
  doRead(o, K_LOAD);
  return *a;
}
template <typename T>
static void aStore(volatile T* a, T v, int mo, void* pc) {
  if (!active()) {
    *a = v;
    return;
  }
  atomicCheck(a, sizeof(T), pc);
  schedPoint(K_STORE, (const void*)a, always, nullptr);
  atomicCheck(a, sizeof(T), pc);
  Obj* o = lookup((const void*)a);
  if (isRel(mo)) rel(o, false);
  else memset(o->vc, 0, sizeof o->vc);
  doWrite(o, K_STORE);
  *a = v;
}
template <typename T, typename F>
static T aRmw(volatile T* a, int mo, void* pc, F f) {
  if (!active()) {
    T old = *a;
    *a = f(old);
    return old;
  }
  atomicCheck(a, sizeof(T), pc);
  schedPoint(K_RMW, (const void*)a, always, nullptr);
  atomicCheck(a, sizeof(T), pc);
  Obj* o = lookup((const void*)a);
  if (isAcq(mo)) acq(o);
  if (isRel(mo)) rel(o);
  doWrite(o, K_RMW);
  T old = *a;
  *a = f(old);
  return old;
}
template <typename T>
static int aCas(volatile T* a, T* c, T v, int mo, int fmo, void* pc) {
  if (!active()) {
    if (*a == *c) {
      *a = v;
      return 1;
    }
    *c = *a;
    return 0;
  }
  atomicCheck(a, sizeof(T), pc);
  schedPoint(K_RMW, (const void*)a, always, nullptr);
  atomicCheck(a, sizeof(T), pc);
  Obj* o = lookup((const void*)a);
  T old = *a;
  if (old == *c) {
    if (isAcq(mo)) acq(o);
    if (isRel(mo)) rel(o);
    doWrite(o, K_RMW);
    *a = v;
    return 1;
  }
  if (isAcq(fmo)) acq(o);
  doRead(o, K_RMW);
  *c = old;
  return 0;
}
typedef unsigned __int128 u128;
#define ATOMICS(BITS, T)                                                                        \
  EXPORT T __tsan_atomic##BITS##_load(const volatile T* a, int mo) { return aLoad<T>(a, mo, RET); } \
  EXPORT void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) { aStore<T>(a, v, mo, RET); } \
  EXPORT T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) {                            \
    return aRmw<T>(a, mo, RET, [v](T) { return v; });                                           \
  }                                                                                             \
  EXPORT T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) {                           \
    return aRmw<T>(a, mo, RET, [v](T o) { return T(o + v); });                                  \
  }                                                                                             \
  EXPORT T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) {                           \
    return aRmw<T>(a, mo, RET, [v](T o) { return T(o - v); });                                  \
  }                                                                                             \
  EXPORT T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) {                           \
    return aRmw<T>(a, mo, RET, [v](T o) { return T(o & v); });                                  \
  }                                                                                             \
  EXPORT T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) {                            \
    return aRmw<T>(a, mo, RET, [v](T o) { return T(o | v); });                                  \
  }                                                                                             \
  EXPORT T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) {                           \
    return aRmw<T>(a, mo, RET, [v](T o) { return T(o ^ v); });                                  \
  }                                                                                             \
  EXPORT T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) {                          \
    return aRmw<T>(a, mo, RET, [v](T o) { return T(~(o & v)); });                               \
  }                                                                                             \
  EXPORT int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int f) { \
    return aCas<T>(a, c, v, mo, f, RET);                                                        \
  }                                                                                             \
  EXPORT int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) { \
    return aCas<T>(a, c, v, mo, f, RET);                                                        \
  }                                                                                             \
  EXPORT T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int f) {     \
    aCas<T>(a, &c, v, mo, f, RET);                                                              \
    return c;                                                                                   \
  }
ATOMICS(8, u8) ATOMICS(16, uint16_t) ATOMICS(32, u32) ATOMICS(64, u64) ATOMICS(128, u128)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

// Reference counts (shared_ptr): ordered, but only a scheduling point when the
// count is shared between threads and about to drop.
namespace __gnu_cxx {
typedef int _Atomic_word;
static _Atomic_word refOp(volatile _Atomic_word* p, int v, void* pc) {
  if (!active()) {
    _Atomic_word o = *p;
    *p += v;
    return o;
  }
  atomicCheck(p, sizeof *p, pc);
  Obj* o = lookup((const void*)p);
  if (v < 0 && (o->touched & ~(1u << g->cur->id))) {
    schedPoint(K_REF, (const void*)p, always, nullptr);
    atomicCheck(p, sizeof *p, pc);
  }
  acq(o);
  rel(o);
  if (v < 0) doWrite(o, K_REF);
  else doRead(o, K_REF);
  _Atomic_word old = *p;
  *p = old + v;
  return old;
}
PUBLIC _Atomic_word __exchange_and_add(volatile _Atomic_word* p, int v) noexcept { return refOp(p, v, RET); }
PUBLIC void __atomic_add(volatile _Atomic_word* p, int v) noexcept { refOp(p, v, RET); }
}  // namespace __gnu_cxx
