// Sequential engine: scenario bodies are plain calls in the worker process,
// built with AddressSanitizer and UndefinedBehaviorSanitizer.  The explorer
// enumerates every combination of mc::choose() values.
#include "explore.h"

#include <execinfo.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <string>
#include <vector>

extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" const char* __asan_default_options() {
  return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:"
         "handle_sigill=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "alloc_dealloc_mismatch=1:quarantine_size_mb=16:max_allocation_size_mb=4096";
}
extern "C" const char* __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0"; }
extern "C" void* __asan_get_report_pc();
extern "C" const char* __asan_get_report_description();
extern "C" void __ubsan_get_current_report_data(const char**, const char**, const char**, unsigned*, unsigned*, char**);

namespace mc {
namespace ex {

const char* engineName = "sequential";

struct Stop {};

static Exec* E;
static const Scenario* S;
static Bounds B;
static bool on;
static volatile long live;        // live heap blocks
static char gAlt[1 << 16];
struct Ev { std::string s; };
static std::vector<Ev>* events;
static long cells[256];

static void onMalloc(const volatile void* p, size_t) { if (p) live = live + 1; }
static void onFree(const volatile void* p) { if (p) live = live - 1; }

static void onSignal(int sig, siginfo_t* si, void*) {
  static volatile int once;
  if (once++ == 0) {
    if (E && E->result == kFail && E->msg[0]) {
      char m[kMsg];
      snprintf(m, sizeof m, "%s", E->msg);
      crashed(m);
    } else {
      char m[400];
      snprintf(m, sizeof m, "fatal signal %d (%s)%s", sig, strsignal(sig),
               sig == SIGSEGV ? " - invalid access or stack overflow" : sig == SIGABRT ? " - abort, assertion or uncaught exception" : "");
      crashed(m);
    }
  }
  _exit(86);
}

static void run(Exec* e) {
  events->clear();
  memset(cells, 0, sizeof cells);
  on = true;
  try {
    S->fn();
  } catch (const Stop&) {
  }
  on = false;
}

void engineInit() {
  events = new std::vector<Ev>();
  events->reserve(4096);
  static bool hooked = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  (void)hooked;
  stack_t ss = {};
  ss.ss_sp = gAlt;
  ss.ss_size = sizeof gAlt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPIPE}) sigaction(sig, &sa, nullptr);
}

void engineScenario(const Scenario& s, const Bounds& b) {
  S = &s;
  B = b;
}

void engineRun(Exec* e) {
  E = e;
  long before = live;
  run(e);
  if (e->result == kOk && B.leakcheck) {
    events->clear();
    if (live != before) {
      // Lazily created static state, or a leak?  Run it once more.
      Exec* e2 = (Exec*)calloc(1, sizeof(Exec));
      memcpy(e2->pts, e->pts, sizeof(Point) * e->npts);
      e2->replay = e->npts;
      e2->checkSig = true;
      e2->bound = e->bound;
      E = e2;
      events->clear();
      long b2 = live;
      run(e2);
      events->clear();
      long grew = live - b2;
      bool ok = e2->result == kOk;
      char m[200];
      snprintf(m, sizeof m, "%.190s", e2->msg);
      free(e2);
      E = e;
      if (!ok) {
        e->result = kFail;
        snprintf(e->msg, kMsg, "a second run of the same execution in the same process behaves differently: %s", m);
      } else if (grew > 0) {
        e->result = kFail;
        snprintf(e->msg, kMsg, "memory leak: %ld blocks allocated by the execution are never released", grew);
      }
    }
  }
}

}  // namespace ex

using namespace ex;

void fail(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(E->msg, kMsg, fmt, ap);
  va_end(ap);
  E->result = kFail;
  if (!on) abort();
  throw Stop();
}
void discard() {
  E->result = kDiscard;
  throw Stop();
}
static int chooseN(int n, int nfree, const char* what) {
  if (n <= 1) return 0;
  uint32_t sig = 0xC0000000u + n * 31 + nfree;
  for (const char* p = what; *p; p++) sig = sig * 33 + (uint8_t)*p;
  int r = point(E, n, nfree, sig, 0);
  if (r < 0) throw Stop();
  E->steps++;
  if (E->verbose) fprintf(stderr, "  choose %s = %d of %d\n", what, r, n);
  return r;
}
int choose(int n, const char* what) { return chooseN(n, n, what); }
int deviate(int n, const char* what) {
  // options beyond the bound are not taken by the explorer
  return chooseN(n, 1, what);
}
void observe(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int room = kObs - E->obsLen - 2;
  if (room > 1) {
    int n = vsnprintf(E->obs + E->obsLen, room, fmt, ap);
    if (n > room - 1) n = room - 1;
    E->obsLen += n;
    E->obs[E->obsLen++] = ' ';
    E->obs[E->obsLen] = 0;
  }
  va_end(ap);
  if (E->verbose) fprintf(stderr, "  %s\n", E->obs);
}
void yield() {}
void quiesce() {}
long now() { return E->steps; }
void set(int c, long v) { cells[c] = v; }
long get(int c) { return cells[c]; }
long add(int c, long v) { return cells[c] += v; }
void await(int, long) {}
void publish(int) {}
void subscribe(int) {}
void eventC(const char* s, size_t n) { events->push_back({std::string(s, n)}); }
int eventCount() { return (int)events->size(); }
const char* eventText(int i, size_t* len) {
  *len = (*events)[i].s.size();
  return (*events)[i].s.data();
}
int eventThread(int) { return 0; }
int self() { return 0; }
long liveBlocks() { return live; }
void exitHandlers() {}

}  // namespace mc

// Sanitizer reports.
extern "C" void __asan_on_error() {
  using namespace mc::ex;
  char m[600];
  snprintf(m, sizeof m, "AddressSanitizer: %s @%p", __asan_get_report_description(), __asan_get_report_pc());
  if (E) {
    E->result = kFail;
    snprintf(E->msg, kMsg, "%s", m);
  }
}
extern "C" void __ubsan_on_report() {
  using namespace mc::ex;
  const char *kind, *msg, *file;
  unsigned line, col;
  char* addr;
  __ubsan_get_current_report_data(&kind, &msg, &file, &line, &col, &addr);
  if (E) {
    E->result = kFail;
    snprintf(E->msg, kMsg, "undefined behaviour: %s: %s (%s:%u)", kind, msg, file ? file : "?", line);
  }
}
