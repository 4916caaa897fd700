// Internal interface between the explorer (explore.cpp) and an engine.
#ifndef MC_EXPLORE_H
#define MC_EXPLORE_H
#include "mc.h"

namespace mc {
namespace ex {

enum Result { kOk = 0, kPruned = 1, kFail = 2, kDiscard = 3, kDiverged = 4 };

struct Point {          // one choice point of the current execution
  uint16_t n;           // options
  uint16_t nfree;       // options [0,nfree) cost 0, the others cost 1
  uint16_t chosen;
  uint16_t cost;        // deviations used before this point
  uint32_t sig;         // signature, to detect divergence on replay
};

static const int kMaxPoints = 60000;
static const int kMsg = 3000;
static const int kObs = 4000;

struct Exec {           // filled by the engine during one execution
  Point pts[kMaxPoints];
  int npts;
  int replay;           // points [0,replay) take the recorded choice
  bool checkSig;        // verify signature on replayed points
  int cost;             // deviations used so far
  int bound;
  bool cached;          // consult the visited-state table
  Result result;
  char msg[kMsg];
  char obs[kObs];
  int obsLen;
  uint64_t outcomeHash;
  char outcome[400];
  long steps;
  bool verbose;
};

// Engine entry points (provided by rt.cpp / seq.cpp).
void engineInit();                                   // once per process
void engineScenario(const Scenario& s, const Bounds& b);  // once per worker/scenario
void engineRun(Exec* e);                             // one execution
extern const char* engineName;

// Explorer services for engines.
// Records a choice point and returns the option to take; -1: prune now.
// stateKey 0 means "no key".
int point(Exec* e, int n, int nfree, uint32_t sig, uint64_t stateKey);
Exec* current();
void setCurrent(Exec* e);
void crashed(const char* what);   // called from signal handlers

}  // namespace ex
}  // namespace mc
#endif
