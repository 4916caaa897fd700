// Internal interface of the concurrent engine, used by rt.cpp and simnet.cpp.
#ifndef MC_RT_H
#define MC_RT_H
#include "explore.h"

namespace mc {
namespace rt {

static const int NF = 16;   // fibers per execution

typedef bool (*EnabledFn)(void*);

bool active();              // inside an execution, on a fiber
// A scheduling point: returns once the calling fiber is chosen and enabled.
// Returns false if it was resumed because its deadline passed.
bool schedPoint(int kind, const void* obj, EnabledFn en, void* arg,
                uint64_t deadlineNs = 0);
// Ordering bookkeeping of an operation on obj.
void opRead(const void* obj, int kind);
void opWrite(const void* obj, int kind);
void acquire(const void* obj);
void release(const void* obj);
uint64_t virtualNow();
void memRead(const void* p, size_t n);   // checked access by a system call
void memWrite(const void* p, size_t n);
bool fromExe(void* ret);
void mixHash(uint64_t v);
const Bounds& bounds();
bool verbose();
// Fails the execution from an end-of-execution check.
void endFail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void* engineAlloc(size_t n);   // memory of the execution, not leak-checked

// simnet.cpp
void netReset();
void netEnd();   // end-of-execution checks (may call endFail)

}  // namespace rt
}  // namespace mc
#endif
