#ifndef HARNESS_COMMON_H
#define HARNESS_COMMON_H
#include "mc.h"

#include <memory>
#include <string>
#include <thread>
#include <vector>

inline mc::Bounds pb(int p) {
  mc::Bounds b;
  b.preemptions = p;
  return b;
}
// Spurious wakeups and early timeouts are deviations as well.
inline mc::Bounds pbs(int p) {
  mc::Bounds b = pb(p);
  b.spurious = 1;
  b.timeouts = 1;
  return b;
}
#endif
