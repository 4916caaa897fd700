// C14: dap::RWMutex, RLock, WLock.
#include "rwmutex.h"
#include "common.h"

using dap::RLock;
using dap::RWMutex;
using dap::WLock;

namespace {
enum { kReaders = 0, kWriters = 1, kBarrier = 2, kMax = 3 };
struct World {
  RWMutex m;
  int plain = 0;  // protected data: a race here is a failure of exclusion
};
void enterR() {
  mc::add(kReaders, 1);
  MC_CHECK(mc::get(kWriters) == 0, "reader admitted while a writer holds the lock");
  if (mc::get(kReaders) > mc::get(kMax)) mc::set(kMax, mc::get(kReaders));
}
void leaveR() { mc::add(kReaders, -1); }
void enterW() {
  MC_CHECK(mc::add(kWriters, 1) == 1, "two writers hold the lock");
  MC_CHECK(mc::get(kReaders) == 0, "writer admitted while readers hold the lock");
}
void leaveW() { mc::add(kWriters, -1); }

void read(World& w) {
  RLock l(w.m);
  enterR();
  mc::yield();
  int v = w.plain;
  (void)v;
  leaveR();
}
void write(World& w) {
  WLock l(w.m);
  enterW();
  mc::yield();
  w.plain++;
  leaveW();
}
}  // namespace

MC_SCENARIO(readers_2_writer_1, pb(4), pbs(6)) {
  auto w = std::make_shared<World>();
  std::thread a([=] { read(*w); }), b([=] { read(*w); });
  write(*w);
  a.join();
  b.join();
  mc::outcome(std::to_string(mc::get(kMax)));
}
MC_SCENARIO(writers_2_reader_1, pb(4), pbs(6)) {
  auto w = std::make_shared<World>();
  std::thread a([=] { write(*w); }), b([=] { write(*w); });
  read(*w);
  a.join();
  b.join();
  read(*w);
  MC_CHECK(w->plain == 2);
  mc::outcome(std::to_string(mc::get(kMax)));
}
MC_SCENARIO(writers_2_readers_2, pb(2), pbs(4)) {
  auto w = std::make_shared<World>();
  std::thread a([=] { write(*w); }), b([=] { write(*w); }), c([=] { read(*w); });
  read(*w);
  a.join();
  b.join();
  c.join();
  MC_CHECK(w->plain == 2);
  mc::outcome(std::to_string(mc::get(kMax)));
}
MC_SCENARIO(writers_3, pb(3), pbs(5)) {
  auto w = std::make_shared<World>();
  std::thread a([=] { write(*w); }), b([=] { write(*w); });
  write(*w);
  a.join();
  b.join();
  MC_CHECK(w->plain == 3);
  mc::outcome("ok");
}
MC_SCENARIO(alternating, pb(3), pbs(5)) {
  auto w = std::make_shared<World>();
  std::thread a([=] { write(*w); read(*w); }), b([=] { read(*w); write(*w); });
  a.join();
  b.join();
  MC_CHECK(w->plain == 2);
  mc::outcome(std::to_string(mc::get(kMax)));
}
// Pending writers behind several readers: none may be stranded.
MC_SCENARIO(pending_writers_behind_readers, pb(3), pbs(4)) {
  auto w = std::make_shared<World>();
  w->m.lockReader();
  enterR();
  std::thread a([=] { write(*w); }), b([=] { write(*w); });
  mc::quiesce();
  MC_CHECK(mc::get(kWriters) == 0);
  MC_CHECK(w->plain == 0, "writer entered while a reader holds the lock");
  leaveR();
  w->m.unlockReader();
  a.join();
  b.join();
  MC_CHECK(w->plain == 2);
  mc::outcome("ok");
}
// Readers hold the lock together: each waits inside for the others.
MC_SCENARIO(readers_together, pb(6), pbs(8)) {
  auto w = std::make_shared<World>();
  auto body = [=] {
    RLock l(w->m);
    enterR();
    mc::add(kBarrier, 1);
    mc::await(kBarrier, 3);
    leaveR();
  };
  std::thread a(body), b(body);
  body();
  a.join();
  b.join();
  write(*w);
  mc::outcome("ok");
}
// A waiter is really blocked while the conflicting holder stays.
MC_SCENARIO(conflicting_holder_blocks, pb(6), pbs(8)) {
  auto w = std::make_shared<World>();
  int kind = mc::choose(3, "kind");
  if (kind == 0) {
    w->m.lockWriter();
    std::thread t([=] { w->m.lockReader(); mc::set(9, 1); w->m.unlockReader(); });
    mc::quiesce();
    MC_CHECK(mc::get(9) == 0, "reader admitted beside a writer");
    w->m.unlockWriter();
    t.join();
  } else if (kind == 1) {
    w->m.lockReader();
    std::thread t([=] { w->m.lockWriter(); mc::set(9, 1); w->m.unlockWriter(); });
    mc::quiesce();
    MC_CHECK(mc::get(9) == 0, "writer admitted beside a reader");
    w->m.unlockReader();
    t.join();
  } else {
    w->m.lockReader();
    w->m.lockReader();
    std::thread t([=] { w->m.lockWriter(); mc::set(9, 1); w->m.unlockWriter(); });
    mc::quiesce();
    w->m.unlockReader();
    mc::quiesce();
    MC_CHECK(mc::get(9) == 0, "writer admitted beside the second reader");
    w->m.unlockReader();
    t.join();
  }
  MC_CHECK(mc::get(9) == 1);
  mc::outcome(std::to_string(kind));
}

// --- scoped locks: all short histories of construction, moves, destruction ---
namespace {
// Probes the lock state from another thread.
bool canWrite(std::shared_ptr<World> w) {
  mc::set(20, 0);
  std::thread t([=] { w->m.lockWriter(); mc::set(20, 1); w->m.unlockWriter(); });
  mc::quiesce();
  bool ok = mc::get(20) == 1;
  if (ok) t.join();
  else t.detach();
  return ok;
}
bool canRead(std::shared_ptr<World> w) {
  mc::set(20, 0);
  std::thread t([=] { w->m.lockReader(); mc::set(20, 1); w->m.unlockReader(); });
  mc::quiesce();
  bool ok = mc::get(20) == 1;
  if (ok) t.join();
  else t.detach();
  return ok;
}

// Ops on two slots holding scoped locks of two mutexes.
template <typename LOCK>
void lockHistories(int depth, bool writer) {
  std::shared_ptr<World> w[2] = {std::make_shared<World>(), std::make_shared<World>()};
  std::unique_ptr<LOCK> slot[2];
  int holds[2] = {-1, -1};  // mutex index held by the slot, -1 none
  int held[2] = {0, 0};
  std::string trace;
  for (int i = 0; i < depth; i++) {
    int op = mc::choose(6, "op");
    int s = mc::choose(2, "slot");
    switch (op) {
      case 0: case 1: {  // construct on mutex op
        if (slot[s]) mc::discard();
        if (writer && held[op] > 0) mc::discard();
        slot[s].reset(new LOCK(w[op]->m));
        holds[s] = op;
        held[op]++;
        trace += std::string("new") + char('0' + s) + char('A' + op) + " ";
        break;
      }
      case 2:  // destroy
        if (!slot[s]) mc::discard();
        slot[s].reset();
        if (holds[s] >= 0) held[holds[s]]--;
        holds[s] = -1;
        trace += std::string("del") + char('0' + s) + " ";
        break;
      case 3:  // move construct into s from the other
        if (slot[s] || !slot[1 - s]) mc::discard();
        slot[s].reset(new LOCK(std::move(*slot[1 - s])));
        holds[s] = holds[1 - s];
        holds[1 - s] = -1;
        trace += std::string("mvc") + char('0' + s) + " ";
        break;
      case 4:  // move assign into s from the other
        if (!slot[s] || !slot[1 - s]) mc::discard();
        *slot[s] = std::move(*slot[1 - s]);
        if (holds[s] >= 0) held[holds[s]]--;
        holds[s] = holds[1 - s];
        holds[1 - s] = -1;
        trace += std::string("mva") + char('0' + s) + " ";
        break;
      case 5: {  // self move assignment
        if (!slot[s]) mc::discard();
        LOCK& l = *slot[s];
        *slot[s] = std::move(l);
        trace += std::string("self") + char('0' + s) + " ";
        break;
      }
    }
  }
  for (int k = 0; k < 2; k++) {
    mc::observe("%s held%d=%d", trace.c_str(), k, held[k]);
    if (held[k] == 0) {
      if (!canWrite(w[k])) mc::fail("mutex %c is still locked although no lock object holds it: %s", 'A' + k, trace.c_str());
    } else if (writer) {
      mc::set(21 + k, 1);
    }
  }
  // Locks that are held exclude a writer.
  for (int k = 0; k < 2; k++)
    if (held[k] > 0) {
      mc::set(20, 0);
      auto x = w[k];
      std::thread t([=] { x->m.lockWriter(); mc::set(20, 1); x->m.unlockWriter(); });
      mc::quiesce();
      if (mc::get(20) != 0) mc::fail("mutex %c was released although a lock object holds it: %s", 'A' + k, trace.c_str());
      for (int s = 0; s < 2; s++)
        if (holds[s] == k) {
          slot[s].reset();
          holds[s] = -1;
        }
      mc::quiesce();
      if (mc::get(20) != 1) mc::fail("mutex %c not released by its lock objects: %s", 'A' + k, trace.c_str());
      t.join();
    }
  slot[0].reset();
  slot[1].reset();
  for (int k = 0; k < 2; k++)
    if (!canWrite(w[k])) mc::fail("mutex %c is still locked at the end: %s", 'A' + k, trace.c_str());
  mc::outcome(trace);
}
}  // namespace
MC_SCENARIO(rlock_histories, pb(0), pb(0)) { lockHistories<RLock>(mc::thorough() ? 6 : 4, false); }
MC_SCENARIO(wlock_histories, pb(0), pb(0)) { lockHistories<WLock>(mc::thorough() ? 6 : 4, true); }

namespace {
mc::Bounds wide(int p) {
  mc::Bounds b = pb(p);
  b.horizon = 2000000;
  b.accesses = 2000000000;
  return b;
}
}  // namespace

// Very many readers hold the lock; the last one lets the writer in.
MC_SCENARIO(many_readers, wide(0), wide(0)) {
  static const int counts[] = {3, 127, 128, 255, 256, 257, 32768, 65535, 65536, 70000};
  int n = counts[mc::choose(10, "readers")];
  RWMutex m;
  for (int i = 0; i < n; i++) m.lockReader();
  std::thread t([&] {
    m.lockWriter();
    mc::set(20, 1);
    m.unlockWriter();
  });
  mc::quiesce();
  for (int i = 0; i < n; i++) {
    if (i == n - 1) mc::quiesce();
    if (mc::get(20)) mc::fail("a writer holds the lock together with %d readers", n - i);
    m.unlockReader();
  }
  mc::quiesce();
  if (!mc::get(20)) mc::fail("the writer is not let in after %d readers released the lock", n);
  t.join();
  mc::outcome("ok");
}
