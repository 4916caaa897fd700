// C15: dap::future / dap::promise.
#include <chrono>
#include "dap/future.h"
#include "common.h"

using Clock = std::chrono::steady_clock;
using ms = std::chrono::milliseconds;
using dap::future_status;

namespace {
const std::string kVal = "a value longer than the small string buffer";
enum { kSet = 0, kTimed = 1 };  // kSet: 1 once set_value was called, 2 once it returned

struct World {
  dap::promise<std::string> p;
};

void setValue(dap::promise<std::string>& p, int how) {
  mc::set(kSet, 1);
  if (how == 0) {
    p.set_value(kVal);
  } else {
    std::string v = kVal;
    p.set_value(std::move(v));
  }
  mc::set(kSet, 2);
}
// One waiting operation; checks its result.
void waiter(dap::future<std::string>& f, int how) {
  switch (how) {
    case 0: {
      std::string v = f.get();
      MC_CHECK(mc::get(kSet) >= 1, "get returned before the promise was set");
      MC_CHECK(v == kVal, "get returned a wrong value '%s'", v.c_str());
      break;
    }
    case 1:
      f.wait();
      MC_CHECK(mc::get(kSet) >= 1, "wait returned before the promise was set");
      MC_CHECK(f.get() == kVal);
      break;
    case 2: {
      bool before = mc::get(kSet) == 2;
      auto t0 = Clock::now();
      auto r = f.wait_for(ms(50));
      // time passes only through this wait if no other timed wait is under way
      MC_CHECK(mc::get(kTimed) > 1 || Clock::now() - t0 <= ms(50), "wait_for blocked beyond its timeout");
      if (r == future_status::ready) {
        MC_CHECK(mc::get(kSet) >= 1, "wait_for reported ready before the promise was set");
        MC_CHECK(f.get() == kVal);
        mc::observe("ready");
      } else {
        MC_CHECK(!before, "wait_for timed out although the promise was set before");
        MC_CHECK(Clock::now() - t0 >= ms(50), "wait_for gave up before its timeout");
        mc::observe("timeout");
      }
      break;
    }
    case 3: {
      bool before = mc::get(kSet) == 2;
      auto t0 = Clock::now();
      auto r = f.wait_until(t0 + ms(50));
      MC_CHECK(mc::get(kTimed) > 1 || Clock::now() - t0 <= ms(50), "wait_until blocked beyond its deadline");
      if (r == future_status::ready) {
        MC_CHECK(mc::get(kSet) >= 1, "wait_until reported ready before the promise was set");
        MC_CHECK(f.get() == kVal);
      } else {
        MC_CHECK(!before, "wait_until timed out although the promise was set before");
        MC_CHECK(Clock::now() - t0 >= ms(50), "wait_until gave up before its deadline");
      }
      break;
    }
  }
}
}  // namespace

MC_SCENARIO(waiters_2, pbs(4), pbs(8)) {
  auto w = std::make_shared<World>();
  auto f1 = std::make_shared<dap::future<std::string>>(w->p.get_future());
  auto f2 = std::make_shared<dap::future<std::string>>(w->p.get_future());
  int a = mc::choose(4, "first waiter"), b = mc::choose(4, "second waiter"), how = mc::choose(2, "set");
  mc::set(kTimed, (a >= 2) + (b >= 2));
  std::thread t1([=] { waiter(*f1, a); });
  std::thread t2([=] { waiter(*f2, b); });
  setValue(w->p, how);
  t1.join();
  t2.join();
  mc::set(kTimed, 0);
  // late waits return at once
  for (int k = 0; k < 4; k++) waiter(*f1, k);
  mc::outcome(std::to_string(a) + std::to_string(b));
}
MC_SCENARIO(same_future_two_threads, pbs(4), pbs(8)) {
  auto w = std::make_shared<World>();
  auto f = std::make_shared<dap::future<std::string>>(w->p.get_future());
  std::thread t1([=] { waiter(*f, 0); });
  std::thread t2([=] { waiter(*f, 1); });
  setValue(w->p, 1);
  t1.join();
  t2.join();
  waiter(*f, 0);
  mc::outcome("ok");
}
// Never set: timed waits end after exactly their time, untimed ones block.
MC_SCENARIO(never_set, pbs(3), pbs(6)) {
  dap::promise<std::string> p;
  auto f = p.get_future();
  int how = mc::choose(9, "wait");
  auto t0 = Clock::now();
  switch (how) {
    case 0: MC_CHECK(f.wait_for(ms(20)) == future_status::timeout, "ready though never set"); MC_CHECK(Clock::now() - t0 == ms(20)); break;
    case 1: MC_CHECK(f.wait_until(t0 + ms(20)) == future_status::timeout); MC_CHECK(Clock::now() - t0 == ms(20)); break;
    case 2: MC_CHECK(f.wait_for(ms(0)) == future_status::timeout); MC_CHECK(Clock::now() == t0); break;
    case 3: MC_CHECK(f.wait_for(ms(-5)) == future_status::timeout); MC_CHECK(Clock::now() == t0); break;
    case 4: {
      auto s0 = std::chrono::system_clock::now();
      MC_CHECK(f.wait_until(s0 + ms(20)) == future_status::timeout);
      MC_CHECK(Clock::now() - t0 == ms(20));
      break;
    }
    case 5: MC_CHECK(f.wait_until(t0 - ms(20)) == future_status::timeout); MC_CHECK(Clock::now() == t0); break;
    case 6: MC_CHECK(f.wait_until(t0) == future_status::timeout); MC_CHECK(Clock::now() == t0); break;
    case 7: MC_CHECK(f.wait_for(std::chrono::microseconds(1500)) == future_status::timeout); MC_CHECK(Clock::now() - t0 == std::chrono::microseconds(1500)); break;
    case 8: MC_CHECK(f.wait_for(std::chrono::hours(24 * 40)) == future_status::timeout); MC_CHECK(Clock::now() - t0 == std::chrono::hours(24 * 40)); break;
  }
  p.set_value(kVal);
  // ready, whatever the deadline
  t0 = Clock::now();
  MC_CHECK(f.wait_for(ms(0)) == future_status::ready, "not ready after set_value");
  MC_CHECK(f.wait_for(ms(-5)) == future_status::ready, "not ready after set_value");
  MC_CHECK(f.wait_until(t0) == future_status::ready, "not ready after set_value");
  MC_CHECK(f.wait_until(t0 - ms(20)) == future_status::ready, "not ready after set_value");
  MC_CHECK(f.wait_until(std::chrono::system_clock::now() - ms(20)) == future_status::ready, "not ready after set_value");
  MC_CHECK(Clock::now() == t0, "waits for a value that is there");
  MC_CHECK(f.get() == kVal);
  mc::outcome(std::to_string(how));
}
// The waiter really waits until the value is there.
MC_SCENARIO(blocks_until_set, pbs(4), pbs(8)) {
  auto w = std::make_shared<World>();
  int how = mc::choose(2, "wait");
  auto f = std::make_shared<dap::future<std::string>>(w->p.get_future());
  std::thread t([=] { waiter(*f, how); mc::set(5, 1); });
  mc::quiesce();
  MC_CHECK(mc::get(5) == 0, "untimed wait returned before the promise was set");
  setValue(w->p, 0);
  mc::quiesce();
  MC_CHECK(mc::get(5) == 1, "waiter stays blocked after set_value");
  t.join();
  mc::outcome(std::to_string(how));
}
// Lifetimes: either side may die first, on any thread; promises are copyable.
MC_SCENARIO(lifetimes, pbs(4), pbs(8)) {
  int kind = mc::choose(4, "kind");
  if (kind == 0) {  // promise destroyed right after set_value
    std::unique_ptr<dap::promise<std::string>> p(new dap::promise<std::string>());
    auto f = std::make_shared<dap::future<std::string>>(p->get_future());
    std::thread t([=] { mc::set(kSet, 1); waiter(*f, 0); });
    mc::set(kSet, 1);
    p->set_value(kVal);
    p.reset();
    t.join();
    waiter(*f, 0);
  } else if (kind == 1) {  // future destroyed by its waiter; promise lives on
    dap::promise<std::string> p;
    auto* f = new dap::future<std::string>(p.get_future());
    std::thread t([=] { waiter(*f, 0); delete f; });
    setValue(p, 1);
    t.join();
    auto g = p.get_future();
    waiter(g, 0);
  } else if (kind == 2) {  // future destroyed without waiting
    dap::promise<std::string> p;
    auto* f = new dap::future<std::string>(p.get_future());
    std::thread t([=] { delete f; });
    setValue(p, 0);
    t.join();
  } else {  // set through a copy whose original is gone, future moved
    std::unique_ptr<dap::promise<std::string>> p(new dap::promise<std::string>());
    auto f = std::make_shared<dap::future<std::string>>(p->get_future());
    auto f2 = std::make_shared<dap::future<std::string>>(std::move(*f));
    MC_CHECK(f2->valid() && !f->valid());
    std::thread t([=] { waiter(*f2, 0); });
    {
      dap::promise<std::string> copy(*p);
      p.reset();
      setValue(copy, 0);
    }
    t.join();
    waiter(*f2, 0);
  }
  mc::outcome(std::to_string(kind));
}

// The value is set at some time: a timed wait ends with it, or at its own time.
MC_SCENARIO(set_in_time, pb(2), pb(4)) {
  static const int at[] = {0, 1, 20, 49, 51, 80};
  int d = at[mc::choose(6, "set after")];
  int how = mc::choose(6, "wait");
  auto w = std::make_shared<World>();
  auto f = std::make_shared<dap::future<std::string>>(w->p.get_future());
  auto t0 = Clock::now();
  auto s0 = std::chrono::system_clock::now();
  std::thread t([=] {
    future_status r = future_status::ready;
    if (how == 0) r = f->wait_for(ms(50));
    if (how == 1) r = f->wait_until(t0 + ms(50));
    if (how == 2) r = f->wait_until(s0 + ms(50));
    if (how == 3) r = f->wait_for(std::chrono::duration<double>(0.05));
    if (how == 4) f->wait();
    if (how == 5) f->get();
    bool timed = how < 4;
    auto t1 = Clock::now() - t0;
    auto want = timed && d > 50 ? ms(50) : ms(d);
    auto off = t1 > want ? t1 - want : want - t1;
    if (off > std::chrono::microseconds(1)) mc::fail("a wait that should end after %d ms ends after %lld us", (int)want.count(), (long long)std::chrono::duration_cast<std::chrono::microseconds>(t1).count());
    bool late = timed && d > 50;
    if ((r == future_status::timeout) != late) mc::fail("a wait of 50 ms for a value set after %d ms reports %s", d, late ? "ready" : "timeout");
    if (!late) waiter(*f, 0);
  });
  if (d) std::this_thread::sleep_for(ms(d));
  setValue(w->p, 0);
  t.join();
  mc::outcome(std::to_string(how) + "," + std::to_string(d));
}
// Durations of every unit and size.
MC_SCENARIO(durations, pb(0), pb(0)) {
  dap::promise<std::string> p;
  auto f = p.get_future();
  using namespace std::chrono;
  auto t0 = Clock::now();
  nanoseconds want(0);
  future_status r = future_status::ready;
  bool until = mc::choose(2, "until");
#define WAIT(x) (want = duration_cast<nanoseconds>(x), r = until ? f.wait_until(t0 + duration_cast<Clock::duration>(x)) : f.wait_for(x))
  int how = mc::choose(14, "duration");
  switch (how) {
    case 0: WAIT(nanoseconds(1)); break;
    case 1: WAIT(nanoseconds(999)); break;
    case 2: WAIT(microseconds(1)); break;
    case 3: WAIT(microseconds(999)); break;
    case 4: WAIT(microseconds(1999999)); break;
    case 5: WAIT(ms(999)); break;
    case 6: WAIT(ms(1001)); break;
    case 7: WAIT(seconds(1)); break;
    case 8: WAIT(seconds(3000)); break;
    case 9: WAIT(minutes(200)); break;
    case 10: WAIT(hours(24 * 365 * 20)); break;
    case 11: WAIT(duration<double>(1.5)); break;
    case 12: WAIT(duration<float>(0.25f)); break;
    case 13: WAIT(ms(4294967297ll)); break;
  }
#undef WAIT
  auto t1 = Clock::now() - t0;
  if (r != future_status::timeout) mc::fail("ready though never set");
  // Single precision seconds may be added to the time of day.
  auto off = t1 > want ? t1 - want : want - t1;
  if (off > (how == 12 ? nanoseconds(ms(1)) : nanoseconds(microseconds(1)))) mc::fail("a wait of %lld ns ended after %lld ns", (long long)want.count(), (long long)t1.count());
  mc::outcome(std::to_string(how));
}
