// C13: dap::Chan - interleavings of producers, consumers, close and reset, and
// all operation sequences against a reference queue.
#include "chan.h"
#include "common.h"

#include <deque>

using Chan = dap::Chan<std::string>;

// Each item is "<producer>:<index>".
static std::string item(char p, int i) { return std::string(1, p) + std::to_string(i) + "-payload-longer-than-sso"; }

static void put(Chan& c, const std::string& s, bool byMove) {
  if (byMove) {
    std::string copy = s;
    c.put(std::move(copy));
  } else {
    c.put(s);
  }
}

// Checks that `got` (in take order) has every expected item once, and each
// producer's items in increasing order.
static void checkOrder(const std::vector<std::string>& got, const std::vector<std::string>& want) {
  for (auto& w : want) {
    int n = 0;
    for (auto& g : got) n += g == w;
    MC_CHECK(n == 1, "item '%s' taken %d times", w.c_str(), n);
  }
  MC_CHECK(got.size() == want.size(), "%zu items taken, %zu put", got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++)
    for (size_t j = i + 1; j < got.size(); j++)
      if (got[i][0] == got[j][0]) MC_CHECK(got[i] < got[j], "items of one producer out of order");
}

MC_SCENARIO(producers_2_consumer_1, pb(8), pbs(8)) {
  auto c = std::make_shared<Chan>();
  std::thread p1([=] { put(*c, item('a', 0), true); put(*c, item('a', 1), false); });
  std::thread p2([=] { put(*c, item('b', 0), false); });
  std::vector<std::string> got;
  for (int i = 0; i < 3; i++) {
    auto v = c->take();
    MC_CHECK(v.has_value(), "take returned empty from an open queue");
    got.push_back(v.value());
  }
  p1.join();
  p2.join();
  checkOrder(got, {item('a', 0), item('a', 1), item('b', 0)});
  std::string o;
  for (auto& g : got) o += g.substr(0, 2);
  mc::outcome(o);
}

// No close: every item must reach a consumer although both may be waiting.
MC_SCENARIO(producer_1_consumers_2, pb(6), pbs(8)) {
  auto c = std::make_shared<Chan>();
  auto consume = [=] {
    auto v = c->take();
    MC_CHECK(v.has_value(), "take returned empty from an open queue");
    mc::event(v.value());
  };
  bool m0 = mc::choose(2, "first by move"), m1 = mc::choose(2, "second by move");
  std::thread c1(consume), c2(consume);
  put(*c, item('a', 0), m0);
  put(*c, item('a', 1), m1);
  c1.join();
  c2.join();
  std::vector<std::string> got = {mc::eventAt(0), mc::eventAt(1)};
  MC_CHECK(mc::eventCount() == 2);
  MC_CHECK((got[0] == item('a', 0) && got[1] == item('a', 1)) || (got[1] == item('a', 0) && got[0] == item('a', 1)));
  mc::outcome(got[0].substr(0, 2) + std::to_string(mc::eventThread(0)));
}

MC_SCENARIO(producers_2_consumers_2, pb(3), pbs(5)) {
  auto c = std::make_shared<Chan>();
  auto consume = [=] {
    for (int i = 0; i < 2; i++) {
      auto v = c->take();
      MC_CHECK(v.has_value());
      mc::event(v.value());
    }
  };
  std::thread c1(consume), c2(consume);
  bool mv = mc::choose(2, "by move");
  std::thread p([=] { put(*c, item('b', 0), mv); put(*c, item('b', 1), mv); });
  put(*c, item('a', 0), mv);
  put(*c, item('a', 1), !mv);
  c1.join();
  c2.join();
  p.join();
  // each consumer sees each producer's items in order; together once each
  std::vector<std::string> all;
  for (int i = 0; i < mc::eventCount(); i++) all.push_back(mc::eventAt(i));
  for (auto& w : {item('a', 0), item('a', 1), item('b', 0), item('b', 1)}) {
    int n = 0;
    for (auto& g : all) n += g == w;
    MC_CHECK(n == 1, "item taken %d times", n);
  }
  for (int i = 0; i < 4; i++)
    for (int j = i + 1; j < 4; j++)
      if (mc::eventThread(i) == mc::eventThread(j) && all[i][0] == all[j][0])
        MC_CHECK(all[i] < all[j], "items of one producer out of order at one consumer");
  std::string o;
  for (int i = 0; i < 4; i++) o += all[i].substr(0, 2) + std::to_string(mc::eventThread(i)) + " ";
  mc::outcome(o);
}

// Close races with puts and takes: items put before the close are all taken,
// then everybody gets empty and nobody stays blocked.
MC_SCENARIO(close_races, pb(6), pbs(6)) {
  auto c = std::make_shared<Chan>();
  auto consume = [=] {
    while (auto v = c->take()) mc::event(v.value());
    // after close and drain, takes keep returning empty at once
    MC_CHECK(!c->take().has_value());
  };
  bool mv = mc::choose(2, "by move");
  std::thread c1(consume), c2(consume);
  put(*c, item('a', 0), mv);
  put(*c, item('a', 1), mv);
  c->close();
  c1.join();
  c2.join();
  MC_CHECK(mc::eventCount() == 2, "%d items taken of 2 put before close", mc::eventCount());
  mc::outcome(mc::eventAt(0).substr(0, 2) + std::to_string(mc::eventThread(0)) + std::to_string(mc::eventThread(1)));
}

MC_SCENARIO(close_from_other_thread, pb(6), pbs(8)) {
  auto c = std::make_shared<Chan>();
  std::thread cl([=] { c->close(); c->close(); });
  bool mv = mc::choose(2, "by move");
  std::thread p([=] { put(*c, item('a', 0), mv); mc::set(1, 1); });
  int n = 0;
  while (auto v = c->take()) {
    MC_CHECK(v.value() == item('a', 0));
    MC_CHECK(++n <= 1, "item taken twice");
  }
  cl.join();
  p.join();
  // whatever was left is still there, afterwards empty
  if (auto v = c->take()) {
    MC_CHECK(v.value() == item('a', 0) && n == 0);
    n++;
  }
  MC_CHECK(!c->take().has_value());
  MC_CHECK(n == 1);
  mc::outcome(std::to_string(n));
}

// reset re-opens a closed queue and empties it; a consumer blocked at the time
// still gets the next item.
MC_SCENARIO(reset_with_waiter, pb(6), pbs(8)) {
  auto c = std::make_shared<Chan>();
  std::thread t([=] {
    auto v = c->take();
    mc::event(v ? v.value() : std::string("-"));
  });
  c->reset();
  c->put(item('a', 0));
  t.join();
  MC_CHECK(mc::eventCount() == 1 && mc::eventAt(0) == item('a', 0));
  c->close();
  c->reset();
  std::thread t2([=] {
    auto v = c->take();
    mc::event(v ? v.value() : std::string("-"));
  });
  c->put(item('a', 1));
  t2.join();
  MC_CHECK(mc::eventAt(1) == item('a', 1), "reset queue is not open and empty");
  mc::outcome("ok");
}

// A waiting take does not return, and does not consume, without an item.
MC_SCENARIO(take_blocks_while_open_and_empty, pb(6), pbs(8)) {
  auto c = std::make_shared<Chan>();
  std::thread t([=] {
    auto v = c->take();
    mc::event(v ? v.value() : std::string("-"));
  });
  mc::quiesce();
  MC_CHECK(mc::eventCount() == 0, "take returned from an open, empty queue");
  bool closeIt = mc::choose(2, "close");
  if (closeIt) c->close();
  else c->put(item('a', 0));
  mc::quiesce();
  MC_CHECK(mc::eventCount() == 1, "take stays blocked");
  MC_CHECK(mc::eventAt(0) == (closeIt ? "-" : item('a', 0)));
  t.join();
  mc::outcome(closeIt ? "closed" : "item");
}

// All operation sequences, single threaded, against a reference.
static void sequences(int depth) {
  Chan c;
  std::deque<std::string> ref;
  bool closed = false;
  int next = 0;
  std::string trace;
  for (int i = 0; i < depth; i++) {
    switch (mc::choose(5, "op")) {
      case 0: {
        std::string s = item('a', next++);
        ref.push_back(s);
        c.put(s);
        trace += 'p';
        break;
      }
      case 1: {
        std::string s = item('m', next++);
        ref.push_back(s);
        c.put(std::move(s));
        trace += 'm';
        break;
      }
      case 2:
        if (ref.empty() && !closed) mc::discard();  // would block
        trace += 't';
        {
          auto v = c.take();
          if (ref.empty()) {
            MC_CHECK(!v.has_value(), "take from a closed empty queue returned an item after %s", trace.c_str());
          } else {
            MC_CHECK(v.has_value() && v.value() == ref.front(), "wrong item after %s", trace.c_str());
            ref.pop_front();
          }
        }
        break;
      case 3:
        c.close();
        closed = true;
        trace += 'c';
        break;
      case 4:
        c.reset();
        ref.clear();
        closed = false;
        trace += 'r';
        break;
    }
  }
  c.close();
  while (!ref.empty()) {
    auto v = c.take();
    MC_CHECK(v.has_value() && v.value() == ref.front(), "wrong remaining item after %s", trace.c_str());
    ref.pop_front();
  }
  MC_CHECK(!c.take().has_value());
  mc::outcome(trace);
}
MC_SCENARIO(operation_sequences, pb(0), pb(0)) { sequences(mc::thorough() ? 8 : 5); }

namespace {
mc::Bounds wide(int p) {
  mc::Bounds b = pb(p);
  b.horizon = 2000000;
  b.accesses = 2000000000;
  return b;
}
}  // namespace

// Very many items wait.
MC_SCENARIO(many_items, wide(0), wide(0)) {
  dap::Chan<int> c;
  int n = mc::choose(2, "many") ? 70000 : 300;
  int kind = mc::choose(3, "put");
  for (int i = 0; i < n; i++) {
    int v = i;
    if (kind == 0 || (kind == 2 && i % 2)) c.put(v);
    else c.put(std::move(v));
  }
  bool close = mc::choose(2, "close");
  if (close) c.close();
  for (int i = 0; i < n; i++) {
    auto v = c.take();
    if (!v.has_value() || v.value() != i) mc::fail("item %d of %d is missing", i, n);
  }
  if (close) MC_CHECK(!c.take().has_value());
  mc::outcome("ok");
}
