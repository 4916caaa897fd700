// C10: concurrent use of the session API.  C25: registration and misuse.
#include "sess.h"
using namespace sess;

// Registering handlers, replacing the error handler and sending, all at once,
// while messages for them arrive.
MC_SCENARIO(c10_register_while_receiving, pb(3), pb(5)) {
  auto ep = std::make_shared<Ep>(0);
  {
    auto s = dap::Session::create();
    countErrors(*s);
    s->bind(ep, ep);
    std::thread r([&] {
      s->registerHandler([](const dap::AEvent& e) { mc::add(1, 1); });
      s->registerHandler([](const dap::BRequest& r) { mc::add(2, 1); return dap::BResponse(); });
    });
    ep->feedMsg(evA(1, 1));
    ep->feedMsg(reqB(2, 1));
    r.join();
    mc::quiesce();
    MC_CHECK(mc::get(1) + mc::get(2) + errors() == 2, "2 messages, %ld handled, %ld errors", mc::get(1) + mc::get(2), errors());
    ep->feedMsg(evA(3, 1));
    ep->feedMsg(reqB(4, 1));
    long before = mc::get(1) + mc::get(2), e = errors();
    mc::quiesce();
    MC_CHECK(mc::get(1) + mc::get(2) == before + 2 && errors() == e, "registered handlers are not in force");
    mc::outcome(std::to_string(before));
  }
}
MC_SCENARIO(c10_error_handler, pb(3), pb(5)) {
  auto ep = std::make_shared<Ep>(0);
  {
    auto s = dap::Session::create();
    s->onError([](const char*) { mc::add(1, 1); });
    s->registerHandler([](const dap::AEvent& e) { mc::add(5, 1); });
    s->bind(ep, ep);
    std::thread t([&] {
      std::string heap(100, 'x');
      s->onError([heap](const char* m) {
        MC_CHECK(heap.size() == 100);
        mc::add(2, 1);
      });
    });
    ep->feedMsg("{\"seq\":1}");        // error
    ep->feedMsg(evB(2, 1));            // no handler: error
    s->registerHandler([](const dap::AEvent& e) {});  // already registered: error
    t.join();
    mc::quiesce();
    MC_CHECK(mc::get(1) + mc::get(2) == 3, "3 errors, %ld reported", mc::get(1) + mc::get(2));
    ep->feedMsg("[]");
    mc::quiesce();
    MC_CHECK(mc::get(1) + mc::get(2) == 4, "4 errors, %ld reported", mc::get(1) + mc::get(2));
    mc::outcome(std::to_string(mc::get(1)));
  }
}
MC_SCENARIO(c10_error_handler_set_last, pb(3), pb(5)) {
  auto s = dap::Session::create();
  std::thread t([&] { s->onError([](const char*) { mc::add(1, 1); }); });
  s->onError([](const char*) { mc::add(2, 1); });
  t.join();
  s->send(areq(1));
  s->send(areq(2));
  MC_CHECK((mc::get(1) >= 2) != (mc::get(2) >= 2) && (mc::get(1) == 0 || mc::get(2) == 0), "two handlers in force: %ld %ld", mc::get(1), mc::get(2));
  mc::outcome(std::to_string(mc::get(1) > 0));
}
// Sending from two threads while responses, sent handlers and requests come.
MC_SCENARIO(c10_send_register_sent, pb(2), pb(3)) {
  auto ep = std::make_shared<Ep>(0);
  {
    auto s = dap::Session::create();
    countErrors(*s);
    s->registerHandler([](const dap::ARequest& r) { return aresp(int(r.i)); });
    s->bind(ep, ep);
    std::thread t([&] {
      s->registerSentHandler([](const dap::ResponseOrError<dap::AResponse>& r) { mc::add(1, 1); });
      s->send(aev(9));
    });
    std::thread u([&] {
      auto f = s->send(areq(1));
      MC_CHECK(bool(f.get().error), "no error");
    });
    ep->feedMsg(reqA(5, 3));
    ep->awaitMsgs(3);
    long long q = -1;
    int n = 0;
    mc::quiesce();
    for (auto& f : frames(ep->written())) {
      n++;
      if (f.str("type") == "request") q = f.num("seq");
    }
    MC_CHECK(n == 3 && q > 0, "%d messages", n);
    ep->feedMsg(respErr(6, q, "x"));
    t.join();
    u.join();
    mc::quiesce();
    long first = mc::get(1);
    MC_CHECK(first <= 1 && errors() == 0);
    ep->feedMsg(reqA(7, 3));
    mc::quiesce();
    MC_CHECK(mc::get(1) == first + 1, "sent handler not in force");
    mc::outcome(std::to_string(first));
  }
}
// Two threads register handlers for different types: all in force.
MC_SCENARIO(c10_register_from_two_threads, pb(6), pb(8)) {
  auto ep = std::make_shared<Ep>(0);
  auto s = dap::Session::create();
  countErrors(*s);
  std::thread t([&] {
    s->registerHandler([](const dap::ARequest& r) { mc::add(1, 1); return aresp(1); });
    s->registerHandler([](const dap::AEvent& e) { mc::add(2, 1); });
    s->registerSentHandler([](const dap::ResponseOrError<dap::AResponse>& r) { mc::add(5, 1); });
  });
  s->registerHandler([](const dap::BRequest& r) { mc::add(3, 1); return dap::BResponse(); });
  s->registerHandler([](const dap::BEvent& e) { mc::add(4, 1); });
  s->registerSentHandler([](const dap::ResponseOrError<dap::BResponse>& r) { mc::add(6, 1); });
  t.join();
  s->connect(ep, ep);
  ep->feedMsg(reqA(1, 1));
  ep->feedMsg(evA(2, 1));
  ep->feedMsg(reqB(3, 1));
  ep->feedMsg(evB(4, 1));
  for (int k = 0; k < 4; k++) {
    auto p = s->getPayload();
    MC_CHECK(bool(p), "a registered handler is missing");
    p();
  }
  for (int k = 1; k <= 6; k++) MC_CHECK(mc::get(k) == 1, "handler %d called %ld times", k, mc::get(k));
  MC_CHECK(errors() == 0);
  mc::outcome("ok");
}
// Any two API calls (valid or not) at once, while a message of any kind
// arrives: no race, no deadlock, and each call and message has its effect.
static void anyTwo(int msgs) {
  auto ep = std::make_shared<Ep>(0);
  {
    auto s = dap::Session::create();
    s->onError([](const char*) { mc::add(1, 1); });
    s->registerHandler([](const dap::ARequest& r) { mc::add(2, 1); return aresp(int(r.i)); });
    s->registerHandler([](const dap::AEvent& r) { mc::add(3, 1); });
    s->registerSentHandler([](const dap::ResponseOrError<dap::AResponse>&) { mc::add(4, 1); });
    s->bind(ep, ep);
    auto f = s->send(areq(70));
    long reports = 0, sends = 1, areqs = 0, aevs = 0;
    bool later = false, replaced = false;
    int op[2];
    for (int k = 0; k < 2; k++) {
      op[k] = mc::choose(10, "call");
      if (k == 1 && op[1] < op[0]) mc::discard();  // symmetric
      switch (op[k]) {
        case 0: case 1: case 2: case 8: case 9: reports++; break;
        case 3: replaced = true; break;
        case 4: case 5: sends++; break;
        default: later = true; break;
      }
    }
    auto call = [&](int o) {
      switch (o) {
        case 0: s->registerHandler([](const dap::ARequest& r) { mc::fail("a refused handler runs"); return aresp(1); }); break;
        case 1: s->registerHandler([](const dap::AEvent&) { mc::fail("a refused handler runs"); }); break;
        case 2: s->registerSentHandler([](const dap::ResponseOrError<dap::AResponse>&) { mc::fail("a refused handler runs"); }); break;
        case 3: s->onError([](const char*) { mc::add(1, 1); }); break;
        case 4: s->send(aev(1)); break;
        case 5: s->send(areq(2)); break;
        case 6: s->registerHandler([](const dap::BRequest& r) { mc::add(5, 1); return dap::BResponse(); }); break;
        case 7: s->registerSentHandler([](const dap::ResponseOrError<dap::BResponse>&) { mc::add(6, 1); }); break;
        case 8: s->connect(ep, ep); break;
        case 9: s->startProcessingMessages(); break;
      }
    };
    // registering twice for one type from two threads: one of them is refused
    if (op[0] == op[1] && (op[0] == 6 || op[0] == 7)) reports++;
    int msg = mc::choose(msgs, "message");
    std::thread t([&] { call(op[0]); });
    switch (msg) {
      case 0: ep->feedMsg("{\"seq\":1}"); reports++; break;
      case 1: ep->feedMsg(reqA(5, 3)); areqs++; sends++; break;
      case 2: ep->feedMsg(evA(6, 3)); aevs++; break;
      case 3: ep->feedMsg(respA(7, 1000, 3)); reports++; break;
      case 4: ep->feedMsg(evB(8, 3)); reports++; break;
    }
    call(op[1]);
    t.join();
    mc::quiesce();
    MC_CHECK(mc::get(1) == reports, "%ld reports, expected %ld (calls %d and %d, message %d)", mc::get(1), reports, op[0], op[1], msg);
    MC_CHECK(mc::get(2) == areqs && mc::get(3) == aevs && mc::get(4) == areqs, "handlers called %ld %ld %ld times", mc::get(2), mc::get(3), mc::get(4));
    MC_CHECK(ep->msgs() == sends && (long)frames(ep->written()).size() == sends, "%ld messages written, expected %ld", ep->msgs(), sends);
    MC_CHECK(!ready(f), "an outcome without a response");
    // a registration that succeeded is in force
    ep->feedMsg(reqB(9, 1));
    ep->feedMsg(reqA(10, 1));
    mc::quiesce();
    bool b = op[0] == 6 || op[1] == 6, bs = op[0] == 7 || op[1] == 7;
    MC_CHECK(mc::get(5) == b && mc::get(6) == (b && bs) && mc::get(1) == reports + !b, "registrations are not in force (calls %d and %d)", op[0], op[1]);
    MC_CHECK(mc::get(2) == areqs + 1 && mc::get(4) == areqs + 1, "the first handlers are not in force");
    (void)later;
    (void)replaced;
    mc::outcome(std::to_string(op[0]) + std::to_string(op[1]) + std::to_string(msg));
  }
}
// Every callback may use the session, itself or through another thread it
// waits for.
MC_SCENARIO(c10_from_callbacks, pb(1), pb(2)) {
  auto ep = std::make_shared<Ep>(0);
  {
    auto s = dap::Session::create();
    countErrors(*s);
    int where = mc::choose(7, "callback");
    int what = mc::choose(8, "call");
    bool other = mc::choose(2, "from another thread");
    bool ended = where >= 5;
    auto call = [&] {
      switch (what) {
        case 0: s->send(aev(50)); break;
        case 1: s->send(areq(51)); break;
        case 2: s->registerHandler([](const dap::BRequest& r) { mc::add(12, 1); return dap::BResponse(); }); break;
        case 3: s->registerHandler([](const dap::BEvent&) { mc::add(13, 1); }); break;
        case 4: s->registerSentHandler([](const dap::ResponseOrError<dap::BResponse>&) { mc::add(14, 1); }); break;
        case 5: s->onError([](const char*) { mc::add(15, 1); }); break;
        case 6: s->registerHandler([](const dap::AEvent&) { mc::fail("a refused handler runs"); }); break;
        case 7: {
          dap::BEvent e = bev(1);
          bool ok = s->send(dap::TypeOf<dap::BEvent>::type(), &e);
          if (!ended) MC_CHECK(ok, "an event cannot be sent");
          break;
        }
      }
    };
    auto cb = [&](int k) {
      if (k != where) return;
      if (mc::get(1)) return;
      mc::set(1, 1);
      if (other) {
        std::thread t(call);
        t.join();
      } else {
        call();
      }
      mc::set(1, 2);
    };
    s->registerHandler([&](const dap::ARequest& r) -> dap::ResponseOrError<dap::AResponse> {
      cb(0);
      if (where == 3) return dap::Error("no");
      return aresp(1);
    });
    s->registerHandler([&](const dap::AEvent&) { cb(1); });
    s->registerSentHandler([&](const dap::ResponseOrError<dap::AResponse>& r) { cb(r.error ? 3 : 2); });
    s->bind(ep, ep, [&] { cb(6); });
    dap::ARequest req = areq(70);
    bool sent = s->send(dap::TypeOf<dap::ARequest>::type(), dap::TypeOf<dap::AResponse>::type(), &req, [&](const void* r, const dap::Error* e) {
      mc::add(2, 1);
      cb(r ? 4 : 5);
    });
    MC_CHECK(sent, "not sent");
    long long q = frames(ep->written())[0].num("seq");
    if (where <= 3) {
      ep->feedMsg(reqA(5, 3));
      ep->feedMsg(evA(6, 3));
    } else if (where == 4) {
      ep->feedMsg(respA(7, q, 3));
    }
    mc::quiesce();
    if (!ended) MC_CHECK(mc::get(1) == 2, "the callback %s", mc::get(1) ? "did not finish" : "was not called");
    if (!ended && what == 2) ep->feedMsg(reqB(8, 1));
    if (!ended && what == 3) ep->feedMsg(evB(9, 1));
    mc::quiesce();
    if (!ended && what == 2) MC_CHECK(mc::get(12) == 1, "the handler is not in force");
    if (!ended && what == 3) MC_CHECK(mc::get(13) == 1, "the handler is not in force");
    ep->end(mc::choose(2, "closed"));
    mc::quiesce();
    MC_CHECK(mc::get(1) == 2, "the callback %s", mc::get(1) ? "did not finish" : "was not called");
    MC_CHECK(mc::get(2) == 1, "the request has %ld outcomes", mc::get(2));
    if (!ended && what <= 1) {
      int n = 0;
      for (auto& f : frames(ep->written())) {
        auto b = f.get(what == 0 ? "body" : "arguments");
        if (b && b->num("i") == 50 + what) n++;
      }
      MC_CHECK(n == 1, "the message was written %d times", n);
    }
    mc::outcome(std::to_string(where) + std::to_string(what));
  }
}
MC_SCENARIO(c10_any_two_calls, pb(2), pb(3)) { anyTwo(5); }
// Starting from two threads at once: one takes effect, the other is reported.
MC_SCENARIO(c25_start_race, pb(4), pb(6)) {
  auto ep = std::make_shared<Ep>(0);
  {
    auto s = dap::Session::create();
    countErrors(*s);
    s->registerHandler([](const dap::AEvent& e) { mc::add(int(e.i), 1); });
    s->connect(ep, ep);
    std::thread t([&] { s->startProcessingMessages([] { mc::add(1, 1); }); });
    s->startProcessingMessages([] { mc::add(2, 1); });
    t.join();
    ep->feedMsg(evA(1, 11));
    ep->feedMsg(evA(2, 12));
    mc::quiesce();
    MC_CHECK(errors() == 1, "%ld reports", errors());
    MC_CHECK(mc::get(11) == 1 && mc::get(12) == 1, "handled %ld %ld times", mc::get(11), mc::get(12));
    ep->end(true);
    mc::quiesce();
    MC_CHECK(mc::get(1) + mc::get(2) == 1, "close callbacks %ld %ld", mc::get(1), mc::get(2));
  }
  mc::outcome(std::to_string(mc::get(1)));
}
// Two threads register for the same type: one wins, the other is reported.
MC_SCENARIO(c25_register_same_type_race, pb(6), pb(8)) {
  auto ep = std::make_shared<Ep>(0);
  auto s = dap::Session::create();
  countErrors(*s);
  int what = mc::choose(3, "what");
  auto reg = [&](int k) {
    if (what == 0) s->registerHandler([k](const dap::ARequest& r) { mc::add(k, 1); return aresp(1); });
    if (what == 1) s->registerHandler([k](const dap::AEvent& e) { mc::add(k, 1); });
    if (what == 2) s->registerSentHandler([k](const dap::ResponseOrError<dap::AResponse>& r) { mc::add(k, 1); });
  };
  if (what == 2) s->registerHandler([](const dap::ARequest& r) { return aresp(1); });
  std::thread t([&] { reg(1); });
  reg(2);
  t.join();
  MC_CHECK(errors() == 1, "%ld reports", errors());
  s->connect(ep, ep);
  for (int n = 1; n <= 2; n++) {
    ep->feedMsg(what == 1 ? evA(1, 1) : reqA(1, 1));
    auto p = s->getPayload();
    MC_CHECK(bool(p));
    p();
    MC_CHECK((mc::get(1) == n && mc::get(2) == 0) || (mc::get(1) == 0 && mc::get(2) == n), "handlers called %ld/%ld times", mc::get(1), mc::get(2));
  }
  mc::outcome(std::to_string(mc::get(1) > 0));
}
// Separate sessions on separate threads, first use of every type included.
static mc::Bounds cold(int p) {
  mc::Bounds b = pb(p);
  b.warmup = false;
  return b;
}
static void roundTrip(int id) {
  auto ep = std::make_shared<Ep>(id);
  auto s = dap::Session::create();
  s->onError([](const char* m) { mc::fail("unexpected error %s", m); });
  int n = 0;
  s->registerHandler([&](const dap::ARequest& r) { n++; return aresp(int(r.i), "r" + std::to_string(id)); });
  s->registerHandler([&](const dap::AEvent& e) { n++; });
  s->connect(ep, ep);
  ep->feedMsg(reqA(1, 70 + id));
  ep->feedMsg(evA(2, 1));
  for (int k = 0; k < 2; k++) {
    auto p = s->getPayload();
    MC_CHECK(bool(p));
    p();
  }
  s->send(bev(5));
  auto fs = frames(ep->written());
  MC_CHECK(n == 2 && fs.size() == 2 && fs[0].get("body")->num("i") == 70 + id && fs[0].get("body")->str("s") == "r" + std::to_string(id), "wrong output");
  MC_CHECK(fs[0].num("seq") != fs[1].num("seq"), "sequence number used twice");
}
MC_SCENARIO(c10_separate_sessions, cold(2), cold(3)) {
  std::thread a([] { roundTrip(1); });
  roundTrip(0);
  a.join();
  mc::outcome("ok");
}

// ------------------------------------------------------------------ C25
// Second start: reported, and nothing changes (one receiver, one callback).
MC_SCENARIO(c25_second_start, pb(3), pb(5)) {
  auto ep = std::make_shared<Ep>(0), other = std::make_shared<Ep>(1);
  {
    auto s = dap::Session::create();
    countErrors(*s);
    s->registerHandler([](const dap::AEvent& e) { mc::add(int(e.i), 1); });
    int what = mc::choose(3, "second call");
    s->bind(ep, ep, [] { mc::add(1, 1); });
    ep->feedMsg(evA(1, 11));
    if (what == 0) s->startProcessingMessages([] { mc::add(2, 1); });
    if (what == 1) s->bind(other, other, [] { mc::add(2, 1); });
    if (what == 2) s->connect(other, other);
    ep->feedMsg(evA(2, 12));
    other->feedMsg(evA(3, 13));
    mc::quiesce();
    MC_CHECK(errors() == (what == 1 ? 2 : 1), "%ld reports", errors());
    MC_CHECK(mc::get(11) == 1 && mc::get(12) == 1 && mc::get(13) == 0, "handled %ld %ld %ld", mc::get(11), mc::get(12), mc::get(13));
    s->send(aev(1));
    MC_CHECK(frames(ep->written()).size() == 1 && other->written().empty(), "wrong endpoint");
    ep->end(true);
    mc::quiesce();
    MC_CHECK(mc::get(1) == 1 && mc::get(2) == 0, "close callbacks %ld %ld", mc::get(1), mc::get(2));
  }
  MC_CHECK(mc::get(1) == 1 && mc::get(2) == 0, "close callbacks %ld %ld", mc::get(1), mc::get(2));
  mc::outcome("ok");
}
// Two threads connect (or start) at once: one takes effect, one is reported.
MC_SCENARIO(c25_connect_race, pb(3), pb(5)) {
  auto ep = std::make_shared<Ep>(0), other = std::make_shared<Ep>(1);
  auto s = dap::Session::create();
  countErrors(*s);
  std::thread t([&] { s->connect(other, other); });
  s->connect(ep, ep);
  t.join();
  MC_CHECK(errors() == 1, "%ld reports", errors());
  s->send(aev(1));
  MC_CHECK(ep->written().empty() != other->written().empty(), "no or both endpoints used");
  mc::outcome(std::to_string(ep->written().empty()));
}
