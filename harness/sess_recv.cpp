// C06: incoming messages are handled once, one by one, in order.
// C09: a session can end at any moment.
#include "sess.h"
using namespace sess;

namespace {
void enter(int tag) {
  MC_CHECK(mc::get(60) == 0, "a handler runs after the session was destroyed");
  long in = mc::add(61, 1);
  MC_CHECK(in == 1, "two handlers run at the same time");
  mc::event("B" + std::to_string(tag));
}
void leave(int tag) {
  mc::event("D" + std::to_string(tag));
  mc::add(61, -1);
  mc::add(62, 1);  // handled
}
void handle(int tag) {
  enter(tag);
  mc::yield();
  leave(tag);
}
void registerAll(dap::Session& s) {
  s.registerHandler([](const dap::ARequest& r) {
    handle(int(r.i));
    return aresp(int(r.i));
  });
  s.registerHandler([](const dap::BRequest& r) -> dap::ResponseOrError<dap::BResponse> {
    handle(int(r.x.value(0)));
    return dap::Error("no");
  });
  s.registerHandler([](const dap::AEvent& e) { handle(int(e.i)); });
  s.registerHandler([](const dap::BEvent& e) { handle(int(e.x.value(0))); });
}
std::string msg(int kind, int tag) {
  switch (kind) {
    case 0: return reqA(tag, tag);
    case 1: return reqB(tag, tag);
    case 2: return evA(tag, tag);
    default: return evB(tag, tag);
  }
}
// Handled sequence must be 1..n (or a prefix of it).
int checkSequence(bool all, int n) {
  auto b = logged("B");
  auto d = logged("D");
  MC_CHECK(b.size() == d.size(), "a handler did not finish");
  MC_CHECK((int)b.size() <= n, "%zu messages handled, %d sent", b.size(), n);
  for (size_t i = 0; i < b.size(); i++) MC_CHECK(b[i] == std::to_string(i + 1) && d[i] == b[i], "message %s handled at position %zu", b[i].c_str(), i + 1);
  if (all) MC_CHECK((int)b.size() == n, "%d messages sent, %zu handled", n, b.size());
  return (int)b.size();
}
}  // namespace

// Every sequence of message kinds, in three ways of splitting the bytes.
MC_SCENARIO(c06_order, pb(1), pb(2)) {
  auto ep = std::make_shared<Ep>(0);
  {
    auto s = dap::Session::create();
    registerAll(*s);
    s->bind(ep, ep);
    int n = 3;
    std::string all;
    std::vector<std::string> fs;
    int kinds = 0;
    for (int k = 1; k <= n; k++) {
      int kind = mc::choose(4, "kind");
      kinds = kinds * 4 + kind;
      fs.push_back(frame(msg(kind, k)));
      all += fs.back();
    }
    switch (mc::choose(3, "split")) {
      case 0: for (auto& f : fs) ep->feed(f); break;
      case 1: ep->feed(all); break;
      case 2: ep->feed(all.substr(0, all.size() / 2)); mc::quiesce(); ep->feed(all.substr(all.size() / 2)); break;
    }
    mc::quiesce();
    checkSequence(true, n);
    // responses of the two request kinds, in the order of the requests
    auto out = frames(ep->written());
    long long last = 0;
    for (auto& f : out) {
      MC_CHECK(f.num("request_seq") > last, "responses out of order");
      last = f.num("request_seq");
    }
    mc::outcome(std::to_string(kinds));
  }
  checkSequence(true, 3);
}
// More messages, arriving while the dispatcher works.
MC_SCENARIO(c06_stream, pb(3), pb(4)) {
  auto ep = std::make_shared<Ep>(0);
  {
    auto s = dap::Session::create();
    registerAll(*s);
    s->bind(ep, ep);
    for (int k = 1; k <= 5; k++) {
      ep->feedMsg(msg(k % 4, k));
      mc::yield();
    }
    mc::await(62, 5);
    mc::quiesce();
    checkSequence(true, 5);
  }
  mc::outcome("ok");
}
// A handler waits for the response to its own request; messages that arrive
// meanwhile wait their turn, the response does not.
MC_SCENARIO(c06_handler_waits_for_response, pb(3), pb(5)) {
  auto ep = std::make_shared<Ep>(0);
  {
    auto s = dap::Session::create();
    dap::Session* sp = s.get();
    bool ev = mc::choose(2, "an event handler waits");
    auto wait = [sp] {
      enter(1);
      auto f = sp->send(breq(77));
      auto r = f.get();
      MC_CHECK(!r.error && int(r.response.x.value(0)) == 88, "wrong outcome");
      leave(1);
    };
    if (ev) s->registerHandler([=](const dap::AEvent& e) { if (int(e.i) == 1) wait(); else handle(int(e.i)); });
    else s->registerHandler([=](const dap::ARequest& r) { if (int(r.i) == 1) wait(); else handle(int(r.i)); return aresp(1); });
    s->registerHandler([](const dap::BEvent& e) { handle(int(e.x.value(0))); });
    s->bind(ep, ep);
    ep->feedMsg(ev ? evA(1, 1) : reqA(1, 1));
    ep->feedMsg(evB(2, 2));
    ep->feedMsg(ev ? evA(3, 3) : reqA(3, 3));
    ep->awaitMsgs(1);
    mc::quiesce();
    MC_CHECK(logged("B").size() == 1, "a message was handled while another handler was blocked");
    auto fs = frames(ep->written());
    MC_CHECK(fs.size() == 1 && fs[0].str("command") == "breq");
    ep->feedMsg("{\"seq\":4,\"type\":\"response\",\"command\":\"breq\",\"success\":true,\"request_seq\":" + std::to_string(fs[0].num("seq")) + ",\"body\":{\"x\":88}}");
    mc::quiesce();
    checkSequence(true, 3);
  }
  mc::outcome("ok");
}
namespace {
mc::Bounds wide() {
  mc::Bounds b = pb(0);
  b.horizon = 2000000;
  b.accesses = 2000000000;
  return b;
}
}  // namespace
// The response a handler waits for comes after a long backlog of messages,
// all of which are handled afterwards.
MC_SCENARIO(c06_backlog, wide(), wide()) {
  static const int sizes[] = {40, 300, 5000};
  int n = mc::thorough() && mc::choose(2, "long") ? 20000 : sizes[mc::choose(3, "backlog")];
  auto ep = std::make_shared<Ep>(0);
  {
    auto s = dap::Session::create();
    dap::Session* sp = s.get();
    auto next = [](int tag) {
      if (tag != int(mc::add(65, 1))) mc::fail("message %d handled at position %ld", tag, mc::get(65));
    };
    s->registerHandler([=](const dap::ARequest& r) {
      next(int(r.i));
      auto f = sp->send(breq(77));
      auto o = f.get();
      MC_CHECK(!o.error && int(o.response.x.value(0)) == 88, "wrong outcome");
      return aresp(1);
    });
    s->registerHandler([=](const dap::BEvent& e) { next(int(e.x.value(0))); });
    s->bind(ep, ep);
    ep->feedMsg(reqA(1, 1));
    ep->awaitMsgs(1);
    std::string all;
    for (int k = 2; k <= n; k++) all += frame(evB(k, k));
    ep->feed(all);
    auto fs = frames(ep->written());
    ep->feedMsg("{\"seq\":4,\"type\":\"response\",\"command\":\"breq\",\"success\":true,\"request_seq\":" + std::to_string(fs[0].num("seq")) + ",\"body\":{\"x\":88}}");
    mc::quiesce();
    if (mc::get(65) != n) mc::fail("%d messages sent, %ld handled", n, mc::get(65));
  }
  mc::outcome(std::to_string(n));
}
// The peer ends the connection after its messages; they are still handled,
// even those that wait behind a blocked handler.
MC_SCENARIO(c06_handled_after_end, pb(4), pb(6)) {
  auto ep = std::make_shared<Ep>(0);
  int how = mc::choose(3, "how");  // end of stream; closed after everything was received; the same with a blocked handler
  {
    auto s = dap::Session::create();
    s->registerHandler([&](const dap::AEvent& e) {
      enter(int(e.i));
      if (how == 2) mc::await(63, 1);
      leave(int(e.i));
    });
    s->registerHandler([](const dap::BEvent& e) { handle(int(e.x.value(0))); });
    s->bind(ep, ep, [] { mc::add(64, 1); });
    ep->feedMsg(evA(1, 1));
    ep->feedMsg(evB(2, 2));
    ep->feedMsg(evB(3, 3));
    if (how) mc::quiesce();
    ep->end(how != 0);
    if (how == 2) {
      mc::quiesce();
      MC_CHECK(mc::get(64) == 1, "close callback not called although the connection ended");
      mc::set(63, 1);
    }
    mc::quiesce();
    checkSequence(true, 3);
    MC_CHECK(mc::get(64) == 1, "close callback called %ld times", mc::get(64));
  }
  MC_CHECK(mc::get(64) == 1, "close callback called %ld times", mc::get(64));
  mc::outcome(std::to_string(how));
}

// Destroyed with several messages queued behind a running handler: those that
// are still handled are handled in order.
MC_SCENARIO(c06_destroyed_with_queue, pb(2), pb(3)) {
  auto ep = std::make_shared<Ep>(0);
  int n = 3 + mc::choose(3, "messages");
  bool end = mc::choose(2, "peer ends");
  std::thread t;
  {
    auto s = dap::Session::create();
    s->registerHandler([](const dap::AEvent& e) {
      enter(int(e.i));
      mc::await(63, 1);
      leave(int(e.i));
    });
    s->registerHandler([](const dap::BEvent& e) { handle(int(e.x.value(0))); });
    s->registerHandler([](const dap::BRequest& r) -> dap::ResponseOrError<dap::BResponse> {
      handle(int(r.x.value(0)));
      return dap::Error("no");
    });
    s->bind(ep, ep);
    ep->feedMsg(evA(1, 1));
    for (int k = 2; k <= n; k++) ep->feedMsg(k % 2 ? reqB(k, k) : evB(k, k));
    mc::quiesce();
    if (end) ep->end(false);
    t = std::thread([] { mc::set(63, 1); });
  }
  mc::set(60, 1);
  t.join();
  int got = checkSequence(false, n);
  mc::outcome(std::to_string(n) + std::to_string(end) + std::to_string(got));
}

// ------------------------------------------------------------------ C09
namespace {
void afterwards(int n) {
  mc::set(60, 1);
  MC_CHECK(mc::get(61) == 0, "a handler is still running after the session was destroyed");
  checkSequence(false, n);
}
}  // namespace
// Destroyed while the peer is sending; the peer may also end the connection.
MC_SCENARIO(c09_destroy_while_receiving, pb(3), pb(4)) {
  auto ep = std::make_shared<Ep>(0);
  int how = mc::choose(4, "peer end");  // stays, half message, ends, closes
  auto s = dap::Session::create();
  registerAll(*s);
  bindTemp(s, ep, ep, [] {
    MC_CHECK(mc::get(60) == 0, "close callback after the session was destroyed");
    mc::add(64, 1);
  });
  std::thread peer([&] {
    ep->feedMsg(reqA(1, 1));
    mc::yield();
    ep->feedMsg(evA(2, 2));
    mc::yield();
    if (how == 1) ep->feed("Content-Length: 400\r\n\r\n{\"seq\":");
    if (how >= 2) ep->end(how == 3);
  });
  s.reset();
  afterwards(2);
  peer.join();
  mc::quiesce();
  checkSequence(false, 2);
  MC_CHECK(mc::get(64) == 1, "close callback called %ld times", mc::get(64));
  MC_CHECK(ep->closed(), "the endpoint was not closed");
  mc::outcome(std::to_string(how) + std::to_string(logged("B").size()));
}
// Destroyed with messages queued behind a running handler, which itself sends.
MC_SCENARIO(c09_destroy_while_handling, pb(3), pb(4)) {
  auto ep = std::make_shared<Ep>(0);
  bool settle = mc::choose(2, "let the handler start");
  auto s = dap::Session::create();
  dap::Session* sp = s.get();
  s->registerHandler([=](const dap::ARequest& r) {
    enter(int(r.i));
    sp->send(aev(5));
    auto f = sp->send(breq(1));
    MC_CHECK(bool(f.get().error), "success without a response");
    leave(int(r.i));
    return aresp(1);
  });
  s->registerHandler([](const dap::AEvent& e) { handle(int(e.i)); });
  bindTemp(s, ep, ep, [] { mc::add(64, 1); });
  ep->feedMsg(reqA(1, 1, "some longer text that is on the heap"));
  ep->feedMsg(evA(2, 2, "some longer text that is on the heap"));
  if (settle) mc::quiesce();
  s.reset();
  afterwards(2);
  mc::quiesce();
  MC_CHECK(mc::get(64) == 1, "close callback called %ld times", mc::get(64));
  mc::outcome(std::to_string(logged("B").size()));
}
// Pipe endpoint; both ends of the conversation disappear.
MC_SCENARIO(c09_pipe_destroy, pb(3), pb(4)) {
  auto in = dap::pipe(), out = dap::pipe();
  int how = mc::choose(3, "peer");
  auto s = dap::Session::create();
  registerAll(*s);
  bindTemp(s, in, out, [] {
    MC_CHECK(mc::get(60) == 0, "close callback after the session was destroyed");
    mc::add(64, 1);
  });
  std::thread peer([&] {
    std::string f = frame(reqA(1, 1)) + frame(evB(2, 2));
    if (how == 1) f.resize(f.size() - 7);
    in->write(f.data(), f.size());
    if (how == 2) in->close();
  });
  s.reset();
  afterwards(2);
  peer.join();
  MC_CHECK(!in->isOpen() && !out->isOpen(), "the endpoints were not closed");
  MC_CHECK(mc::get(64) == 1, "close callback called %ld times", mc::get(64));
  mc::outcome(std::to_string(how) + std::to_string(logged("B").size()));
}
// The connection ends in every way: the close callback is called exactly
// once, also if the session is destroyed at that moment, and nothing is
// received afterwards.
MC_SCENARIO(c09_close_callback, pb(3), pb(5)) {
  auto ep = std::make_shared<Ep>(0);
  int how = mc::choose(4, "how");      // end, closed by the peer, bad data with close policy, closed by another thread of ours
  bool destroy = mc::choose(2, "destroy");
  auto s = dap::Session::create();
  registerAll(*s);
  if (how == 2) s->setOnInvalidData(dap::kClose);
  auto f = std::make_shared<long>(0);
  // The callback may use the session.
  auto used = !destroy && mc::choose(2, "uses") ? s.get() : nullptr;
  bindTemp(s, ep, ep, [used] {
    if (used) {
      used->send(bev(1));
      auto f = used->send(areq(1));
      MC_CHECK(bool(f.get().error), "a request sent after the end has no error outcome");
      used->onError(nullptr);
    }
    mc::add(64, 1);
    mc::event("CLOSED");
  });
  ep->feedMsg(evA(1, 1));
  std::thread t([&] {
    if (how < 2) ep->end(how == 1);
    if (how == 2) ep->feed("garbage that is no header\r\n" + frame(evA(9, 9)));
    if (how == 3) ep->close();
  });
  if (!destroy) {
    mc::await(64, 1);
    ep->feedMsg(evA(8, 8));
    t.join();
    mc::quiesce();
    MC_CHECK(mc::get(64) == 1, "close callback called %ld times", mc::get(64));
    if (how == 0) checkSequence(true, 1);
    if (how == 2) MC_CHECK(ep->closed(), "invalid data did not close the endpoint");
    s.reset();
  } else {
    s.reset();
    t.join();
  }
  afterwards(1);
  mc::quiesce();
  MC_CHECK(mc::get(64) == 1, "close callback called %ld times", mc::get(64));
  mc::outcome(std::to_string(how) + std::to_string(destroy) + std::to_string(logged("B").size()));
}
// Sessions that were never connected, never started, or pumped by hand; with
// payloads that are run, dropped, or never taken.
MC_SCENARIO(c09_not_started, pb(0), pb(0)) {
  auto ep = std::make_shared<Ep>(0);
  auto s = dap::Session::create();
  registerAll(*s);
  int mode = mc::choose(4, "mode");
  if (mode == 1) s->startProcessingMessages([] { mc::add(64, 1); });
  if (mode >= 2) s->connect(ep, ep);
  if (mode >= 2) {
    for (int k = 1; k <= 3; k++) ep->feedMsg(msg(mc::choose(4, "kind"), k));
    std::function<void()> keep;
    int run = 0;
    for (int k = 1; k <= mc::choose(4, "taken"); k++) {
      auto p = s->getPayload();
      MC_CHECK(bool(p), "message not accepted");
      int what = mc::choose(3, "payload");
      if (what == 0) { p(); run++; }
      if (what == 1) keep = std::move(p);
    }
    if (mode == 3) ep->end(true);
    MC_CHECK(mc::get(62) == run, "%ld handled, %d run", mc::get(62), run);
    keep = nullptr;
  }
  s.reset();
  if (mode == 1) MC_CHECK(mc::get(64) == 1, "close callback called %ld times", mc::get(64));
  mc::outcome(std::to_string(mode));
}
// Two sessions talk over pipes and are destroyed in either order mid-conversation.
MC_SCENARIO(c09_both_destroyed, pb(1), pb(2)) {
  auto a = dap::pipe(), b = dap::pipe();
  auto c = dap::Session::create(), s = dap::Session::create();
  s->registerHandler([](const dap::ARequest& r) { return aresp(int(r.i)); });
  c->registerHandler([](const dap::AEvent&) {});
  s->bind(a, b);
  c->bind(b, a);
  auto f = c->send(areq(4));
  s->send(aev(1));
  if (mc::choose(2, "order")) {
    c.reset();
    s.reset();
  } else {
    s.reset();
    c.reset();
  }
  MC_CHECK(ready(f), "no outcome after both sessions ended");
  auto r = f.get();
  if (!r.error) MC_CHECK(int(r.response.i) == 4);
  mc::outcome(r.error ? "error" : "ok");
}
