// C05, C09: sessions over the library's own sockets and server (simulated TCP
// stack).
#include "sess.h"

#include "netraw.h"

#include "dap/network.h"

#include <memory>
#include <thread>
#include <vector>
using namespace sess;

namespace {
namespace net = mc::net;
using RW = std::shared_ptr<dap::ReaderWriter>;
const int kPort = 7001;
enum { kAccepted = 30, kHandled = 31, kEvents = 32, kClosedC = 33, kClosedS = 34, kGone = 35 };

// A server that binds a session to each connection.
struct Host {
  std::unique_ptr<dap::net::Server> srv = dap::net::Server::create();
  std::vector<std::unique_ptr<dap::Session>> sessions;
  std::function<void(dap::Session&)> setup;
  void start() {
    bool ok = srv->start(
        kPort,
        [this](const RW& rw) {
          auto s = dap::Session::create();
          setup(*s);
          s->bind(rw, [] { mc::add(kClosedS, 1); });
          sessions.push_back(std::move(s));
          mc::publish(5);
          mc::add(kAccepted, 1);
        },
        [](const char* m) { mc::fail("the server reports an error: %s", m); });
    if (!ok) mc::fail("the server does not start");
  }
};
const char* text(int v) {
  static const char* t[] = {"s", "", "Content-Length: 5\r\n\r\n{}\n\"\\", "\xf0\x9f\x98\x80"};
  return t[v];
}
}  // namespace

// Requests, responses and events between a served session and a connected one.
static void conversation(unsigned mask, bool both) {
  net::bufferSize(both || !mc::thorough() || mc::choose(2, "buffer") ? 4096 : 40);
  Host h;
  h.setup = [&](dap::Session& s) {
    s.registerHandler([](const dap::ARequest& r) -> dap::ResponseOrError<dap::AResponse> {
      mc::add(kHandled, 1);
      if (int(r.i) < 0) return dap::Error(std::string(r.s) + "!");
      return aresp(int(r.i) * 2, r.s);
    });
  };
  h.start();
  bool fail = mc::choose(2, "answer");
  int v = fail ? 2 : 3;
  {
    auto c = dap::Session::create();
    c->registerHandler([v](const dap::AEvent& e) {
      if (int(e.i) != 9 || std::string(e.s) != text(v)) mc::fail("the event arrived changed");
      mc::add(kEvents, 1);
    });
    auto rw = dap::net::connect("localhost", kPort);
    if (!rw) mc::fail("cannot connect to a running server");
    mc::await(kAccepted, 1);
    mc::subscribe(5);
    net::faults(mask);
    c->bind(rw, [] { mc::add(kClosedC, 1); });
    auto f = c->send(areq(fail ? -4 : 4, std::string("q") + text(v)));
    if (both) h.sessions[0]->send(aev(9, text(v)));
    auto r = f.get();
    if (bool(r.error) != fail) mc::fail("the request's outcome is '%s'", r.error ? r.error.message.c_str() : "success");
    if (fail && r.error.message != std::string("q") + text(v) + "!") mc::fail("the error arrived as '%s'", r.error.message.c_str());
    if (!fail && (int(r.response.i) != 8 || std::string(r.response.s) != std::string("q") + text(v))) mc::fail("the response arrived changed");
    if (both) {
      mc::await(kEvents, 1);
      if (mc::get(kEvents) != 1) mc::fail("the event was handled %ld times", mc::get(kEvents));
    }
    if (mc::get(kHandled) != 1) mc::fail("the request was handled %ld times", mc::get(kHandled));
    if (mc::get(kClosedC) || mc::get(kClosedS)) mc::fail("the session was closed during the conversation");
    net::faults(0);
    c.reset();
  }
  mc::await(kClosedS, 1);
  h.sessions.clear();
  h.srv->stop();
  mc::outcome(fail ? "error" : "ok");
}
MC_SCENARIO(c05_over_sockets, pb(1), pb(2)) { conversation(0, true); }
MC_SCENARIO(c05_over_split_sockets, pb(1), pb(2)) { conversation(net::SHORT_SEND | net::SHORT_RECV | net::INTR, false); }

// Both ends and the server disappear in every order, mid-conversation.
MC_SCENARIO(c09_over_sockets, pb(0), pb(2)) {
  net::bufferSize(!mc::thorough() || mc::choose(2, "buffer") ? 4096 : 40);
  Host h;
  h.setup = [&](dap::Session& s) {
    s.registerHandler([](const dap::ARequest& r) {
      if (mc::get(kGone)) mc::fail("a handler runs after its session was destroyed");
      return aresp(int(r.i) * 2, r.s);
    });
  };
  h.start();
  auto c = dap::Session::create();
  c->registerHandler([](const dap::AEvent& e) { mc::add(kEvents, 1); });
  auto rw = dap::net::connect("localhost", kPort);
  if (!rw) mc::fail("cannot connect to a running server");
  c->bind(rw, [] { mc::add(kClosedC, 1); });
  rw.reset();
  mc::await(kAccepted, 1);
  mc::subscribe(5);
  auto f = c->send(areq(4));
  h.sessions[0]->send(aev(9));
  int order = mc::choose(4, "order");
  auto dropS = [&] {
    h.sessions.clear();
    mc::set(kGone, 1);
    if (mc::get(kClosedS) != 1) mc::fail("close callback of the served session called %ld times", mc::get(kClosedS));
  };
  auto dropC = [&] {
    c.reset();
    if (mc::get(kClosedC) != 1) mc::fail("close callback of the connected session called %ld times", mc::get(kClosedC));
  };
  if (order == 0) dropC(), dropS(), h.srv->stop();
  if (order == 1) dropS(), dropC(), h.srv->stop();
  if (order == 2) h.srv->stop(), dropS(), dropC();
  if (order == 3) {
    std::thread t([&] { dropS(); });
    dropC();
    t.join();
    h.srv.reset();
  }
  MC_CHECK(ready(f), "no outcome after both sessions ended");
  auto r = f.get();
  if (!r.error && int(r.response.i) != 8) mc::fail("the response arrived changed");
  if (mc::get(kEvents) > 1) mc::fail("the event was handled %ld times", mc::get(kEvents));
  mc::outcome(std::to_string(order) + (r.error ? "error" : "ok"));
}
// A plain peer ends the connection in every way while the session works with it.
MC_SCENARIO(c09_socket_peer, pb(2), pb(3)) {
  int how = mc::choose(4, "how");  // close, abort, end of stream only, stays
  int l = raw::listenOn(kPort);
  auto rw = dap::net::connect("localhost", kPort);
  if (!rw) mc::fail("cannot connect");
  int peer = raw::acceptOne(l);
  auto s = dap::Session::create();
  s->registerHandler([](const dap::ARequest& r) {
    if (mc::get(kGone)) mc::fail("a handler runs after its session was destroyed");
    mc::add(kHandled, 1);
    return aresp(int(r.i));
  });
  s->bind(rw, [] {
    if (mc::get(kGone)) mc::fail("close callback after the session was destroyed");
    mc::add(kClosedC, 1);
  });
  bool destroy = mc::choose(2, "destroy at once") || how == 3;
  std::thread t([&] {
    raw::sendAll(peer, frame(reqA(1, 1)));
    if (how == 0) raw::closeIt(peer);
    if (how == 1) raw::resetIt(peer);
    if (how == 2) raw::fin(peer);
  });
  auto f = s->send(areq(4));
  if (!destroy) {
    mc::await(kClosedC, 1);
    MC_CHECK(f.get().error, "success without a response");
  }
  s.reset();
  mc::set(kGone, 1);
  MC_CHECK(mc::get(kClosedC) == 1, "close callback called %ld times", mc::get(kClosedC));
  MC_CHECK(!rw->isOpen(), "the stream was not closed");
  MC_CHECK(ready(f), "no outcome after the session ended");
  MC_CHECK(f.get().error, "success without a response");
  t.join();
  if (how >= 2) raw::closeIt(peer);
  raw::closeIt(l);
  mc::quiesce();
  mc::outcome(std::to_string(how) + std::to_string(destroy) + std::to_string(mc::get(kHandled)));
}
