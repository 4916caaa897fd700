// C05: end to end delivery.  C11: the response-sent notification.
#include "sess.h"
using namespace sess;

namespace {
const int kStyles = 7;
std::string longText() {
  std::string s;
  for (int i = 0; i < 3000; i++) s += char('a' + i % 26);
  return s;
}
// Payload variations.
dap::ARequest payload(int v) {
  dap::ARequest r;
  r.i = v == 1 ? dap::integer(-9007199254740993ll) : dap::integer(40 + v);
  switch (v) {
    case 0: r.s = "plain"; break;
    case 1: r.s = ""; r.oi = dap::integer(0); break;
    case 2: r.s = std::string("q\"\\\n\t\0z\x01", 9); r.oa = dap::array<dap::string>(); break;
    case 3: r.s = "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80"; r.oi = dap::integer(-1); r.oa = dap::array<dap::string>{"a", "", "\"c\""}; break;
    case 4: r.s = longText(); r.oa = dap::array<dap::string>{longText()}; break;
    case 5: r.s = "Content-Length: 5\r\n\r\n{}"; break;
  }
  return r;
}
const int kPayloads = 6;
bool same(const dap::optional<dap::integer>& a, const dap::optional<dap::integer>& b) {
  return a.has_value() == b.has_value() && (!a.has_value() || int64_t(*a) == int64_t(*b));
}
bool same(const dap::optional<dap::array<dap::string>>& a, const dap::optional<dap::array<dap::string>>& b) {
  if (a.has_value() != b.has_value()) return false;
  if (!a.has_value()) return true;
  if (a->size() != b->size()) return false;
  for (size_t i = 0; i < a->size(); i++)
    if ((*a)[i] != (*b)[i]) return false;
  return true;
}
template <typename X, typename Y>
bool same(const X& a, const Y& b) {
  return int64_t(a.i) == int64_t(b.i) && a.s == b.s && same(a.oi, b.oi) && same(a.oa, b.oa);
}
dap::AResponse respFor(const dap::ARequest& r) {
  dap::AResponse o;
  o.i = r.i;
  o.s = r.s;
  o.oi = r.oi;
  o.oa = r.oa;
  return o;
}
const char* kMsgs[] = {"plain failure", "%s%n%d 100%", "quote\" back\\ nl\n \xe2\x82\xac"};
std::string message(int m) { return m < 3 ? kMsgs[m] : longText(); }
const int kMessages = 4;

// Registers a handler of the given style.  Returned: a function that gives the
// answer later (styles 4 and 5), to be called once the handler returned.
struct Later {
  std::function<void()> run;
};
using RoE = dap::ResponseOrError<dap::AResponse>;
void registerStyle(dap::Session& s, int style, bool fail, const std::string& msg, const dap::ARequest* expect, std::shared_ptr<Later> later) {
  auto check = [expect](const dap::ARequest& r) {
    mc::add(20, 1);
    if (!same(r, *expect)) mc::fail("the request reached the handler changed");
  };
  switch (style) {
    case 0: s.registerHandler([=](const dap::ARequest& r) -> RoE {
        check(r);
        if (fail) return dap::Error(msg);
        return respFor(r);
      });
      break;
    case 1:
      if (fail) s.registerHandler([=](const dap::ARequest& r) { check(r); return dap::Error(msg); });
      else s.registerHandler([=](const dap::ARequest& r) { check(r); return respFor(r); });
      break;
    case 2: s.registerHandler([=](const dap::ARequest& r, std::function<void(RoE)> cb) {
        check(r);
        if (fail) cb(dap::Error(msg));
        else cb(respFor(r));
      });
      break;
    case 3: s.registerHandler([=](const dap::ARequest& r, std::function<void(dap::AResponse)> cb) {
        check(r);
        cb(respFor(r));
      });
      break;
    case 4: s.registerHandler([=](const dap::ARequest& r, std::function<void(RoE)> cb) {
        check(r);
        auto resp = respFor(r);
        later->run = [=] {
          if (fail) cb(dap::Error(msg));
          else cb(resp);
        };
        mc::publish(21);
      });
      break;
    case 5: s.registerHandler([=](const dap::ARequest& r, std::function<void(dap::AResponse)> cb) {
        check(r);
        auto resp = respFor(r);
        later->run = [=] { cb(resp); };
        mc::publish(21);
      });
      break;
    case 6: s.registerHandler([=](const dap::ARequest& r) -> RoE {
        check(r);
        RoE out;
        if (fail) out = RoE(dap::Error(msg));
        else out = respFor(r);
        RoE copy(out);
        return copy;
      });
      break;
  }
}
void checkResult(const RoE& r, bool fail, const std::string& msg, const dap::ARequest& req) {
  if (fail) {
    MC_CHECK(bool(r.error), "the failure arrived as a success");
    MC_CHECK(r.error.message == msg, "the error message changed: '%.200s' (%zu bytes)", r.error.message.c_str(), r.error.message.size());
  } else {
    MC_CHECK(!r.error, "the response arrived as the error '%.200s'", r.error.message.c_str());
    MC_CHECK(same(r.response, req), "the response arrived changed");
  }
}
}  // namespace

// Two sessions, all pumped by one thread: every style, outcome and payload.
MC_SCENARIO(c05_pumped, pb(0), pb(0)) {
  auto c2s = std::make_shared<Ep>(0), s2c = std::make_shared<Ep>(1);
  // client writes to endpoint 0, whose bytes are fed to the server's endpoint 1
  auto client = dap::Session::create(), server = dap::Session::create();
  countErrors(*client);
  countErrors(*server);
  client->connect(c2s, c2s);
  server->connect(s2c, s2c);
  auto later = std::make_shared<Later>();
  int style = mc::choose(kStyles, "style");
  bool fail = style != 3 && style != 5 && mc::choose(2, "fail");
  int m = fail ? mc::choose(kMessages, "message") : 0;
  dap::ARequest req = payload(mc::choose(kPayloads, "payload"));
  registerStyle(*server, style, fail, message(m), &req, later);
  bool sentSeen = false;
  server->registerSentHandler([&](const RoE& r) {
    MC_CHECK(!sentSeen, "sent handler called twice");
    MC_CHECK(!s2c->written().empty(), "sent handler called before the response was written");
    sentSeen = true;
    checkResult(r, fail, message(m), req);
  });
  auto ev = aev(5, req.s);
  ev.i = req.i;
  int events = 0;
  server->registerHandler([&](const dap::AEvent& e) {
    events++;
    MC_CHECK(e.s == req.s && int64_t(e.i) == int64_t(req.i), "event changed");
  });
  bool evFirst = mc::choose(2, "event first");
  if (evFirst) client->send(ev);
  auto f = client->send(req);
  if (!evFirst) client->send(ev);
  std::string out = c2s->written();
  s2c->feed(out);
  for (int k = 0; k < 2; k++) {
    auto p = server->getPayload();
    MC_CHECK(bool(p), "a message was not accepted");
    p();
  }
  if (style == 4 || style == 5) {
    MC_CHECK(!sentSeen && s2c->written().empty(), "answered before the callback was called");
    MC_CHECK(bool(later->run));
    later->run();
    later->run = nullptr;
  }
  MC_CHECK(events == 1 && mc::get(20) == 1, "handled %d events, %ld requests", events, mc::get(20));
  MC_CHECK(sentSeen, "sent handler not called");
  std::string back = s2c->written();
  auto reqs = frames(out), fs = frames(back);
  MC_CHECK(fs.size() == 1, "%zu responses", fs.size());
  auto& rq = reqs[evFirst ? 1 : 0];
  MC_CHECK(rq.str("type") == "request" && fs[0].str("type") == "response");
  MC_CHECK(fs[0].num("request_seq", -5) == rq.num("seq", -6), "response names another request");
  MC_CHECK(fs[0].str("command") == "areq", "response names another command");
  auto succ = fs[0].get("success");
  MC_CHECK(succ && succ->kind == mj::Val::kBool && succ->b == !fail, "success flag");
  c2s->feed(back);
  auto p = client->getPayload();
  MC_CHECK(!p);
  MC_CHECK(ready(f), "no outcome");
  checkResult(f.get(), fail, message(m), req);
  MC_CHECK(errors() == 0, "errors reported");
  mc::outcome(std::to_string(style) + std::to_string(fail));
}

// Two bound sessions over two pipes; deferred answers come from another thread.
static void threaded(int style, bool fail) {
  auto c2s = dap::pipe(), s2c = dap::pipe();
  auto later = std::make_shared<Later>();
  dap::ARequest req = payload(3);
  {
    auto client = dap::Session::create(), server = dap::Session::create();
    registerStyle(*server, style, fail, message(1), &req, later);
    server->registerHandler([&](const dap::AEvent& e) {
      MC_CHECK(e.s == "ev" && int(e.i) == 6, "event changed");
      mc::add(22, 1);
    });
    server->bind(c2s, s2c);
    client->bind(s2c, c2s);
    auto f = client->send(req);
    client->send(aev(6, "ev"));
    std::thread t;
    if (style == 4 || style == 5) {
      mc::await(22, 1);  // the event's handler runs after the request's
      mc::subscribe(21);
      t = std::thread([&] {
        later->run();
        later->run = nullptr;
      });
    }
    auto r = f.get();
    checkResult(r, fail, message(1), req);
    mc::await(22, 1);
    MC_CHECK(mc::get(20) == 1 && mc::get(22) == 1, "handlers called %ld and %ld times", mc::get(20), mc::get(22));
    if (t.joinable()) t.join();
  }
  mc::outcome("ok");
}
MC_SCENARIO(c05_threads, pb(1), pb(2)) {
  static const int styles[] = {0, 2, 5, 4};
  int k = mc::choose(4, "style");
  threaded(styles[k], k == 3 || k == 1);
}
// Requests in both directions at once, each with its own sequence numbers.
MC_SCENARIO(c05_both_directions, pb(1), pb(2)) {
  auto c2s = dap::pipe(), s2c = dap::pipe();
  {
    auto client = dap::Session::create(), server = dap::Session::create();
    client->registerHandler([](const dap::ARequest& r) { return respFor(r); });
    server->registerHandler([](const dap::ARequest& r) { return respFor(r); });
    server->bind(c2s, s2c);
    client->bind(s2c, c2s);
    auto fc = client->send(areq(1, "c1"));
    auto fs = server->send(areq(2, "s1"));
    auto r1 = fc.get();
    auto r2 = fs.get();
    MC_CHECK(!r1.error && int(r1.response.i) == 1 && r1.response.s == "c1");
    MC_CHECK(!r2.error && int(r2.response.i) == 2 && r2.response.s == "s1");
  }
  mc::outcome("ok");
}

// Every way to connect a session and start it.
static void attach(dap::Session& s, const std::shared_ptr<dap::ReaderWriter>& in, const std::shared_ptr<dap::ReaderWriter>& out, int way, int cell) {
  auto rw = dap::ReaderWriter::create(in, out);
  auto cb = [cell] { mc::add(cell, 1); };
  switch (way) {
    case 0: s.bind(in, out, cb); break;
    case 1: s.bind(rw, cb); break;
    case 2: s.connect(in, out); s.startProcessingMessages(cb); break;
    case 3: s.connect(rw); s.startProcessingMessages(cb); break;
    case 4: s.setOnInvalidData(dap::kClose); s.connect(rw); s.startProcessingMessages(cb); break;
    case 5: s.bind(in, out); break;
    case 6: s.bind(rw); break;
    case 7: s.connect(rw); s.startProcessingMessages(); break;
  }
}
MC_SCENARIO(c05_ways_to_connect, pb(0), pb(1)) {
  auto c2s = dap::pipe(), s2c = dap::pipe();
  {
    auto client = dap::Session::create(), server = dap::Session::create();
    countErrors(*client);
    countErrors(*server);
    client->registerHandler([](const dap::ARequest& r) { return respFor(r); });
    server->registerHandler([](const dap::ARequest& r) { return respFor(r); });
    server->registerHandler([](const dap::AEvent& e) { if (e.s == "ev" && int(e.i) == 6) mc::add(22, 1); });
    int ws = mc::choose(8, "server"), wc = mc::choose(8, "client");
    attach(*server, c2s, s2c, ws, 23);
    attach(*client, s2c, c2s, wc, 24);
    auto fc = client->send(areq(1, "c1"));
    auto fs = server->send(areq(2, "s1"));
    client->send(aev(6, "ev"));
    auto r1 = fc.get();
    auto r2 = fs.get();
    MC_CHECK(!r1.error && int(r1.response.i) == 1 && r1.response.s == "c1");
    MC_CHECK(!r2.error && int(r2.response.i) == 2 && r2.response.s == "s1");
    mc::await(22, 1);
    MC_CHECK(mc::get(23) == 0 && mc::get(24) == 0, "the close callback is called while the connection is open");
    MC_CHECK(errors() == 0, "errors reported");
    c2s->close();
    s2c->close();
    mc::quiesce();
    MC_CHECK(mc::get(23) == (ws < 5) && mc::get(24) == (wc < 5), "the connection was closed: close callbacks called %ld and %ld times", mc::get(23), mc::get(24));
    mc::outcome(std::to_string(ws) + std::to_string(wc));
  }
}

// ------------------------------------------------------------------ C11
// Kept callbacks answered by two threads in any order, next to a request that
// is answered at once: each sent notification follows its own response.
static void keptCallbacks(int errs) {  // bit k: callback k answers with an error
  auto ep = std::make_shared<Ep>(0);
  {
    std::map<int, std::function<void(RoE)>> kept;
    auto s = dap::Session::create();
    countErrors(*s);
    s->registerHandler([&](const dap::ARequest& r, std::function<void(RoE)> cb) {
      if (int(r.i) == 3) {
        kept[3] = cb;  // never answered
        mc::publish(31);
        mc::set(30, 1);
        return;
      }
      kept[int(r.i)] = cb;
    });
    s->registerHandler([&](const dap::BRequest& r) {
      dap::BResponse b;
      b.x = dap::integer(99);
      return b;
    });
    s->registerSentHandler([&](const RoE& r) {
      // the complete response must be out by now
      int want = r.error ? atoi(r.error.message.c_str() + 1) : int(r.response.i);
      bool found = false;
      for (auto& f : frames(ep->written(), true))
        if (f.num("request_seq") == want) found = true;
      MC_CHECK(found, "sent notification for %d before its response was written", want);
      mc::event("SENT A" + std::to_string(want) + (r.error ? "e" : "r"));
    });
    s->registerSentHandler([&](const dap::ResponseOrError<dap::BResponse>& r) {
      MC_CHECK(!r.error && r.response.x.has_value() && int(*r.response.x) == 99, "wrong response");
      mc::event("SENT B");
    });
    s->bind(ep, ep);
    ep->feedMsg(reqA(11, 1));
    ep->feedMsg(reqA(12, 2));
    ep->feedMsg(reqA(13, 3));
    mc::await(30, 1);
    mc::subscribe(31);
    mc::quiesce();
    ep->feedMsg(reqB(14, 1));
    std::thread t([&] {
      if (errs & 2) kept[2](dap::Error("E12"));
      else kept[2](aresp(12));
    });
    if (errs & 1) kept[1](dap::Error("E11"));
    else kept[1](aresp(11));
    t.join();
    mc::quiesce();
    auto sent = logged("SENT ");
    std::string o;
    int n1 = 0, n2 = 0, nb = 0;
    for (auto& x : sent) {
      o += x + ";";
      if (x == (errs & 1 ? "A11e" : "A11r")) n1++;
      else if (x == (errs & 2 ? "A12e" : "A12r")) n2++;
      else if (x == "B") nb++;
      else mc::fail("unexpected sent notification %s", x.c_str());
    }
    MC_CHECK(n1 == 1 && n2 == 1 && nb == 1, "sent notifications: %s", o.c_str());
    std::string w;
    for (auto& f : frames(ep->written())) {
      MC_CHECK(f.str("type") == "response");
      int rs = (int)f.num("request_seq");
      auto body = f.get("body");
      auto ok = f.get("success");
      bool bad = (rs == 11 && (errs & 1)) || (rs == 12 && (errs & 2));
      MC_CHECK(ok && ok->b == !bad, "success of %d", rs);
      if (bad) MC_CHECK(f.str("message") == "E" + std::to_string(rs), "message");
      else if (rs == 11 || rs == 12) MC_CHECK(body && body->num("i") == rs, "response to another request");
      else MC_CHECK(rs == 14 && body && body->num("x") == 99, "response to another request");
      w += std::to_string(rs);
    }
    MC_CHECK(w.size() == 6, "%s answered", w.c_str());
    mc::outcome(o + w);
    kept.clear();
  }
}
MC_SCENARIO(c11_kept_callbacks, pb(2), pb(3)) { keptCallbacks(mc::choose(4, "errors")); }
// A sent handler that gives the answer to another request: each response has
// its notification.
MC_SCENARIO(c11_nested, pb(1), pb(2)) {
  auto ep = std::make_shared<Ep>(0);
  {
    int kinds = mc::choose(8, "errors");
    int n = 2 + mc::choose(2, "requests");
    bool own = mc::choose(2, "through another thread");
    if (n == 2 && kinds >= 4) mc::discard();
    std::map<int, std::function<void(RoE)>> kept;
    auto s = dap::Session::create();
    countErrors(*s);
    s->registerHandler([&](const dap::ARequest& r, std::function<void(RoE)> cb) {
      kept[int(r.i)] = cb;
      if (int(r.i) == n) mc::publish(31), mc::set(30, 1);
    });
    auto answer = [&](int i) {
      if (kinds >> (i - 1) & 1) kept[i](dap::Error("E" + std::to_string(i)));
      else kept[i](aresp(i));
    };
    s->registerSentHandler([&](const RoE& r) {
      int i = r.error ? atoi(r.error.message.c_str() + 1) : int(r.response.i);
      MC_CHECK(bool(r.error) == bool(kinds >> (i - 1) & 1), "notified of another outcome");
      MC_CHECK(int(frames(ep->written(), true).size()) >= n - i + 1, "notified before the response was written");
      mc::event("SENT " + std::to_string(i));
      if (i == 1) return;
      if (own) {
        std::thread t([&] { answer(i - 1); });
        t.join();
      } else {
        answer(i - 1);
      }
    });
    s->bind(ep, ep);
    for (int i = 1; i <= n; i++) ep->feedMsg(reqA(10 + i, i));
    mc::await(30, 1);
    mc::subscribe(31);
    mc::quiesce();
    answer(n);
    mc::quiesce();
    auto sent = logged("SENT ");
    MC_CHECK((int)sent.size() == n, "%zu notifications for %d responses", sent.size(), n);
    for (int k = 0; k < n; k++) MC_CHECK(sent[k] == std::to_string(n - k), "notification %d is for %s", k, sent[k].c_str());
    auto fs = frames(ep->written());
    MC_CHECK((int)fs.size() == n && errors() == 0, "%zu responses", fs.size());
    for (int k = 0; k < n; k++) MC_CHECK(fs[k].num("request_seq") == 10 + n - k, "response %d names another request", k);
    kept.clear();
    mc::outcome(std::to_string(n) + std::to_string(kinds));
  }
}
// The callback outlives the handler and is invoked by a thread while the
// dispatcher goes on with other requests of the same type.
MC_SCENARIO(c11_answer_while_dispatching, pb(2), pb(3)) {
  auto ep = std::make_shared<Ep>(0);
  {
    std::vector<std::thread> ts;
    auto s = dap::Session::create();
    s->registerHandler([&](const dap::ARequest& r, std::function<void(dap::AResponse)> cb) {
      int i = int(r.i);
      if (i == 1) {
        ts.emplace_back([cb] { cb(aresp(101)); });
        mc::publish(31);
      } else cb(aresp(100 + i));
    });
    s->registerSentHandler([&](const RoE& r) {
      bool found = false;
      for (auto& f : frames(ep->written(), true))
        if (f.get("body") && f.get("body")->num("i") == int(r.response.i)) found = true;
      MC_CHECK(found, "sent notification before its response was written");
      mc::event("SENT " + std::to_string(int(r.response.i)));
    });
    s->bind(ep, ep);
    ep->feedMsg(reqA(1, 1));
    ep->feedMsg(reqA(2, 2));
    mc::quiesce();
    mc::subscribe(31);
    for (auto& t : ts) t.join();
    auto sent = logged("SENT ");
    MC_CHECK(sent.size() == 2 && sent[0] != sent[1], "%zu sent notifications", sent.size());
    for (auto& f : frames(ep->written())) MC_CHECK(f.get("body") && f.get("body")->num("i") == 100 + f.num("request_seq"), "response to another request");
    mc::outcome(sent[0] + sent[1]);
  }
}
// Single-threaded: all answers x which sent handlers are registered; nothing
// is notified for requests that were refused or unanswered.
MC_SCENARIO(c11_types, pb(0), pb(0)) {
  auto ep = std::make_shared<Ep>(0);
  auto s = dap::Session::create();
  countErrors(*s);
  s->connect(ep, ep);
  bool regA = mc::choose(2, "A sent handler"), regB = mc::choose(2, "B sent handler");
  bool before = mc::choose(2, "registered before");
  int nA = 0, nB = 0;
  auto reg = [&] {
    if (regA) s->registerSentHandler([&](const RoE& r) { nA++; MC_CHECK(!r.error ? int(r.response.i) == 7 : r.error.message == "nope"); });
    if (regB) s->registerSentHandler([&](const dap::ResponseOrError<dap::BResponse>& r) { nB++; });
  };
  if (before) reg();
  std::function<void(RoE)> kept;
  int answer = 0;
  s->registerHandler([&](const dap::ARequest& r, std::function<void(RoE)> cb) {
    if (answer == 0) cb(aresp(7));
    if (answer == 1) cb(dap::Error("nope"));
    if (answer == 2) kept = cb;
  });
  s->registerHandler([&](const dap::BRequest& r) { return dap::BResponse(); });
  if (!before) reg();
  int wA = 0, wB = 0;
  for (int d = 0; d < 3; d++) {
    int op = mc::choose(6, "op");
    answer = op < 3 ? op : 0;
    if (op < 3) ep->feedMsg(reqA(20 + d, 1));
    if (op == 3) ep->feedMsg(reqB(20 + d, 1));
    if (op == 4) ep->feedMsg("{\"seq\":3,\"type\":\"request\",\"command\":\"areq\",\"arguments\":{}}");
    if (op == 5) {
      if (kept) { kept(aresp(7)); kept = nullptr; wA++; }
    } else {
      bool drop = op == 2 && kept;
      auto p = s->getPayload();
      MC_CHECK(bool(p) == (op != 4));
      if (p) p();
      if (op < 2) wA++;
      if (op == 3) wB++;
      (void)drop;
    }
    MC_CHECK(nA == (regA ? wA : 0) && nB == (regB ? wB : 0), "sent notifications %d/%d, responses %d/%d", nA, nB, wA, wB);
    MC_CHECK((int)frames(ep->written()).size() == wA + wB, "responses written");
  }
  mc::outcome(std::to_string(nA) + std::to_string(nB));
}
