// C03: outgoing messages.  C04: outcomes of requests.
#include "sess.h"
using namespace sess;

namespace {
// One planned message of a sender: kind 0 A request, 1 A event, 2 B request, 3 B event.
void sendOne(dap::Session& s, int kind, int tag) {
  switch (kind) {
    case 0: s.send(areq(tag)); break;
    case 1: s.send(aev(tag)); break;
    case 2: s.send(breq(tag)); break;
    case 3: s.send(bev(tag)); break;
    case 4: s.send(areq(tag, std::string(size_t(mc::get(19)), 'x'))); break;
    case 5: s.send(aev(tag, std::string(size_t(mc::get(19)), 'y'))); break;
  }
}
int tagOf(const mj::Val& v) {
  std::string type = v.str("type");
  const mj::Val* b = v.get(type == "request" ? "arguments" : "body");
  if (!b || b->kind != mj::Val::kObj) return -1;
  std::string name = v.str(type == "request" ? "command" : "event");
  return (int)b->num(name[0] == 'a' ? "i" : "x");
}
void checkKind(const mj::Val& v, int kind) {
  static const char* type[] = {"request", "event", "request", "event", "request", "event"};
  static const char* member[] = {"command", "event", "command", "event", "command", "event"};
  static const char* name[] = {"areq", "aevt", "breq", "bevt", "areq", "aevt"};
  MC_CHECK(v.str("type") == type[kind] && v.str(member[kind]) == name[kind], "message of the wrong kind");
}
void checkSeqs(const std::vector<mj::Val>& fs) {
  for (size_t i = 0; i < fs.size(); i++) {
    auto s = fs[i].get("seq");
    MC_CHECK(s && s->isInt() && fs[i].count("seq") == 1, "message without an integer sequence number");
    for (size_t j = 0; j < i; j++) MC_CHECK(fs[j].num("seq") != fs[i].num("seq"), "two outgoing messages have sequence number %lld", fs[i].num("seq"));
  }
}
// plan[t] lists the kinds thread t sends; the tag is t*10+index.
void senders(const std::vector<std::vector<int>>& plan) {
  auto ep = std::make_shared<Ep>(0);
  auto s = dap::Session::create();
  s->connect(ep, ep);
  std::vector<std::thread> ts;
  for (size_t t = 1; t < plan.size(); t++)
    ts.emplace_back([&plan, &s, t] {
      for (size_t k = 0; k < plan[t].size(); k++) sendOne(*s, plan[t][k], int(t * 10 + k));
    });
  for (size_t k = 0; k < plan[0].size(); k++) sendOne(*s, plan[0][k], int(k));
  for (auto& t : ts) t.join();
  auto fs = frames(ep->written());
  size_t total = 0;
  for (auto& p : plan) total += p.size();
  MC_CHECK(fs.size() == total, "%zu messages sent, %zu written", total, fs.size());
  std::vector<size_t> next(plan.size());
  std::string order;
  for (auto& f : fs) {
    int tag = tagOf(f);
    MC_CHECK(tag >= 0 && size_t(tag / 10) < plan.size(), "unexpected message");
    size_t t = tag / 10, k = tag % 10;
    MC_CHECK(k == next[t], "thread %zu: message %zu written at position %zu", t, k, next[t]);
    checkKind(f, plan[t][k]);
    next[t]++;
    order += std::to_string(t);
  }
  checkSeqs(fs);
  mc::outcome(order);
}
}  // namespace

MC_SCENARIO(c03_two_senders, pb(5), pb(8)) { senders({{0, 1}, {3, 2}}); }
MC_SCENARIO(c03_three_senders, pb(4), pb(6)) { senders({{1}, {0}, {3}}); }
MC_SCENARIO(c03_large_senders, pb(2), pb(3)) {
  static const int sizes[] = {1000, 5000, 70000};
  mc::set(19, sizes[mc::choose(3, "size")]);
  senders({{5, 4}, {5, 3}});
}
MC_SCENARIO_THOROUGH(c03_three_senders_two, pb(3)) { senders({{1, 0}, {0, 3}, {3, 2}}); }
// Responses (from the dispatcher and from another thread), events and a
// request go out together.
MC_SCENARIO(c03_responses_and_sends, pb(2), pb(3)) {
  auto ep = std::make_shared<Ep>(0);
  {
    std::vector<std::thread> ts;
    auto s = dap::Session::create();
    s->registerHandler([&](const dap::ARequest& r, std::function<void(dap::AResponse)> cb) {
      if (int(r.i) == 1) {
        cb(aresp(51));
      } else {
        ts.emplace_back([cb] { cb(aresp(52)); });
        mc::publish(31);
      }
    });
    s->registerHandler([&](const dap::BRequest& r) -> dap::ResponseOrError<dap::BResponse> { return dap::Error("no"); });
    s->bind(ep, ep);
    ep->feedMsg(reqA(7, 1));
    ep->feedMsg(reqA(8, 2));
    ep->feedMsg(reqB(9, 3));
    s->send(aev(60));
    auto f = s->send(areq(61));
    mc::quiesce();
    mc::subscribe(31);
    MC_CHECK(ts.size() == 1, "request not handled");
    ts[0].join();
    auto fs = frames(ep->written());
    MC_CHECK(fs.size() == 5, "%zu messages", fs.size());
    checkSeqs(fs);
    std::string order;
    int seen[5] = {};
    int posEvent = -1, posReq = -1, n = 0;
    for (auto& v : fs) {
      std::string t = v.str("type");
      if (t == "response") {
        int rs = (int)v.num("request_seq");
        MC_CHECK(rs >= 7 && rs <= 9, "response to an unknown request");
        seen[rs - 7]++;
        MC_CHECK(v.str("command") == (rs == 9 ? "breq" : "areq"), "wrong command");
        if (rs < 9) MC_CHECK(v.get("body") && v.get("body")->num("i") == rs + 44, "wrong body");
        order += std::to_string(rs);
      } else if (t == "event") {
        seen[3]++;
        posEvent = n;
        order += "e";
      } else {
        seen[4]++;
        posReq = n;
        order += "r";
      }
      n++;
    }
    for (int k : seen) MC_CHECK(k == 1, "a message is written %d times", k);
    MC_CHECK(posEvent < posReq, "messages of one thread out of order");
    mc::outcome(order);
  }
}
// The endpoint refuses the n-th write call, once or for good, with or without
// reporting itself closed.
MC_SCENARIO(c03_refused_writes, pb(0), pb(0)) {
  auto ep = std::make_shared<Ep>(0);
  auto s = dap::Session::create();
  s->connect(ep, ep);
  int at = mc::choose(9, "refused call");   // 0: none
  int mode = mc::choose(3, "mode");         // once, from then on, closes
  static const size_t sizes[] = {1, 3000, 20000, 200000};
  std::string text(sizes[mc::choose(4, "size")], 't');
  bool refusedNow = false;
  ep->onWrite = [&](int call, const std::string&) {
    bool r = at > 0 && (mode == 0 ? call == at : call >= at);
    if (r) {
      refusedNow = true;
      if (mode == 2) mc::set(Ep::cell(0, 1), 1);
    }
    return !r;
  };
  std::string trace;
  int sent = 0;
  for (int k = 0; k < 3; k++) {
    refusedNow = ep->closed();
    if (mc::choose(2, "kind") == 0) {
      dap::AEvent e = aev(k, text);
      bool ok = s->send(dap::TypeOf<dap::AEvent>::type(), &e);
      MC_CHECK(ok == !refusedNow, "send of an event returned %d although the endpoint %s", ok, refusedNow ? "refused the bytes" : "took them");
      trace += ok ? "E" : "e";
      sent += ok;
    } else {
      auto f = s->send(areq(k, text));
      bool failed = ready(f);
      MC_CHECK(failed == refusedNow, "send of a request %s although the endpoint %s", failed ? "failed" : "did not fail", refusedNow ? "refused the bytes" : "took them");
      if (failed) MC_CHECK(bool(f.get().error), "no error outcome although the request was not sent");
      trace += failed ? "r" : "R";
      sent += !failed;
    }
  }
  if (at == 0) MC_CHECK(frames(ep->written()).size() == 3);
  mc::outcome(trace);
}
// The endpoint is closed by another thread while messages are sent.
MC_SCENARIO(c03_close_while_sending, pb(6), pb(8)) {
  auto ep = std::make_shared<Ep>(0);
  auto s = dap::Session::create();
  s->connect(ep, ep);
  int done = 0;
  std::string trace;
  std::thread c([&] { ep->close(); });
  for (int k = 0; k < 2; k++) {
    dap::AEvent e = aev(k);
    bool ok = s->send(dap::TypeOf<dap::AEvent>::type(), &e);
    MC_CHECK(!ok || done == k, "a send succeeded after one failed because the endpoint closed");
    done += ok;
  }
  auto f = s->send(areq(2));
  bool failed = ready(f);
  MC_CHECK(failed || done == 2, "a send succeeded after one failed because the endpoint closed");
  if (failed) MC_CHECK(bool(f.get().error));
  c.join();
  std::string w = ep->written();
  size_t whole = 0;
  for (int k = 0; k < done + !failed; k++) {
    size_t p = w.find("\r\n\r\n", whole);
    MC_CHECK(p != std::string::npos, "a message reported as sent is not in the output");
    whole = p + 4 + atoi(w.c_str() + whole + 16);
  }
  MC_CHECK(whole <= w.size(), "a message reported as sent is not complete");
  auto fs = frames(w.substr(0, whole));
  for (int k = 0; k < (int)fs.size(); k++) MC_CHECK(tagOf(fs[k]) == k, "order");
  mc::outcome(std::to_string(done) + std::to_string(failed));
}

// ------------------------------------------------------------------ C04
namespace {
// Kinds of answers of a scripted peer and what the outcome must be.
enum { kOk, kFailMsg, kFailNoMsg, kFailEmpty, kNoSuccess, kBadBody, kNoBody, kAnswers };
std::string answer(int kind, long long rseq, int i) {
  std::string head = "{\"seq\":90,\"type\":\"response\",\"command\":\"areq\",\"request_seq\":" + std::to_string(rseq);
  switch (kind) {
    case kOk: return respA(91, rseq, i);
    case kFailMsg: return respErr(92, rseq, "boom %s %n 100%");
    case kFailNoMsg: return head + ",\"success\":false}";
    case kFailEmpty: return head + ",\"success\":false,\"message\":\"\"}";
    case kNoSuccess: return head + ",\"body\":{\"i\":1,\"s\":\"x\"}}";
    case kBadBody: return head + ",\"success\":true,\"body\":{\"i\":\"no\",\"s\":\"x\"}}";
    default: return head + ",\"success\":true,\"body\":{}}";
  }
}
void checkOutcome(const dap::ResponseOrError<dap::AResponse>& r, int kind, int i) {
  if (kind == kOk) {
    MC_CHECK(!r.error, "error outcome '%s' for a success response", r.error.message.c_str());
    MC_CHECK(int(r.response.i) == i && r.response.s == "s", "outcome of another request: %d instead of %d", int(r.response.i), i);
  } else {
    MC_CHECK(bool(r.error), "answer %d is not an error outcome", kind);
    if (kind == kFailMsg) MC_CHECK(r.error.message == "boom %s %n 100%", "error message changed: '%s'", r.error.message.c_str());
  }
}
long long seqOf(Ep& ep, int tag) {
  for (auto& f : frames(ep.written(), true))
    if (tagOf(f) == tag) return f.num("seq");
  mc::fail("request %d was not written", tag);
}
}  // namespace

// Two requests from two threads; a scripted peer answers in either order, with
// every kind of answer, preceded by unknown and followed by repeated responses.
MC_SCENARIO(c04_answers_any_order, pb(1), pb(2)) {
  auto ep = std::make_shared<Ep>(0);
  auto s = dap::Session::create();
  countErrors(*s);
  s->bind(ep, ep);
  int k0 = mc::choose(kAnswers, "answer 0"), k1 = mc::choose(2, "answer 1") ? kOk : kFailMsg;
  int order = mc::choose(2, "order");
  int extra = mc::choose(3, "extra");  // none, an unknown response, a repeated response
  std::thread peer([&, order, extra] {
    ep->awaitMsgs(2);
    long long q0 = seqOf(*ep, 0), q1 = seqOf(*ep, 1);
    MC_CHECK(q0 != q1, "sequence numbers repeat");
    if (extra == 1) ep->feedMsg(respA(80, q0 + q1 + 17, 3));
    ep->feedMsg(order ? answer(k1, q1, 101) : answer(k0, q0, 100));
    if (extra == 2) ep->feedMsg(order ? answer(kOk, q1, 7) : answer(kOk, q0, 7));
    ep->feedMsg(order ? answer(k0, q0, 100) : answer(k1, q1, 101));
  });
  std::thread t([&] {
    auto f = s->send(areq(1));
    checkOutcome(f.get(), k1, 101);
    mc::quiesce();
    checkOutcome(f.get(), k1, 101);
  });
  auto f = s->send(areq(0));
  checkOutcome(f.get(), k0, 100);
  t.join();
  peer.join();
  mc::quiesce();
  checkOutcome(f.get(), k0, 100);  // not changed by later messages
  bool malformed = k0 == kNoSuccess || k0 == kBadBody || k0 == kNoBody;
  if (extra || malformed) MC_CHECK(errors() >= (extra != 0) + malformed, "a protocol error was not reported");
  else if (k0 != kFailNoMsg && k0 != kFailEmpty) MC_CHECK(errors() == 0, "an error was reported for valid responses");
  mc::outcome(std::to_string(k0) + std::to_string(order) + std::to_string(extra));
}
// The answer arrives before send() returns, even before the last write call
// returns, and that call may then report failure: still exactly one outcome.
MC_SCENARIO(c04_answer_before_send_returns, pb(3), pb(5)) {
  auto ep = std::make_shared<Ep>(0);
  auto s = dap::Session::create();
  s->bind(ep, ep);
  int refuse = mc::choose(3, "writer");  // ok, refuses after the answer, refuses before
  bool settle = mc::choose(2, "let the receiver finish");
  ep->onWrite = [&](int call, const std::string& b) {
    if (ep->completes(b)) {
      auto fs = frames(ep->written() + b);
      MC_CHECK(fs.size() == 1, "%zu messages", fs.size());
      if (refuse == 2) return false;
      ep->feedMsg(respA(5, fs[0].num("seq"), 42));
      if (settle) mc::quiesce();
      if (refuse == 1) return false;
    }
    return true;
  };
  dap::ARequest r = areq(3);
  // the generic interface, to count outcomes
  bool ok = s->send(dap::TypeOf<dap::ARequest>::type(), dap::TypeOf<dap::AResponse>::type(), &r, [](const void* resp, const dap::Error* e) {
    MC_CHECK((resp != nullptr) != (e != nullptr), "an outcome is a response or an error");
    if (resp) MC_CHECK(int(((const dap::AResponse*)resp)->i) == 42);
    mc::add(10, 1);
    mc::add(e ? 12 : 11, 1);
  });
  mc::quiesce();
  long outcomes = mc::get(10) + (ok ? 0 : 1);
  MC_CHECK(outcomes == 1, "%ld outcomes (send returned %d)", outcomes, ok);
  if (refuse == 0) MC_CHECK(ok && mc::get(11) == 1, "answered request did not succeed");
  if (refuse == 2) MC_CHECK(!ok, "refused request reported as sent");
  mc::outcome(std::to_string(refuse) + std::to_string(ok) + std::to_string(mc::get(11)));
}
// The connection ends in any way, at any moment, while requests are pending or
// being sent: nobody waits for ever.
MC_SCENARIO(c04_end_with_pending, pb(2), pb(3)) {
  auto ep = std::make_shared<Ep>(0);
  int how = mc::choose(3, "how");       // peer end, closed, endpoint closed by us
  bool answered = mc::choose(2, "one answer");
  {
    auto s = dap::Session::create();
    s->bind(ep, ep);
    auto f0 = s->send(areq(0));
    std::thread peer([&] {
      if (answered) ep->feedMsg(respA(5, seqOf(*ep, 0), 100));
      if (how == 2) ep->close();
      else ep->end(how == 1);
    });
    auto f1 = s->send(areq(1));
    auto r1 = f1.get();
    MC_CHECK(bool(r1.error), "success without a response");
    auto r0 = f0.get();
    if (!r0.error) MC_CHECK(answered && int(r0.response.i) == 100, "success without a response");
    if (r0.error && how == 0) MC_CHECK(!answered, "the answer came before the end, but the outcome is an error");
    peer.join();
    auto f2 = s->send(areq(2));
    MC_CHECK(bool(f2.get().error), "success without a response");
    mc::outcome(std::to_string(how) + std::to_string(answered) + std::to_string(!r0.error));
  }
}
// The outcome is there when the close callback is called.
MC_SCENARIO(c04_outcome_at_close, pb(3), pb(4)) {
  auto ep = std::make_shared<Ep>(0);
  int how = mc::choose(2, "how");
  {
    auto s = dap::Session::create();
    s->connect(ep, ep);
    auto f = s->send(areq(0));
    s->startProcessingMessages([&f] {
      MC_CHECK(bool(f.get().error), "success without a response");
      mc::add(10, 1);
    });
    if (how) ep->close();
    else ep->end(false);
    mc::await(10, 1);
    s.reset();
  }
  mc::outcome(std::to_string(how));
}
// The session is destroyed with requests pending (with and without message
// processing), while another thread waits.
MC_SCENARIO(c04_destroyed_with_pending, pb(3), pb(4)) {
  auto ep = std::make_shared<Ep>(0);
  int mode = mc::choose(3, "mode");  // bound, connected only, never connected
  auto s = dap::Session::create();
  if (mode == 0) s->bind(ep, ep);
  if (mode == 1) s->connect(ep, ep);
  auto f0 = s->send(areq(0));
  std::thread w([&] {
    auto r = f0.get();
    MC_CHECK(bool(r.error), "success without a response");
  });
  auto f1 = s->send(areq(1));
  if (mc::choose(2, "settle")) mc::quiesce();
  s.reset();
  w.join();
  MC_CHECK(ready(f1), "the session is gone but a request has no outcome");
  MC_CHECK(bool(f1.get().error));
  mc::outcome(std::to_string(mode));
}
// Without the session's threads: the user pumps getPayload.
MC_SCENARIO(c04_pumped, pb(0), pb(0)) {
  auto ep = std::make_shared<Ep>(0);
  auto s = dap::Session::create();
  countErrors(*s);
  s->connect(ep, ep);
  // three requests; a history of responses naming any of them, none, or the end
  std::vector<dap::future<dap::ResponseOrError<dap::AResponse>>> f;
  std::vector<long long> seq;
  int model[3] = {-1, -1, -1};  // -1 pending, otherwise kind
  int val[3] = {};
  for (int i = 0; i < 3; i++) f.push_back(s->send(areq(i)));
  for (int i = 0; i < 3; i++) seq.push_back(seqOf(*ep, i));
  long expectErr = 0;
  int depth = mc::thorough() ? 5 : 3;
  std::string trace;
  for (int d = 0; d < depth; d++) {
    int w = mc::choose(d == 0 || (mc::thorough() && d == 2) ? 6 : 5, "names");  // request 0..2, unknown, the end, one that differs in its high bits only
    long long far = 0;
    if (w == 5) {
      static const long long offs[] = {1LL << 32, 1LL << 31, -(1LL << 32), 1LL << 62, 1LL << 16, 1LL << 8};
      far = offs[mc::choose(6, "offset")];
    }
    if (w == 4) {
      ep->end(mc::choose(2, "closed"));
      auto p = s->getPayload();
      MC_CHECK(!p, "payload at the end");
      for (int i = 0; i < 3; i++)
        if (model[i] < 0) model[i] = kFailEmpty;
      trace += "!";
      break;
    }
    int kind = w == 5 ? mc::choose(2, "answer") : mc::choose(mc::thorough() ? (int)kAnswers : 4, "answer");
    if (!mc::thorough()) kind = kind == 0 ? kOk : kind == 1 ? kFailMsg : kind == 2 ? kFailNoMsg : kBadBody;
    ep->feedMsg(answer(kind, w < 3 ? seq[w] : w == 5 ? seq[0] + far : seq[0] + seq[1] + seq[2] + 100, d * 10));
    auto p = s->getPayload();
    MC_CHECK(!p, "a response produced a payload");
    trace += std::to_string(w) + char('a' + kind);
    long e = errors();
    if (w < 3 && model[w] < 0) {
      model[w] = kind;
      val[w] = d * 10;
      if (kind == kOk || kind == kFailMsg) MC_CHECK(e == expectErr, "error reported for a valid response");
      if (kind == kBadBody || kind == kNoBody || kind == kNoSuccess) MC_CHECK(e > expectErr, "a malformed response was not reported");
    } else {
      MC_CHECK(e > expectErr, "a response to no outstanding request was not reported");
    }
    expectErr = e;
    for (int i = 0; i < 3; i++) {
      MC_CHECK(ready(f[i]) == (model[i] >= 0), "request %d %s an outcome after %s", i, model[i] >= 0 ? "has no" : "has", trace.c_str());
      if (model[i] >= 0) checkOutcome(f[i].get(), model[i], val[i]);
    }
  }
  s.reset();
  for (int i = 0; i < 3; i++) {
    MC_CHECK(ready(f[i]), "request %d has no outcome after the session ended", i);
    checkOutcome(f[i].get(), model[i] < 0 ? kFailEmpty : model[i], val[i]);
  }
  mc::outcome(trace);
}
