// Histories of one session driven by one thread (getPayload and the payloads
// it returns are called by the harness), executed natively.
#define SESS_SEQ
#include "sess.h"
#include <set>
#include <algorithm>
namespace dap {
// A type of the user's that has no encoding.
struct NoEncoding {
  int x = 0;
};
template <>
inline bool BasicTypeInfo<NoEncoding>::serialize(Serializer*, const void*) const { return false; }
template <>
inline bool BasicTypeInfo<NoEncoding>::deserialize(const Deserializer*, void*) const { return false; }
template <>
struct TypeOf<NoEncoding> {
  static const TypeInfo* type() {
    static BasicTypeInfo<NoEncoding> ti("no-encoding");
    return &ti;
  }
};
struct CResponse : public Response {
  integer i;
  any v;
  optional<integer> x;
};
DAP_STRUCT_TYPEINFO(CResponse, "", DAP_FIELD(i, "i"), DAP_FIELD(v, "v"), DAP_FIELD(x, "x"));
struct CRequest : public Request {
  using Response = CResponse;
  integer i;
  any v;
  optional<integer> x;
};
DAP_STRUCT_TYPEINFO(CRequest, "creq", DAP_FIELD(i, "i"), DAP_FIELD(v, "v"), DAP_FIELD(x, "x"));
struct CEvent : public Event {
  integer i;
  any v;
  optional<integer> x;
};
DAP_STRUCT_TYPEINFO(CEvent, "cevt", DAP_FIELD(i, "i"), DAP_FIELD(v, "v"), DAP_FIELD(x, "x"));
}  // namespace dap
using namespace sess;

namespace {
class Mem : public dap::ReaderWriter {
 public:
  std::string in, out;
  size_t pos = 0;
  bool open = true, refuse = false;
  int closes = 0;
  bool isOpen() override { return open; }
  void close() override {
    closes += open;
    open = false;
  }
  size_t read(void* b, size_t n) override {
    if (!open) return 0;
    size_t m = std::min(in.size() - pos, n);
    memcpy(b, in.data() + pos, m);
    pos += m;
    return m;
  }
  bool write(const void* b, size_t n) override {
    if (!open || refuse) return false;
    out.append((const char*)b, n);
    return true;
  }
  void feedMsg(const std::string& j) { in += frame(j); }
  std::vector<mj::Val> msgs() { return frames(out); }
};
using RoE = dap::ResponseOrError<dap::AResponse>;
using Fut = dap::future<RoE>;
bool handle(dap::Session& s) {
  auto p = s.getPayload();
  if (!p) return false;
  p();
  return true;
}
}  // namespace

// ------------------------------------------------------------------ C03
// All histories of sends of every kind; the peer's numbers overlap with ours.
MC_SCENARIO(c03_histories, pb(0), pb(0)) {
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  s->connect(m, m);
  s->registerHandler([](const dap::ARequest& r) -> RoE {
    if (int(r.i) >= 500) return dap::Error("E" + std::to_string(int(r.i)));
    return aresp(int(r.i));
  });
  std::function<void(dap::BResponse)> kept;
  s->registerHandler([&](const dap::BRequest&, std::function<void(dap::BResponse)> cb) { kept = cb; });
  long long peer = 1 + mc::choose(3, "the peer's first number");
  int depth = mc::thorough() ? 6 : 5;
  std::string want;
  for (int d = 0; d < depth; d++) {
    int op = mc::choose(kept ? 7 : 6, "op");
    switch (op) {
      case 0: s->send(aev(d)); want += 'e'; break;
      case 1: s->send(bev(d)); want += 'e'; break;
      case 2: s->send(areq(d)); want += 'q'; break;
      case 3: m->feedMsg(reqA(peer++, 10 + d)); MC_CHECK(handle(*s)); want += 'r'; break;
      case 4: m->feedMsg(reqA(peer++, 500 + d)); MC_CHECK(handle(*s)); want += 'r'; break;
      case 5:
        if (kept) mc::discard();
        m->feedMsg(reqB(peer++, 1)); MC_CHECK(handle(*s)); break;
      case 6: kept(dap::BResponse()); kept = nullptr; want += 'r'; break;
    }
    std::string got;
    std::set<long long> seqs;
    for (auto& v : m->msgs()) {
      got += v.str("type") == "event" ? 'e' : v.str("type") == "request" ? 'q' : v.str("type") == "response" ? 'r' : '?';
      auto n = v.get("seq");
      MC_CHECK(n && n->isInt() && v.count("seq") == 1, "a message without a sequence number");
      MC_CHECK(seqs.insert(v.num("seq")).second, "two outgoing messages have sequence number %lld", v.num("seq"));
    }
    MC_CHECK(got == want, "sent %s, written %s", want.c_str(), got.c_str());
  }
  s.reset();
  mc::outcome(want);
}
// A long life: the numbers do not repeat.
MC_SCENARIO(c03_long_life, pb(0), pb(0)) {
  static const int kTotal = 70000;
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  s->connect(m, m);
  s->registerHandler([](const dap::BRequest& r) -> dap::ResponseOrError<dap::BResponse> {
    if (int(*r.x) % 2) return dap::Error("odd");
    return dap::BResponse();
  });
  int kind = mc::choose(3, "kind");  // events, requests, responses
  std::set<long long> seqs;
  for (int i = 0; i < kTotal; i++) {
    m->out.clear();
    if (kind == 0) s->send(bev(i));
    if (kind == 1) s->send(breq(i));
    if (kind == 2) {
      m->in.clear();
      m->pos = 0;
      m->feedMsg(reqB(i + 1, i));
      MC_CHECK(handle(*s));
    }
    auto v = m->msgs();
    MC_CHECK(v.size() == 1, "%zu messages for one send, after %d", v.size(), i);
    MC_CHECK(seqs.insert(v[0].num("seq")).second, "message %d reuses the sequence number %lld", i, v[0].num("seq"));
  }
  mc::outcome(std::to_string(kind));
}

// ------------------------------------------------------------------ C04
// Very many requests outstanding at once, answered in several orders.
MC_SCENARIO(c04_many_outstanding, pb(0), pb(0)) {
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  s->connect(m, m);
  s->onError([](const char* e) { mc::fail("unexpected error '%s'", e); });
  int order = mc::choose(3, "order");  // as sent, reversed, interleaved
  const int kTotal = order == 2 ? 66000 : 4000;
  std::vector<Fut> f;
  std::vector<long long> seq;
  for (int i = 0; i < kTotal; i++) {
    m->out.clear();
    f.push_back(s->send(areq(i)));
    seq.push_back(m->msgs()[0].num("seq"));
  }
  for (int k = 0; k < kTotal; k++) {
    int i = order == 0 ? k : order == 1 ? kTotal - 1 - k : (k % 2 ? kTotal - 1 - k / 2 : k / 2);
    m->in.clear();
    m->pos = 0;
    MC_CHECK(!ready(f[i]), "request %d has an outcome before its response", i);
    bool fail = i % 5 == 3;
    m->feedMsg(fail ? respErr(k, seq[i], "E" + std::to_string(i)) : respA(k, seq[i], i));
    MC_CHECK(!s->getPayload());
    MC_CHECK(ready(f[i]), "request %d has no outcome after its response", i);
    auto r = f[i].get();
    if (fail) MC_CHECK(r.error.message == "E" + std::to_string(i), "outcome of another request");
    else MC_CHECK(!r.error && int(r.response.i) == i, "outcome of another request");
  }
  mc::outcome(std::to_string(order));
}
// A response naming a number close to (or a transformation of) an outstanding
// request's, but not the number itself, decides nothing and is reported.
MC_SCENARIO(c04_near_misses, pb(0), pb(0)) {
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  long reports = 0;
  s->onError([&](const char*) { reports++; });
  s->connect(m, m);
  int before = mc::choose(4, "messages before");
  for (int i = 0; i < before; i++) s->send(aev(i));
  m->out.clear();
  auto f0 = s->send(areq(1));
  auto f1 = s->send(areq(2));
  auto ms = m->msgs();
  long long a = ms[0].num("seq"), b = ms[1].num("seq");
  std::vector<std::string> named;
  auto add = [&](__int128 v) {
    if (v > INT64_MAX || v < INT64_MIN || v == a || v == b) return;
    named.push_back(std::to_string((long long)v));
  };
  for (long long q : {a, b}) {
    add(-(__int128)q);
    add(~q);
    for (int bit = 2; bit < 64; bit++) add((__int128)q + ((__int128)1 << bit)), add((__int128)q - ((__int128)1 << bit)), add((long long)((unsigned long long)q | 1ull << bit));
  }
  for (int i = 0; i <= before + 6; i++) add(i);
  add(INT64_MAX);
  add(INT64_MIN);
  auto quoted = [](const std::string& x) { return "\"" + x + "\""; };
  named.push_back(quoted(std::to_string(a)));           // a string
  named.push_back(std::to_string(a) + ".5");
  named.push_back("null");
  named.push_back("[" + std::to_string(a) + "]");
  named.push_back("true");
  named.push_back("");                                   // no member at all
  int w = mc::choose((int)named.size(), "named");
  int kind = mc::choose(2, "success");
  std::string r = "{\"seq\":1,\"type\":\"response\",\"command\":\"areq\",\"success\":" + std::string(kind ? "true" : "false") +
                  (named[w].empty() ? "" : ",\"request_seq\":" + named[w]) + ",\"message\":\"m\",\"body\":{\"i\":5,\"s\":\"t\"}}";
  m->feedMsg(r);
  MC_CHECK(!s->getPayload(), "a response produced a payload");
  MC_CHECK(!ready(f0) && !ready(f1), "a response naming %s decided request %lld or %lld", named[w].c_str(), a, b);
  MC_CHECK(reports > 0, "a response naming no outstanding request (%s) was not reported", named[w].c_str());
  m->feedMsg(respA(2, b, 22));
  m->feedMsg(respA(3, a, 21));
  reports = 0;
  s->getPayload();
  s->getPayload();
  MC_CHECK(ready(f0) && ready(f1) && reports == 0, "the real responses did not decide their requests");
  MC_CHECK(int(f0.get().response.i) == 21 && int(f1.get().response.i) == 22, "outcome of another request");
  mc::outcome("ok");
}

// ------------------------------------------------------------------ C05
// Whatever number and command the peer's request has, its response names them.
MC_SCENARIO(c05_request_numbers, pb(0), pb(0)) {
  static const long long kSeqs[] = {1, 0, -1, 7, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 4294967301ll, 9007199254740993ll, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, -2147483649ll};
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  s->connect(m, m);
  bool fail = mc::choose(2, "fail");
  int style = mc::choose(3, "style");  // returning, calling back, later
  std::vector<std::function<void()>> later;
  auto result = [&](int i) -> RoE {
    if (fail) return dap::Error("E" + std::to_string(i));
    return aresp(i);
  };
  if (style == 0) s->registerHandler([&](const dap::ARequest& r) -> RoE { return result(int(r.i)); });
  else s->registerHandler([&](const dap::ARequest& r, std::function<void(RoE)> cb) {
      int i = int(r.i);
      if (style == 1) cb(result(i));
      else later.push_back([=] { cb(result(i)); });
    });
  s->registerHandler([&](const dap::BRequest&) { return dap::BResponse(); });
  const int n = sizeof kSeqs / sizeof *kSeqs;
  int q0 = mc::choose(n, "first"), q1 = mc::choose(n, "second");
  bool third = mc::choose(2, "other command between");
  std::vector<std::pair<long long, std::string>> want;
  m->feedMsg(reqA(kSeqs[q0], 10));
  MC_CHECK(handle(*s), "a request with number %lld was not handled", kSeqs[q0]);
  if (third) {
    m->feedMsg(reqB(kSeqs[q1], 1));
    MC_CHECK(handle(*s));
  }
  m->feedMsg(reqA(kSeqs[q1], 11));
  MC_CHECK(handle(*s), "a request with number %lld was not handled", kSeqs[q1]);
  for (size_t k = later.size(); k-- > 0;) later[k]();
  later.clear();
  auto fs = m->msgs();
  MC_CHECK(fs.size() == size_t(2 + third), "%zu responses", fs.size());
  int seen[3] = {};
  for (auto& v : fs) {
    auto rs = v.get("request_seq");
    MC_CHECK(v.str("type") == "response" && rs && rs->isInt(), "not a response");
    if (v.str("command") == "breq") {
      seen[2]++;
      MC_CHECK(v.num("request_seq") == kSeqs[q1], "the response to request %lld names %lld", kSeqs[q1], v.num("request_seq"));
      continue;
    }
    MC_CHECK(v.str("command") == "areq", "a response names the command '%s'", v.str("command").c_str());
    int i = fail ? atoi(v.str("message").c_str() + 1) : v.get("body") ? (int)v.get("body")->num("i") : -1;
    MC_CHECK(i == 10 || i == 11, "an unexpected response");
    seen[i - 10]++;
    MC_CHECK(v.num("request_seq") == kSeqs[i == 10 ? q0 : q1], "the response to request %lld names %lld", kSeqs[i == 10 ? q0 : q1], v.num("request_seq"));
    auto ok = v.get("success");
    MC_CHECK(ok && ok->kind == mj::Val::kBool && ok->b == !fail, "success flag");
  }
  MC_CHECK(seen[0] == 1 && seen[1] == 1 && seen[2] == third, "answered %d %d %d times", seen[0], seen[1], seen[2]);
  s.reset();
  mc::outcome("ok");
}
// An outcome, and an error, is a value: all histories of copies, moves and
// assignments between two of them.
MC_SCENARIO(c05_outcome_values, pb(0), pb(0)) {
  auto text = [](const RoE& r) { return (r.error ? "E:" + r.error.message : std::string("R:")) + std::to_string(int(r.response.i)) + r.response.s; };
  std::unique_ptr<RoE> o[2];
  std::string model[2];
  bool valid[2] = {true, true};  // false: moved from
  for (int k = 0; k < 2; k++) o[k].reset(new RoE()), o[k]->response = aresp(0, ""), model[k] = "R:0";
  int depth = mc::thorough() ? 6 : 5;
  std::string trace;
  for (int d = 0; d < depth; d++) {
    int k = d == 0 ? 0 : mc::choose(2, "which");
    int op = mc::choose(10, "op");
    std::string tag = "v" + std::to_string(d) + std::string(40, 'z');
    RoE& me = *o[k];
    RoE& it = *o[1 - k];
    switch (op) {
      case 0: me = RoE(aresp(d, tag)); model[k] = "R:" + std::to_string(d) + tag; valid[k] = true; break;
      case 1: { RoE t{dap::Error(tag)}; t.response = aresp(0, ""); me = t; model[k] = "E:" + tag + "0"; valid[k] = true; break; }
      case 2: { dap::Error e(tag); RoE t(e); t.response = aresp(0, ""); me = std::move(t); model[k] = "E:" + tag + "0"; valid[k] = true; break; }
      case 3: me = it; model[k] = model[1 - k]; valid[k] = valid[1 - k]; break;
      case 4: me = std::move(it); model[k] = model[1 - k]; valid[k] = valid[1 - k]; valid[1 - k] = false; break;
      case 5: o[k].reset(new RoE(it)); model[k] = model[1 - k]; valid[k] = valid[1 - k]; break;
      case 6: o[k].reset(new RoE(std::move(it))); model[k] = model[1 - k]; valid[k] = valid[1 - k]; valid[1 - k] = false; break;
      case 7: { RoE& alias = me; me = alias; break; }
      case 8: { const dap::AResponse c = aresp(d, tag); RoE t(c); me = t; model[k] = "R:" + std::to_string(d) + tag; valid[k] = true; break; }
      case 9: { o[k].reset(new RoE(dap::Error("%s-%d%%", tag.c_str(), d))); o[k]->response = aresp(0, ""); model[k] = "E:" + tag + "-" + std::to_string(d) + "%0"; valid[k] = true; break; }
    }
    trace += char('a' + op);
    for (int j = 0; j < 2; j++)
      if (valid[j]) MC_CHECK(text(*o[j]) == model[j], "outcome %d holds '%s', expected '%s' after %s", j, text(*o[j]).c_str(), model[j].c_str(), trace.c_str());
  }
  mc::outcome(std::to_string(valid[0]) + std::to_string(valid[1]));
}

// ------------------------------------------------------------------ C11
// Every error text and response reaches the sent handler as it was sent.
MC_SCENARIO(c11_contents, pb(0), pb(0)) {
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  s->connect(m, m);
  int style = mc::choose(4, "style");
  std::string text;
  switch (mc::choose(8, "text")) {
    case 0: text = "plain"; break;
    case 1: text = "%s%n%d 100%"; break;
    case 2: text = std::string("nul\0nul", 7); break;
    case 3: text = std::string(2047, 'a') + "bcd"; break;
    case 4: text = std::string(70000, 'q'); break;
    case 5: text = "\"\\\n\t\x01"; break;
    case 6: text = "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80"; break;
    case 7: text = "e"; break;
  }
  bool fail = mc::choose(2, "fail");
  std::vector<std::function<void()>> later;
  auto result = [&]() -> RoE {
    if (fail) return dap::Error(text);
    auto r = aresp(5, text);
    r.oa = dap::array<dap::string>{text, ""};
    return r;
  };
  if (style == 0) s->registerHandler([&](const dap::ARequest&) { return result(); });
  if (style == 1) s->registerHandler([&](const dap::ARequest&, std::function<void(RoE)> cb) { cb(result()); });
  if (style == 2) s->registerHandler([&](const dap::ARequest&, std::function<void(RoE)> cb) { later.push_back([=] { cb(result()); }); });
  if (style == 3) {
    if (fail) s->registerHandler([&](const dap::ARequest&) { return dap::Error(text); });
    else s->registerHandler([&](const dap::ARequest&, std::function<void(dap::AResponse)> cb) { later.push_back([=] { cb(result().response); }); });
  }
  int sent = 0, wrote = 0;
  s->registerSentHandler([&](const RoE& r) {
    sent++;
    MC_CHECK((int)m->msgs().size() == wrote + 1, "notified before the response was written");
    MC_CHECK(bool(r.error) == fail, "notified of %s", r.error ? "an error" : "a success");
    if (fail) MC_CHECK(r.error.message == text, "another error message (%zu bytes)", r.error.message.size());
    else MC_CHECK(int(r.response.i) == 5 && r.response.s == text && !r.response.oi.has_value() && r.response.oa.has_value() && r.response.oa->size() == 2 && (*r.response.oa)[0] == text, "another response");
  });
  for (int k = 0; k < 3; k++) {
    m->feedMsg(reqA(4 + k, k));
    MC_CHECK(handle(*s));
    if (!later.empty()) {
      MC_CHECK(sent == k && (int)m->msgs().size() == k, "answered before the callback was called");
      later[0]();
      later.clear();
    }
    wrote++;
    MC_CHECK(sent == k + 1, "notified %d times", sent);
    auto ms = m->msgs();
    MC_CHECK((int)ms.size() == k + 1 && ms[k].num("request_seq") == 4 + k, "response");
    if (fail) MC_CHECK(ms[k].str("message") == text, "the response carries another message");
    else MC_CHECK(ms[k].get("body") && ms[k].get("body")->str("s") == text, "the response carries another body");
  }
  mc::outcome(std::to_string(style) + std::to_string(fail));
}
// Callbacks kept by handlers, answered in any order or never, with one sent
// handler per type; an endpoint that closes or refuses from some answer on
// never causes a second notification.
MC_SCENARIO(c11_histories, pb(0), pb(0)) {
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  s->connect(m, m);
  std::map<int, std::function<void(RoE)>> kept;
  s->registerHandler([&](const dap::ARequest& r, std::function<void(RoE)> cb) { kept[int(r.i)] = cb; });
  s->registerHandler([&](const dap::BRequest& r) {
    dap::BResponse b;
    b.x = *r.x;
    return b;
  });
  std::string notes, expect;
  std::set<std::string> optional;  // notifications for responses the endpoint refused
  s->registerSentHandler([&](const RoE& r) { notes += r.error ? r.error.message + ";" : "r" + std::to_string(int(r.response.i)) + ";"; });
  s->registerSentHandler([&](const dap::ResponseOrError<dap::BResponse>& r) { notes += "b" + std::to_string(int(*r.response.x)) + ";"; });
  int depth = mc::thorough() ? 7 : 6, next = 1;
  bool down = false;
  size_t written = 0;
  for (int d = 0; d < depth; d++) {
    int op = mc::choose(6, "op");
    notes.clear();
    expect.clear();
    if (op == 0) {
      m->feedMsg(reqA(100 + next, next));
      if (m->open) MC_CHECK(handle(*s));
      else mc::discard();
      next++;
    } else if (op == 1) {
      if (!m->open) mc::discard();
      m->feedMsg(reqB(100 + next, next));
      MC_CHECK(handle(*s));
      expect = "b" + std::to_string(next) + ";";
      next++;
    } else if (op == 2 || op == 3) {
      if (kept.empty()) mc::discard();
      int w = mc::choose((int)kept.size(), "which");
      auto it = kept.begin();
      std::advance(it, w);
      auto cb = it->second;
      int i = it->first;
      kept.erase(it);
      if (op == 2) cb(aresp(i)), expect = "r" + std::to_string(i) + ";";
      else cb(dap::Error("e" + std::to_string(i))), expect = "e" + std::to_string(i) + ";";
    } else if (op == 4) {
      if (down) mc::discard();
      if (mc::choose(2, "how")) m->refuse = true;
      else m->open = false;
      down = true;
    } else {
      if (kept.empty()) mc::discard();
      kept.erase(kept.begin());  // dropped, never answered
    }
    if (down) MC_CHECK(notes.empty() || notes == expect, "notified '%s', expected '%s' or nothing", notes.c_str(), expect.c_str());
    else MC_CHECK(notes == expect, "notified '%s', expected '%s'", notes.c_str(), expect.c_str());
    if (!down) {
      auto ms = m->msgs();
      if (!expect.empty()) written++;
      MC_CHECK(ms.size() == written, "%zu responses written, expected %zu", ms.size(), written);
      if (!expect.empty()) {
        auto& v = ms.back();
        int i = atoi(expect.c_str() + 1);
        MC_CHECK(v.num("request_seq") == 100 + i, "the answer to request %d names %lld", 100 + i, v.num("request_seq"));
        if (expect[0] == 'r') MC_CHECK(v.get("body") && v.get("body")->num("i") == i, "body of another response");
        if (expect[0] == 'e') MC_CHECK(v.str("message") + ";" == expect, "message of another response");
      }
    }
  }
  kept.clear();
  mc::outcome(std::to_string(next));
}

// ------------------------------------------------------------------ C02
// The session applies the policy it was given.
MC_SCENARIO(c02_session_policy, pb(0), pb(0)) {
  static const char* kJunk[] = {"x", "Content-Length: x\r\n\r\n", "Content-Length: 0\r\n\r\n", "content-length: 5\r\n\r\n", "Content-Length: 5\n\n{    ", "Content-Length: 99999999999999999999\r\n\r\n", "Content-Type: a\r\n"};
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  int n = 0;
  s->registerHandler([&](const dap::BEvent&) { n++; });
  int policy = mc::choose(4, "policy");  // default, ignore, close, changed before connecting
  if (policy == 1) s->setOnInvalidData(dap::kIgnore);
  if (policy == 2) s->setOnInvalidData(dap::kClose);
  if (policy == 3) s->setOnInvalidData(dap::kIgnore), s->setOnInvalidData(dap::kClose);
  s->connect(m, m);
  bool before = mc::choose(2, "a message before");
  if (before) m->feedMsg(evB(1, 1));
  m->in += kJunk[mc::choose(sizeof kJunk / sizeof *kJunk, "junk")];
  m->feedMsg(evB(2, 2));
  m->feedMsg(evB(3, 3));
  for (int k = 0; k < 6; k++) handle(*s);
  bool close = policy >= 2;
  MC_CHECK(n == before + (close ? 0 : 2), "%d messages handled with policy %d", n, policy);
  MC_CHECK(m->open == !close, "the reader is %s with policy %d", m->open ? "open" : "closed", policy);
  mc::outcome(std::to_string(policy));
}

// ------------------------------------------------------------------ C25
// All histories of registrations, misuse and messages against a model.
MC_SCENARIO(c25_histories, pb(0), pb(0)) {
  auto ep = std::make_shared<Mem>(), other = std::make_shared<Mem>();
  auto s = dap::Session::create();
  int depth = mc::thorough() ? 7 : 6;
  bool connected = false;
  int errHandler = 0, areqH = 0, breqH = 0, aevtH = 0, bevtH = 0, sentH = 0;  // index of the one in force
  std::string trace;
  int called[6][9];  // kind of handler, index
  for (int d = 1; d <= depth; d++) {
    memset(called, 0, sizeof called);
    int op = mc::choose(15, "op");
    trace += char('a' + op);
    long wantErr = 0;
    int want[6] = {};
    bool exact = true;
    switch (op) {
      case 0: s->onError([&called, d](const char*) { called[0][d]++; }); errHandler = d; break;
      case 1:
        s->registerHandler([&called, d](const dap::ARequest& r) { called[1][d]++; return aresp(1); });
        if (areqH) wantErr = 1; else areqH = d;
        break;
      case 2:
        s->registerHandler([&called, d](const dap::AEvent& r) { called[2][d]++; });
        if (aevtH) wantErr = 1; else aevtH = d;
        break;
      case 3:
        s->registerHandler([&called, d](const dap::BEvent& r) { called[3][d]++; });
        if (bevtH) wantErr = 1; else bevtH = d;
        break;
      case 4:
        s->registerSentHandler([&called, d](const RoE& r) { called[4][d]++; });
        if (sentH) wantErr = 1; else sentH = d;
        break;
      case 5:
        s->connect(connected ? other : ep, connected ? other : ep);
        if (connected) wantErr = 1;
        connected = true;
        break;
      case 6: case 7: case 8: case 9: {
        if (!connected) mc::discard();
        ep->feedMsg(op == 6 ? reqA(5, 1) : op == 7 ? evA(5, 1) : op == 8 ? evB(5, 1) : reqB(5, 1));
        auto p = s->getPayload();
        int h = op == 6 ? areqH : op == 7 ? aevtH : op == 8 ? bevtH : breqH;
        MC_CHECK(bool(p) == (h != 0), "%s %d after %s", p ? "accepted a message without handler" : "refused a message with a handler", op, trace.c_str());
        if (p) p();
        else wantErr = 1;
        if (op == 6 && h) { want[1] = h; want[4] = sentH; }
        if (op == 7) want[2] = h;
        if (op == 8) want[3] = h;
        if (op == 9) want[5] = h;
        break;
      }
      case 10: {
        auto f = s->send(areq(1));
        if (!connected) {
          MC_CHECK(ready(f) && bool(f.get().error), "sending a request unconnected has no error outcome");
          wantErr = 1;
          exact = false;
        } else {
          MC_CHECK(!ready(f), "a request that was sent has failed");
        }
        break;
      }
      case 11: {
        dap::AEvent e = aev(1);
        bool ok = s->send(dap::TypeOf<dap::AEvent>::type(), &e);
        MC_CHECK(ok == connected, "sending an event returned %d after %s", ok, trace.c_str());
        if (!connected) { wantErr = 1; exact = false; }
        break;
      }
      case 12: s->send(bev(1)); if (!connected) { wantErr = 1; exact = false; } break;
      case 13:
        s->registerHandler([&called, d](const dap::BRequest& r) -> dap::ResponseOrError<dap::BResponse> { called[5][d]++; return dap::Error("no"); });
        if (breqH) wantErr = 1; else breqH = d;
        break;
      case 14: s->onError(nullptr); errHandler = 0; break;  // none in force
    }
    for (int k = 1; k <= depth; k++) {
      long got = called[0][k];
      if (k != errHandler) MC_CHECK(got == 0, "an error handler that is not in force was called after %s", trace.c_str());
      else if (exact) MC_CHECK(got == wantErr, "%ld reports, expected %ld after %s", got, wantErr, trace.c_str());
      else MC_CHECK(got >= wantErr, "not reported after %s", trace.c_str());
      for (int h = 1; h < 6; h++) MC_CHECK(called[h][k] == (want[h] == k), "handler %d of kind %d called %d times after %s", k, h, called[h][k], trace.c_str());
    }
  }
  MC_CHECK(other->out.empty(), "the second connect changed the endpoint");
  s.reset();
  mc::outcome(trace);
}
// Directed at registrations: the first handler of a kind stays in force over
// any number of refused ones, whatever the kind of handler.
MC_SCENARIO(c25_first_stays, pb(0), pb(0)) {
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  long reports = 0;
  s->onError([&](const char*) { reports++; });
  s->connect(m, m);
  int called[8] = {};
  int kind = mc::choose(3, "kind");  // request, event, sent
  if (kind == 2) s->registerHandler([](const dap::ARequest&) { return aresp(1); });
  int n = 0;
  for (int d = 0; d < (mc::thorough() ? 7 : 6); d++) {
    if (mc::choose(2, "op") == 0) {
      int style = kind == 0 ? mc::choose(3, "style") : 0;
      int k = n++;
      if (kind == 0 && style == 0) s->registerHandler([&called, k](const dap::ARequest&) { called[k]++; return aresp(1); });
      if (kind == 0 && style == 1) s->registerHandler([&called, k](const dap::ARequest&, std::function<void(RoE)> cb) { called[k]++; cb(aresp(1)); });
      if (kind == 0 && style == 2) s->registerHandler([&called, k](const dap::ARequest&) { called[k]++; return dap::Error("x"); });
      if (kind == 1) s->registerHandler([&called, k](const dap::AEvent&) { called[k]++; });
      if (kind == 2) s->registerSentHandler([&called, k](const RoE&) { called[k]++; });
      MC_CHECK(reports == (k > 0), "registration %d: %ld reports", k, reports);
      reports = 0;
    } else {
      m->feedMsg(kind == 1 ? evA(1, 1) : reqA(1, 1));
      bool ok = handle(*s);
      MC_CHECK(ok == (n > 0 || kind == 2) && reports == !ok, "a message was %s", ok ? "handled" : "refused");
      reports = 0;
      for (int k = 0; k < 8; k++) MC_CHECK(called[k] == (k == 0 && n > 0), "handler %d was called %d times", k, called[k]);
      memset(called, 0, sizeof called);
    }
  }
  mc::outcome(std::to_string(kind) + std::to_string(n));
}

// ------------------------------------------------------------------ C05
// Fields and error texts of every size, each way, with further messages after
// them; the two sessions are pumped in turn.
MC_SCENARIO(c05_sizes, pb(0), pb(0)) {
  static const size_t kSizes[] = {0, 1, 255, 256, 1023, 1024, 2046, 2047, 2048, 2049, 4095, 4096, 8192, 32768, 65534, 65535, 65536, 70000, 300000};
  size_t n = kSizes[mc::choose(19, "size")];
  int what = mc::choose(4, "what");
  bool later = mc::choose(2, "later");
  std::string text(n, ' ');
  for (size_t i = 0; i < n; i++) text[i] = "ab\"%\\ sdn\nz/"[(i * 7) % 12];
  auto ma = std::make_shared<Mem>(), mb = std::make_shared<Mem>();
  auto a = dap::Session::create(), b = dap::Session::create();
  a->connect(ma, ma);
  b->connect(mb, mb);
  std::vector<std::function<void()>> kept;
  int events = 0, requests = 0;
  b->registerHandler([&](const dap::ARequest& r, std::function<void(RoE)> cb) {
    requests++;
    MC_CHECK(r.s == (what == 0 ? text : "s"), "a field of %zu bytes arrived with %zu bytes, or others", n, r.s.size());
    RoE o;
    if (what == 1) o = RoE(aresp(3, text));
    else if (what == 2) o = RoE(dap::Error("e" + text));
    else o = RoE(aresp(3));
    if (later) kept.push_back([=] { cb(o); });
    else cb(o);
  });
  b->registerHandler([&](const dap::AEvent& e) {
    events++;
    MC_CHECK(e.s == (what == 3 && events == 1 ? text : "s"), "a field of %zu bytes arrived with %zu bytes, or others", n, e.s.size());
  });
  auto f = a->send(areq(1, what == 0 ? text : "s"));
  a->send(aev(2, what == 3 ? text : "s"));
  auto f2 = a->send(areq(1, what == 0 ? text : "s"));
  a->send(aev(4));
  mb->in = ma->out;
  for (int i = 0; i < 4; i++) MC_CHECK(handle(*b), "message %d was not accepted", i);
  for (auto& k : kept) k();
  kept.clear();
  MC_CHECK(events == 2 && requests == 2, "%d events and %d requests handled", events, requests);
  ma->in = mb->out;
  for (int i = 0; i < 2; i++) a->getPayload();
  for (auto* x : {&f, &f2}) {
    MC_CHECK(ready(*x), "no outcome");
    auto r = x->get();
    if (what == 2) MC_CHECK(r.error.message == "e" + text, "an error text of %zu bytes arrived with %zu bytes, or others", n + 1, r.error.message.size());
    else MC_CHECK(!r.error && r.response.s == (what == 1 ? text : "s"), "a field of %zu bytes arrived with %zu bytes, or others", n, r.response.s.size());
  }
  mc::outcome(std::to_string(what));
}

// Texts of every size from each style of handler.
MC_SCENARIO(c05_style_sizes, pb(0), pb(0)) {
  static const size_t kSizes[] = {0, 1, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 65535, 65536, 70000, 1 << 20};
  size_t n = kSizes[mc::choose(20, "size")];
  int style = mc::choose(8, "style");
  // Error(format, ...) holds up to 2047 bytes.
  if (style == 7 && n > 2047) mc::discard();
  std::string text(n, ' ');
  for (size_t i = 0; i < n; i++) text[i] = "ab\"%\\ sdn\nz/"[(i * 7) % 12];
  auto ma = std::make_shared<Mem>(), mb = std::make_shared<Mem>();
  auto a = dap::Session::create(), b = dap::Session::create();
  a->connect(ma, ma);
  b->connect(mb, mb);
  std::function<void()> kept;
  bool error = style == 0 || style == 1 || style == 3 || style == 7;
  switch (style) {
    case 0: b->registerHandler([&](const dap::ARequest&) { return dap::Error(text); }); break;
    case 1: b->registerHandler([&](const dap::ARequest&) -> RoE { return dap::Error(text); }); break;
    case 2: b->registerHandler([&](const dap::ARequest&) -> RoE { return aresp(3, text); }); break;
    case 3: b->registerHandler([&](const dap::ARequest&, std::function<void(RoE)> cb) { cb(dap::Error(text)); }); break;
    case 4: b->registerHandler([&](const dap::ARequest&) { return aresp(3, text); }); break;
    case 5: b->registerHandler([&](const dap::ARequest&, std::function<void(dap::AResponse)> cb) { cb(aresp(3, text)); }); break;
    case 7: b->registerHandler([&](const dap::ARequest&) { return dap::Error("%s", text.c_str()); }); break;
    case 6: b->registerHandler([&](const dap::ARequest&, std::function<void(dap::AResponse)> cb) { kept = [&, cb] { cb(aresp(3, text)); }; }); break;
  }
  auto f = a->send(areq(1));
  mb->in = ma->out;
  MC_CHECK(handle(*b), "the request was not accepted");
  if (kept) kept();
  ma->in = mb->out;
  a->getPayload();
  MC_CHECK(ready(f), "no outcome");
  auto r = f.get();
  if (error && n) MC_CHECK(r.error.message == text, "an error text of %zu bytes arrived with %zu bytes, or others", n, r.error.message.size());
  else if (!error) MC_CHECK(!r.error && int(r.response.i) == 3 && r.response.s == text, "a field of %zu bytes arrived with %zu bytes, or others", n, r.response.s.size());
  mc::outcome(std::to_string(style));
}

// Derived message types whose members are of every kind.
namespace dap {
struct DResponse : public AResponse {
  optional<boolean> ob;
  optional<any> oany;
  optional<object> oo;
};
DAP_STRUCT_TYPEINFO_EXT(DResponse, AResponse, "", DAP_FIELD(ob, "ob"), DAP_FIELD(oany, "oany"), DAP_FIELD(oo, "oo"));
struct DRequest : public ARequest {
  using Response = DResponse;
  optional<boolean> ob;
  optional<any> oany;
  optional<object> oo;
};
DAP_STRUCT_TYPEINFO_EXT(DRequest, ARequest, "dreq", DAP_FIELD(ob, "ob"), DAP_FIELD(oany, "oany"), DAP_FIELD(oo, "oo"));
struct DBase : public Event {
  integer i;
  string s;
  optional<integer> oi;
  optional<array<string>> oa;
};
DAP_STRUCT_TYPEINFO(DBase, "dbase", DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(oi, "oi"), DAP_FIELD(oa, "oa"));
struct DEvent : public DBase {
  optional<boolean> ob;
  optional<any> oany;
  optional<object> oo;
};
DAP_STRUCT_TYPEINFO_EXT(DEvent, DBase, "devt", DAP_FIELD(ob, "ob"), DAP_FIELD(oany, "oany"), DAP_FIELD(oo, "oo"));
}  // namespace dap
namespace {
// The members set by step d with mask m, and their reading.
template <typename T>
T filled(int d, int m) {
  T t;
  t.i = 1000 * d + m;
  t.s = "s" + std::to_string(d);
  if (m & 1) t.oi = dap::integer(d);
  if (m & 2) t.oa = dap::array<dap::string>{"x" + std::to_string(d), std::string(30, 'y')};
  if (m & 4) t.ob = dap::boolean(d % 2 == 0);
  if (m & 1) t.oany = dap::any(dap::string("any" + std::to_string(d)));
  if (m & 2) {
    dap::object o;
    o["k"] = dap::integer(d);
    t.oo = o;
  }
  return t;
}
template <typename T>
std::string told(const T& t) {
  std::string r = std::to_string(int64_t(t.i)) + "|" + t.s;
  r += "|oi:" + (t.oi.has_value() ? std::to_string(int64_t(*t.oi)) : "-");
  r += "|oa:";
  if (t.oa.has_value())
    for (auto& x : *t.oa) r += x + ",";
  else r += "-";
  r += "|ob:" + std::string(t.ob.has_value() ? (*t.ob ? "t" : "f") : "-");
  r += "|any:" + std::string(t.oany.has_value() ? (t.oany->template is<dap::string>() ? t.oany->template get<dap::string>() : "?") : "-");
  r += "|oo:";
  if (t.oo.has_value())
    for (auto& x : *t.oo) r += x.first + "=" + (x.second.template is<dap::integer>() ? std::to_string(int64_t(x.second.template get<dap::integer>())) : "?");
  else r += "-";
  return r;
}
}  // namespace
// All histories of requests and events, in both directions, with differing
// members set, handled one by one or all at the end: nothing of one message
// shows in another.
MC_SCENARIO(c05_histories, pb(0), pb(0)) {
  using RoD = dap::ResponseOrError<dap::DResponse>;
  static const int kMasks[] = {0, 7, 1, 6};
  std::shared_ptr<Mem> m[2] = {std::make_shared<Mem>(), std::make_shared<Mem>()};
  std::unique_ptr<dap::Session> s[2];
  std::vector<std::string> expect[2], expectOut;  // what the handlers of each side must see
  size_t seen[2] = {};
  std::vector<dap::future<RoD>> futs;
  std::vector<RoD> answers[2];  // given by each side, in order
  size_t given[2] = {};
  for (int k = 0; k < 2; k++) {
    s[k] = dap::Session::create();
    s[k]->onError([](const char* e) { mc::fail("error reported: %s", e); });
    s[k]->connect(m[k], m[k]);
    auto see = [&, k](const std::string& x) {
      MC_CHECK(seen[k] < expect[k].size(), "a handler was called for a message nobody sent: %s", x.c_str());
      MC_CHECK(x == expect[k][seen[k]], "a message arrived as '%s', sent was '%s'", x.c_str(), expect[k][seen[k]].c_str());
      seen[k]++;
    };
    s[k]->registerHandler([see](const dap::DEvent& e) { see("E" + told(e)); });
    s[k]->registerHandler([see, k, &answers, &given](const dap::DRequest& r) -> RoD {
      see("R" + told(r));
      return answers[k][given[k]++];
    });
  }
  auto pump = [&](int k) {
    m[k]->in += m[1 - k]->out;
    m[1 - k]->out.clear();
    while (m[k]->pos < m[k]->in.size()) handle(*s[k]);
  };
  bool batch = mc::choose(2, "handled at the end");
  int depth = mc::thorough() ? 4 : 3;
  for (int d = 1; d <= depth; d++) {
    int k = d == 1 ? 0 : mc::choose(2, "sender");
    int kind = mc::choose(3, "kind");
    int mask = kMasks[mc::choose(4, "members")];
    if (kind == 0) {
      auto e = filled<dap::DEvent>(d, mask);
      expect[1 - k].push_back("E" + told(e));
      s[k]->send(e);
    } else {
      auto r = filled<dap::DRequest>(d, mask);
      expect[1 - k].push_back("R" + told(r));
      if (kind == 1) {
        auto a = filled<dap::DResponse>(10 + d, 7 ^ mask);
        expectOut.push_back(told(a));
        answers[1 - k].push_back(RoD(a));
      } else {
        std::string text("f\0%s", 4);
        text += std::to_string(d);
        expectOut.push_back("F" + text);
        answers[1 - k].push_back(RoD(dap::Error(text)));
      }
      futs.push_back(s[k]->send(r));
    }
    if (!batch) pump(1 - k), pump(k);
  }
  for (int i = 0; i < 2; i++) pump(0), pump(1);
  for (int k = 0; k < 2; k++) MC_CHECK(seen[k] == expect[k].size(), "%zu of %zu messages handled", seen[k], expect[k].size());
  for (size_t i = 0; i < futs.size(); i++) {
    MC_CHECK(ready(futs[i]), "request %zu has no outcome", i);
    auto r = futs[i].get();
    std::string x = r.error ? "F" + r.error.message : told(r.response);
    MC_CHECK(x == expectOut[i], "the outcome of a request is '%s', sent was '%s'", x.c_str(), expectOut[i].c_str());
  }
  mc::outcome(std::to_string(futs.size()));
}
// Error texts of every kind of character, from every style of handler.
MC_SCENARIO(c05_error_texts, pb(0), pb(0)) {
  auto ma = std::make_shared<Mem>(), mb = std::make_shared<Mem>();
  auto a = dap::Session::create(), b = dap::Session::create();
  a->connect(ma, ma);
  b->connect(mb, mb);
  int style = mc::choose(4, "style");
  std::string text(mc::choose(3, "before"), 'p');
  int c = mc::choose(128 + 3, "character");
  if (c < 128) text += char(c);
  else text += c == 128 ? "\xc3\xa9" : c == 129 ? "\xe2\x82\xac" : "\xf0\x9f\x98\x80";
  text += std::string(mc::choose(2, "after"), 'q');
  std::function<void()> later;
  switch (style) {
    case 0: b->registerHandler([&](const dap::ARequest&) { return dap::Error(text); }); break;
    case 1: b->registerHandler([&](const dap::ARequest&) -> RoE { return dap::Error(text); }); break;
    case 2: b->registerHandler([&](const dap::ARequest&, std::function<void(RoE)> cb) { cb(dap::Error(text)); }); break;
    case 3: b->registerHandler([&](const dap::ARequest&, std::function<void(RoE)> cb) { later = [=] { cb(dap::Error(text)); }; }); break;
  }
  auto f = a->send(areq(1));
  mb->in = ma->out;
  MC_CHECK(handle(*b));
  if (later) later(), later = nullptr;
  ma->in = mb->out;
  a->getPayload();
  MC_CHECK(ready(f), "no outcome");
  auto r = f.get();
  MC_CHECK(bool(r.error) && r.error.message == text, "an error text of %zu bytes with character %d arrived as '%s' (%zu bytes)", text.size(), c, r.error.message.c_str(), r.error.message.size());
  mc::outcome(std::to_string(style));
}

// ------------------------------------------------------------------ C04
// A session that is driven by getPayload: once it has met the end of the
// stream, no request stays without an outcome.
MC_SCENARIO(c04_pumped_end, pb(0), pb(0)) {
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  s->onError([](const char*) {});
  s->registerHandler([](const dap::BEvent&) {});
  s->connect(m, m);
  int before = mc::choose(3, "requests"), answered = mc::choose(before + 1, "answered");
  int cut = mc::choose(4, "the end");  // after a message, in a header, in a body, reader closed
  std::vector<Fut> f;
  for (int i = 0; i < before; i++) f.push_back(s->send(areq(i)));
  auto sent = m->msgs();
  for (int i = 0; i < answered; i++) m->feedMsg(respA(i, sent[i].num("seq"), 100 + i));
  m->feedMsg(evB(9, 1));
  if (cut == 1) m->in += "Content-Len";
  if (cut == 2) m->in += "Content-Length: 9\r\n\r\n{";
  for (int i = 0; i < answered; i++) MC_CHECK(!s->getPayload());
  for (int i = 0; i < before; i++) MC_CHECK(ready(f[i]) == (i < answered), "request %d %s", i, i < answered ? "has no outcome" : "has an outcome too early");
  MC_CHECK(handle(*s));
  if (cut == 3) m->open = false;
  for (int i = 0; i < 2; i++) MC_CHECK(!s->getPayload(), "a payload after the end");
  for (int i = 0; i < before; i++) {
    MC_CHECK(ready(f[i]), "request %d has no outcome after the end of the stream", i);
    auto r = f[i].get();
    if (i < answered) MC_CHECK(!r.error && int(r.response.i) == 100 + i, "outcome of another request");
    else MC_CHECK(bool(r.error), "a request without a response succeeded");
  }
  auto g = s->send(areq(5));
  MC_CHECK(ready(g) && bool(g.get().error), "a request sent after the end has no error outcome");
  s.reset();
  mc::outcome(std::to_string(before) + std::to_string(answered));
}

// Contents that have no encoding: alone, in an array, in an object, or in an
// object in an array.
static dap::any noEncoding(int where) {
  dap::any none = dap::NoEncoding();
  if (where == 0) return none;
  if (where == 1) return dap::array<dap::any>({dap::any(dap::integer(1)), none, dap::any(dap::string("x"))});
  dap::object o;
  o["a"] = dap::integer(1);
  o["b"] = none;
  if (where == 2) return o;
  return dap::array<dap::any>({dap::any(o)});
}
// A request that cannot be encoded is not sent and has an error as its outcome
// (or it is encoded after all, whole); so for an event; the requests around it
// keep their own outcomes, and a session that ends says nothing more.
MC_SCENARIO(c04_not_encodable, pb(0), pb(0)) {
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  long reports = 0;
  s->onError([&](const char*) { reports++; });
  s->connect(m, m);
  int where = mc::choose(4, "where"), pos = mc::choose(3, "position"), kind = mc::choose(2, "kind");
  using RoC = dap::ResponseOrError<dap::CResponse>;
  std::vector<Fut> f;
  std::vector<dap::future<RoC>> g;
  int whole = 0;
  for (int i = 0; i < 3; i++) {
    if (i != pos) {
      f.push_back(s->send(areq(i)));
      continue;
    }
    size_t before = m->msgs().size();
    if (kind == 0) {
      dap::CRequest r;
      r.i = 7, r.v = noEncoding(where), r.x = 8;
      g.push_back(s->send(r));
    } else {
      dap::CEvent e;
      e.i = 7, e.v = noEncoding(where), e.x = 8;
      s->send(e);
    }
    auto ms = m->msgs();
    whole = ms.size() - before;
    MC_CHECK(whole <= 1, "%d messages for one send", whole);
    if (whole) {
      auto* b = ms.back().get(kind ? "body" : "arguments");
      MC_CHECK(b && b->num("i") == 7 && b->get("v") && b->num("x") == 8, "part of a message was sent");
    }
    if (kind == 0) {
      MC_CHECK(ready(g[0]) == !whole, "%s", whole ? "a request that was sent has an outcome already" : "a request that was not sent has no outcome");
      if (!whole) MC_CHECK(bool(g[0].get().error), "a request that was not sent succeeded");
    }
  }
  auto ms = m->msgs();
  std::vector<long long> q;
  for (auto& v : ms) if (v.str("type") == "request" && v.str("command") == "areq") q.push_back(v.num("seq"));
  MC_CHECK(q.size() == 2 && q[0] != q[1], "%zu requests were sent", q.size());
  for (int i = 1; i >= 0; i--) {
    MC_CHECK(!ready(f[i]));
    m->feedMsg(respA(i, q[i], 50 + i));
    MC_CHECK(!s->getPayload());
    MC_CHECK(ready(f[i]), "request %d has no outcome", i);
    auto r = f[i].get();
    MC_CHECK(!r.error && int(r.response.i) == 50 + i, "outcome of another request");
  }
  mc::outcome(std::to_string(kind));
}
// A response that cannot be encoded still ends its request, and the requests
// after it are answered.
static void notEncodable() {
  auto ma = std::make_shared<Mem>(), mb = std::make_shared<Mem>();
  auto a = dap::Session::create(), b = dap::Session::create();
  a->connect(ma, ma);
  b->connect(mb, mb);
  a->onError([](const char*) {});
  b->onError([](const char*) {});
  int where = mc::choose(4, "where"), style = mc::choose(3, "style");
  using RoC = dap::ResponseOrError<dap::CResponse>;
  dap::CResponse c;
  c.i = 7, c.v = noEncoding(where), c.x = 8;
  switch (style) {
    case 0: b->registerHandler([&](const dap::CRequest&) { return c; }); break;
    case 1: b->registerHandler([&](const dap::CRequest&) -> RoC { return c; }); break;
    case 2: b->registerHandler([&](const dap::CRequest&, std::function<void(RoC)> cb) { cb(c); }); break;
  }
  b->registerHandler([](const dap::ARequest& r) { return aresp(int(r.i)); });
  int sent = 0;
  std::string told;
  b->registerSentHandler([&](const RoC& r) {
    sent++;
    told = r.error.message;
    MC_CHECK(mb->msgs().size() == 2, "told of a response that was not sent");
  });
  dap::CRequest r;
  r.i = 1, r.v = dap::integer(2);
  auto f0 = a->send(areq(5));
  auto f = a->send(r);
  auto f1 = a->send(areq(6));
  mb->in = ma->out;
  for (int i = 0; i < 3; i++) MC_CHECK(handle(*b));
  frames(mb->out);
  ma->in = mb->out;
  for (int i = 0; i < 3; i++) a->getPayload();
  MC_CHECK(ready(f), "a request has no outcome");
  MC_CHECK(ready(f0) && ready(f1), "another request has no outcome");
  auto r0 = f0.get(), r1 = f1.get();
  MC_CHECK(!r0.error && int(r0.response.i) == 5 && !r1.error && int(r1.response.i) == 6, "outcome of another request");
  auto rc = f.get();
  MC_CHECK(bool(rc.error), "part of a response arrived as a success (i=%d, x=%d)", int(rc.response.i), int(rc.response.x.value(0)));
  MC_CHECK(sent == 1 && told == rc.error.message, "told %d times of '%s', the peer of '%s'", sent, told.c_str(), rc.error.message.c_str());
  mc::outcome(std::to_string(style));
}
MC_SCENARIO(c05_not_encodable, pb(0), pb(0)) { notEncodable(); }
MC_SCENARIO(c11_not_encodable, pb(0), pb(0)) { notEncodable(); }

// ------------------------------------------------------------------ C25
// A message whose command or event is not exactly the registered name has no
// handler: it is reported, and no handler is called.
MC_SCENARIO(c25_near_names, pb(0), pb(0)) {
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  long reports = 0, calls = 0;
  s->onError([&](const char*) { reports++; });
  s->connect(m, m);
  s->registerHandler([&](const dap::BRequest&) { calls++; return dap::BResponse(); });
  s->registerHandler([&](const dap::BEvent&) { calls++; });
  bool ev = mc::choose(2, "event");
  std::string name = ev ? "bevt" : "breq";
  std::vector<std::string> near = {"", ev ? "breq" : "bevt", "aevt", "areq", name + name, "b"};
  for (size_t k = 0; k <= name.size(); k++)
    for (int c = 0; c < 128; c++) {
      std::string ins = name, sub = name;
      ins.insert(k, 1, char(c));
      near.push_back(ins);
      if (k < name.size() && name[k] != char(c)) {
        sub[k] = char(c);
        near.push_back(sub);
      }
    }
  for (size_t k = 0; k < name.size(); k++) {
    auto del = name;
    near.push_back(del.erase(k, 1));
  }
  const std::string& n = near[mc::choose((int)near.size(), "name")];
  m->feedMsg(std::string("{\"seq\":5,\"type\":") + (ev ? "\"event\",\"event\":" : "\"request\",\"command\":") + q(n) + "}");
  MC_CHECK(!s->getPayload(), "a message named '%s' (%zu bytes) was accepted", n.c_str(), n.size());
  MC_CHECK(reports == 1 && calls == 0 && m->out.empty(), "a message named '%s' (%zu bytes): %ld reports, %ld handlers called", n.c_str(), n.size(), reports, calls);
  m->feedMsg(ev ? evB(6, 1) : reqB(6, 1));
  MC_CHECK(handle(*s) && calls == 1 && reports == 1, "the named message was not handled");
  mc::outcome("ok");
}

// A request and an event that share a name, and two responses (which are all
// nameless), have handlers of their own.
namespace dap {
struct SameRequest : public Request {
  using Response = BResponse;
};
DAP_STRUCT_TYPEINFO(SameRequest, "same");
struct SameEvent : public Event {};
DAP_STRUCT_TYPEINFO(SameEvent, "same");
}  // namespace dap
MC_SCENARIO(c25_same_name, pb(0), pb(0)) {
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  long reports = 0;
  int called[4] = {};
  s->onError([&](const char*) { reports++; });
  s->connect(m, m);
  bool have[5] = {};
  for (int d = 0; d < 6; d++) {
    int op = mc::choose(7, "op");
    int before[4];
    memcpy(before, called, sizeof called);
    int want = -1, want2 = -1;
    long r0 = reports;
    if (op < 5 && have[op]) mc::discard();
    if (op < 5) have[op] = true;
    switch (op) {
      case 0: s->registerHandler([&](const dap::SameRequest&) { called[0]++; return dap::BResponse(); }); break;
      case 1: s->registerHandler([&](const dap::SameEvent&) { called[1]++; }); break;
      case 2: s->registerSentHandler([&](const RoE&) { called[2]++; }); break;
      case 3: s->registerSentHandler([&](const dap::ResponseOrError<dap::BResponse>&) { called[3]++; }); break;
      case 4: s->registerHandler([&](const dap::ARequest&) { return aresp(1); }); break;
      case 5: case 6: {
        bool ev = op == 6;
        m->feedMsg(std::string("{\"seq\":5,\"type\":") + (ev ? "\"event\",\"event\":" : "\"request\",\"command\":") + "\"same\"}");
        bool ok = handle(*s);
        MC_CHECK(ok == have[ev], "the %s was %s", ev ? "event" : "request", ok ? "accepted" : "refused");
        if (ok) { want = ev; if (!ev && have[3]) want2 = 3; }
        else r0++;
        if (have[4]) {
          m->feedMsg(reqA(7, 1));
          MC_CHECK(handle(*s), "a request with a handler was refused");
          MC_CHECK(called[2] == before[2] + have[2], "the sent handler was called %d times", called[2] - before[2]);
          before[2] = called[2];
        }
        break;
      }
    }
    MC_CHECK(reports == r0, "%ld reports too many", reports - r0);
    for (int k = 0; k < 4; k++) MC_CHECK(called[k] == before[k] + (k == want || k == want2), "handler %d was called %d times", k, called[k] - before[k]);
  }
  mc::outcome(std::to_string(called[0] + called[1]));
}
