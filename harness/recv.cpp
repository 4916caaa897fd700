// C07: no incoming bytes can crash, wedge or corrupt a session.
// C08: a message reaches its handler exactly when it is valid for its type.
//
// Texts are enumerated systematically; an independent parser and decoder
// decides what has to happen.
#include "common.h"
#include "minijson.h"

#include "dap/future.h"
#include "dap/io.h"
#include "dap/protocol.h"
#include "dap/session.h"
#include "dap/typeof.h"
#include "dap/types.h"

#include <algorithm>
#include <math.h>
#include <string.h>
#include <functional>
#include <set>

namespace dap {
struct Inner {
  integer x;
  optional<string> y;
};
DAP_STRUCT_TYPEINFO(Inner, "", DAP_FIELD(x, "x"), DAP_FIELD(y, "y"));
struct FullResponse : public Response {
  optional<string> s;
  integer i;
};
DAP_STRUCT_TYPEINFO(FullResponse, "", DAP_FIELD(s, "s"), DAP_FIELD(i, "i"));
#define FULL_MEMBERS                                                           \
  boolean b;                                                                   \
  integer i;                                                                   \
  number n;                                                                    \
  string s;                                                                    \
  array<integer> a;                                                            \
  object o;                                                                    \
  any y;                                                                       \
  Inner in;                                                                    \
  array<Inner> ai;                                                             \
  variant<integer, string> v;                                                  \
  optional<boolean> ob;                                                        \
  optional<integer> oi;                                                        \
  optional<array<string>> oa;                                                  \
  optional<Inner> oin;
#define FULL_FIELDS                                                            \
  DAP_FIELD(b, "b"), DAP_FIELD(i, "i"), DAP_FIELD(n, "n"), DAP_FIELD(s, "s"),  \
      DAP_FIELD(a, "a"), DAP_FIELD(o, "o"), DAP_FIELD(y, "y"),                 \
      DAP_FIELD(in, "in"), DAP_FIELD(ai, "ai"), DAP_FIELD(v, "v"),             \
      DAP_FIELD(ob, "ob"), DAP_FIELD(oi, "oi"), DAP_FIELD(oa, "oa"),           \
      DAP_FIELD(oin, "oin")
struct FullRequest : public Request {
  using Response = FullResponse;
  FULL_MEMBERS
};
DAP_STRUCT_TYPEINFO(FullRequest, "full", FULL_FIELDS);
// Types that extend another.
struct FullEventBase : public Event {
  boolean b;
  integer i;
  number n;
  string s;
  array<integer> a;
  object o;
  any y;
};
DAP_STRUCT_TYPEINFO(FullEventBase, "fullbase", DAP_FIELD(b, "b"), DAP_FIELD(i, "i"), DAP_FIELD(n, "n"),
                    DAP_FIELD(s, "s"), DAP_FIELD(a, "a"), DAP_FIELD(o, "o"), DAP_FIELD(y, "y"));
struct FullEvent : public FullEventBase {
  Inner in;
  array<Inner> ai;
  variant<integer, string> v;
  optional<boolean> ob;
  optional<integer> oi;
  optional<array<string>> oa;
  optional<Inner> oin;
};
DAP_STRUCT_TYPEINFO_EXT(FullEvent, FullEventBase, "fullev", DAP_FIELD(in, "in"), DAP_FIELD(ai, "ai"), DAP_FIELD(v, "v"),
                        DAP_FIELD(ob, "ob"), DAP_FIELD(oi, "oi"), DAP_FIELD(oa, "oa"), DAP_FIELD(oin, "oin"));
struct OptRequestBase : public Request {
  optional<integer> oi;
};
DAP_STRUCT_TYPEINFO(OptRequestBase, "optbase", DAP_FIELD(oi, "oi"));
struct OptRequest : public OptRequestBase {
  using Response = FullResponse;
  optional<string> os;
};
DAP_STRUCT_TYPEINFO_EXT(OptRequest, OptRequestBase, "opt", DAP_FIELD(os, "os"));
struct OptEvent : public Event {
  optional<integer> oi;
  optional<Inner> oin;
};
DAP_STRUCT_TYPEINFO(OptEvent, "optev", DAP_FIELD(oi, "oi"), DAP_FIELD(oin, "oin"));
// Types whose names are N bytes long.
template <int N> struct LongRequest : public Request {
  using Response = FullResponse;
  optional<integer> oi;
};
template <int N> struct LongEvent : public Event {
  optional<integer> oi;
};
template <typename T>
struct LongTypeOf {
  static constexpr bool has_custom_serialization = true;
  static bool deserializeFields(const Deserializer* d, void* obj) { return d->field("oi", &static_cast<T*>(obj)->oi); }
  static bool serializeFields(FieldSerializer* s, const void* obj) { return s->field("oi", static_cast<const T*>(obj)->oi); }
  struct TI : BasicTypeInfo<T> {
    explicit TI(const std::string& n) : BasicTypeInfo<T>(std::string(n)) {}
    bool deserialize(const Deserializer* d, void* obj) const override { return deserializeFields(d, obj); }
    bool serialize(Serializer* s, const void* obj) const override {
      return s->object([&](FieldSerializer* fs) { return serializeFields(fs, obj); });
    }
  };
};
template <int N> struct TypeOf<LongRequest<N>> : LongTypeOf<LongRequest<N>> {
  static const TypeInfo* type() { static typename LongTypeOf<LongRequest<N>>::TI t(std::string(N, 'r')); return &t; }
};
template <int N> struct TypeOf<LongEvent<N>> : LongTypeOf<LongEvent<N>> {
  static const TypeInfo* type() { static typename LongTypeOf<LongEvent<N>>::TI t(std::string(N, 'e')); return &t; }
};
}  // namespace dap

namespace {
template <int N>
int longReg(dap::Session& s, int* hits) {
  s.registerHandler([=](const dap::LongRequest<N>& r) {
    *hits += r.oi.has_value() && int64_t(*r.oi) == 4;
    return dap::FullResponse();
  });
  s.registerHandler([=](const dap::LongEvent<N>& r) { *hits += r.oi.has_value() && int64_t(*r.oi) == 4; });
  return N;
}
using LongReg = int (*)(dap::Session&, int*);
const LongReg kLongRegs[] = {longReg<15>, longReg<16>, longReg<17>, longReg<31>, longReg<32>, longReg<33>, longReg<63>, longReg<64>, longReg<65>,
                             longReg<127>, longReg<128>, longReg<255>, longReg<256>, longReg<300>, longReg<1024>, longReg<5000>, longReg<70000>};
const int kLongRegCount = sizeof(kLongRegs) / sizeof(*kLongRegs);

using mj::Val;

// ------------------------------------------------------------- oracle
// What the decoded message must look like, as text ("-" unset optional).
enum Verdict { kNo, kYes, kEither };
Verdict both(Verdict a, Verdict b) { return a == kNo || b == kNo ? kNo : a == kEither || b == kEither ? kEither : kYes; }

bool intText(const Val& v, Verdict* d) {
  // fits int64?
  const std::string& t = v.s;
  bool neg = t[0] == '-';
  std::string digits = t.substr(neg);
  const char* lim = neg ? "9223372036854775808" : "9223372036854775807";
  if (digits.size() > 19 || (digits.size() == 19 && digits > lim)) *d = kEither;
  else *d = kYes;
  return true;
}
Verdict isInteger(const Val& v) {
  if (v.kind != Val::kNum) return kNo;
  Verdict d;
  if (v.isInt()) {
    if (v.s == "-0") return kEither;  // a float to some libraries
    intText(v, &d);
    return d;
  }
  // 1.0, 1e2: some libraries treat integral values as integers
  double x = strtod(v.s.c_str(), nullptr);
  return x == floor(x) ? kEither : kNo;
}
Verdict isNumber(const Val& v) {
  if (v.kind != Val::kNum) return kNo;
  return isinf(strtod(v.s.c_str(), nullptr)) ? kEither : kYes;
}
// A number no double can hold: a library may refuse the whole text.
bool overflows(const Val& v) {
  if (v.kind == Val::kNum && isinf(strtod(v.s.c_str(), nullptr))) return true;
  for (auto& x : v.a)
    if (overflows(x)) return true;
  for (auto& kv : v.o)
    if (overflows(kv.second)) return true;
  return false;
}
// A repeated member name: which one counts is up to the library.
bool repeats(const Val& v) {
  std::set<std::string> names;
  for (auto& kv : v.o)
    if (!names.insert(kv.first).second || repeats(kv.second)) return true;
  for (auto& x : v.a)
    if (repeats(x)) return true;
  return false;
}
Verdict hasDup(const Val& v) {
  std::set<std::string> names;
  for (auto& kv : v.o)
    if (!names.insert(kv.first).second) return kEither;
  return kYes;
}
Verdict anyOk(const Val& v) {
  Verdict r = kYes;
  if (v.kind == Val::kNum) return v.isInt() ? (isInteger(v) == kYes ? kYes : kEither) : isNumber(v);
  if (v.kind == Val::kObj) r = both(r, hasDup(v));
  for (auto& x : v.a) r = both(r, anyOk(x));
  for (auto& kv : v.o) r = both(r, anyOk(kv.second));
  return r;
}
std::string num(double d) {
  if (d == 0) d = 0;  // -0 is 0
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
std::string anyText(const Val& v) {
  switch (v.kind) {
    case Val::kNull: return "null";
    case Val::kBool: return v.b ? "true" : "false";
    case Val::kNum: return v.isInt() ? "i" + std::to_string(strtoll(v.s.c_str(), 0, 10)) : "n" + num(strtod(v.s.c_str(), 0));
    case Val::kStr: return "'" + v.s + "'";
    case Val::kArr: {
      std::string r = "[";
      for (auto& x : v.a) r += anyText(x) + ",";
      return r + "]";
    }
    default: {
      std::set<std::string> items;
      for (auto& kv : v.o) items.insert(kv.first + ":" + anyText(kv.second));
      std::string r = "{";
      for (auto& x : items) r += x + ",";
      return r + "}";
    }
  }
}
// Decoders: verdict and text.  m == nullptr: member absent.
struct Dec {
  Verdict ok;
  std::string t;
};
Dec dInt(const Val* m) {
  if (!m) return {kNo, ""};
  return {isInteger(*m), "i" + std::to_string(strtoll(m->s.c_str(), 0, 10))};
}
Dec dNum(const Val* m) {
  if (!m) return {kNo, ""};
  return {isNumber(*m), "n" + num(m->kind == Val::kNum ? strtod(m->s.c_str(), 0) : 0)};
}
Dec dBool(const Val* m) {
  if (!m || m->kind != Val::kBool) return {kNo, ""};
  return {kYes, m->b ? "true" : "false"};
}
Dec dStr(const Val* m) {
  if (!m || m->kind != Val::kStr) return {kNo, ""};
  return {kYes, "'" + m->s + "'"};
}
Dec dAny(const Val* m) {
  if (!m) return {kNo, ""};
  return {anyOk(*m), anyText(*m)};
}
Dec dObj(const Val* m) {
  if (!m || m->kind != Val::kObj) return {kNo, ""};
  return {anyOk(*m), anyText(*m)};
}
Dec dArr(const Val* m, Dec (*el)(const Val*)) {
  if (!m || m->kind != Val::kArr) return {kNo, ""};
  Dec r{kYes, "["};
  for (auto& x : m->a) {
    Dec d = el(&x);
    r.ok = both(r.ok, d.ok);
    r.t += d.t + ",";
  }
  r.t += "]";
  return r;
}
Dec dOpt(Dec d) {
  if (d.ok == kNo) return {kYes, "-"};
  return d;
}
Dec dInner(const Val* m) {
  if (!m || m->kind != Val::kObj) return {kNo, ""};
  Dec x = dInt(m->get("x")), y = dOpt(dStr(m->get("y")));
  return {both(both(x.ok, y.ok), hasDup(*m)), "(" + x.t + " " + y.t + ")"};
}
Dec dVar(const Val* m) {
  if (!m) return {kNo, ""};
  if (m->kind == Val::kStr) return dStr(m);
  return dInt(m);
}
Dec dFull(const Val* m) {
  if (!m) return {kNo, ""};
  if (m->kind != Val::kObj) return {kNo, ""};
  Dec p[] = {dBool(m->get("b")), dInt(m->get("i")), dNum(m->get("n")), dStr(m->get("s")),
             dArr(m->get("a"), dInt), dObj(m->get("o")), dAny(m->get("y")), dInner(m->get("in")),
             dArr(m->get("ai"), dInner), dVar(m->get("v")), dOpt(dBool(m->get("ob"))),
             dOpt(dInt(m->get("oi"))), dOpt(dArr(m->get("oa"), dStr)), dOpt(dInner(m->get("oin")))};
  Dec r{hasDup(*m), ""};
  for (auto& d : p) {
    r.ok = both(r.ok, d.ok);
    r.t += d.t + " ";
  }
  return r;
}
Dec objectOrAbsent(const Val* m) {
  if (!m) return {kYes, ""};
  if (m->kind == Val::kNull) return {kEither, ""};
  if (m->kind != Val::kObj) return {kNo, ""};
  return {hasDup(*m), ""};
}
Dec dOptReq(const Val* m) {
  Dec o = objectOrAbsent(m);
  if (o.ok == kNo) return o;
  Dec a = dOpt(dInt(m ? m->get("oi") : nullptr)), b = dOpt(dStr(m ? m->get("os") : nullptr));
  return {both(o.ok, both(a.ok, b.ok)), a.t + " " + b.t};
}
Dec dOptEv(const Val* m) {
  Dec o = objectOrAbsent(m);
  if (o.ok == kNo) return o;
  Dec a = dOpt(dInt(m ? m->get("oi") : nullptr)), b = dOpt(dInner(m ? m->get("oin") : nullptr));
  return {both(o.ok, both(a.ok, b.ok)), a.t + " " + b.t};
}

// ------------------------------------------------- what handlers received
std::string tInt(const dap::integer& v) { return "i" + std::to_string(int64_t(v)); }
std::string tStr(const dap::string& v) { return "'" + v + "'"; }
std::string tBool(const dap::boolean& v) { return v ? "true" : "false"; }
std::string tAny(const dap::any& v);
std::string tObj(const dap::object& o) {
  std::set<std::string> items;
  for (auto& kv : o) items.insert(kv.first + ":" + tAny(kv.second));
  std::string r = "{";
  for (auto& x : items) r += x + ",";
  return r + "}";
}
std::string tAny(const dap::any& v) {
  if (v.is<dap::boolean>()) return tBool(v.get<dap::boolean>());
  if (v.is<dap::integer>()) return tInt(v.get<dap::integer>());
  if (v.is<dap::number>()) return "n" + num(v.get<dap::number>());
  if (v.is<dap::string>()) return tStr(v.get<dap::string>());
  if (v.is<dap::object>()) return tObj(v.get<dap::object>());
  if (v.is<dap::array<dap::any>>()) {
    std::string r = "[";
    for (auto& x : v.get<dap::array<dap::any>>()) r += tAny(x) + ",";
    return r + "]";
  }
  if (v.is<dap::null>()) return "null";
  return "?";
}
std::string tInner(const dap::Inner& i) { return "(" + tInt(i.x) + " " + (i.y.has_value() ? tStr(*i.y) : "-") + ")"; }
template <typename T>
std::string tFull(const T& r) {
  std::string o = tBool(r.b) + " " + tInt(r.i) + " n" + num(r.n) + " " + tStr(r.s) + " [";
  for (auto& x : r.a) o += tInt(x) + ",";
  o += "] " + tObj(r.o) + " " + tAny(r.y) + " " + tInner(r.in) + " [";
  for (auto& x : r.ai) o += tInner(x) + ",";
  o += "] ";
  int held = (r.v.template is<dap::integer>() ? 1 : 0) + (r.v.template is<dap::string>() ? 1 : 0);
  if (held != 1) mc::fail("a variant holds none of its alternatives");
  o += r.v.template is<dap::integer>() ? tInt(r.v.template get<dap::integer>()) : tStr(r.v.template get<dap::string>());
  o += " " + (r.ob.has_value() ? tBool(*r.ob) : std::string("-")) + " " + (r.oi.has_value() ? tInt(*r.oi) : std::string("-")) + " ";
  if (r.oa.has_value()) {
    o += "[";
    for (auto& x : *r.oa) o += tStr(x) + ",";
    o += "]";
  } else {
    o += "-";
  }
  return o + " " + (r.oin.has_value() ? tInner(*r.oin) : std::string("-")) + " ";
}

// ------------------------------------------------------------- endpoint
class Mem : public dap::ReaderWriter {
 public:
  std::string in, out;
  size_t pos = 0;
  size_t chunk = ~size_t(0);
  bool open = true;
  bool isOpen() override { return open; }
  void close() override { open = false; }
  size_t read(void* b, size_t n) override {
    size_t m = in.size() - pos;
    if (m > n) m = n;
    if (m > chunk) m = chunk;
    memcpy(b, in.data() + pos, m);
    pos += m;
    return m;
  }
  bool write(const void* b, size_t n) override {
    if (!open) return false;
    out.append((const char*)b, n);
    return true;
  }
};
std::string frame(const std::string& j) { return "Content-Length: " + std::to_string(j.size()) + "\r\n\r\n" + j; }

using Fut = dap::future<dap::ResponseOrError<dap::FullResponse>>;
struct Rig {
  std::shared_ptr<Mem> mem = std::make_shared<Mem>();
  std::unique_ptr<dap::Session> s = dap::Session::create();
  std::vector<std::string> handled;
  int errors = 0;
  std::string lastError;
  std::vector<Fut> fut;
  long long seq[2];
  Rig(bool withErrorHandler = true) {
    if (withErrorHandler) s->onError([this](const char* m) {
      if (!m || !*m) mc::fail("error handler called without a message");
      errors++;
      lastError = m;
    });
    s->registerHandler([this](const dap::FullRequest& r) {
      handled.push_back("full " + tFull(r));
      dap::FullResponse o;
      o.i = 1;
      return o;
    });
    s->registerHandler([this](const dap::OptRequest& r) {
      handled.push_back("opt " + (r.oi.has_value() ? tInt(*r.oi) : std::string("-")) + " " + (r.os.has_value() ? tStr(*r.os) : std::string("-")));
      return dap::FullResponse();
    });
    s->registerHandler([this](const dap::FullEvent& r) { handled.push_back("fullev " + tFull(r)); });
    s->registerHandler([this](const dap::OptEvent& r) {
      handled.push_back("optev " + (r.oi.has_value() ? tInt(*r.oi) : std::string("-")) + " " + (r.oin.has_value() ? tInner(*r.oin) : std::string("-")));
    });
    s->connect(mem, mem);
    for (int k = 0; k < 2; k++) {
      size_t at = mem->out.size();
      dap::OptRequest r;
      fut.push_back(s->send(r));
      size_t p = mem->out.find("\r\n\r\n", at);
      Val v;
      if (p == std::string::npos || !mj::parse(mem->out.substr(p + 4), &v)) mc::fail("request not sent");
      seq[k] = v.num("seq");
    }
    mem->out.clear();
  }
  bool ready(int k) { return fut[k].wait_for(std::chrono::seconds(0)) == dap::future_status::ready; }
  // Receives one framed text; runs the payload.
  bool receive(const std::string& text) {
    mem->in = frame(text);
    mem->pos = 0;
    auto p = s->getPayload();
    if (p) p();
    return bool(p);
  }
};

// Checks the reaction to one text, and that the session works as before.
void expect(Rig& g, const std::string& text) {
  size_t h0 = g.handled.size();
  int e0 = g.errors;
  bool r0[2] = {g.ready(0), g.ready(1)};
  bool payload = g.receive(text);
  size_t handled = g.handled.size() - h0;
  int errors = g.errors - e0;
  int resolved = 0, which = -1;
  for (int k = 0; k < 2; k++)
    if (g.ready(k) && !r0[k]) resolved++, which = k;
  if (handled > 1 || resolved > 1 || handled + resolved > 1) mc::fail("one message had several effects: %.300s", text.c_str());
  if (payload != (handled == 1)) mc::fail("payload without handler call or the reverse: %.300s", text.c_str());
  if (!g.mem->open) mc::fail("the endpoint was closed by: %.300s", text.c_str());

  Val v;
  bool valid = mj::parse(text, &v);
  Verdict want = kNo;          // handler runs / request resolves
  std::string wantText;
  int wantResolve = -1;
  if (!valid) {
    // Text that is not JSON is refused, except for what the library at hand
    // is known to tolerate; it must then be reported or have one effect.
    auto f = mj::fault(text);
#if defined(CPPDAP_JSON_NLOHMANN)
    bool tolerated = f == mj::kNul;
#elif defined(CPPDAP_JSON_RAPID)
    bool tolerated = f == mj::kNul || f == mj::kBytes;
#else
    bool tolerated = f != mj::kExtra;
#endif
    if (!tolerated && (handled || resolved)) mc::fail("text that is not JSON was accepted: %.400s", text.c_str());
    if (!tolerated && errors == 0) mc::fail("text that is not JSON was not reported: %.400s", text.c_str());
    if (errors == 0 && handled == 0 && resolved == 0) mc::fail("invalid JSON had no effect and was not reported: %.300s", text.c_str());
    if (errors > 0 && handled) mc::fail("reported and handled: %.300s", text.c_str());
    mc::outcome(handled ? "lenient" : "refused");
    return;
  }
  if (repeats(v)) {
    if (errors == 0 && handled == 0 && resolved == 0) mc::fail("neither handled nor reported: %.400s", text.c_str());
    mc::outcome(handled ? "handled+" : "refused+");
    return;
  }
  if (v.kind == Val::kObj) {
    const Val* type = v.get("type");
    const Val* sq = v.get("seq");
    want = hasDup(v);
    if (overflows(v)) want = both(want, kEither);
    if (!type || type->kind != Val::kStr) want = kNo;
    want = both(want, sq ? isInteger(*sq) : kNo);
    if (want != kNo) {
      if (type->s == "request" || type->s == "event") {
        bool rq = type->s == "request";
        const Val* name = v.get(rq ? "command" : "event");
        const Val* body = v.get(rq ? "arguments" : "body");
        Dec d{kNo, ""};
        std::string n = name && name->kind == Val::kStr ? name->s : "";
        if (rq && n == "full") d = dFull(body);
        else if (rq && n == "opt") d = dOptReq(body);
        else if (!rq && n == "fullev") d = dFull(body);
        else if (!rq && n == "optev") d = dOptEv(body);
        want = both(want, d.ok);
        wantText = n + " " + d.t;
      } else if (type->s == "response") {
        const Val* rs = v.get("request_seq");
        want = both(want, rs ? isInteger(*rs) : kNo);
        if (want != kNo) {
          long long q = strtoll(rs->s.c_str(), 0, 10);
          int k = q == g.seq[0] ? 0 : q == g.seq[1] ? 1 : -1;
          if (want == kYes && k >= 0 && !r0[k]) wantResolve = k;
          else if (want == kYes) want = kNo;
        }
      } else {
        want = kNo;
      }
    }
  }
  if (want == kNo && wantResolve < 0) {
    if (handled) mc::fail("a handler ran for a message that is not valid: %.400s", text.c_str());
    if (resolved) mc::fail("a request was resolved by a message that does not answer it: %.400s", text.c_str());
    if (errors == 0) mc::fail("a malformed message was not reported: %.400s", text.c_str());
    mc::outcome("refused");
  } else if (wantResolve >= 0) {
    if (which != wantResolve) mc::fail("the response did not resolve its request: %.400s", text.c_str());
    auto r = g.fut[which].get();
    const Val* ok = v.get("success");
    const Val* m = v.get("message");
    const Val* b = v.get("body");
    if (!ok || ok->kind != Val::kBool) {
      if (!r.error || errors == 0) mc::fail("a response without success is not an error: %.400s", text.c_str());
    } else if (!ok->b) {
      if (!r.error) mc::fail("a failure response is not an error outcome: %.400s", text.c_str());
      if (m && m->kind == Val::kStr && !m->s.empty() && r.error.message != m->s) mc::fail("error message changed: %.400s", text.c_str());
    } else if (!b) {
      if (r.error) mc::fail("a response without body is an error: %.400s", text.c_str());
    } else {
      Dec i = b->kind == Val::kObj ? dInt(b->get("i")) : Dec{kNo, ""};
      Verdict bv = b->kind == Val::kObj ? both(i.ok, hasDup(*b)) : b->kind == Val::kNull ? kEither : kNo;
      if (bv == kYes && (r.error || tInt(r.response.i) != i.t)) mc::fail("a valid response arrived changed or as an error: %.400s", text.c_str());
      if (bv == kNo && (!r.error || errors == 0)) mc::fail("a malformed response is not an error: %.400s", text.c_str());
    }
    mc::outcome("response");
  } else if (want == kYes) {
    if (handled != 1) mc::fail("a valid message was not handled (%s): %.400s", g.lastError.c_str(), text.c_str());
    if (g.handled.back() != wantText) mc::fail("handled with other values: got '%.300s', expected '%.300s' for %.300s", g.handled.back().c_str(), wantText.c_str(), text.c_str());
    if (errors) mc::fail("an error was reported for a valid message: %.400s", text.c_str());
    mc::outcome("handled");
  } else {
    if (errors == 0 && handled == 0 && resolved == 0) mc::fail("neither handled nor reported: %.400s", text.c_str());
    mc::outcome(handled ? "handled*" : "refused*");
  }
}
const char* kOptReq = "{\"seq\":7,\"type\":\"request\",\"command\":\"opt\",\"arguments\":{\"oi\":5,\"os\":\"x\"}}";
const char* kOptEv = "{\"seq\":7,\"type\":\"event\",\"event\":\"optev\",\"body\":{\"oi\":6,\"oin\":{\"x\":1}}}";
// The session still works, and earlier effects do not linger.
void stillWorks(Rig& g) {
  size_t h = g.handled.size();
  int e = g.errors;
  if (!g.receive(kOptReq) || g.handled.size() != h + 1 || g.handled.back() != "opt i5 'x'") mc::fail("a valid request is not handled any more");
  if (!g.receive(kOptEv) || g.handled.size() != h + 2 || g.handled.back() != "optev i6 (i1 -)") mc::fail("a valid event is not handled any more");
  if (g.errors != e) mc::fail("error '%s' reported for a valid message", g.lastError.c_str());
  for (int k = 0; k < 2; k++)
    if (!g.ready(k)) {
      g.receive("{\"seq\":8,\"type\":\"response\",\"command\":\"opt\",\"success\":true,\"request_seq\":" + std::to_string(g.seq[k]) + ",\"body\":{\"i\":" + std::to_string(60 + k) + "}}");
      if (!g.ready(k)) mc::fail("a response is not delivered any more");
      auto r = g.fut[k].get();
      if (r.error || int(r.response.i) != 60 + k) mc::fail("a response is delivered wrongly");
    }
}
void one(const std::string& text) {
  Rig g;
  expect(g, text);
  stillWorks(g);
}

// ------------------------------------------------------ message templates
const char* kBody =
    "{\"b\":true,\"i\":-5,\"n\":1.5,\"s\":\"t\\u0041\",\"a\":[1,2],\"o\":{\"k\":[1,{\"z\":null}],\"l\":false},\"y\":{\"q\":[]},"
    "\"in\":{\"x\":3,\"y\":\"w\"},\"ai\":[{\"x\":4},{\"x\":5,\"y\":\"\"}],\"v\":\"vs\",\"ob\":false,\"oi\":9,\"oa\":[\"p\",\"q\"],\"oin\":{\"x\":6}}";
const char* kBodyMin =
    "{\"b\":false,\"i\":0,\"n\":2,\"s\":\"\",\"a\":[],\"o\":{},\"y\":null,\"in\":{\"x\":0},\"ai\":[],\"v\":12}";
const int kTemplates = 9;
std::string tmpl(int k) {
  switch (k) {
    case 0: return std::string("{\"seq\":3,\"type\":\"request\",\"command\":\"full\",\"arguments\":") + kBody + "}";
    case 1: return std::string("{\"seq\":3,\"type\":\"request\",\"command\":\"full\",\"arguments\":") + kBodyMin + "}";
    case 2: return std::string("{\"seq\":3,\"type\":\"event\",\"event\":\"fullev\",\"body\":") + kBody + "}";
    case 3: return kOptReq;
    case 4: return kOptEv;
    case 5: return "{\"seq\":4,\"type\":\"request\",\"command\":\"opt\"}";
    case 6: return "{\"seq\":4,\"type\":\"event\",\"event\":\"optev\"}";
    case 7: return "{\"seq\":5,\"type\":\"response\",\"command\":\"opt\",\"success\":true,\"request_seq\":1,\"body\":{\"i\":8,\"s\":\"a longer text than fits in place\"}}";
    default: return "{\"seq\":5,\"type\":\"response\",\"command\":\"opt\",\"success\":false,\"request_seq\":2,\"message\":\"bad\"}";
  }
}
std::string dump(const Val& v) {
  switch (v.kind) {
    case Val::kNull: return "null";
    case Val::kBool: return v.b ? "true" : "false";
    case Val::kNum: return v.s;
    case Val::kStr: {
      std::string o = "\"";
      for (char c : v.s) {
        if (c == '"' || c == '\\') o += '\\';
        if ((unsigned char)c < 0x20) {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", c);
          o += b;
        } else o += c;
      }
      return o + "\"";
    }
    case Val::kArr: {
      std::string r = "[";
      for (size_t i = 0; i < v.a.size(); i++) r += (i ? "," : "") + dump(v.a[i]);
      return r + "]";
    }
    default: {
      std::string r = "{";
      for (size_t i = 0; i < v.o.size(); i++) {
        Val n;
        n.kind = Val::kStr;
        n.s = v.o[i].first;
        r += (i ? "," : "") + dump(n) + ":" + dump(v.o[i].second);
      }
      return r + "}";
    }
  }
}
const char* kValues[] = {"null", "true", "false", "0", "-1", "1", "2", "7.25", "1e2", "9223372036854775807", "9223372036854775808",
                         "-9223372036854775808", "18446744073709551616", "1e400", "\"\"", "\"request\"", "\"event\"", "\"response\"", "\"full\"",
                         "\"optev\"", "\"12\"", "[]", "[1]", "[\"x\"]", "[null,{}]", "[[1]]", "{}", "{\"x\":1}", "{\"x\":\"1\"}", "{\"i\":[]}", "-0", "1.0", "-0.0"};
const int kNValues = sizeof(kValues) / sizeof(*kValues);
// All nodes of a tree, outermost first.
void nodes(Val* v, std::vector<Val*>* out) {
  out->push_back(v);
  for (auto& x : v->a) nodes(&x, out);
  for (auto& kv : v->o) nodes(&kv.second, out);
}
void mutate(Val* root) {
  std::vector<Val*> ns;
  nodes(root, &ns);
  Val* t = ns[mc::choose((int)ns.size(), "node")];
  int op = mc::choose(5, "mutation");
  if (op == 0) {
    Val n;
    if (!mj::parse(kValues[mc::choose(kNValues, "value")], &n)) mc::fail("value");
    *t = n;
  } else {
    int size = (int)(t->o.size() + t->a.size());
    if (size == 0 && op != 3) mc::discard();
    if (op == 3) {  // an unknown member or another element, first or last
      Val n;
      if (!mj::parse(kValues[mc::choose(kNValues, "value")], &n)) mc::fail("value");
      bool front = mc::choose(2, "front");
      if (t->kind == Val::kObj) t->o.insert(front ? t->o.begin() : t->o.end(), std::make_pair(std::string("extra"), n));
      else if (t->kind == Val::kArr) t->a.insert(front ? t->a.begin() : t->a.end(), n);
      else mc::discard();
      return;
    }
    int k = mc::choose(size, "member");
    if (t->kind == Val::kObj) {
      if (op == 1) t->o.erase(t->o.begin() + k);
      if (op == 2) t->o[k].first += "x";
      if (op == 4) t->o.push_back(t->o[k]);
    } else {
      if (op == 1) t->a.erase(t->a.begin() + k);
      if (op == 2) mc::discard();
      if (op == 4) t->a.push_back(t->a[k]);
    }
  }
}
}  // namespace

// Every node of every message replaced by every kind of value, removed,
// renamed, repeated; extra members.
MC_SCENARIO(c08_one_mutation, pb(0), pb(0)) {
  Val v;
  if (!mj::parse(tmpl(mc::choose(kTemplates, "template")), &v)) mc::fail("template");
  if (mc::choose(2, "mutate")) mutate(&v);
  one(dump(v));
}
// Very many members that the type does not declare.
MC_SCENARIO(c08_many_members, pb(0), pb(0)) {
  Val v, x;
  if (!mj::parse(tmpl(mc::choose(kTemplates, "template")), &v)) mc::fail("template");
  static const int counts[] = {15, 63, 64, 65, 255, 256, 300, 1100};
  int n = counts[mc::choose(8, "members")];
  static const char* values[] = {"0", "null", "[{\"x\":\"y\"}]"};
  if (!mj::parse(values[mc::choose(3, "value")], &x)) mc::fail("value");
  Val* t = &v;
  if (mc::choose(2, "inner")) {
    t = nullptr;
    for (auto& kv : v.o)
      if (kv.second.kind == Val::kObj) t = &kv.second;
    if (!t) mc::discard();
  }
  std::vector<std::pair<std::string, Val>> extra;
  for (int k = 0; k < n; k++) extra.emplace_back("extra" + std::to_string(k), x);
  size_t at = mc::choose(2, "front") ? 0 : t->o.size();
  t->o.insert(t->o.begin() + at, extra.begin(), extra.end());
  one(dump(v));
}
// Very large contents, all of it valid or with one wrong element.
MC_SCENARIO(c08_large_contents, pb(0), pb(0)) {
  Val v;
  bool ev = mc::choose(2, "event");
  if (!mj::parse(kBody, &v)) mc::fail("template");
  static const int counts[] = {0, 255, 256, 257, 4096, 65535, 65536, 70000};
  int n = counts[mc::choose(8, "elements")];
  static const char* members[] = {"a", "ai", "oa", "o", "s", "y"};
  int m = mc::choose(6, "member");
  if (m == 3 && n > 4096) mc::discard();
  int bad = m == 4 || m == 5 ? 0 : mc::choose(4, "bad");  // none, first, middle, last
  if (bad && n == 0) mc::discard();
  std::string text = m == 3 ? "{" : m == 4 ? "\"" : "[";
  for (int k = 0; k < n; k++) {
    if (m == 4) {
      text += char('a' + k % 26);
      continue;
    }
    if (k) text += ",";
    bool b = bad && k == (bad == 1 ? 0 : bad == 2 ? n / 2 : n - 1);
    std::string num = std::to_string(k);
    switch (m) {
      case 0: case 5: text += b ? "\"x\"" : num; break;
      case 1: text += b ? "{}" : "{\"x\":" + num + "}"; break;
      case 2: text += b ? num : "\"" + num + "\""; break;
      case 3: text += "\"k" + num + "\":" + (b ? "[{}]" : num); break;
    }
  }
  text += m == 3 ? "}" : m == 4 ? "\"" : "]";
  for (auto& kv : v.o)
    if (kv.first == members[m] && !mj::parse(text, &kv.second)) mc::fail("contents");
  one(std::string("{\"seq\":3,\"type\":") + (ev ? "\"event\",\"event\":\"fullev\",\"body\":" : "\"request\",\"command\":\"full\",\"arguments\":") + dump(v) + "}");
}
// Types with long names.
MC_SCENARIO(c08_long_names, pb(0), pb(0)) {
  Rig g;
  int hits = 0;
  int len = kLongRegs[mc::choose(kLongRegCount, "length")](*g.s, &hits);
  bool ev = mc::choose(2, "event");
  auto text = [&](const std::string& name) {
    return std::string("{\"seq\":3,\"type\":") + (ev ? "\"event\",\"event\":\"" : "\"request\",\"command\":\"") + name + (ev ? "\",\"body\":" : "\",\"arguments\":") + "{\"oi\":4}}";
  };
  std::string name(len, ev ? 'e' : 'r');
  if (!g.receive(text(name)) || hits != 1 || g.errors) mc::fail("a message with a name of %d bytes is not handled", len);
  // one byte more, less or different
  std::string near = name;
  switch (mc::choose(4, "near")) {
    case 0: near += near[0]; break;
    case 1: near.pop_back(); break;
    case 2: near.back()++; break;
    case 3: near[near.size() / 2]++; break;
  }
  if (g.receive(text(near)) || hits != 1 || g.errors != 1) mc::fail("a message with another name of %zu bytes reached the handler of a name of %d bytes", near.size(), len);
  stillWorks(g);
}
// Names and member names that are almost right.
MC_SCENARIO(c08_near_names, pb(0), pb(0)) {
  Val v;
  if (!mj::parse(tmpl(mc::choose(kTemplates, "template")), &v)) mc::fail("template");
  std::vector<std::string*> names;
  for (auto& kv : v.o) {
    names.push_back(&kv.first);
    if (kv.second.kind == Val::kStr) names.push_back(&kv.second.s);
    for (auto& in : kv.second.o) names.push_back(&in.first);
  }
  std::string& n = *names[mc::choose((int)names.size(), "name")];
  switch (mc::choose(14, "change")) {
    case 0: n += "x"; break;
    case 1: n = "x" + n; break;
    case 2: n.resize(n.size() - 1); break;
    case 3: n.erase(0, 1); break;
    case 4: n[0] = toupper(n[0]); break;
    case 5: for (auto& c : n) c = toupper(c); break;
    case 6: n += " "; break;
    case 7: n = " " + n; break;
    case 8: n += std::string(1, '\0'); break;
    case 9: n += std::string("\0tail", 5); break;
    case 10: n += n; break;
    case 11: n[n.size() - 1]++; break;
    case 12: n = ""; break;
    case 13: n.insert(n.size() / 2, "_"); break;
  }
  one(dump(v));
}
// Two mutations of the smaller messages.
MC_SCENARIO(c08_two_mutations, pb(0), pb(0)) {
  Val v;
  static const int t[] = {5, 6, 3, 8, 4, 7};
  if (!mj::parse(tmpl(t[mc::choose(mc::thorough() ? 6 : 2, "template")]), &v)) mc::fail("template");
  mutate(&v);
  mutate(&v);
  one(dump(v));
}
// Every subset of the members of a message, in two orders.
MC_SCENARIO(c08_member_subsets, pb(0), pb(0)) {
  Val v;
  int t = mc::choose(kTemplates, "template");
  if (!mj::parse(tmpl(t), &v)) mc::fail("template");
  Val r;
  r.kind = Val::kObj;
  bool rev = mc::choose(2, "reversed");
  for (auto& kv : v.o)
    if (mc::choose(2, kv.first.c_str())) r.o.insert(rev ? r.o.begin() : r.o.end(), kv);
  one(dump(r));
}
// Every subset of the members of the decoded structure (required ones: at most
// three missing).
MC_SCENARIO(c08_field_subsets, pb(0), pb(0)) {
  Val v, r;
  bool ev = mc::choose(2, "event");
  if (!mj::parse(kBody, &v)) mc::fail("template");
  r.kind = Val::kObj;
  bool rev = mc::choose(2, "reversed");
  int missing = 0, max = mc::thorough() ? 4 : 2;
  for (auto& kv : v.o) {
    bool keep = missing >= max && kv.first[0] != 'o' ? true : mc::choose(2, kv.first.c_str()) == 0;
    if (!keep && kv.first[0] != 'o') missing++;
    if (keep) r.o.insert(rev ? r.o.begin() : r.o.end(), kv);
  }
  one(std::string("{\"seq\":3,\"type\":") + (ev ? "\"event\",\"event\":\"fullev\",\"body\":" : "\"request\",\"command\":\"full\",\"arguments\":") + dump(r) + "}");
}
// A member that belongs to another kind of message is unknown in this one.
MC_SCENARIO(c08_other_members, pb(0), pb(0)) {
  Val v, x;
  if (!mj::parse(tmpl(mc::choose(kTemplates, "template")), &v)) mc::fail("template");
  static const char* names[] = {"seq", "type", "command", "event", "arguments", "body", "request_seq", "success", "message", "error", "id", "name", ""};
  static const char* values[] = {"null", "false", "true", "0", "1", "\"\"", "\"cancelled\"", "\"notStopped\"", "\"optev\"", "\"opt\"", "{}", "{\"oi\":9}", "{\"i\":9}", "[]"};
  std::string n = names[mc::choose(13, "name")];
  for (auto& kv : v.o)
    if (kv.first == n) mc::discard();
  if (!mj::parse(values[mc::choose(14, "value")], &x)) mc::fail("value");
  v.o.insert(mc::choose(2, "front") ? v.o.begin() : v.o.end(), std::make_pair(n, x));
  one(dump(v));
}
// Histories of several messages on one session.
MC_SCENARIO(c08_histories, pb(0), pb(0)) {
  Rig g;
  int depth = mc::thorough() ? 4 : 3;
  for (int d = 0; d < depth; d++) {
    static const char* bad[] = {"", "{", "[]", "null", "{\"seq\":1,\"type\":\"event\",\"event\":\"nope\"}",
                                "{\"seq\":1,\"type\":\"request\",\"command\":\"full\",\"arguments\":{\"b\":true}}",
                                "{\"seq\":1,\"type\":\"response\",\"request_seq\":77,\"success\":true}",
                                "{\"seq\":1,\"type\":\"response\",\"request_seq\":1,\"success\":true,\"body\":{\"i\":[]}}"};
    int k = mc::choose(kTemplates + 7, "message");
    expect(g, k < kTemplates ? tmpl(k) : bad[k - kTemplates + 1]);
  }
  stillWorks(g);
}

// ------------------------------------------------------------------ C07
// Every truncation, removal, substitution and insertion of one byte.
MC_SCENARIO(c07_byte_mutations, pb(0), pb(0)) {
  std::string t = tmpl(mc::choose(kTemplates, "template"));
  int p = mc::choose((int)t.size(), "position");
  static const unsigned char kBytes[] = {'"', '\\', '{', '}', '[', ']', ',', ':', '0', '-', 'e', '.', ' ', 0, 0x1f, 0x80, 0xc3, 0xff, 'n', 'u', '/'};
  int nb = mc::thorough() ? 256 : (int)sizeof(kBytes);
  int op = mc::choose(4, "op");
  if (op == 0) t.resize(p);
  if (op == 1) t.erase(p, 1);
  if (op >= 2) {
    int b = mc::choose(nb, "byte");
    char c = mc::thorough() ? char(b) : char(kBytes[b]);
    if (op == 2) t[p] = c;
    else t.insert(p, 1, c);
  }
  if (t.empty()) mc::discard();
  one(t);
}
// Text before and after a message.
std::string surrounded() {
  static const std::string junk[] = {"", " ", "\t\r\n ", "x", "}", "]", ",", ":", "1", "\"", "\"\"", "null", "{}", "[]", "{\"a\":1}", "/**/", "//", "#",
                                     "'", ";", "\\", "-", std::string("\0", 1), std::string("\0x", 2), "\x0b", "\x7f", "\xff"};
  const int n = sizeof(junk) / sizeof(*junk);
  std::string t = tmpl(mc::choose(kTemplates, "template"));
  if (mc::choose(2, "before")) return junk[mc::choose(n, "junk")] + t;
  int k = mc::choose(n + kTemplates, "junk");
  return t + (k < n ? junk[k] : tmpl(k - n));
}
// Without an error handler a message has the same effects, and no others.
MC_SCENARIO(c07_no_error_handler, pb(0), pb(0)) {
  std::string t;
  int k = mc::choose(3, "kind");
  if (k == 0) {
    t = tmpl(mc::choose(kTemplates, "template"));
    t.resize(mc::choose((int)t.size(), "length"));
    if (t.empty()) mc::discard();
  } else if (k == 1) {
    Val v;
    if (!mj::parse(tmpl(mc::choose(kTemplates, "template")), &v)) mc::fail("template");
    mutate(&v);
    t = dump(v);
  } else {
    t = surrounded();
  }
  Rig a, b(false);
  bool pa = a.receive(t), pb = b.receive(t);
  if (pa != pb || a.handled != b.handled || a.ready(0) != b.ready(0) || a.ready(1) != b.ready(1))
    mc::fail("without an error handler the effect is another one: %.300s", t.c_str());
  stillWorks(b);
  mc::outcome(pa ? "handled" : "refused");
}
MC_SCENARIO(c07_surrounded, pb(0), pb(0)) { one(surrounded()); }
MC_SCENARIO(c08_surrounded, pb(0), pb(0)) { one(surrounded()); }
// Things that look like comments, at every position.
MC_SCENARIO(c07_comments, pb(0), pb(0)) {
  static const char* c[] = {"/**/", "//\n", "/*x*/ ", "#\n", "/*", "<!---->"};
  std::string t = tmpl(mc::choose(kTemplates, "template"));
  t.insert(mc::choose((int)t.size() + 1, "position"), c[mc::choose(mc::thorough() ? 6 : 2, "comment")]);
  one(t);
}
// Every node of every message replaced by every kind of value, removed,
// renamed or repeated.
MC_SCENARIO(c07_value_mutations, pb(0), pb(0)) {
  Val v;
  if (!mj::parse(tmpl(mc::choose(kTemplates, "template")), &v)) mc::fail("template");
  mutate(&v);
  one(dump(v));
}
// All short sequences of JSON tokens.
MC_SCENARIO(c07_token_sequences, pb(0), pb(0)) {
  static const char* tok[] = {"{", "}", "[", "]", ",", ":", "\"seq\"", "\"type\"", "1", "\"request\"", "null", "\"", "-", "tru"};
  int n = 1 + mc::choose(mc::thorough() ? 5 : 4, "length");
  std::string t;
  for (int i = 0; i < n; i++) t += tok[mc::choose(14, "token")];
  Rig g;
  expect(g, t);
  stillWorks(g);
}
// Deep nesting, in every place where a value can be.
MC_SCENARIO(c07_deep_nesting, pb(0), pb(0)) {
  static const int depths[] = {400, 511, 512, 513, 1000, 1001, 5000, 200000};
  int d = depths[mc::choose(mc::thorough() ? 8 : 8, "depth")];
  int kind = mc::choose(5, "kind");
  std::string open, close;
  for (int i = 0; i < d; i++) {
    bool arr = kind == 0 || kind == 3 || (kind == 2 && i % 2);
    open += arr ? "[" : "{\"a\":";
    if (kind < 3) close.insert(close.end(), 1, arr ? ']' : '}');
  }
  if (kind == 4) open.resize(open.size() - 5), open += "[";
  if (kind == 2) std::reverse(close.begin(), close.end());
  std::string deep = open + (kind < 3 ? "1" : "") + close;
  std::string t;
  switch (mc::choose(6, "place")) {
    case 0: t = deep; break;
    case 1: t = "{\"seq\":1,\"type\":\"request\",\"command\":\"opt\",\"arguments\":" + deep + "}"; break;
    case 2: t = "{\"seq\":1,\"type\":\"request\",\"command\":\"opt\",\"arguments\":{\"unknown\":" + deep + "}}"; break;
    case 3: t = std::string("{\"seq\":1,\"type\":\"event\",\"event\":\"fullev\",\"body\":") + kBodyMin; t.resize(t.size() - 1); t += ",\"y\":" + deep + "}}"; break;
    case 4: t = "{\"seq\":" + deep + ",\"type\":\"event\"}"; break;
    case 5: t = "{\"seq\":1,\"type\":\"event\",\"event\":\"optev\",\"x\":\"" + std::string(d, '[') + "\"}"; break;
  }
  Rig g;
  size_t h = g.handled.size();
  int e = g.errors;
  g.receive(t);
  if (g.handled.size() + g.errors == h + e) mc::fail("neither handled nor reported: nesting %d", d);
  stillWorks(g);
  mc::outcome(std::to_string(d) + (g.errors > e ? "e" : "h"));
}
// Scalars at and beyond every limit, in every numeric member.
MC_SCENARIO(c07_numbers, pb(0), pb(0)) {
  static const char* nums[] = {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615",
                               "18446744073709551616", "4294967296", "-4294967297", "2147483648", "1e308", "1e309", "-1e309", "1e-400", "0.1", "-0",
                               "100000000000000000000000000000000000000000000000000000", "1E+2", "01", "+1", ".5", "5.", "0x10", "NaN", "Infinity", "--1", "1e", "1e5000"};
  int k = mc::choose(27, "number");
  std::string n = nums[k];
  std::string t;
  switch (mc::choose(6, "place")) {
    case 0: t = "{\"seq\":" + n + ",\"type\":\"request\",\"command\":\"opt\"}"; break;
    case 1: t = "{\"seq\":1,\"type\":\"response\",\"success\":true,\"request_seq\":" + n + "}"; break;
    case 2: t = "{\"seq\":1,\"type\":\"request\",\"command\":\"opt\",\"arguments\":{\"oi\":" + n + "}}"; break;
    case 3: t = std::string("{\"seq\":1,\"type\":\"event\",\"event\":\"fullev\",\"body\":") + kBodyMin; t.replace(t.find("\"n\":2"), 5, "\"n\":" + n); t += "}"; break;
    case 4: t = std::string("{\"seq\":1,\"type\":\"event\",\"event\":\"fullev\",\"body\":") + kBodyMin; t.replace(t.find("\"y\":null"), 8, "\"y\":[" + n + "]"); t += "}"; break;
    case 5: t = std::string("{\"seq\":1,\"type\":\"event\",\"event\":\"fullev\",\"body\":") + kBodyMin; t.replace(t.find("\"i\":0"), 5, "\"i\":" + n); t += "}"; break;
  }
  one(t);
}
// Member names and strings: long, with escapes, with format characters, with
// bytes that are no UTF-8.
MC_SCENARIO(c07_strings, pb(0), pb(0)) {
  static const char* strs[] = {"%s%s%n", "%d", "\\u0000", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\ud83dx", "\\u12", "\\x", "\xff\xfe", "\xc3", "\xed\xa0\x80",
                               "\xf5\x80\x80\x80", "\x7f", "a\\", "\n", "\t", "\\/", "\\\"", "<long>"};
  std::string n = strs[mc::choose(20, "string")];
  if (n == "<long>") n = std::string(5000, 'L');
  std::string t;
  switch (mc::choose(8, "place")) {
    case 0: t = "{\"seq\":1,\"type\":\"" + n + "\"}"; break;
    case 1: t = "{\"seq\":1,\"type\":\"request\",\"command\":\"" + n + "\"}"; break;
    case 2: t = "{\"seq\":1,\"type\":\"event\",\"event\":\"" + n + "\"}"; break;
    case 3: t = "{\"seq\":1,\"type\":\"request\",\"command\":\"opt\",\"arguments\":{\"os\":\"" + n + "\"}}"; break;
    case 4: t = "{\"seq\":1,\"type\":\"request\",\"command\":\"opt\",\"arguments\":{\"" + n + "\":1}}"; break;
    case 5: t = "{\"seq\":1,\"type\":\"response\",\"success\":false,\"request_seq\":1,\"message\":\"" + n + "\"}"; break;
    case 6: t = std::string("{\"seq\":1,\"type\":\"event\",\"event\":\"fullev\",\"body\":") + kBodyMin; t.replace(t.find("\"o\":{}"), 6, "\"o\":{\"" + n + "\":\"" + n + "\"}"); t += "}"; break;
    case 7: t = "{\"" + n + "\":1,\"seq\":1,\"type\":\"request\",\"command\":\"opt\"}"; break;
  }
  one(t);
}
// Garbage between, before and inside frames, in both policies, every chunking.
MC_SCENARIO(c07_stream_garbage, pb(0), pb(0)) {
  static const char* junk[] = {"", "x", "\r\n", "Content-Length: ", "Content-Length: 0\r\n\r\n", "Content-Length: 99999999999999999999999\r\n\r\n",
                               "Content-Length: -1\r\n\r\n", "Content-Length: 3\r\n{}", "Content-Length: 5\r\n\r\n{\"a\":", "Content-Length: 2\r\n\r\n[]"};
  Rig g;
  g.mem->in = std::string(junk[mc::choose(10, "junk")]) + frame(kOptReq) + junk[mc::choose(10, "junk")] + frame(kOptEv);
  g.mem->pos = 0;
  static const size_t chunks[] = {1, 7, 4096};
  g.mem->chunk = chunks[mc::choose(3, "chunk")];
  int calls = 0, run = 0;
  while (g.mem->pos < g.mem->in.size() || calls == 0) {
    if (++calls > 50) mc::fail("the session does not make progress");
    auto p = g.s->getPayload();
    if (p) p(), run++;
  }
  if (run > 2 || (int)g.handled.size() != run) mc::fail("more messages handled than sent");
  mc::outcome(std::to_string(run));
}
