// One session with very many message types.
#define SESS_SEQ
#include "sess.h"
#include <utility>
using namespace sess;

namespace dap {
template <int N> struct ManyResponse : public Response { integer x; };
template <int N> struct ManyRequest : public Request {
  using Response = ManyResponse<N>;
  integer x;
};
template <int N> struct ManyEvent : public Event { integer x; };
template <typename T>
struct ManyTypeOf {
  static constexpr bool has_custom_serialization = true;
  static bool deserializeFields(const Deserializer* d, void* obj) { return d->field("x", &static_cast<T*>(obj)->x); }
  static bool serializeFields(FieldSerializer* s, const void* obj) { return s->field("x", static_cast<const T*>(obj)->x); }
  struct TI : BasicTypeInfo<T> {
    explicit TI(const std::string& n) : BasicTypeInfo<T>(std::string(n)) {}
    bool deserialize(const Deserializer* d, void* obj) const override { return deserializeFields(d, obj); }
    bool serialize(Serializer* s, const void* obj) const override {
      return s->object([&](FieldSerializer* fs) { return serializeFields(fs, obj); });
    }
  };
};
template <int N> struct TypeOf<ManyResponse<N>> : ManyTypeOf<ManyResponse<N>> {
  static const TypeInfo* type() { static typename ManyTypeOf<ManyResponse<N>>::TI t(""); return &t; }
};
template <int N> struct TypeOf<ManyRequest<N>> : ManyTypeOf<ManyRequest<N>> {
  static const TypeInfo* type() { static typename ManyTypeOf<ManyRequest<N>>::TI t("req" + std::to_string(N)); return &t; }
};
template <int N> struct TypeOf<ManyEvent<N>> : ManyTypeOf<ManyEvent<N>> {
  static const TypeInfo* type() { static typename ManyTypeOf<ManyEvent<N>>::TI t("evt" + std::to_string(N)); return &t; }
};
}  // namespace dap

namespace {
const int kMany = 130;
class Mem : public dap::ReaderWriter {
 public:
  std::string in, out;
  size_t pos = 0;
  bool isOpen() override { return true; }
  void close() override {}
  size_t read(void* b, size_t n) override {
    size_t m = std::min(in.size() - pos, n);
    memcpy(b, in.data() + pos, m);
    pos += m;
    return m;
  }
  bool write(const void* b, size_t n) override {
    out.append((const char*)b, n);
    return true;
  }
};
struct Log {
  int req[kMany] = {}, evt[kMany] = {}, sent[kMany] = {};
  int64_t arg = 0;
};
template <int N>
void reg(dap::Session& s, Log& l, int what) {
  if (what & 1) s.registerHandler([&l](const dap::ManyRequest<N>& r) {
    l.req[N]++;
    dap::ManyResponse<N> o;
    o.x = int64_t(r.x) + 1;
    return o;
  });
  if (what & 2) s.registerHandler([&l](const dap::ManyEvent<N>& e) {
    l.evt[N]++;
    l.arg = e.x;
  });
  if (what & 4) s.registerSentHandler([&l](const dap::ResponseOrError<dap::ManyResponse<N>>& r) {
    l.sent[N]++;
    l.arg = r.error ? -1 : int64_t(r.response.x);
  });
}
using Reg = void (*)(dap::Session&, Log&, int);
template <int... I>
Reg pick(int n, std::integer_sequence<int, I...>) {
  static const Reg regs[] = {&reg<I>...};
  return regs[n];
}
Reg pick(int n) { return pick(n, std::make_integer_sequence<int, kMany>()); }

// `n` types get handlers of the kinds `what`, in increasing, decreasing or
// alternating order; each message then reaches its own handler and no other.
void many(int what) {
  static const int counts[] = {1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, kMany};
  int n = counts[mc::choose(15, "types")];
  int order = mc::choose(3, "order");
  auto m = std::make_shared<Mem>();
  auto s = dap::Session::create();
  Log l, want;
  int errors = 0, wantErrors = 0;
  s->onError([&](const char*) { errors++; });
  s->connect(m, m);
  for (int k = 0; k < n; k++) {
    int i = order == 0 ? k : order == 1 ? n - 1 - k : k % 2 ? n - 1 - k / 2 : k / 2;
    pick(i)(*s, l, what);
  }
  MC_CHECK(errors == 0, "%d reports while the handlers are registered", errors);
  for (int k = 0; k < n; k++) {
    int i = order == 1 ? n - 1 - k : k;
    for (int ev = 0; ev < 2; ev++) {
      bool has = what & (ev ? 2 : 1);
      m->in = frame(std::string("{\"seq\":5,\"type\":") + (ev ? "\"event\",\"event\":\"evt" : "\"request\",\"command\":\"req") + std::to_string(i) +
                    (ev ? "\",\"body\":" : "\",\"arguments\":") + "{\"x\":" + std::to_string(1000 + i) + "}}");
      m->pos = 0;
      m->out.clear();
      l.arg = 0;
      auto p = s->getPayload();
      MC_CHECK(bool(p) == has, "with %d types, the %s of type %d is %s", n, ev ? "event" : "request", i, p ? "accepted" : "refused");
      if (p) p();
      if (!has) wantErrors++;
      else if (ev) {
        want.evt[i]++;
        MC_CHECK(l.arg == 1000 + i, "wrong contents");
      } else {
        want.req[i]++;
        if (what & 4) {
          want.sent[i]++;
          MC_CHECK(l.arg == 1001 + i, "with %d types, the sent handler of type %d did not get the response", n, i);
        }
        auto fs = frames(m->out);
        MC_CHECK(fs.size() == 1 && fs[0].get("body") && fs[0].get("body")->num("x") == 1001 + i, "with %d types, the request of type %d is not answered", n, i);
      }
      MC_CHECK(errors == wantErrors, "with %d types: %d reports instead of %d", n, errors, wantErrors);
      MC_CHECK(!memcmp(l.req, want.req, sizeof l.req) && !memcmp(l.evt, want.evt, sizeof l.evt) && !memcmp(l.sent, want.sent, sizeof l.sent),
               "with %d types, the %s of type %d reached another handler, or none", n, ev ? "event" : "request", i);
    }
  }
  mc::outcome(std::to_string(n));
}
}  // namespace

MC_SCENARIO(c25_many, pb(0), pb(0)) { many(1 + mc::choose(7, "handlers")); }
MC_SCENARIO(c11_many, pb(0), pb(0)) { many(5 + 2 * mc::choose(2, "events")); }
