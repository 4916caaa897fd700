// C19: every protocol type against a committed table of DAP names, required
// members and types; an independent encoder and decoder are the oracle.
#include "backends.h"
#include "common.h"
#include "minijson.h"

#include "dap/session.h"

#include <math.h>
#include <string.h>
#include <map>
#include <set>
#include <tuple>

namespace {
using mj::Val;

std::string dstr(const std::string& s) { return "s" + std::to_string(s.size()) + ":" + s; }
std::string dnum(double d) {
  char b[64];
  snprintf(b, sizeof b, "n%.17g", d);
  return b;
}
// What an independent parser reads, members sorted.
std::string J(const Val& v) {
  switch (v.kind) {
    case Val::kNull: return "null";
    case Val::kBool: return v.b ? "true" : "false";
    case Val::kNum: return v.isInt() ? "i" + std::to_string(v.i()) : dnum(strtod(v.s.c_str(), 0));
    case Val::kStr: return dstr(v.s);
    case Val::kArr: {
      std::string r = "[";
      for (auto& x : v.a) r += J(x) + ",";
      return r + "]";
    }
    default: {
      std::multiset<std::string> items;
      for (auto& kv : v.o) items.insert(dstr(kv.first) + "=" + J(kv.second));
      std::string r = "{";
      for (auto& i : items) r += i + ";";
      return r + "}";
    }
  }
}

struct Ctx {
  int next = 1;    // distinct values
  int k = 0;       // flavour
  int depth = 0;
};
// A type: how to fill, describe, encode and decode one of its objects.
struct Typ {
  virtual void* make() const = 0;
  virtual void destroy(void*) const = 0;
  virtual void sample(void*, Ctx&) const = 0;
  virtual std::string describe(const void*) const = 0;   // canonical, "-" unset
  virtual std::string json(const void*) const = 0;       // canonical JSON, "" if omitted
  virtual bool dec(const Val&, void*) const = 0;
  virtual bool optional() const { return false; }
};
template <typename T> const Typ* typ();

struct Field {
  const char* member;
  const char* wire;
  bool required;
  bool sameType;
  ptrdiff_t offset;
  const Typ* type;
};
struct Struct {
  const char* name;
  const char* kind;
  const char* msg;
  const char* response;
  bool responseOk;
  const dap::TypeInfo* (*info)();
  const Typ* type;
  std::vector<Field> fields;
  size_t size, align;
  bool (*encode)(int, const void*, std::string*);
  bool (*decode)(int, const std::string&, void*);
};
std::vector<Struct>& all();

template <typename T> struct Golden;
struct NoResponse {};

// ---------------------------------------------------------------- scalars
template <typename T> struct Base : Typ {
  void* make() const override { return new T(); }
  void destroy(void* p) const override { delete static_cast<T*>(p); }
  static T& of(void* p) { return *static_cast<T*>(p); }
  static const T& of(const void* p) { return *static_cast<const T*>(p); }
};
template <typename T> struct TypFor : Base<T> {  // structures
  using B = Base<T>;
  void sample(void* p, Ctx& c) const override {
    c.depth++;
    for (auto& f : Golden<T>::get().fields)
      if (f.required || c.depth < 3) f.type->sample(static_cast<char*>(p) + f.offset, c);
    c.depth--;
  }
  std::string describe(const void* p) const override {
    std::string r = "(";
    for (auto& f : Golden<T>::get().fields) r += std::string(f.wire) + "=" + f.type->describe(static_cast<const char*>(p) + f.offset) + " ";
    return r + ")";
  }
  std::string json(const void* p) const override {
    std::multiset<std::string> items;
    for (auto& f : Golden<T>::get().fields) {
      std::string v = f.type->json(static_cast<const char*>(p) + f.offset);
      if (!v.empty()) items.insert(dstr(f.wire) + "=" + v);
    }
    std::string r = "{";
    for (auto& i : items) r += i + ";";
    return r + "}";
  }
  bool dec(const Val& v, void* p) const override {
    if (Golden<T>::get().fields.empty()) return true;
    if (v.kind != Val::kObj) return false;
    for (auto& f : Golden<T>::get().fields) {
      const Val* m = v.get(f.wire);
      if (!m) {
        if (f.required) return false;
        continue;
      }
      if (!f.type->dec(*m, static_cast<char*>(p) + f.offset)) return false;
    }
    return true;
  }
};
#define SCALAR(T, SAMPLE, TEXT, OK, VALUE)                                         \
  template <> struct TypFor<T> : Base<T> {                                         \
    void sample(void* p, Ctx& c) const override { T& v = of(p); SAMPLE; }          \
    std::string describe(const void* p) const override { const T& v = of(p); return TEXT; } \
    std::string json(const void* p) const override { return describe(p); }         \
    bool dec(const Val& j, void* p) const override { if (!(OK)) return false; T& v = of(p); VALUE; return true; } \
  }
SCALAR(dap::integer, v = c.k == 2 ? -(1ll << 40) * c.next++ : c.next++, "i" + std::to_string(int64_t(v)), j.isInt(), v = j.i());
SCALAR(dap::boolean, v = (c.k + c.next++) % 2 == 0, v ? "true" : "false", j.kind == Val::kBool, v = j.b);
SCALAR(dap::number, v = c.next++ + 0.5, dnum(v), j.kind == Val::kNum, v = strtod(j.s.c_str(), 0));
SCALAR(dap::string, v = c.k == 1 ? std::string() : c.k == 2 ? "\"\\\n\xc3\xa9" + std::to_string(c.next++) : "text" + std::to_string(c.next++), dstr(v), j.kind == Val::kStr, v = j.s);
std::string anyText(const dap::any& v) {
  if (v.is<dap::boolean>()) return v.get<dap::boolean>() ? "true" : "false";
  if (v.is<dap::integer>()) return "i" + std::to_string(int64_t(v.get<dap::integer>()));
  if (v.is<dap::number>()) return dnum(v.get<dap::number>());
  if (v.is<dap::string>()) return dstr(v.get<dap::string>());
  if (v.is<dap::object>()) return typ<dap::object>()->describe(&v.get<dap::object>());
  if (v.is<dap::array<dap::any>>()) return typ<dap::array<dap::any>>()->describe(&v.get<dap::array<dap::any>>());
  if (v.is<dap::null>()) return "null";
  return "?";
}
dap::any anyOf(const Val& j) {
  switch (j.kind) {
    case Val::kNull: return dap::any(nullptr);
    case Val::kBool: return dap::any(dap::boolean(j.b));
    case Val::kNum: return j.isInt() ? dap::any(dap::integer(j.i())) : dap::any(dap::number(strtod(j.s.c_str(), 0)));
    case Val::kStr: return dap::any(dap::string(j.s));
    case Val::kArr: { dap::array<dap::any> a; for (auto& x : j.a) a.push_back(anyOf(x)); return dap::any(a); }
    default: { dap::object o; for (auto& kv : j.o) o[kv.first] = anyOf(kv.second); return dap::any(o); }
  }
}
dap::any sampleAny(Ctx& c) {
  switch ((c.k + c.next) % 3) {
    case 0: return dap::any(dap::integer(c.next++));
    case 1: return dap::any(dap::string("any" + std::to_string(c.next++)));
    default: { c.next++; dap::object o; o["in"] = dap::integer(c.next++); return dap::any(o); }
  }
}
SCALAR(dap::any, v = sampleAny(c), anyText(v), true, v = anyOf(j));
template <> struct TypFor<dap::object> : Base<dap::object> {
  void sample(void* p, Ctx& c) const override {
    int n = c.k == 1 ? 0 : 1 + c.k;
    for (int i = 0; i < n; i++) of(p)["m" + std::to_string(c.next++)] = sampleAny(c);
  }
  std::string describe(const void* p) const override {
    std::multiset<std::string> items;
    for (auto& kv : of(p)) items.insert(dstr(kv.first) + "=" + anyText(kv.second));
    std::string r = "{";
    for (auto& i : items) r += i + ";";
    return r + "}";
  }
  std::string json(const void* p) const override { return describe(p); }
  bool dec(const Val& j, void* p) const override {
    if (j.kind != Val::kObj) return false;
    for (auto& kv : j.o) of(p)[kv.first] = anyOf(kv.second);
    return true;
  }
};
template <typename E> struct TypFor<dap::array<E>> : Base<dap::array<E>> {
  using B = Base<dap::array<E>>;
  void sample(void* p, Ctx& c) const override {
    int n = c.k == 1 ? 0 : c.depth >= 3 ? 1 : 1 + c.k % 3;
    c.depth++;
    if (c.depth < 5)
      for (int i = 0; i < n; i++) {
        E e{};
        typ<E>()->sample(&e, c);
        B::of(p).push_back(e);
      }
    c.depth--;
  }
  std::string describe(const void* p) const override {
    std::string r = "[";
    for (auto& e : B::of(p)) r += typ<E>()->describe(&e) + ",";
    return r + "]";
  }
  std::string json(const void* p) const override {
    std::string r = "[";
    for (auto& e : B::of(p)) r += typ<E>()->json(&e) + ",";
    return r + "]";
  }
  bool dec(const Val& j, void* p) const override {
    if (j.kind != Val::kArr) return false;
    B::of(p).clear();
    for (auto& x : j.a) {
      E e{};
      if (!typ<E>()->dec(x, &e)) return false;
      B::of(p).push_back(e);
    }
    return true;
  }
};
template <typename E> struct TypFor<dap::optional<E>> : Base<dap::optional<E>> {
  using B = Base<dap::optional<E>>;
  bool optional() const override { return true; }
  void sample(void* p, Ctx& c) const override {
    E e{};
    typ<E>()->sample(&e, c);
    B::of(p) = e;
  }
  std::string describe(const void* p) const override { return B::of(p).has_value() ? typ<E>()->describe(&B::of(p).value()) : "-"; }
  std::string json(const void* p) const override { return B::of(p).has_value() ? typ<E>()->json(&B::of(p).value()) : ""; }
  bool dec(const Val& j, void* p) const override {
    E e{};
    if (typ<E>()->dec(j, &e)) B::of(p) = e;
    return true;
  }
};
template <typename VT, typename T> struct Alt {
  static void sample(VT& v, Ctx& c) { T t{}; typ<T>()->sample(&t, c); v = t; }
  static bool describe(const VT& v, std::string* r, bool json) {
    if (!v.template is<T>()) return false;
    *r = json ? typ<T>()->json(&v.template get<T>()) : typ<T>()->describe(&v.template get<T>());
    return true;
  }
  static bool dec(const Val& j, VT& v) { T t{}; if (!typ<T>()->dec(j, &t)) return false; v = t; return true; }
};
template <typename VT> struct Alt<VT, dap::null> {
  static void sample(VT& v, Ctx& c) { c.next++; v = nullptr; }
  static bool describe(const VT& v, std::string* r, bool) { if (!v.template is<dap::null>()) return false; *r = "null"; return true; }
  static bool dec(const Val& j, VT& v) { if (j.kind != Val::kNull) return false; v = nullptr; return true; }
};
template <typename... T> struct TypFor<dap::variant<T...>> : Base<dap::variant<T...>> {
  using VT = dap::variant<T...>;
  using B = Base<VT>;
  void sample(void* p, Ctx& c) const override {
    static void (*const f[])(VT&, Ctx&) = {&Alt<VT, T>::sample...};
    f[(c.k + c.next) % sizeof...(T)](B::of(p), c);
  }
  std::string text(const void* p, bool json) const {
    static bool (*const f[])(const VT&, std::string*, bool) = {&Alt<VT, T>::describe...};
    std::string r;
    for (auto g : f)
      if (g(B::of(p), &r, json)) return r;
    return "?";
  }
  std::string describe(const void* p) const override { return text(p, false); }
  std::string json(const void* p) const override { return text(p, true); }
  bool dec(const Val& j, void* p) const override {
    // the alternative of the value's own kind
    static bool (*const f[])(const Val&, VT&) = {&Alt<VT, T>::dec...};
    static const bool isNumber[] = {std::is_same<T, dap::number>::value...};
    for (int pass = 0; pass < 2; pass++)
      for (size_t i = 0; i < sizeof...(T); i++)
        if ((pass == 1 || !(isNumber[i] && j.isInt())) && f[i](j, B::of(p))) return true;
    return false;
  }
};
template <typename T> const Typ* typ() {
  static TypFor<T> t;
  return &t;
}

// ------------------------------------------------------------------ table
template <typename T, typename M> ptrdiff_t off(M T::*m) {
  static T obj;
  return reinterpret_cast<char*>(&(obj.*m)) - reinterpret_cast<char*>(&obj);
}
template <typename T, typename R, typename = void> struct RespIs { static const bool ok = std::is_same<R, NoResponse>::value; };
template <typename T, typename R> struct RespIs<T, R, typename std::enable_if<std::is_base_of<dap::Request, T>::value>::type> {
  static const bool ok = std::is_same<typename T::Response, R>::value;
};
template <typename T> bool encodeT(int k, const void* p, std::string* t) { return be::encode(k, *static_cast<const T*>(p), t); }
template <typename T> bool decodeT(int k, const std::string& t, void* p) { return be::decode(k, t, static_cast<T*>(p)); }

struct Type {};
template <typename T, typename K> struct KindIs { static const bool ok = std::is_base_of<K, T>::value; };
template <typename T> struct KindIs<T, Type> { static const bool ok = !std::is_base_of<dap::Request, T>::value && !std::is_base_of<dap::Response, T>::value && !std::is_base_of<dap::Event, T>::value; };

#define UNPACK(...) __VA_ARGS__
#define G_BEGIN(NAME, KIND, MSG, RESP)                                          \
  template <> struct Golden<dap::NAME> {                                        \
    static const Struct& get() {                                                \
      static const Struct s = build();                                          \
      return s;                                                                 \
    }                                                                           \
    static Struct build() {                                                     \
      using namespace dap;                                                      \
      using T = dap::NAME;                                                      \
      Struct s;                                                                 \
      s.name = #NAME;                                                           \
      s.kind = #KIND;                                                           \
      s.msg = MSG;                                                              \
      s.response = #RESP;                                                       \
      s.responseOk = RespIs<T, RESP>::ok && KindIs<T, KIND>::ok;                \
      s.info = &TypeOf<T>::type;                                                \
      s.type = typ<T>();                                                        \
      s.size = sizeof(T);                                                       \
      s.align = alignof(T);                                                     \
      s.encode = &encodeT<T>;                                                   \
      s.decode = &decodeT<T>;
#define F(MEMBER, WIRE, REQ, TY)                                                                     \
  s.fields.push_back(::Field{#MEMBER, WIRE, REQ, std::is_same<decltype(T::MEMBER), UNPACK TY>::value, \
                             off(&T::MEMBER), typ<decltype(T::MEMBER)>()});
#define G_END(NAME) \
  return s;         \
  }                 \
  }                 \
  ;
#include "protocol_golden.inc"
#undef G_BEGIN
#undef F
#undef G_END
#define G_BEGIN(NAME, KIND, MSG, RESP) v.push_back(Golden<dap::NAME>::get());
#define F(MEMBER, WIRE, REQ, TY)
#define G_END(NAME)
std::vector<Struct>& all() {
  static std::vector<Struct> v;
  if (v.empty()) {
#include "protocol_golden.inc"
  }
  return v;
}

struct Obj {
  const Struct& s;
  void* p;
  explicit Obj(const Struct& s) : s(s), p(s.type->make()) {}
  ~Obj() { s.type->destroy(p); }
  void* at(const Field& f) { return static_cast<char*>(p) + f.offset; }
};
void encodes(const Struct& s, Obj& o, int k) {
  std::string want = s.type->json(o.p), desc = s.type->describe(o.p), text;
  if (!s.encode(k, o.p, &text)) mc::fail("%s: %s cannot be encoded", be::name(k), s.name);
  Val j;
  if (!mj::parse(text, &j)) mc::fail("%s: %s is encoded as invalid JSON", be::name(k), s.name);
  if (J(j) != want) mc::fail("%s: %s is encoded as %.700s, expected %.700s", be::name(k), s.name, J(j).c_str(), want.c_str());
  if (s.type->describe(o.p) != desc) mc::fail("encoding changed the value");
  Obj d(s);
  if (!s.decode(k, text, d.p)) mc::fail("%s: %s cannot be decoded from its own encoding %.700s", be::name(k), s.name, text.c_str());
  std::string got = s.type->describe(d.p);
  if (got != desc) mc::fail("%s: %s changed by encoding and decoding: %.700s, was %.700s", be::name(k), s.name, got.c_str(), desc.c_str());
}
void decodes(const Struct& s, const std::string& text, int k) {
  Val j;
  if (!mj::parse(text, &j)) mc::fail("text");
  Obj want(s), got(s);
  bool ok = s.type->dec(j, want.p);
  bool r = s.decode(k, text, got.p);
  if (r != ok) mc::fail("%s: %s: decoding %.500s %s", be::name(k), s.name, text.c_str(), r ? "succeeds" : "fails");
  if (ok && s.type->describe(got.p) != s.type->describe(want.p)) mc::fail("%s: %s: %.500s decoded to %.500s", be::name(k), s.name, text.c_str(), s.type->describe(got.p).c_str());
  mc::outcome(ok ? "accepted" : "refused");
}
std::string dump(const Val& v) {
  switch (v.kind) {
    case Val::kNull: return "null";
    case Val::kBool: return v.b ? "true" : "false";
    case Val::kNum: return v.s;
    case Val::kStr: {
      std::string o = "\"";
      for (char c : v.s) {
        char b[8];
        if ((unsigned char)c < 0x20) snprintf(b, sizeof b, "\\u%04x", c), o += b;
        else {
          if (c == '"' || c == '\\') o += '\\';
          o += c;
        }
      }
      return o + "\"";
    }
    case Val::kArr: {
      std::string r = "[";
      for (size_t i = 0; i < v.a.size(); i++) r += (i ? "," : "") + dump(v.a[i]);
      return r + "]";
    }
    default: {
      std::string r = "{";
      for (size_t i = 0; i < v.o.size(); i++) r += (i ? ",\"" : "\"") + v.o[i].first + "\":" + dump(v.o[i].second);
      return r + "}";
    }
  }
}
// JSON of a sample, with the oracle's own encoder (through nlohmann's text,
// which encodes() has verified).
Val sampleJson(const Struct& s, int flavour) {
  Obj o(s);
  Ctx c;
  c.k = flavour;
  s.type->sample(o.p, c);
  std::string text;
  s.encode(0, o.p, &text);
  Val j;
  if (!mj::parse(text, &j)) mc::fail("%s is encoded as invalid JSON", s.name);
  return j;
}
const char* kValues[] = {"null", "true", "7", "-3.25", "\"str\"", "[]", "[1]", "[\"a\"]", "[{}]", "{}", "{\"id\":1}", "{\"name\":\"n\",\"x\":2}"};
const int kNValues = 12;
}  // namespace

// The names of messages and members, the kinds of the types.
MC_SCENARIO(c19_names, pb(0), pb(0)) {
  std::map<std::string, std::set<std::string>> msgs;
  for (auto& s : all()) {
    if (!s.responseOk) mc::fail("%s is no %s or has another response type than %s", s.name, s.kind, s.response);
    if (s.info()->name() != s.msg) mc::fail("the name of %s is '%s', expected '%s'", s.name, s.info()->name().c_str(), s.msg);
    if (s.info() != s.info()) mc::fail("unstable type information");
    if (s.info()->size() != s.size || s.info()->alignment() != s.align) mc::fail("size of %s", s.name);
    std::string kind = s.kind;
    if ((kind == "Request" || kind == "Event") && (s.msg[0] == 0 || !msgs[kind].insert(s.msg).second)) mc::fail("message name '%s' is used twice", s.msg);
    std::set<std::string> wire;
    for (auto& f : s.fields) {
      if (!wire.insert(f.wire).second) mc::fail("member name");
      if (!f.sameType) mc::fail("member %s of %s has another type than the protocol's", f.member, s.name);
      if (f.required == f.type->optional()) mc::fail("member %s of %s: required", f.member, s.name);
    }
  }
  mc::outcome(std::to_string(all().size()));
}
// Every type, every flavour of contents, every member set.
MC_SCENARIO(c19_full, pb(0), pb(0)) {
  auto& v = all();
  int k = mc::choose(be::kCount, "back end");
  const Struct& s = v[mc::choose((int)v.size(), "type")];
  Obj o(s);
  Ctx c;
  c.k = mc::choose(mc::thorough() ? 8 : 4, "flavour");
  s.type->sample(o.p, c);
  encodes(s, o, k);
}
// Every subset of the optional members (of types with up to 8 of them), and
// every one or two members set or unset.
MC_SCENARIO(c19_subsets, pb(0), pb(0)) {
  auto& v = all();
  int k = mc::choose(be::kCount, "back end");
  const Struct& s = v[mc::choose((int)v.size(), "type")];
  std::vector<const Field*> opt;
  for (auto& f : s.fields)
    if (!f.required) opt.push_back(&f);
  std::set<const Field*> set;
  if ((int)opt.size() <= (mc::thorough() ? 12 : 6)) {
    for (auto f : opt)
      if (mc::choose(2, f->wire)) set.insert(f);
  } else {
    bool rest = mc::choose(2, "others set");
    int a = mc::choose((int)opt.size(), "member"), b = mc::choose((int)opt.size(), "member");
    if (b < a) mc::discard();
    for (int i = 0; i < (int)opt.size(); i++)
      if (rest != (i == a || i == b)) set.insert(opt[i]);
  }
  Obj o(s);
  Ctx c;
  c.k = 3;
  for (auto& f : s.fields)
    if (f.required || set.count(&f)) f.type->sample(o.at(f), c);
  encodes(s, o, k);
}
// Every member missing, renamed, replaced by every kind of value; unknown
// members added.
MC_SCENARIO(c19_decode, pb(0), pb(0)) {
  auto& v = all();
  int k = mc::choose(be::kCount, "back end");
  const Struct& s = v[mc::choose((int)v.size(), "type")];
  if (s.fields.empty()) mc::discard();
  Val j = sampleJson(s, 0);
  int op = mc::choose(5, "op");
  if (op == 4) {
    Val e;
    if (!mj::parse(kValues[mc::choose(kNValues, "value")], &e)) mc::fail("value");
    j.o.insert(mc::choose(2, "front") ? j.o.begin() : j.o.end(), std::make_pair(std::string("unknownMember"), e));
  } else {
    int m = mc::choose((int)j.o.size(), "member");
    if (op == 0) j.o.erase(j.o.begin() + m);
    if (op == 1) j.o[m].first[0] ^= 0x20;  // another case
    if (op == 2 && !mj::parse(kValues[mc::choose(kNValues, "value")], &j.o[m].second)) mc::fail("value");
    if (op == 3) {  // alone
      Val only = j;
      only.o.clear();
      only.o.push_back(j.o[m]);
      j = only;
    }
  }
  decodes(s, dump(j), k);
}
// Two members replaced at once (pairs of members of one type).
MC_SCENARIO(c19_decode_pairs, pb(0), pb(0)) {
  auto& v = all();
  int k = mc::thorough() ? mc::choose(be::kCount, "back end") : 0;
  const Struct& s = v[mc::choose((int)v.size(), "type")];
  if (s.fields.size() < 2) mc::discard();
  Val j = sampleJson(s, 0);
  int a = mc::choose((int)j.o.size(), "member"), b = mc::choose((int)j.o.size(), "member");
  if (b <= a) mc::discard();
  // swapped values: fields must not be confused with each other
  std::swap(j.o[a].second, j.o[b].second);
  decodes(s, dump(j), k);
}
// The whole value replaced.
MC_SCENARIO(c19_decode_other, pb(0), pb(0)) {
  auto& v = all();
  int k = mc::choose(be::kCount, "back end");
  const Struct& s = v[mc::choose((int)v.size(), "type")];
  if (s.fields.empty()) mc::discard();
  decodes(s, kValues[mc::choose(kNValues, "value")], k);
}
// Every message through a session: name, command and response type.
namespace {
class Mem : public dap::ReaderWriter {
 public:
  std::string out, in;
  size_t pos = 0;
  bool isOpen() override { return true; }
  void close() override {}
  size_t read(void* b, size_t n) override {
    size_t m = in.size() - pos;
    if (m > n) m = n;
    memcpy(b, in.data() + pos, m);
    pos += m;
    return m;
  }
  bool write(const void* b, size_t n) override { out.append((const char*)b, n); return true; }
};
struct Wire {
  std::shared_ptr<Mem> m = std::make_shared<Mem>();
  std::unique_ptr<dap::Session> s = dap::Session::create();
  int errors = 0;
  Wire() {
    s->onError([this](const char*) { errors++; });
    s->connect(m, m);
  }
  Val sent() {
    Val v;
    size_t p = m->out.find("\r\n\r\n");
    if (p == std::string::npos || !mj::parse(m->out.substr(p + 4), &v)) mc::fail("nothing sent");
    m->out.clear();
    return v;
  }
};
template <typename T> void fill(T* t, int k) {
  Ctx c;
  c.k = k;
  typ<T>()->sample(t, c);
}
template <typename T, typename = void> struct Via {
  static void run(const Struct&) { mc::discard(); }
};
template <typename T> struct Via<T, typename std::enable_if<std::is_base_of<dap::Event, T>::value>::type> {
  static void run(const Struct& s) {
    Wire a, b;
    T e;
    fill(&e, 0);
    std::string got;
    b.s->registerHandler([&](const T& r) { got = typ<T>()->describe(&r); });
    a.s->send(e);
    b.m->in = a.m->out;
    Val j = a.sent();
    if (j.str("type") != "event" || j.str("event") != s.msg) mc::fail("event %s is sent as %s", s.name, J(j).c_str());
    auto p = b.s->getPayload();
    if (!p) mc::fail("event %s is not accepted", s.name);
    p();
    if (got != typ<T>()->describe(&e)) mc::fail("event %s arrives changed: %.500s", s.name, got.c_str());
    if (a.errors || b.errors) mc::fail("error reported for %s", s.name);
  }
};
template <typename T> struct Via<T, typename std::enable_if<std::is_base_of<dap::Request, T>::value>::type> {
  static void run(const Struct& s) {
    using R = typename T::Response;
    Wire a, b;
    T e;
    fill(&e, 0);
    R res;
    fill(&res, 3);
    std::string got;
    b.s->registerHandler([&](const T& r) { got = typ<T>()->describe(&r); return res; });
    auto f = a.s->send(e);
    b.m->in = a.m->out;
    Val j = a.sent();
    if (j.str("type") != "request" || j.str("command") != s.msg) mc::fail("request %s is sent as %s", s.name, J(j).c_str());
    auto p = b.s->getPayload();
    if (!p) mc::fail("request %s is not accepted", s.name);
    p();
    if (got != typ<T>()->describe(&e)) mc::fail("request %s arrives changed: %.500s", s.name, got.c_str());
    a.m->in = b.m->out;
    Val r = b.sent();
    if (r.str("type") != "response" || r.str("command") != s.msg) mc::fail("the response of %s is sent as %s", s.name, J(r).c_str());
    if (auto q = a.s->getPayload()) q();
    if (f.wait_for(std::chrono::seconds(0)) != dap::future_status::ready) mc::fail("the response of %s is not delivered", s.name);
    auto o = f.get();
    if (o.error) mc::fail("the response of %s is an error: %s", s.name, o.error.message.c_str());
    if (typ<R>()->describe(&o.response) != typ<R>()->describe(&res)) mc::fail("the response of %s arrives changed: %.500s", s.name, typ<R>()->describe(&o.response).c_str());
    if (a.errors || b.errors) mc::fail("error reported for %s", s.name);
  }
};
#undef G_BEGIN
#define G_BEGIN(NAME, KIND, MSG, RESP) v.push_back(&Via<dap::NAME>::run);
std::vector<void (*)(const Struct&)>& vias() {
  static std::vector<void (*)(const Struct&)> v;
  if (v.empty()) {
#include "protocol_golden.inc"
  }
  return v;
}
}  // namespace
MC_SCENARIO(c19_session, pb(0), pb(0)) {
  int n = (int)all().size();
  int i = mc::choose(n, "type");
  vias()[i](all()[i]);
}

// ------------------------------------------------------------- extending
// User types that extend others, as DAP_STRUCT_TYPEINFO_EXT declares them.
namespace dap {
struct ExtA {
  integer i;
  optional<string> os;
};
DAP_STRUCT_TYPEINFO(ExtA, "exta", DAP_FIELD(i, "i"), DAP_FIELD(os, "os"));
struct ExtB : public ExtA {
  boolean b;
  optional<array<integer>> oa;
};
DAP_STRUCT_TYPEINFO_EXT(ExtB, ExtA, "extb", DAP_FIELD(b, "b"), DAP_FIELD(oa, "oa"));
struct ExtC : public ExtB {
  string s;
  optional<ExtA> oe;
};
DAP_STRUCT_TYPEINFO_EXT(ExtC, ExtB, "extc", DAP_FIELD(s, "s"), DAP_FIELD(oe, "oe"));
struct ExtNone : public ExtA {};
DAP_STRUCT_TYPEINFO_EXT(ExtNone, ExtA, "extnone");
struct ExtEmptyBase {};
DAP_STRUCT_TYPEINFO(ExtEmptyBase, "extempty");
struct ExtOnEmpty : public ExtEmptyBase {
  integer i;
  optional<string> os;
};
DAP_STRUCT_TYPEINFO_EXT(ExtOnEmpty, ExtEmptyBase, "extonempty", DAP_FIELD(i, "i"), DAP_FIELD(os, "os"));
struct ExtOther {
  integer z = 99;
  string zs = "an unrelated first base";
};
struct ExtSecond : public ExtOther, public ExtA {
  boolean b;
  optional<array<integer>> oa;
};
DAP_STRUCT_TYPEINFO_EXT(ExtSecond, ExtA, "extsecond", DAP_FIELD(b, "b"), DAP_FIELD(oa, "oa"));
struct ExtHolder {
  array<ExtB> xs;
  optional<ExtC> oc;
};
DAP_STRUCT_TYPEINFO(ExtHolder, "extholder", DAP_FIELD(xs, "xs"), DAP_FIELD(oc, "oc"));
}  // namespace dap
namespace {
template <typename T>
void setA(T& t, int m) {
  t.i = 40 + m;
  if (m & 1) t.os = dap::string("os");
}
template <typename T>
void setB(T& t, int m) {
  setA(t, m);
  t.b = m & 4 ? true : false;
  if (m & 2) t.oa = dap::array<dap::integer>{1, m};
}
void setC(dap::ExtC& t, int m) {
  setB(t, m);
  t.s = "s";
  if (m & 8) {
    dap::ExtA a;
    setA(a, m & 1);
    t.oe = a;
  }
}
std::string sorted(std::vector<std::string> items) {
  std::multiset<std::string> s(items.begin(), items.end());
  std::string r = "{";
  for (auto& i : s) r += i + ";";
  return r + "}";
}
std::vector<std::string> itemsA(int m) {
  std::vector<std::string> v = {dstr("i") + "=i" + std::to_string(40 + m)};
  if (m & 1) v.push_back(dstr("os") + "=" + dstr("os"));
  return v;
}
std::vector<std::string> itemsB(int m) {
  auto v = itemsA(m);
  v.push_back(dstr("b") + "=" + (m & 4 ? "true" : "false"));
  if (m & 2) v.push_back(dstr("oa") + "=[i1,i" + std::to_string(m) + ",]");
  return v;
}
std::vector<std::string> itemsC(int m) {
  auto v = itemsB(m);
  v.push_back(dstr("s") + "=" + dstr("s"));
  if (m & 8) v.push_back(dstr("oe") + "=" + sorted(itemsA(m & 1)));
  return v;
}
template <typename T>
void roundTrip(const T& v, const std::string& want, const std::vector<std::string>& required) {
  int e = mc::choose(be::kCount, "encoder"), d = mc::choose(be::kCount, "decoder");
  std::string text;
  MC_CHECK(be::encode(e, v, &text), "%s could not encode", be::name(e));
  Val j;
  MC_CHECK(mj::parse(text, &j), "not JSON: %s", text.c_str());
  MC_CHECK(J(j) == want, "%s wrote %s, expected %s", be::name(e), J(j).c_str(), want.c_str());
  T back;
  MC_CHECK(be::decode(d, text, &back), "%s could not decode %s", be::name(d), text.c_str());
  std::string again;
  MC_CHECK(be::encode(d, back, &again) && mj::parse(again, &j) && J(j) == want, "%s decoded to %s, expected %s", be::name(d), J(j).c_str(), want.c_str());
  // a required member removed or of another kind
  MC_CHECK(mj::parse(text, &j));
  for (auto& name : required)
    for (int how = 0; how < 2; how++) {
      std::string broken = "{";
      for (auto& kv : j.o) {
        if (kv.first == name && how == 0) continue;
        if (broken.size() > 1) broken += ",";
        broken += "\"" + kv.first + "\":";
        if (kv.first == name) broken += "[null]";
        else if (kv.second.kind == Val::kNum) broken += kv.second.s;
        else if (kv.second.kind == Val::kBool) broken += kv.second.b ? "true" : "false";
        else if (kv.second.kind == Val::kStr) broken += "\"" + kv.second.s + "\"";
        else if (kv.second.kind == Val::kArr) broken += "[]";
        else broken += "{\"i\":1}";
      }
      broken += "}";
      T t;
      MC_CHECK(!be::decode(d, broken, &t), "%s accepted %s without its member '%s'", be::name(d), broken.c_str(), name.c_str());
    }
}
}  // namespace
MC_SCENARIO(c19_derived, pb(0), pb(0)) {
  int kind = mc::choose(7, "type");
  int m = mc::choose(16, "members");
  mc::outcome(std::to_string(kind));
  switch (kind) {
    case 0: { dap::ExtA t; setA(t, m); roundTrip(t, sorted(itemsA(m)), {"i"}); break; }
    case 1: { dap::ExtB t; setB(t, m); roundTrip(t, sorted(itemsB(m)), {"i", "b"}); break; }
    case 2: { dap::ExtC t; setC(t, m); roundTrip(t, sorted(itemsC(m)), {"i", "b", "s"}); break; }
    case 3: { dap::ExtNone t; setA(t, m); roundTrip(t, sorted(itemsA(m)), {"i"}); break; }
    case 4: { dap::ExtOnEmpty t; setA(t, m); roundTrip(t, sorted(itemsA(m)), {"i"}); break; }
    case 6: { dap::ExtSecond t; setB(t, m); roundTrip(t, sorted(itemsB(m)), {"i", "b"}); break; }
    case 5: {
      dap::ExtHolder h;
      std::string xs = "[";
      for (int k = 0; k < m % 4; k++) {
        dap::ExtB b;
        setB(b, m + k);
        h.xs.push_back(b);
        xs += sorted(itemsB(m + k)) + ",";
      }
      std::vector<std::string> items = {dstr("xs") + "=" + xs + "]"};
      if (m & 8) {
        dap::ExtC c;
        setC(c, m);
        h.oc = c;
        items.push_back(dstr("oc") + "=" + sorted(itemsC(m)));
      }
      roundTrip(h, sorted(items), {"xs"});
      break;
    }
  }
}
