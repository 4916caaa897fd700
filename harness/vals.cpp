// C17: variant and optional.  All histories of operations against a model;
// decoding of every kind of JSON into several variants, in every back end.
#include "backends.h"
#include "common.h"
#include "minijson.h"

#include <string.h>

namespace dap {
struct Pt {
  integer x;
  optional<string> y;
};
DAP_STRUCT_TYPEINFO(Pt, "Pt", DAP_FIELD(x, "x"), DAP_FIELD(y, "y"));
}  // namespace dap

namespace {
using mj::Val;

// ------------------------------------------------------------- optional
// Contents that watch their own life.
struct Watch {
  static int live;
  int v;
  Watch* self;
  Watch() : v(0), self(this) { live++; }
  Watch(int v) : v(v), self(this) { live++; }
  Watch(const Watch& o) : v(o.v), self(this) { o.check(); live++; }
  Watch(Watch&& o) : v(o.v), self(this) { o.check(); o.v = -77; live++; }
  Watch& operator=(const Watch& o) { check(); o.check(); v = o.v; return *this; }
  Watch& operator=(Watch&& o) { check(); o.check(); int t = o.v; o.v = -77; v = t; return *this; }
  ~Watch() { check(); self = nullptr; live--; }
  void check() const { if (self != this) mc::fail("a value is used that is not live"); }
  bool operator==(const Watch& o) const { return v == o.v; }
  bool operator<(const Watch& o) const { return v < o.v; }
};
int Watch::live;
struct Opt {
  bool set = false, known = true;
  int v = 0;
};
template <typename T> T mk(int v);
template <> Watch mk<Watch>(int v) { return Watch(v); }
template <> dap::string mk<dap::string>(int v) { return dap::string(30, char('a' + v)); }
template <> dap::integer mk<dap::integer>(int v) { return dap::integer(v); }
template <> dap::array<dap::string> mk<dap::array<dap::string>>(int v) { return dap::array<dap::string>(v, "element"); }
bool same(const Watch& a, int v) { return a.v == v; }
bool same(const dap::string& a, int v) { return a == mk<dap::string>(v); }
bool same(const dap::integer& a, int v) { return int64_t(a) == v; }
bool same(const dap::array<dap::string>& a, int v) { return a == mk<dap::array<dap::string>>(v); }

template <typename T>
void check(dap::optional<T>& o, const Opt& m, const char* where) {
  if (!m.known) return;
  const dap::optional<T>& c = o;
  if (c.has_value() != m.set || bool(c) != m.set) mc::fail("%s: reports a value although none was assigned, or the reverse", where);
  T def = mk<T>(9);
  const T& r = c.value(def);
  if (m.set) {
    if (!same(c.value(), m.v) || !same(*c, m.v) || !same(*c.operator->(), m.v) || !same(o.value(), m.v) || !same(*o, m.v) || !same(*o.operator->(), m.v)) mc::fail("%s: another value than the one assigned", where);
    if (!same(r, m.v)) mc::fail("%s: value(default) is not the assigned value", where);
  } else if (!same(r, 9) || &r != &def) {
    mc::fail("%s: value(default) is not the default", where);
  }
}
template <typename T>
void optHistory(int n, int depth) {
  int live0 = Watch::live;
  {
    std::unique_ptr<dap::optional<T>> o[3];
    Opt m[3];
    for (int i = 0; i < n; i++) o[i].reset(new dap::optional<T>());
    int next = 1;
    for (int d = 0; d < depth; d++) {
      int t = mc::choose(n, "target");
      int op = mc::choose(11, "op");
      int s = op >= 4 && op <= 8 ? mc::choose(n, "source") : 0;
      switch (op) {
        case 0: o[t].reset(new dap::optional<T>()); m[t] = Opt(); break;
        case 1: *o[t] = mk<T>(next); m[t] = {true, true, next++}; break;
        case 2: { T v = mk<T>(next); *o[t] = v; if (!same(v, next)) mc::fail("assigning changed the source"); m[t] = {true, true, next++}; break; }
        case 3: { T v = mk<T>(next); o[t].reset(new dap::optional<T>(v)); m[t] = {true, true, next++}; break; }
        case 4: { const dap::optional<T>& src = *o[s]; *o[t] = src; m[t] = m[s]; break; }
        case 5: if (s == t) mc::discard(); *o[t] = std::move(*o[s]); m[t] = m[s]; if (m[s].set || !m[s].known) m[s].known = false; break;
        case 6: { if (s == t) mc::discard(); o[t].reset(new dap::optional<T>(static_cast<const dap::optional<T>&>(*o[s]))); m[t] = m[s]; break; }
        case 7: if (s == t) mc::discard(); o[t].reset(new dap::optional<T>(std::move(*o[s]))); m[t] = m[s]; if (m[s].set || !m[s].known) m[s].known = false; break;
        case 8: { dap::optional<T>& src = *o[s]; *o[t] = src; m[t] = m[s]; break; }  // from a non-const lvalue
        case 9: if (!m[t].known || !m[t].set) mc::discard(); **o[t] = mk<T>(next); m[t].v = next++; break;
        case 10: if (!m[t].known || !m[t].set) mc::discard(); o[t]->value() = mk<T>(next); m[t].v = next++; break;
      }
      for (int i = 0; i < n; i++) check(*o[i], m[i], i == t ? "target" : "another optional");
    }
  }
  if (Watch::live != live0) mc::fail("contents not released");
}
}  // namespace

MC_SCENARIO(c17_optional_histories, pb(0), pb(0)) {
  int depth = mc::thorough() ? 5 : 4;
  if (mc::choose(2, "type")) optHistory<Watch>(2, depth);
  else optHistory<dap::string>(2, depth);
}
MC_SCENARIO(c17_optional_three, pb(0), pb(0)) {
  int depth = mc::thorough() ? 4 : 3;
  switch (mc::choose(3, "type")) {
    case 0: optHistory<Watch>(3, depth); break;
    case 1: optHistory<dap::integer>(3, depth); break;
    case 2: optHistory<dap::array<dap::string>>(3, depth); break;
  }
}
// Converting constructors, for all source values.
MC_SCENARIO(c17_optional_conversions, pb(0), pb(0)) {
  static const int64_t vals[] = {0, 1, -1, 255, 256, 1ll << 40, -(1ll << 50)};
  bool set = mc::choose(2, "set");
  int64_t v = vals[mc::choose(7, "value")];
  bool mv = mc::choose(2, "move");
  dap::optional<dap::integer> src;
  if (set) src = dap::integer(v);
  {
    dap::optional<int64_t> d(mv ? dap::optional<int64_t>(std::move(src)) : dap::optional<int64_t>(src));
    if (d.has_value() != set || (set && *d != v)) mc::fail("optional<integer> to optional<int64_t>: other value");
  }
  dap::optional<int> si;
  if (set) si = int(v % 1000);
  {
    dap::optional<dap::integer> d(mv ? dap::optional<dap::integer>(std::move(si)) : dap::optional<dap::integer>(si));
    if (d.has_value() != set || (set && int64_t(*d) != v % 1000)) mc::fail("optional<int> to optional<integer>: other value");
  }
  dap::optional<dap::integer> sd;
  if (set) sd = dap::integer(v % 1000);
  {
    dap::optional<double> d(mv ? dap::optional<double>(std::move(sd)) : dap::optional<double>(sd));
    if (d.has_value() != set || (set && *d != double(v % 1000))) mc::fail("optional<integer> to optional<double>: other value");
  }
  dap::optional<const char*> sc;
  if (set) sc = "some string that is not short";
  {
    dap::optional<dap::string> d(mv ? dap::optional<dap::string>(std::move(sc)) : dap::optional<dap::string>(sc));
    if (d.has_value() != set || (set && *d != "some string that is not short")) mc::fail("optional<const char*> to optional<string>: other value");
  }
  // values of another type
  dap::optional<dap::string> a("literal text beyond the small buffer"), b;
  b = "literal text beyond the small buffer";
  if (!a.has_value() || !b.has_value() || *a != *b || *a != "literal text beyond the small buffer") mc::fail("string from a literal");
  dap::optional<dap::integer> c(7), e;
  e = int64_t(v);
  if (!c.has_value() || int64_t(*c) != 7 || !e.has_value() || int64_t(*e) != v) mc::fail("integer from a plain integer");
  dap::optional<dap::boolean> f(false);
  if (!f.has_value() || !bool(f) || bool(*f)) mc::fail("an optional that holds false");
  // a contained value is never replaced by a default, whatever it is
  dap::optional<dap::integer> zi = dap::integer(0);
  dap::optional<dap::string> zs = dap::string();
  dap::optional<dap::number> zn = dap::number(0);
  dap::optional<dap::array<dap::string>> za = dap::array<dap::string>();
  if (int64_t(zi.value(dap::integer(5))) != 0 || zs.value("default") != "" || double(zn.value(dap::number(2))) != 0 ||
      !za.value(dap::array<dap::string>(1)).empty() || bool(f.value(true)))
    mc::fail("value(default) is the default though the optional holds a value");
  if (!zi.has_value() || !zs.has_value() || !zn.has_value() || !za.has_value() || !bool(zs) || !bool(za)) mc::fail("an optional that holds an empty value reports none");
}
// All comparison operators over all pairs, also of different types.
namespace {
template <typename A, typename B>
void compare(const dap::optional<A>& a, const dap::optional<B>& b, int x, int y) {
  // unset is ordered first: -1000
  struct { const char* n; bool got, want; } t[] = {{"==", a == b, x == y}, {"!=", a != b, x != y}, {"<", a < b, x < y}, {"<=", a <= b, x <= y}, {">", a > b, x > y}, {">=", a >= b, x >= y}};
  for (auto& c : t)
    if (c.got != c.want) mc::fail("optional comparison %s is wrong for (%d, %d) (-1000: unset)", c.n, x, y);
}
}  // namespace
MC_SCENARIO(c17_optional_compare, pb(0), pb(0)) {
  int x = mc::choose(5, "lhs") - 2, y = mc::choose(5, "rhs") - 2;
  bool sx = mc::choose(2, "lhs set"), sy = mc::choose(2, "rhs set");
  bool was = mc::choose(2, "unset after having held a value");
  dap::optional<dap::integer> a, b;
  dap::optional<int> c, d;
  dap::optional<double> e;
  dap::optional<dap::string> s, t;
  if (was) a = 5, b = 5, c = 5, d = 5, e = 5, s = "z", t = "z", a = dap::optional<dap::integer>(), b = dap::optional<dap::integer>(), c = dap::optional<int>(), d = dap::optional<int>(), e = dap::optional<double>(), s = dap::optional<dap::string>(), t = dap::optional<dap::string>();
  if (sx) a = x, c = x, s = dap::string(1, char('m' + x)) + "tail beyond the small buffer";
  if (sy) b = y, d = y, e = y, t = dap::string(1, char('m' + y)) + "tail beyond the small buffer";
  int vx = sx ? x : -1000, vy = sy ? y : -1000;
  compare(a, b, vx, vy);
  compare(c, d, vx, vy);
  compare(a, d, vx, vy);
  compare(c, e, vx, vy);
  compare(s, t, vx, vy);
  compare(a, a, vx, vx);
  mc::outcome(std::to_string(vx) + "," + std::to_string(vy));
}

// -------------------------------------------------------------- variant
namespace {
using V = dap::variant<dap::integer, dap::string, dap::boolean, dap::array<dap::any>, dap::number, dap::Pt, dap::object>;
struct VM {
  int kind = 0;  // index of the alternative
  int v = 0;
};
void put(V& o, const VM& m, bool construct, std::unique_ptr<V>* slot) {
#define PUT(val)                          \
  {                                       \
    auto x = val;                         \
    if (construct) slot->reset(new V(x)); \
    else o = x;                           \
  }                                       \
  break
  switch (m.kind) {
    case 0: PUT(dap::integer(m.v));
    case 1: PUT(dap::string(30, char('a' + m.v)));
    case 2: PUT(dap::boolean(m.v & 1));
    case 3: PUT((dap::array<dap::any>(m.v, dap::any(dap::integer(m.v)))));
    case 4: PUT(dap::number(m.v + 0.5));
    case 5: { dap::Pt p; p.x = m.v; p.y = dap::string(25, 'p'); PUT(p); }
    case 6: { dap::object p; p["k"] = dap::integer(m.v); PUT(p); }
  }
}
void check(const V& o, const VM& m, const char* where) {
  bool is[] = {o.is<dap::integer>(), o.is<dap::string>(), o.is<dap::boolean>(), o.is<dap::array<dap::any>>(), o.is<dap::number>(), o.is<dap::Pt>(), o.is<dap::object>()};
  int n = 0;
  for (bool b : is) n += b;
  if (n != 1) mc::fail("%s: the variant holds %d of its alternatives", where, n);
  if (!is[m.kind]) mc::fail("%s: the variant holds another type than the one assigned", where);
  if (o.is<dap::array<dap::integer>>() || o.is<dap::null>()) mc::fail("%s: the variant claims a type that is no alternative", where);
  bool ok = true;
  switch (m.kind) {
    case 0: ok = int64_t(o.get<dap::integer>()) == m.v; break;
    case 1: ok = o.get<dap::string>() == dap::string(30, char('a' + m.v)); break;
    case 2: ok = bool(o.get<dap::boolean>()) == bool(m.v & 1); break;
    case 3: ok = (int)o.get<dap::array<dap::any>>().size() == m.v; break;
    case 4: ok = double(o.get<dap::number>()) == m.v + 0.5; break;
    case 5: ok = int64_t(o.get<dap::Pt>().x) == m.v && *o.get<dap::Pt>().y == dap::string(25, 'p'); break;
    case 6: ok = o.get<dap::object>().size() == 1 && int64_t(o.get<dap::object>()["k"].get<dap::integer>()) == m.v; break;
  }
  if (!ok) mc::fail("%s: the variant holds another value than the one assigned", where);
}
}  // namespace
MC_SCENARIO(c17_variant_histories, pb(0), pb(0)) {
  const int n = 2;
  int depth = mc::thorough() ? 4 : 3;
  std::unique_ptr<V> o[n];
  VM m[n];
  for (int i = 0; i < n; i++) o[i].reset(new V());
  for (int i = 0; i < n; i++) check(*o[i], m[i], "default");
  int next = 1;
  for (int d = 0; d < depth; d++) {
    int t = mc::choose(n, "target"), s = 1 - t;
    switch (mc::choose(7, "op")) {
      case 0: o[t].reset(new V()); m[t] = VM(); break;
      case 1: m[t] = {mc::choose(7, "alternative"), next++}; put(*o[t], m[t], false, nullptr); break;
      case 2: m[t] = {mc::choose(7, "alternative"), next++}; put(*o[t], m[t], true, &o[t]); break;
      case 3: *o[t] = static_cast<const V&>(*o[s]); m[t] = m[s]; break;
      case 4: o[t].reset(new V(static_cast<const V&>(*o[s]))); m[t] = m[s]; break;
      case 5: { V& self = *o[t]; *o[t] = self; break; }
      case 6: {  // the source is replaced after the move
        *o[t] = std::move(*o[s]);
        m[t] = m[s];
        check(*o[t], m[t], "moved-to");
        m[s] = {mc::choose(7, "alternative"), next++};
        put(*o[s], m[s], true, &o[s]);
        break;
      }
    }
    for (int i = 0; i < n; i++) check(*o[i], m[i], i == t ? "target" : "other");
  }
}
static_assert(V::accepts<dap::integer>() && V::accepts<dap::object>() && !V::accepts<dap::null>() && !V::accepts<dap::any>(), "accepts()");

// Decoding: texts x variants x back ends.
namespace {
struct Text {
  const char* t;
  const char* kinds;  // alternatives able to hold it: i n b s a(any array) A(integer array) o z(null) P(Pt) S(array<string>)
};
const Text kTexts[] = {
    {"0", "in"}, {"-7", "in"}, {"9223372036854775807", "in"}, {"-9223372036854775808", "in"}, {"1.5", "n"}, {"-2.5e-3", "n"},
    {"true", "b"}, {"false", "b"}, {"\"\"", "s"}, {"\"text\"", "s"}, {"\"1\"", "s"}, {"null", "z"},
    {"[]", "aAS"}, {"[1,2]", "aA"}, {"[1,\"x\"]", "a"}, {"[\"x\"]", "aS"}, {"[[]]", "a"}, {"[null]", "a"},
    {"{}", "o"}, {"{\"x\":3}", "oP"}, {"{\"x\":\"3\"}", "o"}, {"{\"y\":\"3\"}", "o"}, {"{\"x\":1,\"y\":\"q\",\"z\":[]}", "oP"}};
const int kNTexts = sizeof kTexts / sizeof *kTexts;

std::string desc(const dap::integer& v) { return "i" + std::to_string(int64_t(v)); }
std::string desc(const dap::number& v) { char b[40]; snprintf(b, sizeof b, "n%.17g", double(v)); return b; }
std::string desc(const dap::boolean& v) { return v ? "bt" : "bf"; }
std::string desc(const dap::string& v) { return "s" + v; }
std::string desc(const dap::null&) { return "z"; }
std::string desc(const dap::any& v);
std::string desc(const dap::object& v) { std::string r = "o" + std::to_string(v.size()); return r; }
template <typename T> std::string desc(const dap::array<T>& v) { std::string r = "a["; for (auto& x : v) r += desc(x) + ","; return r + "]"; }
std::string desc(const dap::Pt& p) { return "P" + std::to_string(int64_t(p.x)) + (p.y.has_value() ? *p.y : "-"); }
std::string desc(const dap::any& v) {
  if (v.is<dap::integer>()) return desc(v.get<dap::integer>());
  if (v.is<dap::number>()) return desc(v.get<dap::number>());
  if (v.is<dap::boolean>()) return desc(v.get<dap::boolean>());
  if (v.is<dap::string>()) return desc(v.get<dap::string>());
  if (v.is<dap::null>()) return "z";
  if (v.is<dap::object>()) return desc(v.get<dap::object>());
  if (v.is<dap::array<dap::any>>()) return desc(v.get<dap::array<dap::any>>());
  return "?";
}
template <typename T> struct Code;
template <> struct Code<dap::integer> { static const char c = 'i'; };
template <> struct Code<dap::number> { static const char c = 'n'; };
template <> struct Code<dap::boolean> { static const char c = 'b'; };
template <> struct Code<dap::string> { static const char c = 's'; };
template <> struct Code<dap::null> { static const char c = 'z'; };
template <> struct Code<dap::array<dap::any>> { static const char c = 'a'; };
template <> struct Code<dap::array<dap::integer>> { static const char c = 'A'; };
template <> struct Code<dap::array<dap::string>> { static const char c = 'S'; };
template <> struct Code<dap::object> { static const char c = 'o'; };
template <> struct Code<dap::Pt> { static const char c = 'P'; };

// The value held as T (a null has none).
template <typename T> struct Held {
  template <typename VT> static std::string text(const VT& v) { return desc(v.template get<T>()); }
};
template <> struct Held<dap::null> {
  template <typename VT> static std::string text(const VT&) { return "z"; }
};
template <typename VT, typename T>
void probe(const VT& v, std::string* held, std::string* alts, std::string* d) {
  *alts += Code<T>::c;
  if (v.template is<T>()) {
    *held += Code<T>::c;
    *d = Held<T>::text(v);
  }
}
template <typename... T>
void decodeVariant(const Text& t, int k) {
  using VT = dap::variant<T...>;
  VT v;
  std::string held, alts, d, before;
  int dummy0[] = {(probe<VT, T>(v, &held, &alts, &before), 0)...};
  (void)dummy0;
  if (held.size() != 1 || held[0] != alts[0]) mc::fail("a new variant does not hold its first alternative");
  bool ok = be::decode(k, t.t, &v);
  bool want = false;
  for (char c : alts) want |= strchr(t.kinds, c) != nullptr;
  held.clear(), alts.clear();
  int dummy1[] = {(probe<VT, T>(v, &held, &alts, &d), 0)...};
  (void)dummy1;
  if (held.size() != 1) mc::fail("%s: after decoding %s the variant of %s holds %d of its alternatives", be::name(k), t.t, alts.c_str(), (int)held.size());
  if (ok != want) mc::fail("%s: decoding %s into a variant of %s is %s", be::name(k), t.t, alts.c_str(), ok ? "accepted" : "refused");
  if (!ok) return;
  if (!strchr(t.kinds, held[0])) mc::fail("%s: %s decoded into alternative %c of %s", be::name(k), t.t, held[0], alts.c_str());
  // the value, as the alternative on its own decodes it
  std::string alone;
  int dummy2[] = {([&] {
    if (Code<T>::c != held[0] || held[0] == 'z') return 0;
    dap::variant<T> one;
    if (!be::decode(k, t.t, &one)) mc::fail("the alternative alone refuses");
    alone = Held<T>::text(one);
    return 0;
  }())...};
  (void)dummy2;
  if (held[0] != 'z' && alone != d) mc::fail("%s: %s decoded to another value: %s", be::name(k), t.t, d.c_str());
  // and as the text says
  Val j;
  if (!mj::parse(t.t, &j)) mc::fail("text");
  bool right = true;
  if (held[0] == 'i') right = d == "i" + std::to_string(j.i());
  if (held[0] == 'n') { char b[40]; snprintf(b, sizeof b, "n%.17g", strtod(j.s.c_str(), 0)); right = d == b; }
  if (held[0] == 'b') right = d == (j.b ? "bt" : "bf");
  if (held[0] == 's') right = d == "s" + j.s;
  if (held[0] == 'P') right = d == "P" + std::to_string(j.num("x")) + (j.get("y") ? j.str("y") : "-");
  if (held[0] == 'o') right = d == "o" + std::to_string(j.o.size());
  if (!right) mc::fail("%s: %s decoded to %s", be::name(k), t.t, d.c_str());
  // encoding and decoding again
  std::string text;
  if (!be::encode(k, v, &text)) mc::fail("%s: cannot encode the variant decoded from %s", be::name(k), t.t);
  Val j2;
  if (!mj::parse(text, &j2)) mc::fail("%s: encoded to invalid JSON %s", be::name(k), text.c_str());
  VT v2;
  std::string held2, d2;
  if (!be::decode(k, text, &v2)) mc::fail("%s: %s refused after encoding to %s", be::name(k), t.t, text.c_str());
  alts.clear();
  int dummy3[] = {(probe<VT, T>(v2, &held2, &alts, &d2), 0)...};
  (void)dummy3;
  if (held2 != held || d2 != d) mc::fail("%s: %s changed by encoding and decoding: %s, %s", be::name(k), t.t, d.c_str(), d2.c_str());
  mc::outcome(held);
}
}  // namespace
MC_SCENARIO(c17_variant_decode, pb(0), pb(0)) {
  using namespace dap;
  int k = mc::choose(be::kCount, "back end");
  const Text& t = kTexts[mc::choose(kNTexts, "text")];
  switch (mc::choose(14, "variant")) {
    case 0: decodeVariant<integer, string>(t, k); break;
    case 1: decodeVariant<string, integer>(t, k); break;
    case 2: decodeVariant<boolean, number>(t, k); break;
    case 3: decodeVariant<integer, number>(t, k); break;
    case 4: decodeVariant<Pt, string>(t, k); break;
    case 5: decodeVariant<array<integer>, boolean>(t, k); break;
    case 6: decodeVariant<array<any>, integer>(t, k); break;
    case 7: decodeVariant<object, string>(t, k); break;
    case 8: decodeVariant<array<any>, boolean, integer, null, number, object, string>(t, k); break;
    case 9: decodeVariant<string>(t, k); break;
    case 10: decodeVariant<number, string>(t, k); break;
    case 11: decodeVariant<string, array<string>>(t, k); break;
    case 12: decodeVariant<Pt, array<integer>>(t, k); break;
    case 13: decodeVariant<null, boolean>(t, k); break;
  }
}
// Decoding into a variant that already holds something: refused input leaves
// one of the alternatives, accepted input replaces it.
MC_SCENARIO(c17_variant_redecode, pb(0), pb(0)) {
  int k = mc::choose(be::kCount, "back end");
  dap::variant<dap::integer, dap::string> v;
  int depth = mc::thorough() ? 3 : 2;
  for (int d = 0; d < depth; d++) {
    const Text& t = kTexts[mc::choose(kNTexts, "text")];
    bool ok = be::decode(k, t.t, &v);
    if (ok != (strchr(t.kinds, 'i') || strchr(t.kinds, 's'))) mc::fail("decoding %s", t.t);
    if (v.is<dap::integer>() + v.is<dap::string>() != 1) mc::fail("the variant holds none of its alternatives after %s", t.t);
    if (ok && v.is<dap::integer>() != (strchr(t.kinds, 'i') != nullptr)) mc::fail("the variant holds the wrong alternative after %s", t.t);
    if (ok && v.is<dap::integer>() && std::to_string(int64_t(v.get<dap::integer>())) != t.t) mc::fail("old value after %s", t.t);
  }
}
// Optional members: absent, null, right and wrong type, in every back end.
namespace dap {
struct Opts {
  optional<integer> i;
  optional<string> s;
  optional<boolean> b;
  optional<number> n;
  optional<array<integer>> a;
  optional<object> o;
  optional<Pt> p;
  optional<variant<integer, string>> v;
};
DAP_STRUCT_TYPEINFO(Opts, "", DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(b, "b"), DAP_FIELD(n, "n"), DAP_FIELD(a, "a"), DAP_FIELD(o, "o"), DAP_FIELD(p, "p"), DAP_FIELD(v, "v"));
}  // namespace dap
MC_SCENARIO(c17_optional_decode, pb(0), pb(0)) {
  int k = mc::choose(be::kCount, "back end");
  static const char* names[] = {"i", "s", "b", "n", "a", "o", "p", "v"};
  static const char* codes[] = {"i", "s", "b", "n", "A", "o", "P", "is"};
  static const char* good[] = {"5", "\"x\"", "false", "2.5", "[1]", "{\"q\":1}", "{\"x\":1}", "\"w\""};
  int which = mc::choose(8, "member");
  const Text& t = kTexts[mc::choose(kNTexts, "text")];
  bool others = mc::choose(2, "other members set");
  std::string text = "{";
  for (int i = 0; i < 8; i++)
    if (i == which || others) text += std::string(text.size() > 1 ? "," : "") + "\"" + names[i] + "\":" + (i == which ? t.t : good[i]);
  text += "}";
  dap::Opts v;
  bool ok = be::decode(k, text, &v);
  bool right = false;
  for (const char* c = codes[which]; *c; c++) right |= strchr(t.kinds, *c) != nullptr;
  bool set[] = {v.i.has_value(), v.s.has_value(), v.b.has_value(), v.n.has_value(), v.a.has_value(), v.o.has_value(), v.p.has_value(), v.v.has_value()};
  if (right && !ok) mc::fail("%s: %s refused", be::name(k), text.c_str());
  if (ok)
    for (int i = 0; i < 8; i++) {
      bool want = i == which ? right : others;
      // an object that was not given as such is no value
      if (set[i] != want) mc::fail("%s: after %s member %s is %s", be::name(k), text.c_str(), names[i], set[i] ? "set" : "unset");
    }
  mc::outcome(std::string(1, ok ? 'y' : 'n') + (right ? "r" : "w"));
}
