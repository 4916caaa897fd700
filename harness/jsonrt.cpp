// C18: values survive JSON encoding and decoding in every back end, and all
// back ends agree with each other and with an independent parser.
#include "backends.h"
#include "common.h"
#include "minijson.h"

#include <limits.h>
#include <math.h>
#include <string.h>
#include <set>

namespace dap {
struct Leaf {
  integer x;
  optional<string> y;
};
DAP_STRUCT_TYPEINFO(Leaf, "Leaf", DAP_FIELD(x, "x"), DAP_FIELD(y, "y"));
struct Node : Leaf {
  array<Leaf> kids;
  optional<array<integer>> nums;
  variant<integer, string, boolean> v;
  optional<any> a;
  object o;
  optional<number> n;
  boolean b;
};
DAP_STRUCT_TYPEINFO_EXT(Node, Leaf, "Node", DAP_FIELD(kids, "kids"), DAP_FIELD(nums, "nums"), DAP_FIELD(v, "v"), DAP_FIELD(a, "a"), DAP_FIELD(o, "o"), DAP_FIELD(n, "n"), DAP_FIELD(b, "b"));
struct Nothing {};
DAP_STRUCT_TYPEINFO(Nothing, "Nothing");
}  // namespace dap

namespace {
using mj::Val;

// ------------------------------------------------ canonical descriptions
std::string dnum(double d) {
  uint64_t b;
  memcpy(&b, &d, 8);
  char t[64];
  snprintf(t, sizeof t, "n%.17g/%016llx", d, (unsigned long long)b);
  return t;
}
std::string dint(int64_t v) { return "i" + std::to_string(v); }
std::string dstr(const std::string& s) { return "s" + std::to_string(s.size()) + ":" + s; }
std::string D(const dap::any& v);
std::string D(const dap::integer& v) { return dint(v); }
std::string D(const dap::number& v) { return dnum(v); }
std::string D(const dap::boolean& v) { return v ? "true" : "false"; }
std::string D(const dap::string& v) { return dstr(v); }
std::string D(const dap::object& o) {
  std::set<std::string> items;
  for (auto& kv : o) items.insert(dstr(kv.first) + "=" + D(kv.second));
  std::string r = "{";
  for (auto& i : items) r += i + ";";
  return r + "}";
}
template <typename T>
std::string D(const dap::array<T>& v) {
  std::string r = "[";
  for (auto& x : v) r += D(x) + ",";
  return r + "]";
}
std::string D(const dap::any& v) {
  if (v.is<dap::boolean>()) return D(v.get<dap::boolean>());
  if (v.is<dap::integer>()) return D(v.get<dap::integer>());
  if (v.is<dap::number>()) return D(v.get<dap::number>());
  if (v.is<dap::string>()) return D(v.get<dap::string>());
  if (v.is<dap::object>()) return D(v.get<dap::object>());
  if (v.is<dap::array<dap::any>>()) return D(v.get<dap::array<dap::any>>());
  if (v.is<dap::null>()) return "null";
  return "?";
}
std::string D(const dap::Leaf& l) { return "(" + D(l.x) + "|" + (l.y.has_value() ? D(*l.y) : "-") + ")"; }
std::string D(const dap::variant<dap::integer, dap::string, dap::boolean>& v) {
  if (v.is<dap::integer>()) return "v" + D(v.get<dap::integer>());
  if (v.is<dap::string>()) return "v" + D(v.get<dap::string>());
  if (v.is<dap::boolean>()) return "v" + D(v.get<dap::boolean>());
  return "v?";
}
template <typename T>
std::string D(const dap::optional<T>& o) { return o.has_value() ? D(*o) : "-"; }
std::string D(const dap::Node& n) {
  return D(static_cast<const dap::Leaf&>(n)) + D(n.kids) + "|" + D(n.nums) + "|" + D(n.v) + "|" + D(n.a) + "|" + D(n.o) + "|" + D(n.n) + "|" + D(n.b);
}
std::string D(const dap::Nothing&) { return "()"; }
// What an independent parser reads.
std::string J(const Val& v) {
  switch (v.kind) {
    case Val::kNull: return "null";
    case Val::kBool: return v.b ? "true" : "false";
    case Val::kNum: return v.isInt() ? dint(strtoll(v.s.c_str(), 0, 10)) : dnum(strtod(v.s.c_str(), 0));
    case Val::kStr: return dstr(v.s);
    case Val::kArr: {
      std::string r = "[";
      for (auto& x : v.a) r += J(x) + ",";
      return r + "]";
    }
    default: {
      std::set<std::string> items;
      for (auto& kv : v.o)
        if (!items.insert(dstr(kv.first) + "=" + J(kv.second)).second) return "repeated member";
      std::string r = "{";
      for (auto& i : items) r += i + ";";
      return r + "}";
    }
  }
}
std::string clip(const std::string& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }

// Encodes v with every back end; decodes every text with every back end.
// jsonForm: the independent parser must read this ("" for any).
template <typename T>
void roundtrip(const T& v, const std::string& jsonForm) {
  std::string want = D(v);
  for (int k = 0; k < be::kCount; k++) {
    std::string text;
    if (!be::encode(k, v, &text)) mc::fail("%s: cannot encode %s", be::name(k), clip(want).c_str());
    if (D(v) != want) mc::fail("%s: encoding changed the value", be::name(k));
    Val j;
    if (!mj::parse(text, &j)) mc::fail("%s: %s is encoded as invalid JSON: %s", be::name(k), clip(want).c_str(), clip(text).c_str());
    if (!jsonForm.empty() && J(j) != jsonForm) mc::fail("%s: %s is encoded as %s", be::name(k), clip(want).c_str(), clip(text).c_str());
    for (int m = 0; m < be::kCount; m++) {
      T d{};
      if (!be::decode(m, text, &d)) mc::fail("%s cannot decode what %s encoded: %s", be::name(m), be::name(k), clip(text).c_str());
      std::string got = D(d);
      if (got != want) mc::fail("%s decodes %s, encoded by %s as %s, to %s", be::name(m), clip(want).c_str(), be::name(k), clip(text).c_str(), clip(got).c_str());
    }
  }
}

const char* kStrs[] = {"", "a", "\"", "\\", "/", "\b\f\n\r\t", "\x01\x1f\x7f", "%s%n", "null", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "{\"a\":1}"};
const int kNStrs = 13;
const int64_t kInts[] = {0, 1, -1, 127, 128, 255, 256, -129, 32768, 65536, 2147483647, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, -4294967296ll, 9007199254740993ll, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1};
const int kNInts = 22;
const double kNums[] = {0.5, -0.1, 1e300, -5e-324, 1.0, 1e15};
const int kNNums = 6;

// A tree: every shape up to the depth and width, leaves of every kind.
dap::any tree(int depth, int width, int leaves) {
  int k = mc::choose(depth > 0 ? 8 : 6, "kind");
  switch (k) {
    case 0: return dap::any(dap::boolean(mc::choose(leaves > 1 ? 2 : 1, "bool")));
    case 1: return dap::any(dap::integer(kInts[leaves == 1 ? 18 : mc::choose(leaves > kNInts ? kNInts : leaves, "int")]));
    case 2: return dap::any(dap::number(kNums[leaves == 1 ? 1 : mc::choose(leaves > kNNums ? kNNums : leaves, "num")]));
    case 3: return dap::any(dap::string(kStrs[leaves == 1 ? 5 : mc::choose(leaves > kNStrs ? kNStrs : leaves, "str")]));
    case 4: return dap::any(nullptr);
    case 5: return mc::choose(2, "empty") ? dap::any(dap::object()) : dap::any(dap::array<dap::any>());
    case 6: {
      dap::array<dap::any> a;
      int n = 1 + mc::choose(width, "length");
      for (int i = 0; i < n; i++) a.push_back(tree(depth - 1, width, leaves));
      return dap::any(a);
    }
    default: {
      dap::object o;
      static const char* names[] = {"k", "", "a\"b\xc3\xa9"};
      int n = 1 + mc::choose(width, "members");
      for (int i = 0; i < n; i++) o[names[i]] = tree(depth - 1, width, leaves);
      return dap::any(o);
    }
  }
}
}  // namespace

// ---------------------------------------------------------------- scalars
MC_SCENARIO(c18_integers, pb(0), pb(0)) {
  // every boundary of every width, and around it; as integer, any, in an
  // array, in an object, as a variant
  int bit = mc::choose(65, "bit");
  int off = mc::choose(5, "offset") - 2;
  bool neg = mc::choose(2, "sign");
  uint64_t u = bit == 64 ? 0 : uint64_t(1) << bit;
  int64_t v = int64_t((neg ? 0 - u : u) + uint64_t(int64_t(off)));
  std::string j = dint(v);
  switch (mc::choose(5, "as")) {
    case 0: roundtrip(dap::integer(v), j); break;
    case 1: roundtrip(dap::any(dap::integer(v)), j); break;
    case 2: roundtrip(dap::array<dap::integer>{v, v}, "[" + j + "," + j + ",]"); break;
    case 3: { dap::object o; o["x"] = dap::integer(v); roundtrip(o, "{s1:x=" + j + ";}"); break; }
    case 4: roundtrip(dap::variant<dap::integer, dap::string, dap::boolean>(dap::integer(v)), j); break;
  }
}
MC_SCENARIO(c18_numbers, pb(0), pb(0)) {
  // every exponent, including subnormals
  int e = mc::choose(2047, "exponent");
  static const uint64_t mant[] = {0, 1, 0x8000000000000ull, 0xfffffffffffffull, 0x5555555555555ull, 0x999999999999aull, 0x123456789abcdull, 0xffffffffffffeull, 0x0000000100000ull};
  int n = mc::thorough() ? 9 + 52 : 9;
  for (int m = 0; m < n; m++)
    for (int sign = 0; sign < 2; sign++) {
      uint64_t b = (uint64_t(sign) << 63) | (uint64_t(e) << 52) | (m < 9 ? mant[m] : uint64_t(1) << (m - 9));
      double d;
      memcpy(&d, &b, 8);
      if (b == 0x8000000000000000ull) continue;  // -0.0 equals 0.0
      roundtrip(dap::number(d), "");
      if (m < 3) {
        roundtrip(dap::any(dap::number(d)), "");
        dap::object o;
        o["x"] = dap::number(d);
        roundtrip(o, "");
      }
    }
  mc::outcome(std::to_string(e / 256));
}
// Decimal numbers whose shortest form is hard to read back exactly.
MC_SCENARIO(c18_decimals, pb(0), pb(0)) {
  int e = mc::choose(633, "exponent") - 324;
  for (int a = 1; a < (mc::thorough() ? 1000 : 40); a++) {
    char t[40];
    snprintf(t, sizeof t, "%de%d", a, e);
    double d = strtod(t, nullptr);
    if (isinf(d) || d == 0) continue;
    roundtrip(dap::number(d), "");
  }
}
MC_SCENARIO(c18_strings, pb(0), pb(0)) {
  // every byte below 0x80 and a character of every UTF-8 length and boundary,
  // in every position of a short string, as value and as member name
  static const uint32_t cps[] = {0x80, 0xff, 0x7ff, 0x800, 0xfff, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x2028, 0xfeff};
  int c = mc::choose(128 + 15, "character");
  std::string ch;
  if (c < 128) ch = std::string(1, char(c));
  else mj::Parser::utf8(ch, cps[c - 128]);
  static const char* around[][2] = {{"", ""}, {"a", ""}, {"", "b"}, {"a", "b"}, {"\\", "\\"}, {"\"", "\""}, {"\xc3\xa9", "\xe2\x82\xac"}, {"a long enough prefix to leave the small string buffer", "tail"}};
  int a = mc::choose(8, "around");
  std::string s = around[a][0] + ch + around[a][1];
  switch (mc::choose(5, "as")) {
    case 0: roundtrip(dap::string(s), dstr(s)); break;
    case 1: roundtrip(dap::any(dap::string(s)), dstr(s)); break;
    case 2: { dap::object o; o[s] = dap::integer(1); o[s + s] = dap::string(s); roundtrip(o, ""); break; }
    case 3: roundtrip(dap::array<dap::string>{s, "", s + s}, "[" + dstr(s) + "," + dstr("") + "," + dstr(s + s) + ",]"); break;
    case 4: { dap::Leaf l; l.x = 1; l.y = s; roundtrip(l, ""); break; }
  }
}
// All pairs of characters with a meaning in JSON.
MC_SCENARIO(c18_string_pairs, pb(0), pb(0)) {
  static const char kC[] = {'"', '\\', '/', 'u', 'n', 'x', '0', '{', '}', '[', ']', ',', ':', ' ', '\n', '\0', '\x1f', '\x7f', '\''};
  std::string s;
  int n = mc::thorough() ? 4 : 3;
  for (int i = 0; i < n; i++) s += kC[mc::choose(19, "character")];
  roundtrip(dap::string(s), dstr(s));
  dap::object o;
  o[s] = dap::string(s);
  roundtrip(o, "{" + dstr(s) + "=" + dstr(s) + ";}");
}
// Sizes around every internal limit one may think of.
MC_SCENARIO(c18_sizes, pb(0), pb(0)) {
  static const int sizes[] = {0, 1, 15, 16, 17, 31, 32, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536, 70000};
  int n = sizes[mc::choose(17, "size")];
  switch (mc::choose(5, "as")) {
    case 0: roundtrip(dap::string(n, 'x'), dstr(std::string(n, 'x'))); break;
    case 1: roundtrip(dap::string(n, '\n'), ""); break;
    case 2: roundtrip(dap::array<dap::integer>(n, dap::integer(n)), ""); break;
    case 3: { dap::object o; for (int i = 0; i < (n > 4100 ? 4100 : n); i++) o["member" + std::to_string(i)] = dap::integer(i); roundtrip(o, ""); break; }
    case 4: { dap::object o; o[std::string(n, 'k')] = dap::string(n, 'v'); roundtrip(o, ""); break; }
  }
}
// ------------------------------------------------------------- structures
MC_SCENARIO(c18_trees, pb(0), pb(0)) {
  dap::any v = tree(2, 2, mc::thorough() ? 3 : 1);
  roundtrip(v, D(v));
}
MC_SCENARIO(c18_deep_trees, pb(0), pb(0)) {
  dap::any v = tree(mc::thorough() ? 5 : 3, 1, mc::thorough() ? 3 : 2);
  roundtrip(v, D(v));
}
MC_SCENARIO(c18_leaves, pb(0), pb(0)) {
  dap::any v = tree(1, 1, 100);
  roundtrip(v, D(v));
}
// Long chains of nesting.
MC_SCENARIO(c18_nesting, pb(0), pb(0)) {
  static const int depths[] = {1, 2, 10, 63, 64, 100, 128, 255, 256, 300};
  int n = depths[mc::choose(10, "depth")];
  int kind = mc::choose(3, "kind");
  dap::any v = dap::integer(7);
  for (int i = 0; i < n; i++) {
    if (kind == 0 || (kind == 2 && i % 2)) {
      dap::array<dap::any> a;
      a.push_back(v);
      v = a;
    } else {
      dap::object o;
      o["n"] = v;
      v = o;
    }
  }
  roundtrip(v, D(v));
}
// Typed structures: every combination of set and unset members.
MC_SCENARIO(c18_structs, pb(0), pb(0)) {
  dap::Node n;
  n.x = mc::choose(2, "x") ? INT64_MIN : 3;
  switch (mc::choose(3, "y")) {
    case 1: n.y = dap::string("y\0z", 3); break;
    case 2: n.y = dap::string(); break;
  }
  int kids = mc::choose(3, "kids");
  for (int i = 0; i < kids; i++) {
    dap::Leaf l;
    l.x = i;
    if (i) l.y = "kid";
    n.kids.push_back(l);
  }
  if (mc::choose(2, "nums")) n.nums = dap::array<dap::integer>(mc::choose(3, "nums length"), dap::integer(5));
  switch (mc::choose(3, "v")) {
    case 0: n.v = dap::integer(INT64_MAX); break;
    case 1: n.v = dap::string("vs"); break;
    case 2: n.v = dap::boolean(true); break;
  }
  switch (mc::choose(10, "a")) {
    case 1: n.a = dap::any(dap::integer(4)); break;
    case 4: n.a = dap::any(nullptr); break;
    case 5: n.a = dap::any(dap::object()); break;
    case 6: n.a = dap::any(dap::array<dap::any>()); break;
    case 7: n.a = dap::any(dap::string("")); break;
    case 8: n.a = dap::any(dap::boolean(false)); break;
    case 9: n.a = dap::any(dap::integer(0)); break;
    case 2: n.a = dap::any(dap::array<dap::any>{dap::any(dap::string("in"))}); break;
    case 3: { dap::object o; o["p"] = dap::number(0.25); n.a = dap::any(o); break; }
  }
  if (mc::choose(2, "o")) n.o["q"] = dap::any(dap::boolean(false));
  if (mc::choose(2, "n")) n.n = dap::number(1.0 / 3);
  n.b = mc::choose(2, "b");
  roundtrip(n, "");
  // the names of the members present
  for (int k = 0; k < be::kCount; k++) {
    std::string text;
    be::encode(k, n, &text);
    Val j;
    mj::parse(text, &j);
    static const char* names[] = {"x", "y", "kids", "nums", "v", "a", "o", "n", "b"};
    bool want[] = {true, n.y.has_value(), true, n.nums.has_value(), true, n.a.has_value(), true, n.n.has_value(), true};
    size_t total = 0;
    for (int i = 0; i < 9; i++) {
      if (j.count(names[i]) != want[i]) mc::fail("%s: member %s is %s in %s", be::name(k), names[i], want[i] ? "missing" : "there although unset", clip(text).c_str());
      total += want[i];
    }
    if (j.o.size() != total) mc::fail("%s: unexpected members in %s", be::name(k), clip(text).c_str());
  }
}
// Values that hold structures: arrays of arrays, arrays of structs, anys that
// hold typed arrays and structs.
MC_SCENARIO(c18_nested_types, pb(0), pb(0)) {
  int n = mc::choose(3, "outer"), m = mc::choose(3, "inner");
  dap::array<dap::array<dap::integer>> aa;
  for (int i = 0; i < n; i++) aa.push_back(dap::array<dap::integer>(m, dap::integer(i)));
  roundtrip(aa, "");
  dap::array<dap::array<dap::array<dap::string>>> aaa(n, dap::array<dap::array<dap::string>>(m, dap::array<dap::string>(n, "s")));
  roundtrip(aaa, "");
  dap::array<dap::object> ao;
  for (int i = 0; i < n; i++) {
    dap::object o;
    for (int k = 0; k < m; k++) o["m" + std::to_string(k)] = dap::integer(k);
    ao.push_back(o);
  }
  roundtrip(ao, "");
  dap::array<dap::boolean> ab;
  for (int i = 0; i < n; i++) ab.push_back(dap::boolean(i != m));
  roundtrip(ab, "");
  dap::array<dap::number> an(n, dap::number(m + 0.5));
  roundtrip(an, "");
  roundtrip(dap::Nothing(), "{}");
  // typed contents of an any: their JSON form is that of the content
  dap::Leaf l;
  l.x = n;
  if (m) l.y = "leaf";
  for (int k = 0; k < be::kCount; k++) {
    std::string a, b;
    if (!be::encode(k, aa, &a) || !be::encode(k, dap::any(aa), &b)) mc::fail("%s: cannot encode an array in an any", be::name(k));
    if (a != b) mc::fail("%s: an array in an any is encoded differently: %s, %s", be::name(k), a.c_str(), b.c_str());
    if (!be::encode(k, l, &a) || !be::encode(k, dap::any(l), &b)) mc::fail("%s: cannot encode a struct in an any", be::name(k));
    if (a != b) mc::fail("%s: a struct in an any is encoded differently: %s, %s", be::name(k), a.c_str(), b.c_str());
    dap::object o;
    o["l"] = l;
    o["a"] = aa;
    std::string t;
    if (!be::encode(k, o, &t)) mc::fail("%s: cannot encode typed members", be::name(k));
    Val j;
    if (!mj::parse(t, &j) || !j.get("l") || j.get("l")->num("x") != n || !j.get("a") || (int)j.get("a")->a.size() != n) mc::fail("%s: typed members of an object: %s", be::name(k), t.c_str());
  }
}
// Texts another program may write: white space, escapes, number forms.
namespace {
template <typename T>
void reads(const std::string& text, const std::string& want) {
  for (int k = 0; k < be::kCount; k++) {
    T v{};
    if (!be::decode(k, text, &v)) mc::fail("%s cannot decode %s", be::name(k), text.c_str());
    if (D(v) != want) mc::fail("%s decodes %s to %s", be::name(k), text.c_str(), D(v).c_str());
  }
}
std::string padded(const std::string& t) {
  static const char* ws[] = {"", " ", "\n", "\t\r\n "};
  int w = mc::choose(4, "white space");
  return ws[w] + t + ws[w];
}
}  // namespace
MC_SCENARIO(c18_texts, pb(0), pb(0)) {
  static const char* nums[] = {"0", "1", "-1", "7", "255", "2147483648", "-2147483649", "9007199254740992", "1.5", "1e2", "1E2", "1e+2", "1E-2", "-1.25e3", "0.0", "123456789.125", "1.0", "100"};
  static const struct { const char *text, *value; } strs[] = {
      {"\\u0041", "A"}, {"\\u00e9", "\xc3\xa9"}, {"\\u20ac", "\xe2\x82\xac"}, {"\\u20AC", "\xe2\x82\xac"}, {"\\ud83d\\ude00", "\xf0\x9f\x98\x80"}, {"\\/", "/"}, {"/", "/"},
      {"\\b\\f\\n\\r\\t", "\b\f\n\r\t"}, {"\\\"\\\\", "\"\\"}, {"\xc3\xa9", "\xc3\xa9"}, {"a\\u0022b", "a\"b"}, {"\\u005c", "\\"}};
  switch (mc::choose(5, "what")) {
    case 0: {
      std::string t = nums[mc::choose(18, "number")];
      double d = strtod(t.c_str(), nullptr);
      std::string p = padded(t);
      reads<dap::number>(p, dnum(d));
      reads<dap::array<dap::number>>("[" + p + "," + p + "]", "[" + dnum(d) + "," + dnum(d) + ",]");
      if (t.find_first_of(".eE") == std::string::npos) {
        reads<dap::integer>(p, dint(strtoll(t.c_str(), 0, 10)));
        reads<dap::any>(p, dint(strtoll(t.c_str(), 0, 10)));
      } else {
        reads<dap::any>(p, dnum(d));
      }
      break;
    }
    case 1: {
      auto& s = strs[mc::choose(12, "string")];
      auto& s2 = strs[mc::choose(12, "string")];
      std::string t = "\"" + std::string(s.text) + s2.text + "\"", v = std::string(s.value) + s2.value;
      reads<dap::string>(padded(t), dstr(v));
      reads<dap::any>(t, dstr(v));
      reads<dap::object>("{" + padded(t) + ":" + t + "}", "{" + dstr(v) + "=" + dstr(v) + ";}");
      break;
    }
    case 2: {
      bool b = mc::choose(2, "b");
      reads<dap::boolean>(padded(b ? "true" : "false"), b ? "true" : "false");
      reads<dap::any>(padded(b ? "true" : "false"), b ? "true" : "false");
      reads<dap::any>(padded("null"), "null");
      break;
    }
    case 3:
      reads<dap::array<dap::integer>>("[" + padded("1") + "," + padded("2") + "]", "[i1,i2,]");
      reads<dap::array<dap::integer>>("[" + padded("") + "]", "[]");
      reads<dap::any>("[" + padded("[ ]") + "," + padded("{ }") + "]", "[[],{},]");
      break;
    case 4: {
      // members in any order, unknown ones among them
      static const char* m[] = {"\"x\":4", "\"y\":\"w\"", "\"unknown\":{\"x\":9}"};
      int a = mc::choose(3, "first"), b = mc::choose(3, "second");
      if (a == b) mc::discard();
      int c = 3 - a - b;
      reads<dap::Leaf>("{" + padded(m[a]) + "," + padded(m[b]) + "," + m[c] + "}", "(i4|s1:w)");
      break;
    }
  }
}
// --------------------------------------------------------------- robustness
// Strings that are not valid UTF-8: encoding neither crashes nor yields
// something no library reads.
MC_SCENARIO(c18_invalid_utf8, pb(0), pb(0)) {
  int n = mc::thorough() ? 3 : 2;
  static const unsigned char kB[] = {0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff, 'a', '"', 0};
  std::string s;
  int len = 1 + mc::choose(n, "length");
  for (int i = 0; i < len; i++) s += char(kB[mc::choose(16, "byte")]);
  int as = mc::choose(3, "as");
  for (int k = 0; k < be::kCount; k++) {
    std::string text;
    bool ok = false;
    dap::object o;
    dap::Leaf l;
    if (as == 0) ok = be::encode(k, dap::string(s), &text);
    if (as == 1) { o[s] = dap::any(dap::string(s)); o["t"] = dap::integer(4); ok = be::encode(k, o, &text); }
    if (as == 2) { l.x = 4; l.y = s; ok = be::encode(k, l, &text); }
    for (int m = 0; m < be::kCount; m++) {
      dap::any d;
      be::decode(m, text, &d);
    }
    // what surrounds the string is unaffected
    if (ok && as > 0) {
      dap::any d;
      if (!be::decode(k, text, &d)) continue;
      if (!d.is<dap::object>()) mc::fail("%s: an object is decoded as something else", be::name(k));
      auto& x = d.get<dap::object>()[as == 1 ? "t" : "x"];
      if (!x.is<dap::integer>() || int64_t(x.get<dap::integer>()) != 4) mc::fail("%s: another member changed", be::name(k));
    }
  }
}
MC_SCENARIO(c18_nonfinite, pb(0), pb(0)) {
  static const double v[] = {INFINITY, -INFINITY, NAN};
  double d = v[mc::choose(3, "value")];
  for (int k = 0; k < be::kCount; k++) {
    std::string t;
    dap::object o;
    o["d"] = dap::number(d);
    be::encode(k, dap::number(d), &t);
    be::encode(k, o, &t);
  }
}
// A serializer used for several values holds only the last.
namespace {
void put(dap::Serializer* s, int what) {
  switch (what) {
    case 0: s->serialize(dap::integer(3)); break;
    case 1: s->serialize(dap::string("str")); break;
    case 2: s->serialize(dap::boolean(true)); break;
    case 3: s->serialize(dap::array<dap::integer>{dap::integer(1), dap::integer(2)}); break;
    case 4: s->serialize(dap::array<dap::integer>{dap::integer(9)}); break;
    case 5: { dap::object o; o["a"] = dap::integer(1); s->serialize(o); break; }
    case 6: { dap::object o; o["b"] = dap::integer(2); s->serialize(o); break; }
    case 7: { dap::Leaf l; l.x = 5; l.y = "w"; s->serialize(l); break; }
    case 8: { dap::Leaf l; l.x = 6; s->serialize(l); break; }
    case 9: s->serialize(dap::any(nullptr)); break;
    case 10: s->object([](dap::FieldSerializer* f) { return f->field("q", dap::integer(7)); }); break;
    case 11: s->serialize(dap::number(2.5)); break;
    case 12: s->serialize(dap::array<dap::integer>()); break;
  }
}
}  // namespace
MC_SCENARIO(c18_reuse, pb(0), pb(0)) {
  int k = mc::choose(be::kCount, "back end");
  int n = mc::thorough() ? 3 : 2;
  int w[4];
  for (int i = 0; i < n; i++) w[i] = mc::choose(13, "value");
  std::string fresh = be::encodeWith(k, [&](dap::Serializer* s) { put(s, w[n - 1]); });
  std::string used = be::encodeWith(k, [&](dap::Serializer* s) { for (int i = 0; i < n; i++) put(s, w[i]); });
  if (fresh != used) mc::fail("%s: a serializer used %d times holds %s instead of %s", be::name(k), n, used.c_str(), fresh.c_str());
  Val j;
  if (!mj::parse(used, &j)) mc::fail("%s: invalid JSON %s", be::name(k), used.c_str());
}
// Decoding an array replaces the elements that were there.
MC_SCENARIO(c18_decode_replaces, pb(0), pb(0)) {
  int k = mc::choose(be::kCount, "back end");
  int before = mc::choose(4, "before"), n = mc::choose(4, "elements");
  dap::array<dap::integer> a, had(before, dap::integer(9));
  dap::array<dap::string> b, hadB(before, "old");
  for (int i = 0; i < n; i++) {
    a.push_back(dap::integer(i));
    b.push_back("new" + std::to_string(i));
  }
  std::string t;
  if (!be::encode(k, a, &t) || !be::decode(k, t, &had)) mc::fail("%s: array of %d", be::name(k), n);
  if (D(had) != D(a)) mc::fail("%s: %s decoded to an array that held %d elements is %s", be::name(k), t.c_str(), before, D(had).c_str());
  if (!be::encode(k, b, &t) || !be::decode(k, t, &hadB)) mc::fail("%s: array of %d", be::name(k), n);
  if (D(hadB) != D(b)) mc::fail("%s: %s decoded to an array that held %d elements is %s", be::name(k), t.c_str(), before, D(hadB).c_str());
  // scalars, too
  dap::integer i = 5; dap::string s = "old"; dap::boolean bo = true; dap::number nu = 2.5; dap::any an = dap::string("old");
  if (!be::encode(k, dap::integer(n), &t) || !be::decode(k, t, &i) || int64_t(i) != n) mc::fail("%s: integer", be::name(k));
  if (!be::encode(k, dap::string(n, 'x'), &t) || !be::decode(k, t, &s) || s != std::string(n, 'x')) mc::fail("%s: string", be::name(k));
  if (!be::encode(k, dap::boolean(n > 1), &t) || !be::decode(k, t, &bo) || bool(bo) != (n > 1)) mc::fail("%s: boolean", be::name(k));
  if (!be::encode(k, dap::number(n + 0.25), &t) || !be::decode(k, t, &nu) || double(nu) != n + 0.25) mc::fail("%s: number", be::name(k));
  if (!be::encode(k, dap::any(dap::integer(n)), &t) || !be::decode(k, t, &an) || D(an) != dint(n)) mc::fail("%s: any", be::name(k));
}
// Fields written one by one: order, repetition, removal.
MC_SCENARIO(c18_fields, pb(0), pb(0)) {
  int k = mc::choose(be::kCount, "back end");
  static const char* names[] = {"a", "b", "c"};
  std::string want[3];
  bool there[3] = {};
  const int n = 3;
  int nm[4], op[4];
  for (int i = 0; i < n; i++) {
    nm[i] = mc::choose(3, "name");
    op[i] = mc::choose(10, "value");
    for (int q = 0; q < i; q++)
      if (nm[q] == nm[i]) mc::discard();  // written once each
  }
  std::string text = be::encodeWith(k, [&](dap::Serializer* s) {
    s->object([&](dap::FieldSerializer* f) {
      for (int i = 0; i < n; i++) {
        bool ok = true;
        there[nm[i]] = op[i] != 2;
        switch (op[i]) {
          case 0: ok = f->field(names[nm[i]], dap::integer(i)); want[nm[i]] = dint(i); break;
          case 1: ok = f->field(names[nm[i]], dap::string("s")); want[nm[i]] = dstr("s"); break;
          case 2: ok = f->field(names[nm[i]], dap::optional<dap::integer>()); break;
          case 4: ok = f->field(names[nm[i]], dap::any(nullptr)); want[nm[i]] = "null"; break;
          case 5: ok = f->field(names[nm[i]], dap::object()); want[nm[i]] = "{}"; break;
          case 6: ok = f->field(names[nm[i]], dap::array<dap::integer>()); want[nm[i]] = "[]"; break;
          case 7: ok = f->field(names[nm[i]], dap::string()); want[nm[i]] = dstr(""); break;
          case 8: ok = f->field(names[nm[i]], dap::boolean(false)); want[nm[i]] = "false"; break;
          case 9: ok = f->field(names[nm[i]], dap::optional<dap::integer>(dap::integer(0))); want[nm[i]] = dint(0); break;
          case 3: ok = f->field(names[nm[i]], [&](dap::Serializer* x) { return x->array(2, [&](dap::Serializer* e) { return e->serialize(dap::integer(8)); }); }); want[nm[i]] = "[i8,i8,]"; break;
        }
        if (!ok) mc::fail("%s: field() failed", be::name(k));
      }
      return true;
    });
  });
  Val j;
  if (!mj::parse(text, &j)) mc::fail("%s: invalid JSON %s", be::name(k), text.c_str());
  for (int i = 0; i < 3; i++) {
    if (j.count(names[i]) != there[i]) mc::fail("%s: member %s in %s", be::name(k), names[i], text.c_str());
    if (there[i] && J(*j.get(names[i])) != want[i]) mc::fail("%s: value of %s in %s", be::name(k), names[i], text.c_str());
  }
}
