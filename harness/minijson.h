// A small strict JSON parser, independent of the libraries under test: the
// oracle for encoded text.
#ifndef MINIJSON_H
#define MINIJSON_H
#include <stdint.h>
#include <stdlib.h>
#include <string>
#include <utility>
#include <vector>

namespace mj {
struct Val {
  enum Kind { kNull, kBool, kNum, kStr, kArr, kObj } kind = kNull;
  bool b = false;
  std::string s;   // string contents, or the text of a number
  std::vector<Val> a;
  std::vector<std::pair<std::string, Val>> o;

  const Val* get(const char* name) const {
    for (auto& kv : o)
      if (kv.first == name) return &kv.second;
    return nullptr;
  }
  int count(const char* name) const {
    int n = 0;
    for (auto& kv : o) n += kv.first == name;
    return n;
  }
  bool isInt() const { return kind == kNum && s.find_first_of(".eE") == std::string::npos; }
  long long i() const { return strtoll(s.c_str(), nullptr, 10); }
  std::string str(const char* name) const {
    auto v = get(name);
    return v && v->kind == kStr ? v->s : "<none>";
  }
  long long num(const char* name, long long def = -1) const {
    auto v = get(name);
    return v && v->isInt() ? v->i() : def;
  }
};

struct Parser {
  const char* p;
  const char* e;
  int depth = 0;
  bool anyBytes = false;  // strings need not be Unicode
  bool comments = false;  // comments are white space
  void ws() {
    for (;;) {
      while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++;
      if (!comments || e - p < 2 || p[0] != '/') return;
      if (p[1] == '/') {
        while (p < e && *p != '\n' && *p != '\r') p++;
      } else if (p[1] == '*') {
        const char* q = p + 2;
        while (e - q >= 2 && !(q[0] == '*' && q[1] == '/')) q++;
        if (e - q < 2) return;
        p = q + 2;
      } else {
        return;
      }
    }
  }
  bool lit(const char* s) {
    const char* q = p;
    while (*s) {
      if (q >= e || *q != *s) return false;
      q++, s++;
    }
    p = q;
    return true;
  }
  static void utf8(std::string& o, uint32_t c) {
    if (c < 0x80) o += char(c);
    else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
  }
  bool hex4(uint32_t* v) {
    *v = 0;
    if (e - p < 4) return false;
    for (int i = 0; i < 4; i++) {
      char c = *p++;
      int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
      if (d < 0) return false;
      *v = *v * 16 + d;
    }
    return true;
  }
  bool str(std::string* o) {
    if (p >= e || *p != '"') return false;
    p++;
    for (;;) {
      if (p >= e) return false;
      unsigned char c = *p++;
      if (c == '"') return true;
      if (c < 0x20) return false;
      if (c != '\\') {
        if (c < 0x80 || anyBytes) { *o += char(c); continue; }
        // well-formed UTF-8 only
        int n = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : 1;
        if (c < 0xC2 || c > 0xF4 || e - p < n) return false;
        uint32_t v = n == 3 ? c & 7 : n == 2 ? c & 15 : c & 31;
        *o += char(c);
        for (int i = 0; i < n; i++) {
          unsigned char d = *p++;
          if ((d & 0xC0) != 0x80) return false;
          v = v << 6 | (d & 63);
          *o += char(d);
        }
        if ((n == 2 && (v < 0x800 || (v >= 0xD800 && v < 0xE000))) || (n == 3 && (v < 0x10000 || v > 0x10FFFF))) return false;
        continue;
      }
      if (p >= e) return false;
      switch (*p++) {
        case '"': *o += '"'; break;
        case '\\': *o += '\\'; break;
        case '/': *o += '/'; break;
        case 'b': *o += '\b'; break;
        case 'f': *o += '\f'; break;
        case 'n': *o += '\n'; break;
        case 'r': *o += '\r'; break;
        case 't': *o += '\t'; break;
        case 'u': {
          uint32_t v;
          if (!hex4(&v)) return false;
          if (v >= 0xDC00 && v < 0xE000 && !anyBytes) return false;
          if (v >= 0xD800 && v < 0xDC00 && !anyBytes) {
            uint32_t w;
            if (e - p < 6 || p[0] != '\\' || p[1] != 'u') return false;
            p += 2;
            if (!hex4(&w) || w < 0xDC00 || w >= 0xE000) return false;
            v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
          }
          utf8(*o, v);
          break;
        }
        default: return false;
      }
    }
  }
  bool digits() {
    const char* q = p;
    while (p < e && *p >= '0' && *p <= '9') p++;
    return p > q;
  }
  bool val(Val* v) {
    if (++depth > 2000) return false;
    ws();
    if (p >= e) return false;
    bool ok = false;
    switch (*p) {
      case 'n': v->kind = Val::kNull; ok = lit("null"); break;
      case 't': v->kind = Val::kBool; v->b = true; ok = lit("true"); break;
      case 'f': v->kind = Val::kBool; v->b = false; ok = lit("false"); break;
      case '"': v->kind = Val::kStr; ok = str(&v->s); break;
      case '[':
        v->kind = Val::kArr;
        p++;
        ws();
        if (p < e && *p == ']') { p++; ok = true; break; }
        for (;;) {
          v->a.emplace_back();
          if (!val(&v->a.back())) return false;
          ws();
          if (p >= e) return false;
          if (*p == ',') { p++; continue; }
          if (*p == ']') { p++; ok = true; break; }
          return false;
        }
        break;
      case '{':
        v->kind = Val::kObj;
        p++;
        ws();
        if (p < e && *p == '}') { p++; ok = true; break; }
        for (;;) {
          ws();
          std::string k;
          if (!str(&k)) return false;
          ws();
          if (p >= e || *p++ != ':') return false;
          v->o.emplace_back(k, Val());
          if (!val(&v->o.back().second)) return false;
          ws();
          if (p >= e) return false;
          if (*p == ',') { p++; continue; }
          if (*p == '}') { p++; ok = true; break; }
          return false;
        }
        break;
      default: {
        const char* q = p;
        v->kind = Val::kNum;
        if (*p == '-') p++;
        if (p < e && *p == '0') p++;
        else if (!digits()) return false;
        if (p < e && *p == '.') { p++; if (!digits()) return false; }
        if (p < e && (*p == 'e' || *p == 'E')) {
          p++;
          if (p < e && (*p == '+' || *p == '-')) p++;
          if (!digits()) return false;
        }
        v->s.assign(q, p - q);
        ok = true;
      }
    }
    depth--;
    return ok;
  }
};

// Whole text is one JSON value.
inline bool parse(const std::string& text, Val* v) {
  Parser q{text.data(), text.data() + text.size()};
  *v = Val();
  if (!q.val(v)) return false;
  q.ws();
  return q.p == q.e;
}
// What is wrong with a text that is not JSON.
enum Fault {
  kBroken,     // anything not below
  kBytes,      // strings that are not Unicode
  kNul,        // a JSON value followed by a NUL
  kExtra,      // a JSON value followed by something else
  kComments,   // JSON with comments
};
inline Fault fault(const std::string& text) {
  Val v;
  Parser b{text.data(), text.data() + text.size()};
  b.anyBytes = true;
  if (b.val(&v) && (b.ws(), b.p == b.e)) return kBytes;
  Parser c{text.data(), text.data() + text.size()};
  c.comments = true;
  if (c.val(&(v = Val())) && (c.ws(), c.p == c.e)) return kComments;
  Parser q{text.data(), text.data() + text.size()};
  if (q.val(&(v = Val()))) {
    q.ws();
    return q.p < q.e && *q.p == 0 ? kNul : kExtra;
  }
  return kBroken;
}
}  // namespace mj
#endif
