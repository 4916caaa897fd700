// Endpoints and message types for the session harnesses.
#ifndef HARNESS_SESS_H
#define HARNESS_SESS_H
#include "common.h"
#include "minijson.h"

#include "dap/io.h"
#include "dap/session.h"
#include "dap/protocol.h"
#include "dap/typeof.h"
#include "dap/types.h"
#include "dap/future.h"

#include <string.h>
#include <functional>
#include <map>

namespace dap {
struct AResponse : public Response {
  integer i;
  string s;
  optional<integer> oi;
  optional<array<string>> oa;
};
DAP_STRUCT_TYPEINFO(AResponse, "", DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(oi, "oi"), DAP_FIELD(oa, "oa"));
struct ARequest : public Request {
  using Response = AResponse;
  integer i;
  string s;
  optional<integer> oi;
  optional<array<string>> oa;
};
DAP_STRUCT_TYPEINFO(ARequest, "areq", DAP_FIELD(i, "i"), DAP_FIELD(s, "s"), DAP_FIELD(oi, "oi"), DAP_FIELD(oa, "oa"));
struct BResponse : public Response {
  optional<integer> x;
};
DAP_STRUCT_TYPEINFO(BResponse, "", DAP_FIELD(x, "x"));
struct BRequest : public Request {
  using Response = BResponse;
  optional<integer> x;
};
DAP_STRUCT_TYPEINFO(BRequest, "breq", DAP_FIELD(x, "x"));
struct AEvent : public Event {
  integer i;
  string s;
};
DAP_STRUCT_TYPEINFO(AEvent, "aevt", DAP_FIELD(i, "i"), DAP_FIELD(s, "s"));
struct BEvent : public Event {
  optional<integer> x;
};
DAP_STRUCT_TYPEINFO(BEvent, "bevt", DAP_FIELD(x, "x"));
}  // namespace dap

namespace sess {

inline std::string frame(const std::string& json) {
  return "Content-Length: " + std::to_string(json.size()) + "\r\n\r\n" + json;
}
// Splits a byte stream into its frames; anything else is a failure.
inline std::vector<mj::Val> frames(const std::string& bytes, bool partial = false) {
  std::vector<mj::Val> res;
  size_t p = 0;
  while (p < bytes.size()) {
    static const char kH[] = "Content-Length: ";
    if (bytes.compare(p, sizeof kH - 1, kH) != 0) mc::fail("output is not a sequence of frames at byte %zu: '%.200s'", p, bytes.c_str());
    p += sizeof kH - 1;
    size_t n = 0, q = p;
    while (q < bytes.size() && bytes[q] >= '0' && bytes[q] <= '9') n = n * 10 + (bytes[q++] - '0');
    if (q == p || bytes.compare(q, 4, "\r\n\r\n") != 0) mc::fail("malformed frame header at byte %zu: '%.200s'", p, bytes.c_str());
    p = q + 4;
    if (bytes.size() - p < n && partial) break;
    if (bytes.size() - p < n) mc::fail("incomplete frame at the end: '%.300s'", bytes.c_str());
    mj::Val v;
    if (!mj::parse(bytes.substr(p, n), &v) || v.kind != mj::Val::kObj)
      mc::fail("a frame does not hold one JSON object: '%.300s'", bytes.substr(p, n).c_str());
    p += n;
    res.push_back(v);
  }
  return res;
}

// The number of complete frames at the start of a byte stream.
inline int countFrames(const std::string& bytes) {
  int n = 0;
  for (size_t p = 0;;) {
    size_t q = bytes.find("\r\n\r\n", p);
    size_t d = bytes.find(": ", p);
    if (q == std::string::npos || d == std::string::npos || d > q) return n;
    size_t len = strtoul(bytes.c_str() + d + 2, nullptr, 10);
    if (bytes.size() - q - 4 < len) return n;
    p = q + 4 + len;
    n++;
  }
}
#ifndef SESS_SEQ
// A scripted endpoint.  The peer's bytes and its end are fed by the harness;
// the session's output is recorded.  It introduces no synchronisation of its
// own between the session's threads.
// Cells (per id): 0 feeds, 1 closed, 2 complete messages the session wrote,
// 3 reads after the end was reported, 4 write calls
class Ep : public dap::ReaderWriter {
 public:
  explicit Ep(int id) : id(id) {}
  static int cell(int id, int k) { return 100 + id * 8 + k; }
  // --- the peer's side ---
  void feed(const std::string& bytes) {
    mc::event("I" + std::string(1, char('0' + id)) + bytes);
    mc::add(cell(id, 0), 1);
  }
  void feedMsg(const std::string& json) { feed(frame(json)); }
  // The peer ends the stream: reads return 0, the endpoint stays "open" like a
  // half-closed socket, or reports closed.
  void end(bool closed) {
    mc::event("E" + std::string(1, char('0' + id)));
    if (closed) mc::set(cell(id, 1), 1);
    mc::add(cell(id, 0), 1);
  }
  // All bytes the session wrote, in order.
  std::string written() const {
    std::string r;
    int n = mc::eventCount();
    for (int k = 0; k < n; k++) {
      size_t l;
      const char* t = mc::eventText(k, &l);
      if (l >= 2 && t[0] == 'O' && t[1] == '0' + id) r.append(t + 2, l - 2);
    }
    return r;
  }
  // Blocks until n messages were written completely.
  void awaitMsgs(int n) { mc::await(cell(id, 2), n); }
  long msgs() const { return mc::get(cell(id, 2)); }
  // Whether a write of these bytes completes a message.
  bool completes(const std::string& bytes) const {
    std::string w = written();
    return countFrames(w + bytes) > countFrames(w);
  }
  bool closed() const { return mc::get(cell(id, 1)) != 0; }
  std::function<bool(int call, const std::string& bytes)> onWrite;  // false: refuse

  // --- the session's side ---
  bool isOpen() override {
    mc::yield();
    return mc::get(cell(id, 1)) == 0;
  }
  void close() override {
    mc::yield();
    if (mc::get(cell(id, 1)) == 0) {
      mc::event("C" + std::string(1, char('0' + id)));
      mc::set(cell(id, 1), 1);
    }
    mc::add(cell(id, 0), 1000);
  }
  size_t read(void* b, size_t n) override {
    if (pos == chunk.size()) {
      mc::await(cell(id, 0), consumed + 1);
      int k = 0, total = mc::eventCount();
      bool found = false;
      for (int i = scanned; i < total && !found; i++) {
        size_t l;
        const char* t = mc::eventText(i, &l);
        if (l < 2 || t[1] != '0' + id) continue;
        if (t[0] == 'C' || t[0] == 'E') { mc::add(cell(id, 3), 1); return 0; }
        if (t[0] != 'I') continue;
        chunk.assign(t + 2, l - 2);
        pos = 0;
        scanned = i + 1;
        consumed++;
        found = true;
      }
      (void)k;
      if (!found) { mc::add(cell(id, 3), 1); return 0; }
    }
    size_t m = chunk.size() - pos;
    if (m > n) m = n;
    memcpy(b, chunk.data() + pos, m);
    pos += m;
    return m;
  }
  bool write(const void* b, size_t n) override {
    mc::yield();
    std::string s((const char*)b, n);
    int call = (int)mc::add(cell(id, 4), 1);
    if (mc::get(cell(id, 1))) return false;
    if (onWrite && !onWrite(call, s)) return false;
    mc::event("O" + std::string(1, char('0' + id)) + s);
    mc::set(cell(id, 2), countFrames(written()));
    return true;
  }

 private:
  const int id;
  std::string chunk;
  size_t pos = 0;
  long consumed = 0;
  int scanned = 0;
};
#endif

inline std::string q(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\', o += c;
    else if ((unsigned char)c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
inline std::string reqA(long long seq, int i, const std::string& s = "s") {
  return "{\"seq\":" + std::to_string(seq) + ",\"type\":\"request\",\"command\":\"areq\",\"arguments\":{\"i\":" + std::to_string(i) + ",\"s\":" + q(s) + "}}";
}
inline std::string reqB(long long seq, int x) {
  return "{\"seq\":" + std::to_string(seq) + ",\"type\":\"request\",\"command\":\"breq\",\"arguments\":{\"x\":" + std::to_string(x) + "}}";
}
inline std::string evA(int seq, int i, const std::string& s = "s") {
  return "{\"seq\":" + std::to_string(seq) + ",\"type\":\"event\",\"event\":\"aevt\",\"body\":{\"i\":" + std::to_string(i) + ",\"s\":" + q(s) + "}}";
}
inline std::string evB(int seq, int x) {
  return "{\"seq\":" + std::to_string(seq) + ",\"type\":\"event\",\"event\":\"bevt\",\"body\":{\"x\":" + std::to_string(x) + "}}";
}
inline std::string respA(int seq, long long rseq, int i, const std::string& s = "s") {
  return "{\"seq\":" + std::to_string(seq) + ",\"type\":\"response\",\"command\":\"areq\",\"success\":true,\"request_seq\":" + std::to_string(rseq) + ",\"body\":{\"i\":" + std::to_string(i) + ",\"s\":" + q(s) + "}}";
}
inline std::string respErr(int seq, long long rseq, const std::string& m) {
  return "{\"seq\":" + std::to_string(seq) + ",\"type\":\"response\",\"command\":\"areq\",\"success\":false,\"request_seq\":" + std::to_string(rseq) + ",\"message\":" + q(m) + "}";
}
inline dap::ARequest areq(int i, const std::string& s = "s") {
  dap::ARequest r;
  r.i = i;
  r.s = s;
  return r;
}
inline dap::BRequest breq(int x) {
  dap::BRequest r;
  r.x = dap::integer(x);
  return r;
}
inline dap::AEvent aev(int i, const std::string& s = "s") {
  dap::AEvent r;
  r.i = i;
  r.s = s;
  return r;
}
inline dap::BEvent bev(int x) {
  dap::BEvent r;
  r.x = dap::integer(x);
  return r;
}
inline dap::AResponse aresp(int i, const std::string& s = "s") {
  dap::AResponse r;
  r.i = i;
  r.s = s;
  return r;
}
template <typename F>
bool ready(F& f) {
  return f.wait_for(std::chrono::seconds(0)) == dap::future_status::ready;
}
#ifndef SESS_SEQ
// Reports of the session's error handler: cell 90 counts them.
inline void countErrors(dap::Session& s) {
  // The function given to the session lives only as long as the call.
  std::unique_ptr<dap::Session::ErrorHandler> h(new dap::Session::ErrorHandler([](const char* m) {
    if (!m || !*m || (unsigned char)*m == 0xaa) mc::fail("error handler called without a message");
    mc::event(std::string("ERR ") + m);
    mc::add(90, 1);
  }));
  s.onError(*h);
}
// bind() with a close callback that lives only as long as the call.
template <typename S, typename R, typename W>
void bindTemp(S& s, const R& r, const W& w, const dap::Session::ClosedHandler& f) {
  std::unique_ptr<dap::Session::ClosedHandler> h(new dap::Session::ClosedHandler(f));
  s->bind(r, w, *h);
}
inline long errors() { return mc::get(90); }
// Events of the log whose text starts with prefix.
inline std::vector<std::string> logged(const char* prefix) {
  std::vector<std::string> r;
  int n = mc::eventCount();
  for (int i = 0; i < n; i++) {
    std::string s = mc::eventAt(i);
    if (s.compare(0, strlen(prefix), prefix) == 0) r.push_back(s.substr(strlen(prefix)));
  }
  return r;
}
#endif
}  // namespace sess
#endif
