// C01, C02: message framing.  Sequential exploration of the real
// ContentReader/ContentWriter over a scripted transport.
#include "common.h"
#include "content_stream.h"
#include "dap/io.h"
#include "dap/session.h"

#include <string.h>
#include <memory>
#include <string>
#include <vector>

namespace {

// A transport that holds the whole stream and decides, per read, how many of
// the requested bytes it hands out.
struct Src : dap::Reader {
  std::string data;
  size_t pos = 0;
  size_t chunk = 0;        // 0: as many as asked for
  bool split = true;       // explore single deviating reads
  bool closable = true;
  bool closed = false;
  int closes = 0;
  int readsAtEnd = 0;
  bool endOpen = true;     // isOpen() stays true at the end (a file, a socket)
  int atEndBudget = 200;

  bool isOpen() override { return !closed && (endOpen || pos < data.size()); }
  void close() override {
    closes++;
    if (closable) closed = true;
  }
  size_t read(void* buf, size_t n) override {
    if (closed || pos >= data.size()) {
      if (++readsAtEnd > atEndBudget) mc::fail("the reader keeps reading a stream that has ended");
      return 0;
    }
    if (n == 0) return 0;
    size_t m = std::min(n, data.size() - pos);
    if (chunk) m = std::min(m, chunk);
    if (split && m > 1) {
      // one deviation: hand out fewer bytes (any smaller amount)
      int opts = int(std::min<size_t>(m, 40));
      int d = mc::deviate(opts, "short read");
      if (d) m = size_t(d);
    }
    memcpy(buf, data.data() + pos, m);
    pos += m;
    return m;
  }
};

struct Sink : dap::Writer {
  std::string data;
  int calls = 0;
  int failAt = -1;
  bool isOpen() override { return true; }
  void close() override {}
  bool write(const void* p, size_t n) override {
    if (calls++ == failAt) return false;
    data.append((const char*)p, n);
    return true;
  }
};

std::string payload(int k) {
  switch (k) {
    case 0: return "x";
    case 1: return "{}";
    case 2: return "Content-Length: 3\r\n\r\nabc";
    case 3: return std::string("\0\r\n\xff\x80" "C", 6);
    case 4: return "123456789";
    case 5: return "\r\n\r\nContent-Length:";
    case 6: return std::string(10, 'q');
    case 7: {
      std::string s;
      for (int i = 0; i < 256; i++) s.push_back(char(i));
      return s;
    }
    case 8: {
      std::string s;
      for (int i = 0; i < 255; i++) s.push_back(char(i * 7));
      return s;
    }
    case 9: {
      std::string s;
      for (int i = 0; i < 257; i++) s.push_back(char(i * 3));
      return s;
    }
    case 10: {
      std::string s;
      for (int i = 0; i < 1000; i++) s.push_back(char(i * 11));
      return s;
    }
    case 11: return std::string(100, '\0');
    case 12: {
      std::string s;
      for (int i = 0; i < 513; i++) s.push_back(char(i * 5));
      return s;
    }
  }
  return "?";
}

// Independent strict decoder of the base protocol: header lines, empty line,
// content.
bool decode(const std::string& s, std::vector<std::string>* out) {
  size_t i = 0;
  while (i < s.size()) {
    long len = -1;
    for (;;) {
      size_t e = s.find("\r\n", i);
      if (e == std::string::npos) return false;
      if (e == i) {
        i += 2;
        break;
      }
      std::string line = s.substr(i, e - i);
      size_t c = line.find(':');
      if (c == std::string::npos) return false;
      if (line.substr(0, c) == "Content-Length") {
        size_t p = c + 1;
        while (p < line.size() && line[p] == ' ') p++;
        if (p >= line.size()) return false;
        len = 0;
        for (; p < line.size(); p++) {
          if (line[p] < '0' || line[p] > '9') return false;
          len = len * 10 + (line[p] - '0');
        }
      }
      i = e + 2;
    }
    if (len < 0 || i + size_t(len) > s.size()) return false;
    out->push_back(s.substr(i, size_t(len)));
    i += size_t(len);
  }
  return true;
}

std::string frameOf(const std::string& p, int style) {
  std::string n = std::to_string(p.size());
  switch (style) {
    case 0: return "Content-Length: " + n + "\r\n\r\n" + p;
    case 1: return "Content-Length:" + n + "\r\n\r\n" + p;
    case 2: return "Content-Length: \t  " + n + "\r\n\r\n" + p;
    default: return "Content-Length: 00" + n + "\r\n\r\n" + p;
  }
}

// Reads until the reader is not open any more.
std::vector<std::string> drain(dap::ContentReader& r, size_t maxReads) {
  std::vector<std::string> out;
  for (size_t i = 0; r.isOpen(); i++) {
    if (i > maxReads) mc::fail("the message reader stays open after the stream has ended");
    auto s = r.read();
    if (!s.empty()) out.push_back(s);
  }
  // nothing comes after the end
  for (int i = 0; i < 2; i++) {
    auto s = r.read();
    if (!s.empty()) mc::fail("a message of %zu bytes was delivered after the reader reported its end", s.size());
  }
  return out;
}

void compare(const std::vector<std::string>& got, const std::vector<std::string>& want) {
  for (size_t i = 0; i < got.size() && i < want.size(); i++)
    if (got[i] != want[i])
      mc::fail("message %zu differs: got %zu bytes \"%.60s\", want %zu bytes \"%.60s\"", i, got[i].size(),
               got[i].c_str(), want[i].size(), want[i].c_str());
  if (got.size() != want.size()) mc::fail("%zu messages delivered, want %zu", got.size(), want.size());
}

dap::OnInvalidData policy() { return mc::choose(2, "policy") ? dap::kClose : dap::kIgnore; }

const size_t kChunks[] = {0, 1, 2, 3, 7, 16, 255, 256};

}  // namespace

// Writer -> transport with any chunking -> reader, sequences of messages.
MC_SCENARIO(frames_roundtrip, pb(2), pb(3)) {
  int count = 1 + mc::choose(3, "messages");
  std::vector<std::string> want;
  auto sink = std::make_shared<Sink>();
  dap::ContentWriter w(sink);
  for (int i = 0; i < count; i++) {
    // long sequences use the small payloads only
    auto p = payload(mc::choose(count == 1 ? 13 : count == 2 ? 6 : 3, "payload"));
    want.push_back(p);
    MC_CHECK(w.write(p), "the endpoint accepted everything");
  }
  std::vector<std::string> onWire;
  MC_CHECK(decode(sink->data, &onWire), "the written bytes are not a sequence of frames");
  compare(onWire, want);
  auto src = std::make_shared<Src>();
  src->data = sink->data;
  src->chunk = kChunks[mc::choose(8, "chunk")];
  src->split = src->chunk == 0 || src->chunk == 16;
  src->endOpen = count == 1 ? mc::choose(2, "open at end") : 1;
  dap::ContentReader r(src, policy());
  auto got = drain(r, want.size() + 8);
  compare(got, want);
  mc::outcome("n" + std::to_string(got.size()));
}

// Every accepted spelling of a header, every truncation point.
MC_SCENARIO(frames_truncated, pb(1), pb(2)) {
  int count = 1 + mc::choose(2, "messages");
  std::vector<std::string> frames;
  std::string all;
  for (int i = 0; i < count; i++) {
    auto p = payload(mc::choose(count == 1 ? 6 : 3, "payload"));
    frames.push_back(p);
    all += frameOf(p, count == 1 ? mc::choose(4, "style") : 0);
  }
  size_t cut = size_t(mc::choose(int(all.size()) + 1, "cut"));
  // complete messages before the cut
  std::vector<std::string> want;
  {
    std::vector<std::string> tmp;
    size_t off = 0;
    std::string rest = all;
    for (auto& p : frames) {
      // end of this frame: header end + payload
      size_t h = all.find("\r\n\r\n", off) + 4;
      off = h + p.size();
      if (off <= cut) want.push_back(p);
    }
  }
  auto src = std::make_shared<Src>();
  src->data = all.substr(0, cut);
  src->chunk = kChunks[mc::choose(3, "chunk")];
  src->split = src->chunk == 0;
  src->endOpen = count == 1 ? mc::choose(2, "open at end") : 1;
  dap::ContentReader r(src, policy());
  auto got = drain(r, want.size() + 8);
  compare(got, want);
  mc::outcome("n" + std::to_string(got.size()));
}

// Messages of every size around the powers of two, each followed by another.
MC_SCENARIO(frames_large, pb(0), pb(1)) {
  static const size_t sizes[] = {1, 9, 10, 99, 100, 127, 128, 129, 511, 512, 513, 999, 1000, 1023, 1024, 4095, 4096, 4097, 9999, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 65793, 99999, 100000, 131072, 1000000, 1 << 20};
  int n = 32;
  size_t a = sizes[mc::choose(n, "size")], b = mc::choose(3, "next");
  std::string big(a, 0);
  for (size_t i = 0; i < a; i++) big[i] = char((i * 2654435761u) >> 13);
  std::vector<std::string> want = {big};
  if (b == 1) want.push_back("{}");
  if (b == 2) want.insert(want.begin(), "{}");
  auto sink = std::make_shared<Sink>();
  dap::ContentWriter w(sink);
  for (auto& p : want) MC_CHECK(w.write(p), "the endpoint accepted everything");
  std::vector<std::string> onWire;
  MC_CHECK(decode(sink->data, &onWire), "the written bytes are not a sequence of frames");
  compare(onWire, want);
  auto src = std::make_shared<Src>();
  src->data = sink->data;
  static const size_t chunks[] = {0, 100, 256, 1000, 1};
  src->chunk = chunks[mc::choose(a > 4097 && !mc::thorough() ? 4 : 5, "chunk")];
  src->split = false;
  dap::ContentReader r(src, policy());
  compare(drain(r, want.size() + 8), want);
  mc::outcome(std::to_string(a));
}

// Readers and writers that are moved around, as a session does on connect.
// What was received, the policy and the end of the stream move along.
MC_SCENARIO(frames_moved, pb(0), pb(0)) {
  int when = mc::choose(4, "messages before the move");  // 3: after the end
  int target = mc::choose(4, "target");  // fresh, used, ended, with the other policy
  bool strict = mc::choose(2, "policy");
  int broken = mc::choose(3, "invalid tail");
  auto src = std::make_shared<Src>();
  src->split = false;
  src->chunk = kChunks[mc::choose(8, "chunk")];
  src->endOpen = mc::choose(2, "open at end");
  src->data = frameOf("one", 0) + frameOf("two", 0) + (broken ? (broken == 1 ? "junk" : "Content-Length: 7\r\nCo") + frameOf("three", 0) : "");
  std::vector<std::string> want = {"one", "two"}, got;
  if (broken && !strict) want.push_back("three");
  dap::ContentReader r(src, strict ? dap::kClose : dap::kIgnore);
  auto other = std::make_shared<Src>();
  other->split = false;
  other->data = frameOf("other", 0) + (target == 2 ? "" : frameOf("another", 0));
  dap::ContentReader t(other, (target == 3) != strict ? dap::kClose : dap::kIgnore);
  if (target == 1 || target == 2) MC_CHECK(t.read() == "other", "");
  if (target == 2) {
    MC_CHECK(t.read().empty(), "");
    MC_CHECK(!t.isOpen(), "the message reader stays open after the stream has ended");
  }
  for (int i = 0; i < when && i < 2; i++) got.push_back(r.read());
  if (when == 2 && broken == 2) {
    auto s = r.read();  // stops at the broken header
    if (!s.empty()) got.push_back(s);
  }
  if (when == 3) {
    while (r.isOpen()) {
      auto s = r.read();
      if (!s.empty()) got.push_back(s);
    }
  }
  std::unique_ptr<dap::ContentReader> fresh(new dap::ContentReader());
  dap::ContentReader& to = target == 0 ? *fresh : t;
  to = std::move(r);
  if (when == 3) MC_CHECK(!to.isOpen(), "the message reader is open again after its stream has ended");
  for (auto& m : drain(to, 20)) got.push_back(m);
  compare(got, want);
  if (broken && strict) MC_CHECK(src->closes > 0, "the underlying reader must be closed by an invalid header");
  // writers
  auto s1 = std::make_shared<Sink>(), s2 = std::make_shared<Sink>();
  dap::ContentWriter w1(s1), w2;
  MC_CHECK(!w2.isOpen(), "a writer without a stream is not open");
  if (when & 1) w2 = dap::ContentWriter(s2);
  w2 = std::move(w1);
  MC_CHECK(w2.isOpen() && w2.write("x") && s1->data == frameOf("x", 0) && s2->data.empty(), "a moved writer writes elsewhere");
}

// A writer reports failure when the endpoint refuses bytes.
MC_SCENARIO(frames_write_failure, pb(0), pb(0)) {
  auto sink = std::make_shared<Sink>();
  dap::ContentWriter w(sink);
  sink->failAt = mc::choose(6, "failing call");
  int n = 3;
  for (int i = 0; i < n; i++) {
    int before = sink->calls;
    bool ok = w.write(payload(mc::choose(3, "payload")));
    bool refused = sink->failAt >= before && sink->failAt < sink->calls;
    MC_CHECK(ok == !refused, "write's result must tell whether the endpoint took the bytes");
  }
}

// ---------------------------------------------------------------- C02
namespace {

const char* kTokens[] = {
    /*0*/ "x",
    /*1*/ "Content-Length: 2\r\n\r\n{}",
    /*2*/ "Content-Length: 4\r\n\r\n\"ab\"",
    /*3*/ "Content-Length",
    /*4*/ "Content-Length:",
    /*5*/ "Content-Length: \r\n\r\n",
    /*6*/ "Content-Length: 0\r\n\r\n",
    /*7*/ "Content-Length: 5\r\n",
    /*8*/ "Content-Length: 3\n\nabc",
    /*9*/ "\r\n\r\n",
    /*10*/ "Content-Length: 18446744073709551616\r\n\r\n",
    /*11*/ "Content-Length: 18446744073709551618\r\n\r\n",
    /*12*/ "CContent-Length: 1\r\n\r\nz",
    /*13*/ "Content-Length: -1\r\n\r\n",
    /*14*/ "Content-Length: 3x\r\n\r\nabc",
    /*15*/ "content-length: 2\r\n\r\n[]",
    /*16*/ "ContentContent-Length: 1\r\n\r\nw",
    /*17*/ "Content-Length: 36893488147419103234\r\n\r\n{}",
    /*18*/ "Content-Length: 2\r\n\rX",
    /*19*/ " \t",
    /*20*/ "Content-Length: 7",
    /*21*/ "\xff\xfe",
};
const int kPlain = sizeof(kTokens) / sizeof(*kTokens);
// tokens with NULs
std::string token(int k) {
  if (k < kPlain) return kTokens[k];
  switch (k - kPlain) {
    case 0: return std::string("\0", 1);
    case 1: return std::string("Content-Length: 3\0\r\n\r\nabc", 26);
    case 2: return std::string("Content-Length:\0 3\r\n\r\nabc", 26);
    case 3: return std::string("Content-Length: 1\0" "2\r\n\r\n123456789012", 36);
    default: return std::string("Content\0-Length: 1\r\n\r\na", 24);
  }
}
const int kTok = kPlain + 5;

// Reference decoder: scans for a well-formed frame.
// pos: where it starts.  Returns 1 frame, 0 end of stream, 2 malformed (close).
int refNext(const std::string& s, size_t& pos, bool strict, std::string* out) {
  static const std::string H = "Content-Length:";
  for (;;) {
    if (pos >= s.size()) return 0;
    size_t h;
    if (strict) {
      if (s.compare(pos, H.size(), H) != 0) return s.size() - pos < H.size() ? (H.compare(0, s.size() - pos, s, pos, s.size() - pos) == 0 ? 0 : 2) : 2;
      h = pos;
    } else {
      h = s.find(H, pos);
      if (h == std::string::npos) return 0;
    }
    size_t p = h + H.size();
    while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) p++;
    size_t d = p;
    unsigned __int128 len = 0;
    bool over = false;
    while (p < s.size() && s[p] >= '0' && s[p] <= '9') {
      len = len * 10 + (s[p] - '0');
      if (len > (unsigned __int128)SIZE_MAX) {
        over = true;
        len = (unsigned __int128)SIZE_MAX + 1;
      }
      p++;
    }
    bool good = p > d && len > 0 && !over;
    if (good && s.size() - p < 4 && std::string("\r\n\r\n").compare(0, s.size() - p, s, p, s.size() - p) == 0)
      return 0;  // header cut by the end of the stream
    if (!good && p >= s.size()) return 0;
    if (good && s.compare(p, 4, "\r\n\r\n") == 0) {
      p += 4;
      if (len > s.size() - p) return 0;  // truncated message
      *out = s.substr(p, size_t(len));
      pos = p + size_t(len);
      return 1;
    }
    if (strict) return 2;
    pos = p;
  }
}

void invalidStream(const std::string& data, bool splits) {
  bool strict = mc::choose(2, "policy");
  auto src = std::make_shared<Src>();
  src->data = data;
  src->chunk = kChunks[mc::choose(splits ? 3 : 2, "chunk")];
  src->split = splits;
  src->endOpen = mc::choose(2, "open at end");
  src->closable = strict ? !mc::choose(2, "not closable") : true;
  std::vector<std::string> want;
  size_t pos = 0;
  int res;
  std::string m;
  while ((res = refNext(data, pos, strict, &m)) == 1) want.push_back(m);
  dap::ContentReader r(src, strict ? dap::kClose : dap::kIgnore);
  auto got = drain(r, data.size() + 8);
  compare(got, want);
  if (res == 2) MC_CHECK(src->closes > 0, "the underlying reader must be closed by an invalid header");
  if (!strict) MC_CHECK(src->closes == 0, "invalid data must not close the reader when it is to be ignored");
  mc::outcome(std::string(strict ? "close" : "ignore") + std::to_string(res) + "n" + std::to_string(got.size()));
}
}  // namespace

// All sequences of up to 3 tokens (thorough: 4), valid and invalid.
MC_SCENARIO(invalid_tokens, pb(0), pb(0)) {
  int n = 1 + mc::choose(mc::thorough() ? 4 : 3, "tokens");
  std::string data;
  for (int i = 0; i < n; i++) data += token(mc::choose(kTok, "token"));
  invalidStream(data, false);
}
// Pairs of tokens followed by a valid frame, with every short read.
MC_SCENARIO(invalid_tokens_split, pb(2), pb(3)) {
  std::string data;
  for (int i = 0; i < 2; i++) data += token(mc::choose(kTok, "token"));
  data += token(1);
  invalidStream(data, true);
}
// Every single-byte corruption of a two-frame stream.
MC_SCENARIO(invalid_mutations, pb(0), pb(0)) {
  std::string data = std::string(kTokens[1]) + kTokens[2];
  int kind = mc::choose(3, "kind");
  size_t at = size_t(mc::choose(int(data.size()), "position"));
  static const char subst[] = {0, 'C', ':', ' ', '\t', '0', '9', '\r', '\n', 'x', '\xff', '-', '{'};
  char c = subst[mc::choose(sizeof subst, "byte")];
  if (kind == 0) data[at] = c;
  else if (kind == 1) data.insert(at, 1, c);
  else data.erase(at, 1);
  data += mc::choose(2, "tail") ? std::string("Content-Length: 1\r\n\r\nT") : std::string();
  if (mc::thorough()) {
    size_t at2 = size_t(mc::choose(int(data.size()), "position2"));
    data[at2] = subst[mc::choose(sizeof subst, "byte2")];
  }
  invalidStream(data, false);
}
// All short byte strings over a small alphabet, with a valid frame after it.
MC_SCENARIO(invalid_headers, pb(0), pb(0)) {
  static const char al[] = {'0', '1', '2', ' ', '\r', '\n', 0, 'C', ':'};
  std::string data = "Content-Length:";
  int n = mc::choose(mc::thorough() ? 8 : 6, "length");
  for (int i = 0; i < n; i++) data.push_back(al[mc::choose(sizeof al, "byte")]);
  data += "\r\n\r\nab";
  data += kTokens[1];
  invalidStream(data, false);
}

// One very large message.
MC_SCENARIO(frames_huge, pb(0), pb(0)) {
  size_t n = mc::thorough() ? 70000000 : 17000000;
  std::string big(n, 'x');
  for (size_t i = 0; i < n; i += 4093) big[i] = char(i >> 3);
  auto sink = std::make_shared<Sink>();
  dap::ContentWriter w(sink);
  MC_CHECK(w.write(big) && w.write("{}"));
  auto src = std::make_shared<Src>();
  src->data = sink->data;
  src->split = false;
  dap::ContentReader r(src, dap::kIgnore);
  compare(drain(r, 10), {big, "{}"});
  mc::outcome("ok");
}

// Long runs of every kind of byte before, in and after a header.
MC_SCENARIO(invalid_long, pb(0), pb(0)) {
  static const size_t kLens[] = {1, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1024, 4096, 5000, 70000};
  size_t n = kLens[mc::choose(24, "length")];
  static const char kBytes[] = {' ', '\t', '0', 'x', 'C', '\n', '\r', 0, '\xff', '1', ':'};
  std::string run(n, kBytes[mc::choose(sizeof kBytes, "byte")]);
  std::string a = "Content-Length:", b = " 3", c = "\r\n\r\n", d = "abc";
  switch (mc::choose(7, "place")) {
    case 0: a = run + a; break;
    case 1: a += run; break;
    case 2: b += run; break;
    case 3: c = run + c; break;
    case 4: d += run; break;
    case 5: a = "Content-Length: 3\r\n\r\nxyz" + run + a; break;
    case 6: {  // repeated half headers
      std::string r;
      for (size_t i = 0; i < n; i++) r += mc::thorough() ? "Content-Len" : "Content-Length: ";
      a = r + a;
      break;
    }
  }
  invalidStream(a + b + c + d + kTokens[1], false);
}
