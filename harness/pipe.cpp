// C12: dap::pipe().
#include "dap/io.h"
#include "common.h"

#include <string.h>

namespace {
// Exact-size heap buffer: an overlong read is an out-of-bounds access.
std::string readSome(dap::Reader& r, size_t n) {
  std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
  size_t got = r.read(buf.get(), n);
  MC_CHECK(got <= n, "read returned %zu of %zu", got, n);
  return std::string(reinterpret_cast<char*>(buf.get()), got);
}
bool writeAll(dap::Writer& w, const std::string& s) {
  std::unique_ptr<char[]> buf(new char[s.size() + 1]);
  memcpy(buf.get(), s.data(), s.size());
  return w.write(buf.get(), s.size());
}
}  // namespace

// Two writers, one reader using every combination of read sizes.
MC_SCENARIO(writers_2_reader_1, pb(3), pbs(5)) {
  auto p = dap::pipe();
  std::thread a([=] { MC_CHECK(writeAll(*p, "abc")); MC_CHECK(writeAll(*p, "de")); });
  std::thread b([=] { MC_CHECK(writeAll(*p, "XYZ")); });
  std::string got;
  while (got.size() < 8) {
    size_t n = size_t(1) << mc::choose(3, "read size");  // 1, 2, 4
    std::string s = readSome(*p, n);
    MC_CHECK(!s.empty(), "read returned nothing from an open pipe");
    got += s;
  }
  a.join();
  b.join();
  MC_CHECK(got == "abcdeXYZ" || got == "abcXYZde" || got == "XYZabcde", "bytes lost, reordered or interleaved: '%s'", got.c_str());
  mc::outcome(got);
}
// Reads return as soon as one byte is there.
MC_SCENARIO(read_returns_available, pb(6), pbs(8)) {
  auto p = dap::pipe();
  int n = 1 + mc::choose(4, "bytes written");
  static const int kAsked[] = {1, 2, 3, 4, 5, 6, 64, 1024, 4096, 5000, 70000};
  int want = kAsked[mc::choose(11, "bytes asked")];
  bool early = mc::choose(2, "reader first");
  std::string data = std::string("wxyz").substr(0, n);
  auto rd = [=] {
    std::string s = readSome(*p, want);
    MC_CHECK(!s.empty() && data.compare(0, s.size(), s) == 0, "wrong data '%s'", s.c_str());
    mc::set(1, s.size());
  };
  std::unique_ptr<std::thread> t;
  if (early) {
    t.reset(new std::thread(rd));
    mc::quiesce();
    MC_CHECK(mc::get(1) == 0, "read returned from an empty open pipe");
  }
  MC_CHECK(writeAll(*p, data));
  if (!early) t.reset(new std::thread(rd));
  mc::quiesce();
  MC_CHECK(mc::get(1) >= 1, "read of %d blocks although %d bytes are available", want, n);
  t->join();
  // the rest is still there, in order
  int have = (int)mc::get(1);
  while (have < n) {
    std::string s = readSome(*p, 3);
    MC_CHECK(!s.empty() && data.compare(have, s.size(), s) == 0);
    have += s.size();
  }
  mc::outcome(std::to_string(n) + std::to_string(want));
}
MC_SCENARIO(readers_2_writer_1, pb(3), pbs(5)) {
  auto p = dap::pipe();
  auto rd = [=] {
    while (true) {
      std::string s = readSome(*p, 2);
      if (s.empty()) break;
      mc::event(s);
    }
  };
  std::thread a(rd), b(rd);
  MC_CHECK(writeAll(*p, "abc"));
  MC_CHECK(writeAll(*p, "de"));
  mc::quiesce();
  p->close();
  a.join();
  b.join();
  // every byte exactly once; each reader sees increasing positions
  int seen[5] = {0, 0, 0, 0, 0};
  int last[16];
  for (int& l : last) l = -1;
  std::string o;
  for (int i = 0; i < mc::eventCount(); i++) {
    std::string s = mc::eventAt(i);
    for (char c : s) {
      MC_CHECK(c >= 'a' && c <= 'e', "byte that was never written");
      seen[c - 'a']++;
      MC_CHECK(c > last[mc::eventThread(i)], "out of order");
      last[mc::eventThread(i)] = c;
    }
    MC_CHECK(s.size() == 1 || s[1] == s[0] + 1, "one read returned bytes that are not adjacent");
    o += s + "/";
  }
  for (int k = 0; k < 5; k++) MC_CHECK(seen[k] == 1, "byte %c read %d times", 'a' + k, seen[k]);
  mc::outcome(o);
}
// Every reader that can be served is served: nobody stays blocked while bytes
// are available, however they were written.
MC_SCENARIO(readers_2_all_served, pb(4), pbs(7)) {
  auto p = dap::pipe();
  auto rd = [=] {
    std::string s = readSome(*p, 1);
    MC_CHECK(s.size() == 1, "read returned nothing from an open pipe");
    mc::event(s);
  };
  int how = mc::choose(3, "how it is written");
  std::thread a(rd), b(rd);
  if (mc::choose(2, "let them block first")) mc::quiesce();
  if (how == 0) {
    MC_CHECK(writeAll(*p, "ab"));
  } else if (how == 1) {
    MC_CHECK(writeAll(*p, "a"));
    MC_CHECK(writeAll(*p, "b"));
  } else {
    std::thread w([=] { MC_CHECK(writeAll(*p, "b")); });
    MC_CHECK(writeAll(*p, "a"));
    w.join();
  }
  mc::quiesce();
  MC_CHECK(mc::eventCount() == 2, "%d of 2 readers served although the bytes are there", mc::eventCount());
  a.join();
  b.join();
  std::string o = mc::eventAt(0) + mc::eventAt(1);
  MC_CHECK(o == "ab" || o == "ba", "read %s", o.c_str());
  mc::outcome(o + std::to_string(mc::eventThread(0)));
}
// Three readers; close with one of them left unserved.
MC_SCENARIO(readers_3_then_close, pb(2), pbs(4)) {
  auto p = dap::pipe();
  auto rd = [=] { mc::event(readSome(*p, 1)); };
  std::thread a(rd), b(rd), c(rd);
  MC_CHECK(writeAll(*p, "ab"));
  mc::quiesce();
  MC_CHECK(mc::eventCount() == 2, "%d of 3 readers returned with two bytes written", mc::eventCount());
  p->close();
  a.join();
  b.join();
  c.join();
  MC_CHECK(mc::eventAt(2).empty(), "data out of nowhere");
  mc::outcome(mc::eventAt(0) + mc::eventAt(1));
}
// Close from another thread while readers block and writers write.
MC_SCENARIO(close_races, pb(4), pbs(6)) {
  auto p = dap::pipe();
  std::thread r1([=] {
    std::string got;
    while (true) {
      bool closedBefore = mc::get(2) == 1;
      std::string s = readSome(*p, 3);
      if (s.empty()) break;
      (void)closedBefore;
      got += s;
    }
    MC_CHECK(std::string("abcdef").compare(0, got.size(), got) == 0, "not a prefix: '%s'", got.c_str());
    MC_CHECK(!p->isOpen(), "read ended although the pipe reports open");
    mc::outcome(got);
  });
  std::thread r2([=] {
    mc::await(3, 1);
    MC_CHECK(!p->isOpen(), "isOpen after close");
    MC_CHECK(!writeAll(*p, "q"), "write succeeded after close");
    MC_CHECK(!writeAll(*p, ""), "write succeeded after close");
    mc::set(4, 1);
  });
  std::thread c([=] {
    p->close();
    mc::set(3, 1);
  });
  bool ok1 = writeAll(*p, "abc");
  bool ok2 = writeAll(*p, "def");
  MC_CHECK(ok1 || !ok2, "a write succeeded after a write failed because of close");
  r1.join();
  r2.join();
  c.join();
  p->close();
  MC_CHECK(readSome(*p, 1).size() <= 1);
}
// Readers blocked on an empty pipe are all released by close.
MC_SCENARIO(close_wakes_all, pb(4), pbs(8)) {
  auto p = dap::pipe();
  auto rd = [=] {
    MC_CHECK(readSome(*p, 2).empty(), "data out of nowhere");
    MC_CHECK(readSome(*p, 2).empty(), "data out of nowhere");
    mc::add(1, 1);
  };
  std::thread a(rd), b(rd);
  std::unique_ptr<std::thread> c;
  if (mc::choose(2, "let them block first")) {
    mc::quiesce();
    MC_CHECK(mc::get(1) == 0, "read returned from an empty open pipe");
  }
  p->close();
  a.join();
  b.join();
  mc::outcome("ok");
}
// All short single-threaded histories against a reference byte queue.
MC_SCENARIO(histories, pb(0), pb(0)) {
  auto p = dap::pipe();
  std::string ref, trace;
  bool closed = false;
  char next = 'a';
  int depth = mc::thorough() ? 7 : 5;
  static const int sizes[] = {0, 1, 3};
  for (int i = 0; i < depth; i++) {
    int op = mc::choose(7, "op");
    if (op < 3) {
      std::string s;
      for (int k = 0; k < sizes[op]; k++) s += next++;
      bool ok = writeAll(*p, s);
      trace += "w" + std::to_string(sizes[op]);
      MC_CHECK(ok == !closed, "write returned %d after %s", ok, trace.c_str());
      if (ok) ref += s;
    } else if (op < 6) {
      int n = op == 3 ? 1 : op == 4 ? 2 : 4;
      if (ref.empty() && !closed) mc::discard();
      trace += "r" + std::to_string(n);
      std::string s = readSome(*p, n);
      MC_CHECK(closed || !s.empty(), "nothing read after %s", trace.c_str());
      MC_CHECK(ref.compare(0, s.size(), s) == 0, "wrong bytes after %s", trace.c_str());
      ref.erase(0, s.size());
    } else {
      p->close();
      closed = true;
      trace += "c";
    }
    MC_CHECK(p->isOpen() == !closed, "isOpen wrong after %s", trace.c_str());
  }
  mc::outcome(trace);
}

namespace {
mc::Bounds wide(int p) {
  mc::Bounds b = pb(p);
  b.horizon = 2000000;
  b.accesses = 2000000000;
  return b;
}
}  // namespace

// Large amounts: nothing is lost, whatever the sizes of writes and reads.
MC_SCENARIO(large, wide(0), wide(0)) {
  static const size_t writes[] = {1, 4096, 65537, 300000}, reads[] = {1, 255, 4096, 65536, 2000000};
  size_t w = writes[mc::choose(4, "write")], r = reads[mc::choose(5, "read")];
  size_t total = w == 1 || r == 1 ? 5000 : 1200000;
  auto at = [](size_t i) { return char((i * 2654435761u) >> 11); };
  auto p = dap::pipe();
  bool threads = mc::choose(2, "concurrent");
  auto put = [&] {
    for (size_t i = 0; i < total; i += w) {
      std::string s(std::min(w, total - i), 0);
      for (size_t k = 0; k < s.size(); k++) s[k] = at(i + k);
      if (!p->write(s.data(), s.size())) mc::fail("write fails on an open pipe");
    }
  };
  std::thread t;
  if (threads) t = std::thread(put);
  else put();
  std::vector<char> b(r);
  for (size_t i = 0; i < total;) {
    size_t n = p->read(b.data(), r);
    if (n == 0 || n > r) mc::fail("read returns %zu of %zu bytes", n, r);
    for (size_t k = 0; k < n; k++)
      if (b[k] != at(i + k)) mc::fail("byte %zu was read wrong", i + k);
    i += n;
  }
  if (threads) t.join();
  mc::outcome("ok");
}
// Two large writes stay contiguous.
MC_SCENARIO(large_writes, wide(2), wide(3)) {
  auto p = dap::pipe();
  size_t n = 10000;
  std::thread a([=] { std::string s(n, 'a'); p->write(s.data(), n); });
  std::thread b([=] { std::string s(n, 'b'); p->write(s.data(), n); });
  std::vector<char> buf(2 * n);
  char last = 0;
  int changes = 0;
  for (size_t i = 0; i < 2 * n;) {
    size_t k = p->read(buf.data(), buf.size());
    for (size_t j = 0; j < k; j++) changes += buf[j] != last, last = buf[j];
    i += k;
  }
  if (changes != 2) mc::fail("the bytes of two writes are mixed");
  a.join();
  b.join();
  mc::outcome("ok");
}
