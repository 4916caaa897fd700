// C21: socket streams over the simulated TCP stack.
#include "netraw.h"

#include "dap/io.h"
#include "socket.h"

#include <memory>
#include <thread>
#include <vector>

namespace {
const int kPort = 5001;
const char* kPortS = "5001";
namespace net = mc::net;
using RW = std::shared_ptr<dap::ReaderWriter>;

// A dap stream connected to a plain socket of the environment.
struct Link {
  RW rw;
  int peer = -1;
  // serverSide: the dap stream is the accepted end
  explicit Link(bool serverSide) {
    raw::Trust t;
    if (serverSide) {
      dap::Socket l("localhost", kPortS);
      MC_CHECK(l.isOpen());
      peer = raw::connectTo(kPort);
      mc::net::trusted(true);
      rw = l.accept();
    } else {
      int l = raw::listenOn(kPort);
      mc::net::trusted(true);
      rw = dap::Socket::connect("localhost", kPortS, 0);
      peer = raw::acceptOne(l);
      raw::closeIt(l);
    }
    MC_CHECK(rw != nullptr);
    MC_CHECK(peer >= 0);
  }
};

std::string bytes(size_t n, int k) {
  std::string s;
  for (size_t i = 0; i < n; i++) s += char('a' + (i * 7 + k) % 26);
  return s;
}
std::string readN(const RW& rw, size_t n) {
  std::string out;
  while (out.size() < n) {
    char b[16];
    size_t want = n - out.size() < sizeof b ? n - out.size() : sizeof b;
    size_t k = rw->read(b, want);
    if (k > want) mc::fail("read reports %zu of %zu bytes", k, want);
    if (k == 0) break;
    out.append(b, k);
  }
  return out;
}
void expectClosed(const RW& rw) {
  if (rw->isOpen()) mc::fail("the stream reports open after it was closed");
  char b[4];
  size_t k = rw->read(b, 4);
  if (k != 0) mc::fail("read returns %zu bytes after the stream was closed", k);
  if (rw->write("x", 1)) mc::fail("write succeeds after the stream was closed");
}
}  // namespace

// Everything written arrives, however the system splits it.
static void writes(bool serverSide, unsigned mask) {
  static const size_t sizes[] = {1, 3, 8, 0};
  net::bufferSize(mc::choose(2, "buffer") ? 5 : 64);
  Link l(serverSide);
  net::faults(mask);
  int n = 1 + mc::choose(2, "writes");
  std::string all;
  std::vector<std::string> parts;
  for (int i = 0; i < n; i++) {
    parts.push_back(bytes(sizes[mc::choose(4, "size")], i * 5));
    all += parts.back();
  }
  std::string got, end;
  std::thread rd([&] { got = raw::recvN(l.peer, 100, &end); mc::publish(3); });
  std::vector<bool> ok;
  for (auto& p : parts) {
    std::vector<char> exact(p.begin(), p.end());  // an access outside is detected
    ok.push_back(l.rw->write(exact.data(), exact.size()));
  }
  net::faults(0);
  l.rw.reset();
  rd.join();
  mc::subscribe(3);
  bool reset = mask & net::RESET;
  size_t at = 0;
  for (size_t i = 0; i < parts.size(); i++) {
    if (!ok[i] && !reset) mc::fail("write of %zu bytes fails though the connection is intact", parts[i].size());
    if (!reset && got.compare(at, parts[i].size(), parts[i]) != 0)
      mc::fail("write %zu reported success but '%s' arrived", i, got.c_str());
    at += parts[i].size();
  }
  if (reset) {
    if (all.compare(0, got.size(), got) != 0) mc::fail("'%s' arrived, not a prefix of '%s'", got.c_str(), all.c_str());
  } else if (got != all) {
    mc::fail("'%s' arrived instead of '%s'", got.c_str(), all.c_str());
  }
  if (!reset && end != "eof") mc::fail("the reader's end is %s", end.c_str());
  raw::closeIt(l.peer);
  mc::outcome(end + std::to_string(got.size()));
}
MC_SCENARIO(c21_write_pieces, pb(3), pb(5)) { writes(mc::choose(2, "side"), net::SHORT_SEND | net::INTR); }
MC_SCENARIO(c21_write_reset, pb(3), pb(5)) { writes(mc::choose(2, "side"), net::SHORT_SEND | net::RESET | net::INTR); }

// Everything sent is read, once and in order, however it is split.
MC_SCENARIO(c21_read_pieces, pb(3), pb(5)) {
  net::bufferSize(mc::choose(2, "buffer") ? 3 : 64);
  Link l(mc::choose(2, "side"));
  net::faults(net::SHORT_RECV | net::INTR);
  std::string all = bytes(9, 0);
  int split = 1 + mc::choose(8, "split");
  static const size_t asks[] = {1, 4, 9, 16};
  size_t ask = asks[mc::choose(4, "ask")];
  std::thread wr([&] {
    raw::sendAll(l.peer, all.substr(0, split));
    raw::sendAll(l.peer, all.substr(split));
    raw::fin(l.peer);
  });
  std::string got;
  for (;;) {
    std::vector<char> b(ask);
    size_t k = l.rw->read(b.data(), ask);
    if (k > ask) mc::fail("read reports %zu of %zu bytes", k, ask);
    if (k == 0) break;
    got.append(b.data(), k);
    if (got.size() > 20) break;
  }
  wr.join();
  if (got != all) mc::fail("read '%s' instead of '%s'", got.c_str(), all.c_str());
  l.rw.reset();
  raw::closeIt(l.peer);
}

// read() returns what has arrived; it does not wait for more.
MC_SCENARIO(c21_read_available, pb(3), pb(5)) {
  Link l(mc::choose(2, "side"));
  static const size_t asks[] = {1, 3, 4, 64};
  size_t ask = asks[mc::choose(4, "ask")];
  std::thread peer([&] {
    for (int i = 0; i < 2; i++) {
      raw::sendAll(l.peer, i ? "xyz" : "abc");
      if (raw::recvN(l.peer, 1) != "!") mc::fail("no answer");
    }
  });
  for (int i = 0; i < 2; i++) {
    std::string got;
    while (got.size() < 3) {
      std::vector<char> b(ask);
      size_t k = l.rw->read(b.data(), ask);
      if (k == 0 || k > ask) mc::fail("read of %zu bytes returns %zu", ask, k);
      got.append(b.data(), k);
    }
    if (got != (i ? "xyz" : "abc")) mc::fail("read '%s'", got.c_str());
    if (!l.rw->write("!", 1)) mc::fail("write fails though the connection is intact");
  }
  peer.join();
  l.rw.reset();
  raw::closeIt(l.peer);
}
// Writes and reads of every size class, far beyond the buffers of the system.
MC_SCENARIO(c21_large, pb(0), pb(1)) {
  static const size_t sizes[] = {255, 256, 16384, 32767, 32768, 40000, 65535, 65536, 65537, 131073};
  size_t n = sizes[mc::choose(10, "size")];
  bool large = mc::choose(2, "buffer"), late = false;
  if (large) net::bufferSize(163840);
  Link l(mc::choose(2, "side"));
  bool out = mc::choose(2, "write");
  if (!out && large) late = mc::choose(2, "read when all is there");
  std::vector<char> data(n);
  for (size_t i = 0; i < n; i++) data[i] = char(i * 31 + i / 251);
  std::vector<char> got(n);
  size_t at = 0;
  if (out) {
    std::thread rd([&] {
      raw::Trust t;
      ssize_t k;
      while (at < n && (k = ::recv(l.peer, got.data() + at, n - at, 0)) > 0) at += k;
    });
    if (!l.rw->write(data.data(), n)) mc::fail("write of %zu bytes fails though the connection is intact", n);
    rd.join();
  } else {
    std::thread wr([&] {
      raw::Trust t;
      for (size_t w = 0; w < n;) {
        auto k = ::send(l.peer, data.data() + w, n - w, MSG_NOSIGNAL);
        if (k <= 0) break;
        w += k;
      }
    });
    if (late) wr.join();
    while (at < n) {
      size_t k = l.rw->read(got.data() + at, n - at);
      if (k == 0 || k > n - at) mc::fail("read of %zu bytes returns %zu though the connection is intact", n - at, k);
      at += k;
    }
    if (!late) wr.join();
  }
  if (at != n || got != data) mc::fail("%zu of %zu bytes arrive, or others", at, n);
  l.rw.reset();
  raw::closeIt(l.peer);
}

// A write that cannot be completed fails and leaves the process alive.
MC_SCENARIO(c21_write_gone, pb(4), pb(8)) {
  Link l(mc::choose(2, "side"));
  int how = mc::choose(4, "how");
  int when = mc::choose(2, "when");
  std::thread p([&] {
    if (how == 0) raw::closeIt(l.peer);
    if (how == 1) raw::resetIt(l.peer);
    if (how == 2) {
      raw::recvN(l.peer, 1);
      raw::closeIt(l.peer);
    }
    if (how == 3) {
      raw::recvN(l.peer, 2);
      raw::resetIt(l.peer);
    }
  });
  if (when && how < 2) p.join();
  int good = 0, bad = 0;
  for (int i = 0; i < 4; i++) {
    bool r = l.rw->write("ab", 2);
    if (r && bad) mc::fail("write succeeds after the connection failed");
    (r ? good : bad)++;
    if (i == 2 && p.joinable()) p.join();
  }
  char b[2];
  if (l.rw->read(b, 2) != 0) mc::fail("read returns data that was never sent");
  l.rw->isOpen();
  l.rw.reset();
  mc::outcome(std::to_string(how) + ":" + std::to_string(good));
}

// A stream is open until it is closed or fails.
MC_SCENARIO(c21_open, pb(3), pb(5)) {
  Link l(mc::choose(2, "side"));
  if (!l.rw->isOpen()) mc::fail("a connected stream reports closed");
  int how = mc::choose(3, "how");
  if (how == 0) {
    l.rw->close();
    expectClosed(l.rw);
    l.rw->close();
    expectClosed(l.rw);
    std::string end;
    raw::recvN(l.peer, 1, &end);
    if (end != "eof") mc::fail("closing the stream gives the peer '%s'", end.c_str());
    raw::closeIt(l.peer);
  } else if (how == 1) {
    raw::resetIt(l.peer);
    if (l.rw->isOpen()) mc::fail("the stream reports open after the connection was reset");
    expectClosed(l.rw);
  } else {
    raw::sendAll(l.peer, "hey");
    raw::closeIt(l.peer);
    if (readN(l.rw, 3) != "hey") mc::fail("data sent before the peer closed is lost");
    if (readN(l.rw, 1) != "") mc::fail("data after the end");
    l.rw->close();
    expectClosed(l.rw);
  }
}

// close() from any thread wakes a blocked read.
static void closeRead(int closers, bool writer) {
  Link l(mc::choose(2, "side"));
  bool data = mc::choose(2, "data");
  if (data) raw::sendAll(l.peer, "q");
  std::thread rd([&] {
    std::string s = readN(l.rw, 4);
    if (s != "" && s != "q") mc::fail("read '%s'", s.c_str());
    if (!data && s != "") mc::fail("read '%s', nothing was sent", s.c_str());
    mc::outcome(s);
    mc::await(1, 1);  // close() has returned
    expectClosed(l.rw);
  });
  std::vector<std::thread> ts;
  if (writer) ts.emplace_back([&] { l.rw->write("zz", 2); });
  for (int i = 0; i < closers; i++)
    ts.emplace_back([&] {
      l.rw->close();
      mc::add(1, 1);
      expectClosed(l.rw);
    });
  for (auto& t : ts) t.join();
  rd.join();
  if (mc::net::openFds() != 1) mc::fail("%d descriptors are open after the close", mc::net::openFds());
  std::string end;
  std::string g = raw::recvN(l.peer, 10, &end);
  if (g != "" && g != "zz") mc::fail("the peer got '%s'", g.c_str());
  l.rw.reset();
  raw::closeIt(l.peer);
}
MC_SCENARIO(c21_close_read, pb(4), pb(6)) { closeRead(1, false); }
MC_SCENARIO(c21_close_read2, pb(2), pb(4)) { closeRead(2, false); }
MC_SCENARIO(c21_close_read_write, pb(3), pb(4)) { closeRead(1, true); }

// close() wakes a write that waits for buffer space.
MC_SCENARIO(c21_close_write, pb(5), pb(8)) {
  net::bufferSize(3);
  Link l(mc::choose(2, "side"));
  std::thread wr([&] {
    if (l.rw->write("abcdef", 6)) mc::fail("write succeeds though the peer never read");
    if (l.rw->write("gh", 2)) mc::fail("write succeeds after the stream was closed");
  });
  std::thread cl([&] { l.rw->close(); expectClosed(l.rw); });
  cl.join();
  wr.join();
  std::string g = raw::recvN(l.peer, 10);
  if (std::string("abc").compare(0, g.size(), g) != 0) mc::fail("the peer got '%s'", g.c_str());
  l.rw.reset();
  raw::closeIt(l.peer);
}

// Concurrent use by several threads, each with its own reference.
MC_SCENARIO(c21_release, pb(4), pb(8)) {
  Link l(mc::choose(2, "side"));
  RW a = l.rw, b = l.rw, c = l.rw;
  l.rw.reset();
  int oa = mc::choose(4, "a"), ob = mc::choose(4, "b");
  if (ob < oa) mc::discard();
  auto act = [](RW& rw, int op) {
    char buf[2];
    if (op == 0) rw->close();
    if (op == 1) rw->isOpen();
    if (op == 2) rw->write("k", 1);
    if (op == 3) rw->read(buf, 2);
    rw.reset();
  };
  raw::sendAll(l.peer, "12");
  raw::fin(l.peer);
  std::thread ta([&] { act(a, oa); });
  std::thread tb([&] { act(b, ob); });
  c.reset();
  ta.join();
  tb.join();
  if (mc::net::openFds() != 1) mc::fail("%d descriptors are open after the stream was released", mc::net::openFds());
  raw::closeIt(l.peer);
}

// isOpen() may find the connection broken while others use the stream.
MC_SCENARIO(c21_break, pb(4), pb(6)) {
  Link l(mc::choose(2, "side"));
  int op = mc::choose(3, "op");
  std::thread a([&] {
    char b[2];
    if (op == 0) { if (l.rw->read(b, 2) != 0) mc::fail("read returns data that was never sent"); }
    if (op == 1) l.rw->write("k", 1);
    if (op == 2) l.rw->close();
  });
  std::thread b([&] { l.rw->isOpen(); });
  raw::resetIt(l.peer);
  l.rw->isOpen();
  a.join();
  b.join();
  l.rw->close();
  expectClosed(l.rw);
  if (mc::net::openFds() != 0) mc::fail("%d descriptors are open after the close", mc::net::openFds());
}

// close() of a listening socket wakes accept.
static void closeAccept(int closers, bool client) {
  auto s = std::unique_ptr<dap::Socket>(new dap::Socket("localhost", kPortS));
  MC_CHECK(s->isOpen());
  int fd = -1;
  std::thread ac([&] {
    int n = 0;
    while (RW rw = s->accept()) {
      if (!rw->isOpen()) mc::fail("an accepted stream reports closed");
      n++;
      if (n > 2) mc::fail("more connections than were made");
    }
    mc::outcome(std::to_string(n));
    if (s->accept()) mc::fail("accept succeeds after it failed");
  });
  std::vector<std::thread> ts;
  if (client) ts.emplace_back([&] { fd = raw::connectTo(kPort); });
  for (int i = 0; i < closers; i++)
    ts.emplace_back([&] {
      s->close();
      if (s->isOpen()) mc::fail("the socket reports open after it was closed");
      if (s->accept()) mc::fail("accept succeeds after the socket was closed");
    });
  for (auto& t : ts) t.join();
  ac.join();
  if (fd >= 0) raw::closeIt(fd);
  if (mc::net::openFds() != 0) mc::fail("%d descriptors are open after the close", mc::net::openFds());
  int l = raw::listenOn(kPort);
  if (l < 0) mc::fail("the port is not free after the socket was closed: %s", strerror(errno));
  raw::closeIt(l);
}
MC_SCENARIO(c21_close_accept, pb(6), pb(9)) { closeAccept(1, false); }
MC_SCENARIO(c21_close_accept2, pb(3), pb(5)) { closeAccept(2, false); }
MC_SCENARIO(c21_close_accept_client, pb(3), pb(5)) { closeAccept(1, true); }

// Both ends are dap streams; full duplex.
// Streams and listeners on descriptors of any number.
MC_SCENARIO(c21_descriptors, pb(1), pb(3)) {
  static const int first[] = {FD_SETSIZE - 4, FD_SETSIZE - 3, FD_SETSIZE - 2, FD_SETSIZE - 1, FD_SETSIZE, FD_SETSIZE + 1, 4096, 32766, 65534, 1 << 20};
  net::firstFd(first[mc::choose(10, "first")]);
  {
    Link l(mc::choose(2, "side"));
    if (!l.rw->isOpen()) mc::fail("a connected stream reports closed");
    raw::sendAll(l.peer, "question");
    if (readN(l.rw, 8) != "question") mc::fail("the bytes read are not those sent");
    if (!l.rw->write("answer", 6)) mc::fail("write fails though the connection is intact");
    if (raw::recvN(l.peer, 6) != "answer") mc::fail("the peer got other bytes");
    int how = mc::choose(2, "end");
    std::thread rd([&] {
      if (readN(l.rw, 1) != "") mc::fail("a byte was read that was not sent");
    });
    if (how) l.rw->close();
    else raw::closeIt(l.peer);
    rd.join();
    if (how) {
      expectClosed(l.rw);
      std::string end;
      raw::recvN(l.peer, 1, &end);
      if (end != "eof") mc::fail("closing the stream gives the peer '%s'", end.c_str());
      raw::closeIt(l.peer);
    }
  }
  if (net::openFds() != 0) mc::fail("%d descriptors are left open", net::openFds());
}
MC_SCENARIO(c21_duplex, pb(2), pb(4)) {
  net::bufferSize(3);
  dap::Socket s("localhost", kPortS);
  MC_CHECK(s.isOpen());
  RW a = dap::Socket::connect("localhost", kPortS, mc::choose(2, "timeout") ? 1000 : 0);
  MC_CHECK(a != nullptr);
  RW b = s.accept();
  MC_CHECK(b != nullptr);
  net::faults(net::SHORT_RECV | net::SHORT_SEND | net::INTR);
  std::string x = bytes(5, 1), y = bytes(5, 9), gx, gy;
  std::thread ra([&] { gy = readN(a, 5); }), rb([&] { gx = readN(b, 5); });
  std::thread wa([&] { if (!a->write(x.data(), 5)) mc::fail("write fails though the connection is intact"); });
  if (!b->write(y.data(), 5)) mc::fail("write fails though the connection is intact");
  ra.join();
  rb.join();
  wa.join();
  if (gx != x || gy != y) mc::fail("got '%s' and '%s' instead of '%s' and '%s'", gx.c_str(), gy.c_str(), x.c_str(), y.c_str());
}
