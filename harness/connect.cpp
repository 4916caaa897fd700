// C23: connecting, over the simulated TCP stack.
#include "netraw.h"

#include "dap/io.h"
#include "dap/network.h"

#include <chrono>
#include <memory>
#include <thread>
#include <vector>

namespace {
namespace net = mc::net;
using RW = std::shared_ptr<dap::ReaderWriter>;
const int kPort = 7001;
const uint64_t ms = 1000000ull;

// The stream must be connected to the peer and block when there is no data.
void usable(const RW& rw, int peer) {
  if (!rw->isOpen()) mc::fail("connect returns a stream that is not open");
  net::bufferSize(3);
  std::thread rd([&] {
    char b[4];
    size_t k = rw->read(b, 4);
    if (k != 2 || b[0] != 'o' || b[1] != 'k') mc::fail("the stream of connect reads %zu bytes instead of waiting for the data", k);
    mc::set(1, 1);
  });
  std::thread wr([&] {
    if (!rw->write("abcdef", 6)) mc::fail("the stream of connect fails to write instead of waiting for space");
  });
  mc::quiesce();
  // any amount of time may pass
  std::this_thread::sleep_for(std::chrono::hours(2));
  if (mc::get(1)) mc::fail("read returned before data was sent");
  raw::sendAll(peer, "ok");
  if (raw::recvN(peer, 6) != "abcdef") mc::fail("the data written arrives incomplete");
  rd.join();
  wr.join();
}
RW timed(const char* addr, int port, uint32_t timeout, uint64_t* took) {
  uint64_t t0 = net::clock();
  RW rw = dap::net::connect(addr, port, timeout);
  *took = net::clock() - t0;
  return rw;
}
}  // namespace

// Every combination of timeout and delay of the peer's answer.
MC_SCENARIO(c23_time, pb(1), pb(2)) {
  static const uint32_t timeouts[] = {0, 1, 10, 999, 1000, 1001, 2500, 60000, 4294967u, 4294968u, 2147483647u, 2147483648u, 4294967295u};
  static const uint64_t delays[] = {0, ms, 10 * ms, 700 * ms, 1000 * ms, 1700 * ms, 3000 * ms, 100000 * ms, 4300000 * ms, ~0ull};
  static const int errs[] = {0, ECONNREFUSED, EHOSTUNREACH};
  uint32_t t = timeouts[mc::choose(13, "timeout")];
  uint64_t d = delays[mc::choose(10, "delay")];
  int e = errs[mc::choose(3, "error")];
  int l = raw::listenOn(kPort);
  uint64_t dd = d == ~0ull ? (uint64_t)5000000000000 * ms : d;  // effectively never
  if (d == ~0ull && t == 0) mc::discard();
  // The system's calls measure in 31 bits: whether a wait of more than 24 days
  // ends exactly in time is left open.
  if (d == ~0ull && t > 2147483647u) mc::discard();
  net::delay(kPort, dd, e);
  uint64_t took;
  if (d == 0) net::faults(net::CONNECT_NOW);
  RW rw = timed(mc::choose(2, "address") ? "127.0.0.1" : "localhost", kPort, t, &took);
  net::faults(0);
  uint64_t limit = uint64_t(t) * ms;
  if (t != 0 && took > limit) mc::fail("connect with a timeout of %u ms takes %llu us", t, (unsigned long long)took / 1000);
  if (e && rw) mc::fail("connect succeeds though the peer refuses");
  if (e == 0 && (t == 0 || dd < limit) && !rw) mc::fail("connect with a timeout of %u ms fails after %llu us though the peer answers after %llu us", t,
                                                     (unsigned long long)took / 1000, (unsigned long long)dd / 1000);
  if (t == 0 && took < dd) mc::fail("connect returns before the outcome");
  if (t != 0 && dd > limit && rw) mc::fail("connect succeeds though the peer has not answered");
  if (t != 0 && dd > limit && took < limit) mc::fail("connect with a timeout of %u ms gives up after %llu us", t, (unsigned long long)took / 1000);
  mc::outcome(rw ? "ok" : "no");
  if (rw) {
    int p = raw::acceptOne(l);
    usable(rw, p);
    rw.reset();
    raw::closeIt(p);
  } else if (net::openFds() != 1) {
    mc::fail("a failed connect leaves %d descriptors open", net::openFds() - 1);
  }
  raw::closeIt(l);
}

// Every failing call.
MC_SCENARIO(c23_faults, pb(3), pb(4)) {
  unsigned mask = net::RESOLVE_ERR | net::SOCKET_ERR | net::CONNECT_ERR | net::FCNTL_ERR | net::SELECT_ERR | net::INTR | net::CONNECT_NOW;
  uint32_t t = mc::choose(2, "timeout") ? 500 : 0;
  int srv = mc::choose(3, "peer");  // 0 listens, 1 nobody, 2 resets at once
  int l = srv != 1 ? raw::listenOn(kPort) : -1;
  static const uint64_t slow[] = {0, 100 * ms, 900 * ms};
  int sl = mc::choose(3, "slow");
  if (sl) net::delay(kPort, slow[sl], 0);
  std::thread peer;
  if (srv == 2)
    peer = std::thread([&] {
      int p = raw::acceptOne(l);
      if (p >= 0) raw::resetIt(p);
    });
  if (mc::choose(2, "high descriptors")) net::firstFd(FD_SETSIZE - 1 + mc::choose(3, "first"));
  int before = net::openFds();
  net::faults(mask);
  uint64_t took;
  RW rw = timed("localhost", kPort, t, &took);
  net::faults(0);
  if (t && took > t * ms) mc::fail("connect takes longer than its timeout");
  if (rw && srv == 1) mc::fail("connect succeeds though nobody listens");
  if (!rw && srv != 2 && net::openFds() != before) mc::fail("a failed connect leaves %d descriptors open", net::openFds() - before);
  if (rw && srv == 0) {
    int p = raw::acceptOne(l);
    usable(rw, p);
    raw::closeIt(p);
  }
  bool ok = rw != nullptr;
  rw.reset();
  if (l >= 0) {
    raw::Trust tr;
    ::shutdown(l, SHUT_RDWR);
  }
  if (peer.joinable()) peer.join();
  if (l >= 0) raw::closeIt(l);
  mc::outcome(ok ? "ok" : "no");
}

// Addresses and ports that cannot be reached.
MC_SCENARIO(c23_inputs, pb(1), pb(2)) {
  static const char* addrs[] = {"localhost", "127.0.0.1", "", "nowhere", "256.1.1.1", "10.0.0.1"};
  static const int ports[] = {kPort, kPort + 1, 0, 65535, 65536, -1, -2147483647 - 1, 2147483647};
  int a = mc::choose(6, "address"), p = mc::choose(8, "port");
  uint32_t t = mc::choose(2, "timeout") ? 300 : 0;
  int l = raw::listenOn(kPort);
  uint64_t took;
  RW rw = timed(addrs[a], ports[p], t, &took);
  bool good = a < 2 && p == 0;
  if (good != (rw != nullptr)) mc::fail("connect to %s:%d %s", addrs[a], ports[p], rw ? "succeeds" : "fails");
  if (t && took > t * ms) mc::fail("connect takes longer than its timeout");
  if (net::openFds() != (good ? 2 : 1)) mc::fail("%d descriptors are open", net::openFds());
  if (rw) {
    int q = raw::acceptOne(l);
    usable(rw, q);
    raw::closeIt(q);
  }
  rw.reset();
  raw::closeIt(l);
}

// Two connects and a server, concurrently.
MC_SCENARIO(c23_concurrent, pb(2), pb(4)) {
  int l = raw::listenOn(kPort, 0);
  uint32_t t = mc::choose(2, "timeout") ? 300 : 0;
  std::vector<std::thread> ts;
  for (int i = 0; i < 2; i++)
    ts.emplace_back([&, i] {
      RW rw = dap::net::connect("localhost", kPort, t);
      if (!rw) mc::fail("connect fails though the server accepts");
      char c = char('a' + i), g = 0;
      if (!rw->write(&c, 1)) mc::fail("write fails");
      if (rw->read(&g, 1) != 1 || g != c) mc::fail("the echo differs");
    });
  for (int i = 0; i < 2; i++) {
    int p = raw::acceptOne(l);
    std::string g = raw::recvN(p, 1);
    raw::sendAll(p, g);
    std::string end;
    raw::recvN(p, 1, &end);
    raw::closeIt(p);
  }
  for (auto& x : ts) x.join();
  raw::closeIt(l);
}

// The listener disappears while connecting.
MC_SCENARIO(c23_listener_leaves, pb(3), pb(5)) {
  int l = raw::listenOn(kPort, 0);
  uint32_t t = mc::choose(2, "timeout") ? 300 : 0;
  if (mc::choose(2, "slow")) net::delay(kPort, 100 * ms, 0);
  std::thread s([&] { raw::closeIt(l); });
  uint64_t took;
  RW rw = timed("localhost", kPort, t, &took);
  if (t && took > t * ms) mc::fail("connect takes longer than its timeout");
  s.join();
  if (rw) {
    char b;
    if (rw->read(&b, 1) != 0) mc::fail("read returns data that was never sent");
  }
  mc::outcome(rw ? "ok" : "no");
}
