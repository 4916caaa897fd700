// C22: net::Server over the simulated TCP stack.
#include "netraw.h"

#include "dap/io.h"
#include "dap/network.h"

#include <memory>
#include <thread>
#include <vector>

namespace {
namespace net = mc::net;
using RW = std::shared_ptr<dap::ReaderWriter>;
const int kPort = 6001;
enum { kConn = 10, kErr = 20, kClosed = 30, kIn = 40, kDone = 50 };

// The callbacks of run r.  Cell kClosed+r is set when the run must be over.
dap::net::Server::OnConnect onConnect(int r, bool echo) {
  return [r, echo](const RW& rw) {
    if (mc::get(kClosed + r)) mc::fail("the connect callback of run %d is called after the run was stopped", r);
    if (!rw) mc::fail("the connect callback is given no stream");
    if (!rw->isOpen() && !mc::get(5)) mc::fail("the connect callback is given a closed stream");
    mc::add(kIn + r, 1);
    if (echo) {
      char b;
      if (rw->read(&b, 1) == 1) rw->write(&b, 1);
    }
    mc::add(kConn + r, 1);
    mc::yield();
    if (mc::get(kClosed + r)) mc::fail("the connect callback of run %d still runs after the run was stopped", r);
    mc::add(kIn + r, -1);
  };
}
dap::net::Server::OnError onError(int r) {
  return [r](const char* m) {
    if (!m || !*m) mc::fail("the error callback is given no message");
    if (mc::get(kClosed + r)) mc::fail("the error callback of run %d is called after the run was stopped", r);
    mc::add(kErr + r, 1);
  };
}
// The callbacks given to start() live only as long as the call.
template <typename S>
bool start(S& srv, const char* address, int port, dap::net::Server::OnConnect c, dap::net::Server::OnError e) {
  std::unique_ptr<dap::net::Server::OnConnect> pc(new dap::net::Server::OnConnect(std::move(c)));
  std::unique_ptr<dap::net::Server::OnError> pe(new dap::net::Server::OnError(std::move(e)));
  return address ? srv->start(address, port, *pc, *pe) : srv->start(port, *pc, *pe);
}
template <typename S>
bool start(S& srv, int port, dap::net::Server::OnConnect c, dap::net::Server::OnError e) {
  return start(srv, nullptr, port, std::move(c), std::move(e));
}
void portFree(int port) {
  int l = raw::listenOn(port);
  if (l < 0) mc::fail("port %d is not free after the server was stopped: %s", port, strerror(errno));
  raw::closeIt(l);
}
}  // namespace

// All histories of one controlling thread.
static void history(int depth, unsigned mask) {
  auto srv = dap::net::Server::create();
  int run = -1, port = 0, conns = 0;
  std::vector<int> clients;
  auto over = [&] {
    if (run >= 0) mc::set(kClosed + run, 1);
  };
  auto verify = [&] {
    mc::quiesce();
    if (run < 0) return;
    if (mc::get(kConn + run) != conns)
      mc::fail("%d clients connected to run %d but the connect callback was called %ld times", conns, run, mc::get(kConn + run));
    if (mc::get(kErr + run) != 0) mc::fail("%ld errors are reported in run %d", mc::get(kErr + run), run);
  };
  bool on = false;
  int nrun = 0;
  for (int i = 0; i < depth; i++) {
    int op = mc::choose(7, "op");
    switch (op) {
      case 0:
      case 1: {  // start
        if (on) verify();
        int p = kPort + op;
        over();
        run = nrun++;
        conns = 0;
        if (!start(srv, p, onConnect(run, false), onError(run))) mc::fail("start fails on a free port");
        if (on && p != port) portFree(port);
        on = true;
        port = p;
        break;
      }
      case 2: {  // start on a port that is taken
        if (on) verify();
        int l = raw::listenOn(kPort + 7);
        over();
        run = nrun++;
        conns = 0;
        if (start(srv, "localhost", kPort + 7, onConnect(run, false), onError(run))) mc::fail("start succeeds on a port that is taken");
        if (mc::get(kErr + run) != 1) mc::fail("the failed start reported %ld errors", mc::get(kErr + run));
        mc::set(kErr + run, 0);
        if (on) portFree(port);
        raw::closeIt(l);
        on = false;
        over();
        break;
      }
      case 3:  // stop
        if (on) verify();
        srv->stop();
        over();
        if (on) portFree(port);
        on = false;
        break;
      case 4: {  // a client connects
        int fd = raw::connectTo(on ? port : kPort);
        if ((fd >= 0) != on) mc::fail("connecting %s while the server is %s", fd >= 0 ? "succeeds" : "fails", on ? "started" : "stopped");
        if (fd >= 0) {
          conns++;
          clients.push_back(fd);
        }
        verify();
        break;
      }
      case 5:  // destroy, make a new server
        if (on) verify();
        srv.reset();
        over();
        if (on) portFree(port);
        on = false;
        run = -1;
        srv = dap::net::Server::create();
        break;
      case 6:  // clients leave
        if (clients.empty()) mc::discard();
        for (int c : clients) raw::closeIt(c);
        clients.clear();
        break;
    }
  }
  if (on) verify();
  srv.reset();
  over();
  if (on) portFree(port);
  for (int c : clients) raw::closeIt(c);
  mc::outcome(std::to_string(nrun));
}
MC_SCENARIO(c22_history, pb(0), pb(0)) { history(mc::thorough() ? 7 : 6, 0); }
MC_SCENARIO(c22_history_sched, pb(2), pb(3)) { history(3, 0); }

// start() with failing system calls.
MC_SCENARIO(c22_start_fails, pb(3), pb(5)) {
  unsigned mask = net::RESOLVE_ERR | net::SOCKET_ERR | net::BIND_ERR | net::LISTEN_ERR;
  auto srv = dap::net::Server::create();
  bool was = mc::choose(2, "running before");
  if (was && !start(srv, kPort, onConnect(0, false), onError(0))) mc::fail("start fails");
  static const char* addrs[] = {"localhost", "127.0.0.1", "10.1.2.3", "no such host", "0.0.0.0"};
  int a = mc::choose(5, "address");
  static const int ports[] = {kPort, kPort + 1, 70000, -1};
  int p = mc::choose(4, "port");
  net::faults(mask);
  bool ok = start(srv, addrs[a], ports[p], onConnect(1, false), onError(1));
  net::faults(0);
  mc::set(kClosed + 0, 1);
  bool possible = a != 2 && a != 3 && p < 2;
  if (ok && !possible) mc::fail("start succeeds on %s port %d", addrs[a], ports[p]);
  if (!ok && mc::get(kErr + 1) == 0) mc::fail("start fails without an error being reported");
  if (ok && mc::get(kErr + 1) != 0) mc::fail("start succeeds but reports an error");
  int fd = p < 2 ? raw::connectTo(ports[p]) : -1;
  if (ok != (fd >= 0)) mc::fail("start returned %d but connecting to it %s", ok, fd >= 0 ? "succeeds" : "fails");
  mc::quiesce();
  if (ok && mc::get(kConn + 1) != 1) mc::fail("the connect callback was called %ld times for one client", mc::get(kConn + 1));
  int then = mc::choose(3, "then");
  if (then == 1) srv->stop();
  if (then == 2) srv.reset();
  if (then == 0) {
    if (!start(srv, kPort + 2, onConnect(2, false), onError(2))) mc::fail("the server cannot be started again");
    mc::set(kClosed + 1, 1);
    int f2 = raw::connectTo(kPort + 2);
    if (f2 < 0) mc::fail("connecting to the restarted server fails");
    mc::quiesce();
    if (mc::get(kConn + 2) != 1) mc::fail("the connect callback was called %ld times for one client", mc::get(kConn + 2));
    raw::closeIt(f2);
  }
  srv.reset();
  mc::set(kClosed + 1, 1);
  mc::set(kClosed + 2, 1);
  if (fd >= 0) raw::closeIt(fd);
  portFree(kPort);
  portFree(kPort + 1);
  mc::outcome(std::to_string(ok));
}

// Clients connect while the server is stopped or destroyed.
static void stopRace(int clients, int stoppers, bool destroy, bool echo) {
  auto srv = dap::net::Server::create();
  mc::set(5, 1);  // clients may leave early
  if (!start(srv, kPort, onConnect(0, echo), onError(0))) mc::fail("start fails");
  std::vector<std::thread> ts;
  for (int i = 0; i < clients; i++)
    ts.emplace_back([&] {
      int fd = raw::connectTo(kPort);
      if (fd < 0) return;
      mc::add(1, 1);
      if (echo) {
        raw::sendAll(fd, "e");
        std::string g = raw::recvN(fd, 1);
        if (g == "e") mc::add(2, 1);
        else if (g != "") mc::fail("the echo returned '%s'", g.c_str());
      }
      raw::closeIt(fd);
    });
  for (int i = 1; i < stoppers; i++)
    ts.emplace_back([&] {
      srv->stop();
      mc::set(kClosed + 0, 1);
    });
  if (destroy) {
    for (int i = clients; i < (int)ts.size(); i++) ts[i].join();
    srv.reset();
  } else {
    srv->stop();
  }
  mc::set(kClosed + 0, 1);
  long in = mc::get(kIn + 0);
  if (in != 0) mc::fail("%ld connect callbacks run after stop returned", in);
  long n = mc::get(kConn + 0);
  portFree(kPort);
  for (auto& t : ts)
    if (t.joinable()) t.join();
  mc::quiesce();
  if (mc::get(kConn + 0) != n) mc::fail("the connect callback is called after stop returned");
  if (n > mc::get(1)) mc::fail("the connect callback was called %ld times for %ld clients", n, mc::get(1));
  if (echo && mc::get(2) != n) mc::fail("%ld callbacks but %ld echoes", n, mc::get(2));
  if (mc::get(kErr + 0) != 0) mc::fail("stopping the server reports an error");
  mc::outcome(std::to_string(n));
}
MC_SCENARIO(c22_stop_client, pb(4), pb(6)) { stopRace(1, 1, false, false); }
MC_SCENARIO(c22_destroy_client, pb(4), pb(6)) { stopRace(1, 1, true, false); }
MC_SCENARIO(c22_stop_stop, pb(5), pb(8)) { stopRace(0, 2, false, false); }
MC_SCENARIO(c22_stop_stop_client, pb(3), pb(4)) { stopRace(1, 2, mc::choose(2, "destroy"), false); }
MC_SCENARIO(c22_stop_clients, pb(2), pb(4)) { stopRace(2, 1, false, false); }
MC_SCENARIO(c22_stop_echo, pb(3), pb(5)) { stopRace(1, 1, mc::choose(2, "destroy"), true); }

// Every client that connects to a running server is served exactly once.
static void serve(int clients, bool inCallback) {
  auto srv = dap::net::Server::create();
  if (!start(srv, kPort, onConnect(0, true), onError(0))) mc::fail("start fails");
  std::vector<std::thread> ts;
  for (int i = 0; i < clients; i++)
    ts.emplace_back([&, i] {
      int fd = raw::connectTo(kPort);
      if (fd < 0) mc::fail("connecting to a started server fails: %s", strerror(errno));
      std::string m(1, char('a' + i));
      raw::sendAll(fd, m);
      std::string g = raw::recvN(fd, 1);
      if (g != m) mc::fail("the echo returned '%s' instead of '%s'", g.c_str(), m.c_str());
      raw::closeIt(fd);
    });
  for (auto& t : ts) t.join();
  mc::quiesce();
  if (mc::get(kConn + 0) != clients) mc::fail("%d clients connected but the connect callback was called %ld times", clients, mc::get(kConn + 0));
  if (mc::get(kErr + 0) != 0) mc::fail("an error is reported though nothing failed");
  srv->stop();
  mc::set(kClosed + 0, 1);
  portFree(kPort);
}
MC_SCENARIO(c22_serve2, pb(2), pb(4)) { serve(2, false); }
MC_SCENARIO(c22_serve3, pb(1), pb(2)) { serve(3, false); }

// What a callback does with its connection, and what a client does before it is
// accepted, does not keep later clients from being served.
MC_SCENARIO(c22_odd_clients, pb(2), pb(3)) {
  auto srv = dap::net::Server::create();
  mc::set(5, 1);
  int with = mc::choose(4, "callback");  // leaves it, closes it, drops the last reference early, writes to it
  RW last;
  auto cb = [&, with](const RW& rw) {
    if (with == 1) rw->close();
    if (with == 2) last.reset();
    if (with == 3) rw->write("x", 1);
    if (with == 2) last = rw;
    mc::add(kConn, 1);
  };
  if (!start(srv, kPort, cb, onError(0))) mc::fail("start fails");
  int n = 0;
  int clients = 2 + mc::choose(2, "clients");
  std::vector<int> fds;
  for (int i = 0; i < clients; i++) {
    int fd = raw::connectTo(kPort);
    if (fd < 0) mc::fail("connecting to a started server fails: %s", strerror(errno));
    n++;
    int how = mc::choose(4, "client");  // stays, sends and leaves, leaves, resets
    if (how == 1) raw::sendAll(fd, "hello");
    if (how == 1 || how == 2) raw::closeIt(fd);
    if (how == 3) raw::resetIt(fd);
    if (how == 0) fds.push_back(fd);
    if (mc::choose(2, "wait")) mc::quiesce();
  }
  mc::quiesce();
  if (mc::get(kConn) != n) mc::fail("%d clients connected but the connect callback was called %ld times", n, mc::get(kConn));
  if (mc::get(kErr) != 0) mc::fail("an error is reported though nothing failed");
  srv->stop();
  mc::set(kClosed, 1);
  last.reset();
  for (int fd : fds) raw::closeIt(fd);
  portFree(kPort);
  mc::outcome(std::to_string(with) + std::to_string(n));
}

// A stream outlives its server, and does not keep the port.
MC_SCENARIO(c22_stream_outlives, pb(3), pb(5)) {
  auto srv = dap::net::Server::create();
  RW kept;
  mc::set(5, 1);
  auto keep = [&](const RW& rw) {
    kept = rw;
    mc::publish(60);
    mc::set(6, 1);
  };
  if (!start(srv, kPort, keep, onError(0))) mc::fail("start fails");
  int fd = raw::connectTo(kPort);
  MC_CHECK(fd >= 0);
  mc::await(6, 1);
  mc::subscribe(60);
  int how = mc::choose(3, "how");
  if (how == 0) srv->stop();
  if (how == 1) srv.reset();
  if (how == 2) {
    if (!start(srv, kPort, onConnect(1, false), onError(1))) mc::fail("the server cannot be restarted while an earlier connection is open");
  }
  if (!kept->isOpen()) mc::fail("an accepted stream is closed by stopping the server");
  raw::sendAll(fd, "hi");
  char b[2];
  if (kept->read(b, 2) != 2 || b[0] != 'h') mc::fail("an accepted stream no longer works after the server was stopped");
  if (!kept->write("yo", 2)) mc::fail("an accepted stream no longer works after the server was stopped");
  if (raw::recvN(fd, 2) != "yo") mc::fail("an accepted stream no longer works after the server was stopped");
  if (how != 2) {
    portFree(kPort);
    auto s2 = dap::net::Server::create();
    if (!start(s2, kPort, onConnect(1, false), onError(1))) mc::fail("the port cannot be reused while an earlier connection is open");
  }
  kept.reset();
  raw::closeIt(fd);
  srv.reset();
}

// A failing accept is reported; the server can still be stopped and restarted.
MC_SCENARIO(c22_accept_fails, pb(4), pb(6)) {
  auto srv = dap::net::Server::create();
  net::faults(net::ACCEPT_ERR);
  if (!start(srv, kPort, onConnect(0, false), onError(0))) mc::fail("start fails");
  int fd = raw::connectTo(kPort);
  mc::quiesce();
  net::faults(0);
  long c = mc::get(kConn + 0), e = mc::get(kErr + 0);
  if (fd < 0) mc::fail("connecting to a started server fails");
  if (c > 1) mc::fail("one client, %ld connect callbacks", c);
  if (c == 0 && e == 0) mc::fail("accept failed but no error is reported");
  int how = mc::choose(3, "how");
  if (how == 0) srv->stop();
  if (how == 1) srv.reset();
  mc::set(kClosed + 0, how != 2);
  if (how != 1) {
    if (!start(srv, kPort, onConnect(1, false), onError(1))) mc::fail("the server cannot be restarted after accept failed");
    mc::set(kClosed + 0, 1);
    int f2 = raw::connectTo(kPort);
    if (f2 < 0) mc::fail("connecting to the restarted server fails");
    mc::quiesce();
    if (mc::get(kConn + 1) != 1) mc::fail("the restarted server called the connect callback %ld times", mc::get(kConn + 1));
    srv.reset();
    raw::closeIt(f2);
  }
  raw::closeIt(fd);
  portFree(kPort);
  mc::outcome(std::to_string(c) + std::to_string(e));
}

// start() and stop() from two threads.
MC_SCENARIO(c22_start_stop, pb(3), pb(5)) {
  auto srv = dap::net::Server::create();
  mc::set(5, 1);
  int a = mc::choose(3, "a");
  std::thread t([&] {
    if (a == 0) {
      if (!start(srv, kPort, onConnect(0, false), onError(0))) mc::fail("start fails");
    } else {
      srv->stop();
    }
    if (a == 2) srv->stop();
  });
  if (!start(srv, kPort, onConnect(1, false), onError(1))) mc::fail("start fails");
  t.join();
  int fd = raw::connectTo(kPort);
  bool up = fd >= 0;
  mc::quiesce();
  if (up && mc::get(kConn + 0) + mc::get(kConn + 1) != 1) mc::fail("one client, %ld connect callbacks", mc::get(kConn + 0) + mc::get(kConn + 1));
  if (a == 0 && !up) mc::fail("two starts leave the server stopped");
  if (mc::get(kErr + 0) + mc::get(kErr + 1)) mc::fail("an error is reported though nothing failed");
  srv.reset();
  mc::set(kClosed + 0, 1);
  mc::set(kClosed + 1, 1);
  if (up) raw::closeIt(fd);
  portFree(kPort);
  mc::outcome(std::to_string(up));
}

namespace {
mc::Bounds wide() {
  mc::Bounds b = pb(0);
  b.horizon = 2000000;
  return b;
}
}  // namespace
// Many clients, one after the other, over several runs.
MC_SCENARIO(c22_many, wide(), wide()) {
  auto srv = dap::net::Server::create();
  if (mc::choose(2, "high descriptors")) net::firstFd(FD_SETSIZE - 100);
  int runs = 1 + mc::choose(3, "runs");
  for (int r = 0; r < runs; r++) {
    int n = r == 0 ? 300 : 70;
    if (!start(srv, kPort, onConnect(r, true), onError(r))) mc::fail("start %d fails", r);
    for (int i = 0; i < n; i++) {
      int fd = raw::connectTo(kPort);
      if (fd < 0) mc::fail("connecting to a started server fails: %s", strerror(errno));
      std::string m(1, char('a' + i % 26));
      raw::sendAll(fd, m);
      std::string g = raw::recvN(fd, 1);
      if (g != m) mc::fail("client %d of run %d: the echo returned '%s' instead of '%s'", i, r, g.c_str(), m.c_str());
      raw::closeIt(fd);
    }
    mc::quiesce();
    if (mc::get(kConn + r) != n) mc::fail("%d clients connected but the connect callback was called %ld times", n, mc::get(kConn + r));
    if (mc::get(kErr + r) != 0) mc::fail("an error is reported though nothing failed");
    srv->stop();
    mc::set(kClosed + r, 1);
    portFree(kPort);
  }
  mc::outcome(std::to_string(runs));
}
