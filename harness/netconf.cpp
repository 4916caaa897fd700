// Conformance of the simulated TCP stack with the system's loopback.
//
// Executes a sequence of socket calls (none of them blocks) on two ends of a
// connection and a listener, and describes every result.  Compiled twice: with
// the concurrent engine, where the exploration enumerates all sequences on the
// simulated stack and writes "<sequence> <results>" lines, and natively, where
// the sequences are read from the standard input and executed on the real
// loopback.  tools/netconf.py compares the two.
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <string>
#include <thread>

#ifndef NETCONF_REAL
#include "mc.h"
#include "net.h"
#endif

namespace {
int gPort = 5001;
int gPauseUs = 0;
int gSerial = 0;

std::string res(long r) {
  if (r >= 0) return std::to_string(r);
  int e = errno;
#define N(x) if (e == x) return #x;
  N(EAGAIN) N(EPIPE) N(ECONNRESET) N(ENOTCONN) N(EINVAL) N(ECONNREFUSED) N(EADDRINUSE) N(EISCONN) N(EINPROGRESS)
  N(EALREADY) N(ECONNABORTED) N(EBADF) N(EOPNOTSUPP)
#undef N
  return "errno" + std::to_string(e);
}
sockaddr_in at(int port) {
  sockaddr_in a = {};
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  return a;
}

struct World {
  int l = -1, c = -1, s = -1;
  int sent[2] = {0, 0};

  static int sock() {
    int f = ::socket(AF_INET, SOCK_STREAM, 0);
    ::fcntl(f, F_SETFL, O_NONBLOCK);
    return f;
  }
  std::string doListen() {
    if (l >= 0) return "-";
    l = sock();
    int on = 1;
    ::setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
    auto a = at(gPort);
    if (::bind(l, (sockaddr*)&a, sizeof a) != 0) return drop(l, "bind:" + res(-1));
    if (::listen(l, 0) != 0) return drop(l, "listen:" + res(-1));
    return "ok";
  }
  std::string drop(int& f, std::string r) {
    ::close(f);
    f = -1;
    return r;
  }
  std::string doConnect() {
    if (c >= 0) return "-";
    c = sock();
#ifdef NETCONF_REAL
    // own source addresses: no clash with connections that linger
    sockaddr_in b = at(0);
    b.sin_addr.s_addr = htonl(INADDR_LOOPBACK + 1 + (++gSerial % 60000));
    ::bind(c, (sockaddr*)&b, sizeof b);
#endif
    auto a = at(gPort);
    int r = ::connect(c, (sockaddr*)&a, sizeof a);
    return res(r);
  }
  std::string doAccept() {
    if (l < 0 || s >= 0) return "-";
    int r = ::accept(l, nullptr, nullptr);
    if (r < 0) return res(r);
    s = r;
    ::fcntl(s, F_SETFL, O_NONBLOCK);
    return "ok";
  }
  std::string send(int f, int who) {
    if (f < 0) return "-";
    char b[3];
    for (auto& x : b) x = char((who ? 'A' : 'a') + sent[who]++ % 26);
    long r = ::send(f, b, 3, MSG_NOSIGNAL | MSG_DONTWAIT);
    if (r < 0) sent[who] -= 3;
    return res(r);
  }
  std::string recv(int f) {
    if (f < 0) return "-";
    char b[5];
    long r = ::recv(f, b, 5, MSG_DONTWAIT);
    return r <= 0 ? res(r) : std::string(b, r);
  }
  std::string shut(int f, int how) { return f < 0 ? "-" : res(::shutdown(f, how)); }
  std::string err(int f) {
    if (f < 0) return "-";
    int e = 0;
    socklen_t n = sizeof e;
    ::getsockopt(f, SOL_SOCKET, SO_ERROR, &e, &n);
    errno = e;
    return e ? res(-1) : "0";
  }
  std::string sel(int f) {
    if (f < 0) return "-";
    fd_set r, w;
    FD_ZERO(&r);
    FD_ZERO(&w);
    FD_SET(f, &r);
    FD_SET(f, &w);
    timeval tv = {0, 0};
    ::select(f + 1, &r, &w, nullptr, &tv);
    return std::string(FD_ISSET(f, &r) ? "r" : ".") + (FD_ISSET(f, &w) ? "w" : ".");
  }
  std::string close(int& f, bool abort) {
    if (f < 0) return "-";
    if (abort) {
      struct linger lg = {1, 0};
      ::setsockopt(f, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
    }
    int r = ::close(f);
    f = -1;
    return res(r);
  }
  std::string op(char k) {
    switch (k) {
      case 'l': return doListen();
      case 'c': return doConnect();
      case 'a': return doAccept();
      case '1': return send(c, 0);
      case '2': return send(s, 1);
      case '3': return recv(c);
      case '4': return recv(s);
      case '5': return shut(c, SHUT_RDWR);
      case '6': return shut(s, SHUT_RDWR);
      case '7': return shut(c, SHUT_WR);
      case '8': return shut(l, SHUT_RDWR);
      case '9': return err(c);
      case '0': return err(s);
      case 'x': return close(c, false);
      case 'y': return close(s, false);
      case 'z': return close(l, false);
      case 'Y': return close(s, true);
      case 'r': return sel(c);
      case 's': return sel(s);
      case 't': return sel(l);
    }
    return "?";
  }
  ~World() {
    close(c, true);
    close(s, true);
    close(l, true);
  }
};
// A call that blocks, and what another thread does meanwhile.
void idle() {
#ifdef NETCONF_REAL
  timespec ts = {0, 40 * 1000000L};
  nanosleep(&ts, nullptr);
#else
  mc::quiesce();
#endif
}
void blocking(int f) { ::fcntl(f, F_SETFL, 0); }
const char kCalls[] = "arRwW";
const char kActs[] = "-123567xyzYLDc";
std::string blocked(char call, char act) {
  World w;
  std::string out = w.op('l');
  if (call != 'a') out += w.op('c') + w.op('a');
  int f = call == 'a' ? w.l : call == 'r' || call == 'w' ? w.c : w.s;
  int fd = f;
  if (call == 'w' || call == 'W') {
    static char junk[4096];
    while (::send(f, junk, sizeof junk, MSG_NOSIGNAL) > 0) {
    }
  }
  blocking(f);
  std::atomic<int> done{0};
  std::string got;
  std::thread t([&] {
    char b[8] = "zzz";
    if (call == 'a') {
      int r = ::accept(fd, nullptr, nullptr);
      got = r < 0 ? res(r) : "ok";
      if (r >= 0) ::close(r);
    } else if (call == 'r' || call == 'R') {
      long r = ::recv(fd, b, 5, 0);
      got = r <= 0 ? res(r) : std::string(b, r);
    } else {
      long r = ::send(fd, b, 3, MSG_NOSIGNAL);
      got = res(r);
    }
    done = 1;
  });
  idle();
  std::string a;
  switch (act) {
    case '-': break;
    case 'L': a = w.shut(w.l, SHUT_RD); break;
    case 'D': {  // the other end reads all there is
      int o = f == w.c ? w.s : w.c;
      static char b[65536];
      while (o >= 0 && ::recv(o, b, sizeof b, MSG_DONTWAIT) > 0) {
      }
      break;
    }
    case '1': case '2':
      if (call == 'w' || call == 'W') break;  // would block itself
      a = w.op(act);
      break;
    case 'c':
      if (call == 'a') a = w.op(act);
      break;
    case '3':
      if (call == 'r') break;
      a = w.op(act) == "EAGAIN" ? "EAGAIN" : "";
      break;
    default: a = w.op(act);
  }
  idle();
  bool was = done;
  out += std::string(" ") + act + "=" + a + " " + call + "=";
  // let it end
  if (!was) {
    if (call == 'a') ::shutdown(fd, SHUT_RDWR);
    else {
      // the other end may be needed when this one is closed
      if (w.s >= 0) ::shutdown(w.s, SHUT_RDWR);
      if (w.c >= 0) ::shutdown(w.c, SHUT_RDWR);
      w.close(w.s, true);
      w.close(w.c, true);
    }
    if (call == 'a' && w.l < 0) w.op('l');
  }
  if (was) t.join();
#ifdef NETCONF_REAL
  else t.detach();  // a call on a closed descriptor may never end
  if (!was) idle();
#else
  else t.join();
#endif
  return out + (was ? got : "blocks");
}
bool skip(char call, char act) {
  // the fate of a call whose own descriptor is closed meanwhile is only that
  // it goes on blocking: nothing can end it afterwards
  if (call == 'a') return act == 'z';
  // any packet may make the real system accept a little more data
  if (call == 'w' && strchr("36", act)) return true;
  if (call == 'W' && strchr("357", act)) return true;
  if (call == 'r' || call == 'w') return act == 'x';
  return act == 'y' || act == 'Y';
}
std::string run(const std::string& seq) {
  if (seq[0] == '!') return blocked(seq[1], seq[2]);
  World w;
  std::string out;
  for (char k : seq) {
    out += (out.empty() ? "" : ",") + std::string(1, k) + "=" + w.op(k);
#ifdef NETCONF_REAL
    if (gPauseUs) {
      timespec ts = {0, gPauseUs * 1000L};
      nanosleep(&ts, nullptr);
    }
#endif
  }
  return out;
}
}  // namespace

#ifdef NETCONF_REAL
int main(int, char** argv) {
  gPort = atoi(argv[1]);
  gPauseUs = atoi(argv[2]);
  char b[64];
  while (fgets(b, sizeof b, stdin)) {
    b[strcspn(b, "\n")] = 0;
    printf("%s %s\n", b, run(b).c_str());
  }
}
#else
namespace {
mc::Bounds bd() {
  mc::Bounds b;
  b.preemptions = 0;
  return b;
}
int depth(int n) {
  const char* d = getenv("NETCONF_DEPTH");
  return d ? atoi(d) : n;
}
void emit(const std::string& seq) {
  std::string line = seq + " " + run(seq) + "\n";
  const char* p = getenv("NETCONF_OUT");
  if (!p) return;
  int fd = (int)syscall(SYS_open, p, O_WRONLY | O_APPEND | O_CREAT, 0600);
  syscall(SYS_write, fd, line.data(), line.size());
  syscall(SYS_close, fd);
}
void all(const char* prefix, const char* alphabet, int depth) {
  mc::net::prompt(true);
  std::string seq = prefix;
  for (int i = 0; i < depth; i++) seq += alphabet[mc::choose((int)strlen(alphabet), "op")];
  emit(seq);
}
}  // namespace
// An established connection.
MC_SCENARIO(connected, bd(), bd()) { all("lca", "123456790xyYrs", depth(3)); }
// Establishing and ending connections.
MC_SCENARIO(handshake, bd(), bd()) { all("", "lca14258rtsxyz", depth(3) + 1); }
// Calls that block, and what ends them.
MC_SCENARIO(blocking_calls, bd(), bd()) {
  mc::net::prompt(true);
  char call = kCalls[mc::choose(sizeof kCalls - 1, "call")];
  char act = kActs[mc::choose(sizeof kActs - 1, "act")];
  if (skip(call, act)) mc::discard();
  std::string seq = std::string("!") + call + act;
  emit(seq);
}
#endif
