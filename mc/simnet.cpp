// A simulated TCP/IPv4 loopback stack for the concurrent engine, modelled on
// Linux.  harness/netconf.cpp compares it with the real loopback.
#include "net.h"
#include "rt.h"

#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include "mc.h"

#define EXPORT extern "C" __attribute__((visibility("default")))
#define PUBLIC __attribute__((visibility("default")))

namespace mc {
namespace rt {

typedef uint64_t u64;
static const int MAXS = 1024;
static const int kBuf = 163840;
static const int kDefaultBuf = 16384;
static const int FD0 = 100;
enum { K_NET = 64 };
enum St { FRESH, BOUND, LISTEN, CONNECTING, CONN, DEADST };

struct Sock {
  int fd;
  bool fdOpen, gone;
  int refs;
  int st;
  int port;
  bool bound, reuse, nonblock, linger0;
  int err;
  bool shutRd, shutWr, finIn, finOut, rst, active;
  bool ended;  // the peer's end of stream was received
  int peer, conn;
  int queue[8], nq, backlog;
  u64 readyAt;
  int connErr;
  u64 rcvTimeo, sndTimeo;
  int len;
  char rx[kBuf];
  char tag;
};

static struct Net {
  Sock s[MAXS];
  int ns, nconn;
  char ctag[MAXS];
  char ports;
  int nextFd;
  int fds[4096];
  unsigned mask;
  bool trusted[NF];
  size_t cap;
  struct { int port; u64 ns; int err; } delays[4];
  int ndelays;
  struct { int port; bool reuse; } tw[16];
  int ntw;
  addrinfo* infos[32];
  int ninfos;
  long calls;
  int fdTop;
  bool prompt;
} N;

void netReset() {
  N.ns = N.nconn = 0;
  N.nextFd = FD0;
  N.fdTop = 0;
  N.prompt = false;
  N.mask = 0;
  memset(N.trusted, 0, sizeof N.trusted);
  N.cap = kDefaultBuf;
  N.ndelays = N.ntw = N.ninfos = 0;
  N.calls = 0;
}

void netEnd() {
  if (!bounds().fdcheck) return;
  for (int i = 0; i < N.ns; i++)
    if (N.s[i].fdOpen) {
      endFail("descriptor leak: descriptor %d is never closed", N.s[i].fd);
      return;
    }
  for (int i = 0; i < N.ninfos; i++)
    if (N.infos[i]) {
      endFail("resolver result is never released");
      return;
    }
}

static void trace(const char* fmt, ...) {
  if (!verbose()) return;
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "      [net] t%d ", mc::self());
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
}

static bool simFd(int fd) { return active() && fd >= FD0; }

static Sock* find(int fd, const char* call) {
  for (int i = 0; i < N.ns; i++)
    if (N.s[i].fd == fd) {
      if (!N.s[i].fdOpen) mc::fail("%s is called with descriptor %d, which is closed", call, fd);
      return &N.s[i];
    }
  mc::fail("%s is called with descriptor %d, which was never opened", call, fd);
}

static int idx(Sock* s) { return int(s - N.s); }
static const void* tagOf(Sock* s) { return s->conn >= 0 ? (const void*)&N.ctag[s->conn] : (const void*)&s->tag; }
static void touch(Sock* s) { opWrite(tagOf(s), K_NET); }
static void touchPorts() { opWrite(&N.ports, K_NET + 1); }
static bool yes(void*) { return true; }
static void point(int k, const void* obj) { schedPoint(K_NET + k, obj, yes, nullptr); }

static Sock* newSock() {
  if (N.ns >= MAXS) mc::fail("too many simulated sockets");
  Sock* s = &N.s[N.ns++];
  memset(s, 0, offsetof(Sock, rx));
  s->fd = -1;
  s->peer = s->conn = -1;
  return s;
}
static int openFd(Sock* s) {
  s->fd = N.nextFd++;
  s->fdOpen = true;
  s->refs = 1;
  return s->fd;
}

static bool may(unsigned f) { return (N.mask & f) && !N.trusted[mc::self()]; }
// A fault point: returns which of the options (1..n) happens, 0 for none.
struct Faults {
  int code[8];
  int n = 0;
  void add(unsigned f, int c) { if (may(f)) code[n++] = c; }
  int pick(const char* what) {
    if (n == 0) return 0;
    int r = mc::deviate(n + 1, what);
    if (r) trace("%s: fault %d", what, code[r - 1]);
    return r ? code[r - 1] : 0;
  }
};
static int err(int e) {
  errno = e;
  return -1;
}

// ------------------------------------------------------------- connections
static void reset(Sock* s, int e) {
  if (s->st != CONN || s->rst) return;
  s->rst = true;
  s->err = e ? e : (s->finIn ? EPIPE : ECONNRESET);
  s->shutRd = s->shutWr = s->finIn = s->finOut = true;
}
static void sendFin(Sock* s) {
  if (s->finOut) return;
  s->finOut = true;
  if (!s->finIn) s->active = true;
  Sock* p = &N.s[s->peer];
  if (!p->rst) p->finIn = p->ended = true;
}
static Sock* listenerAt(int port) {
  for (int i = 0; i < N.ns; i++)
    if (N.s[i].st == LISTEN && N.s[i].port == port && !N.s[i].gone) return &N.s[i];
  return nullptr;
}
static bool resolvable(Sock* s) {
  if (s->st != CONNECTING || virtualNow() < s->readyAt) return false;
  if (s->connErr) return true;
  Sock* l = listenerAt(s->port);
  return !l || l->nq <= l->backlog;
}
// Completes the handshakes that can complete now.
static void settle() {
  for (int i = 0; i < N.ns; i++) {
    Sock* s = &N.s[i];
    if (!resolvable(s)) continue;
    touch(s);
    Sock* l = s->connErr ? nullptr : listenerAt(s->port);
    if (!l) {
      s->err = s->connErr ? s->connErr : ECONNREFUSED;
      s->st = DEADST;
      continue;
    }
    Sock* c = newSock();
    c->st = s->st = CONN;
    c->port = l->port;
    c->bound = true;
    c->reuse = l->reuse;
    c->peer = i;
    s->peer = idx(c);
    s->conn = c->conn = N.nconn++;
    touch(s);
    release(tagOf(s));
    l->queue[l->nq++] = idx(c);
    trace("connection established on port %d", l->port);
  }
}
static void abortQueue(Sock* l) {
  for (int i = 0; i < l->nq; i++) {
    Sock* c = &N.s[l->queue[i]];
    touch(c);
    reset(&N.s[c->peer], 0);
    c->gone = true;
    c->st = DEADST;
  }
  l->nq = 0;
}
static void unref(Sock* s) {
  if (--s->refs > 0) return;
  if (s->gone) return;
  s->gone = true;
  if (s->st == LISTEN) abortQueue(s);
  if (s->st == CONN && !s->rst) {
    Sock* p = &N.s[s->peer];
    if (!(s->finIn && s->finOut) && (s->len > 0 || s->linger0)) {
      if (s->linger0 && !N.prompt) p->len = 0;  // data still in flight is discarded
      reset(p, 0);
    } else {
      sendFin(s);
      if (s->active && s->bound && N.ntw < 16) N.tw[N.ntw++] = {s->port, s->reuse};
    }
  }
}

struct Wait {
  Sock* s;
  int need;
};
static size_t room(Sock* s) {
  Sock* p = &N.s[s->peer];
  if (p->gone) return N.cap;
  return N.cap > (size_t)p->len ? N.cap - p->len : 0;
}
static bool canRecv(void* a) {
  Sock* s = ((Wait*)a)->s;
  if (s->st == CONNECTING) return resolvable(s);
  return s->st != CONN || s->len > 0 || s->err || s->shutRd || s->finIn;
}
static bool canSend(void* a) {
  Sock* s = ((Wait*)a)->s;
  if (s->st == CONNECTING) return resolvable(s);
  return s->st != CONN || s->err || s->shutWr || room(s) > 0;
}
static bool canAccept(void* a) {
  Sock* s = ((Wait*)a)->s;
  if (s->st != LISTEN || s->nq > 0) return true;
  for (int i = 0; i < N.ns; i++)
    if (N.s[i].port == s->port && resolvable(&N.s[i])) return true;
  return false;
}
static bool canConnect(void* a) { return ((Wait*)a)->s->st != CONNECTING || resolvable(((Wait*)a)->s); }

static bool readable(Sock* s) {
  Wait w{s, 0};
  if (s->st == LISTEN) return canAccept(&w);
  if (s->st == CONNECTING) return resolvable(s) && (s->connErr || !listenerAt(s->port));
  return canRecv(&w);
}
static bool writable(Sock* s) {
  Wait w{s, 0};
  if (s->st == LISTEN) return false;
  if (s->st == FRESH || s->st == BOUND) return true;
  return canSend(&w);
}

// The wait of a blocking call.  Returns false if `timeo` passed.
static bool block(int k, Sock* s, EnabledFn en, u64 timeo) {
  Wait w{s, 0};
  u64 limit = timeo ? virtualNow() + timeo : 0;
  for (;;) {
    if (en(&w)) return true;
    if (limit && virtualNow() >= limit) return false;
    u64 d = limit;
    if (s->st == CONNECTING && s->readyAt > virtualNow() && (!d || s->readyAt < d)) d = s->readyAt;
    if (s->st == LISTEN)
      for (int i = 0; i < N.ns; i++)
        if (N.s[i].st == CONNECTING && N.s[i].port == s->port && N.s[i].readyAt > virtualNow() &&
            (!d || N.s[i].readyAt < d))
          d = N.s[i].readyAt;
    schedPoint(K_NET + k, tagOf(s), en, &w, d);
  }
}

static int doRecv(int fd, void* buf, size_t n, int flags, const char* call) {
  point(2, &N.fds[fd & 4095]);
  Sock* s = find(fd, call);
  N.calls++;
  Faults f;
  f.add(net::INTR, EINTR);
  f.add(net::RESET, ECONNRESET);
  f.add(net::SHORT_RECV, 1);
  int x = f.pick("recv");
  if (x == EINTR) return err(EINTR);
  if (flags & MSG_OOB) return err(EINVAL);
  s->refs++;
  if (x == ECONNRESET && s->st == CONN) {
    touch(s);
    reset(&N.s[s->peer], 0);
    reset(s, 0);
  }
  if (!(s->nonblock || (flags & MSG_DONTWAIT))) {
    if (!block(2, s, canRecv, s->rcvTimeo)) {
      unref(s);
      return err(EAGAIN);
    }
  }
  settle();
  touch(s);
  int r;
  if (s->len > 0) {
    size_t k = n < (size_t)s->len ? n : s->len;
    if (x == 1 && k > 1) k = 1;
    memWrite(buf, k);
    memcpy(buf, s->rx, k);
    if (!(flags & MSG_PEEK)) {
      memmove(s->rx, s->rx + k, s->len - k);
      s->len -= k;
    }
    acquire(tagOf(s));
    r = (int)k;
    // MSG_WAITALL: go on until all was read, or the stream ends
    if ((flags & MSG_WAITALL) && !(flags & (MSG_PEEK | MSG_DONTWAIT)) && !s->nonblock && x != 1)
      while ((size_t)r < n && block(2, s, canRecv, s->rcvTimeo)) {
        settle();
        touch(s);
        if (s->len == 0) break;
        size_t m = n - r < (size_t)s->len ? n - r : s->len;
        memWrite((char*)buf + r, m);
        memcpy((char*)buf + r, s->rx, m);
        memmove(s->rx, s->rx + m, s->len - m);
        s->len -= m;
        r += (int)m;
        acquire(tagOf(s));
      }
  } else if (s->err && !s->ended) {
    r = err(s->err);
    s->err = 0;
  } else if (s->st == CONN && (s->finIn || s->shutRd)) {
    acquire(tagOf(s));
    r = 0;
  } else if (s->st == CONN || s->st == CONNECTING) {
    r = err(EAGAIN);
  } else {
    r = err(ENOTCONN);
  }
  trace("%s(%d, %zu) = %d%s", call, fd, n, r, r < 0 ? strerror(errno) : "");
  unref(s);
  return r;
}

static int doSend(int fd, const void* buf, size_t n, int flags, const char* call) {
  point(3, &N.fds[fd & 4095]);
  Sock* s = find(fd, call);
  N.calls++;
  Faults f;
  f.add(net::INTR, EINTR);
  if (n > 1) f.add(net::SHORT_SEND, 1);
  if (n > 2) f.add(net::SHORT_SEND, 2);
  f.add(net::RESET, ECONNRESET);
  int x = f.pick("send");
  if (x == EINTR) return err(EINTR);
  s->refs++;
  if (x == ECONNRESET && s->st == CONN) {
    touch(s);
    reset(&N.s[s->peer], 0);
    reset(s, 0);
  }
  size_t want = x == 1 ? 1 : x == 2 ? n - 1 : n, done = 0;
  memRead(buf, n);
  int r;
  for (;;) {
    if (!(s->nonblock || (flags & MSG_DONTWAIT)) && !block(3, s, canSend, s->sndTimeo)) {
      r = done ? (int)done : err(EAGAIN);
      break;
    }
    settle();
    touch(s);
    if (s->err || (s->st == CONN && s->shutWr)) {
      if (done) {
        r = (int)done;
        break;
      }
      int e = s->err ? s->err : EPIPE;
      s->err = 0;
      if (e == EPIPE && !(flags & MSG_NOSIGNAL)) mc::fail("crash: %s on a closed connection raises SIGPIPE, which ends the process", call);
      r = err(e);
      break;
    }
    if (s->st != CONN) {
      if (s->st == CONNECTING) {
        r = err(EAGAIN);
      } else {
        if (!(flags & MSG_NOSIGNAL)) mc::fail("crash: %s on an unconnected socket raises SIGPIPE, which ends the process", call);
        r = err(EPIPE);
      }
      break;
    }
    Sock* p = &N.s[s->peer];
    if (p->gone || (p->shutRd && p->finOut)) {
      // the peer answers with a reset
      r = (int)want;
      reset(s, 0);
      reset(p, 0);
      break;
    }
    size_t k = want - done < room(s) ? want - done : room(s);
    memcpy(p->rx + p->len, (const char*)buf + done, k);
    p->len += k;
    done += k;
    if (k) release(tagOf(s));
    if (done == want) {
      r = (int)done;
      break;
    }
    if (s->nonblock || (flags & MSG_DONTWAIT)) {
      r = done ? (int)done : err(EAGAIN);
      break;
    }
  }
  trace("%s(%d, %zu) = %d%s", call, fd, n, r, r < 0 ? strerror(errno) : "");
  unref(s);
  return r;
}

static int doClose(int fd) {
  point(4, &N.fds[fd & 4095]);
  Sock* s = find(fd, "close");
  N.calls++;
  trace("close(%d)", fd);
  opWrite(&N.fds[fd & 4095], K_NET + 4);
  touchPorts();
  touch(s);
  if (s->conn >= 0) release(tagOf(s));
  s->fdOpen = false;
  unref(s);
  settle();
  return 0;
}

static int doShutdown(int fd, int how) {
  point(5, &N.fds[fd & 4095]);
  Sock* s = find(fd, "shutdown");
  N.calls++;
  trace("shutdown(%d, %d)", fd, how);
  touchPorts();
  settle();
  touch(s);
  bool rd = how == SHUT_RD || how == SHUT_RDWR, wr = how == SHUT_WR || how == SHUT_RDWR;
  if (s->st == LISTEN) {
    if (rd) {
      abortQueue(s);
      s->st = DEADST;
      settle();
    }
    return 0;
  }
  if (s->st == CONNECTING) {
    s->st = DEADST;
    return 0;
  }
  if (s->st != CONN || s->rst || (s->finIn && s->finOut)) return err(ENOTCONN);
  release(tagOf(s));
  if (rd) s->shutRd = true;
  if (wr) {
    s->shutWr = true;
    sendFin(s);
  }
  return 0;
}

}  // namespace rt

// ------------------------------------------------------------------ controls
namespace net {
using namespace rt;
PUBLIC void faults(unsigned m) { N.mask = m; }
PUBLIC void trusted(bool on) { N.trusted[mc::self()] = on; }
PUBLIC void bufferSize(size_t n) { N.cap = n < (size_t)kBuf ? n : (size_t)kBuf; }
PUBLIC void delay(int port, uint64_t ns, int e) {
  if (N.ndelays < 4) {
    N.delays[N.ndelays].port = port;
    N.delays[N.ndelays].ns = ns;
    N.delays[N.ndelays++].err = e;
  }
}
PUBLIC void prompt(bool on) { N.prompt = on; }
PUBLIC void firstFd(int fd) { N.nextFd = fd; }
PUBLIC int openFds() {
  touchPorts();
  int n = 0;
  for (int i = 0; i < N.ns; i++) n += N.s[i].fdOpen;
  return n;
}
PUBLIC long calls() { return N.calls; }
PUBLIC uint64_t clock() { return virtualNow(); }
PUBLIC bool listening(int port) {
  touchPorts();
  return listenerAt(port) != nullptr;
}
}  // namespace net
}  // namespace mc

using namespace mc;
using namespace mc::rt;

// -------------------------------------------------------------- system calls
EXPORT int socket(int fam, int type, int proto) {
  if (!active()) return syscall(SYS_socket, fam, type, proto);
  N.calls++;
  touchPorts();
  Faults f;
  f.add(net::SOCKET_ERR, EMFILE);
  if (int e = f.pick("socket")) return err(e);
  if (fam != AF_INET || (type & 0xf) != SOCK_STREAM) return err(EAFNOSUPPORT);
  Sock* s = newSock();
  s->nonblock = type & SOCK_NONBLOCK;
  int fd = openFd(s);
  trace("socket() = %d", fd);
  return fd;
}
EXPORT int setsockopt(int fd, int level, int opt, const void* v, socklen_t n) {
  if (!simFd(fd)) return syscall(SYS_setsockopt, fd, level, opt, v, n);
  Sock* s = find(fd, "setsockopt");
  N.calls++;
  touch(s);
  memRead(v, n);
  if (n < sizeof(int)) return err(EINVAL);
  int on = *(const int*)v;
  if (level == SOL_SOCKET) {
    if (opt == SO_REUSEADDR) s->reuse = on;
    if (opt == SO_LINGER) {
      if (n < sizeof(struct linger)) return err(EINVAL);
      const struct linger* l = (const struct linger*)v;
      s->linger0 = l->l_onoff && l->l_linger == 0;
    }
    if (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) {
      if (n < sizeof(struct timeval)) return err(EINVAL);
      const struct timeval* t = (const struct timeval*)v;
      u64 ns = t->tv_sec * 1000000000ull + t->tv_usec * 1000ull;
      (opt == SO_RCVTIMEO ? s->rcvTimeo : s->sndTimeo) = ns;
    }
  }
  return 0;
}
EXPORT int getsockopt(int fd, int level, int opt, void* v, socklen_t* n) {
  if (!simFd(fd)) return syscall(SYS_getsockopt, fd, level, opt, v, n);
  point(6, &N.fds[fd & 4095]);
  Sock* s = find(fd, "getsockopt");
  N.calls++;
  touchPorts();
  settle();
  touch(s);
  memRead(n, sizeof *n);
  int val = 0;
  if (level == SOL_SOCKET && opt == SO_ERROR) {
    val = s->err;
    s->err = 0;
  } else if (level == SOL_SOCKET && opt == SO_REUSEADDR) {
    val = s->reuse;
  } else if (level == SOL_SOCKET && opt == SO_TYPE) {
    val = SOCK_STREAM;
  } else if (level == SOL_SOCKET && opt == SO_ACCEPTCONN) {
    val = s->st == LISTEN;
  }
  socklen_t k = *n < sizeof(int) ? *n : sizeof(int);
  memWrite(v, k);
  memcpy(v, &val, k);
  *n = k;
  trace("getsockopt(%d, %d) = %d", fd, opt, val);
  return 0;
}
static int setNonblock(int fd, bool on, const char* call) {
  Sock* s = find(fd, call);
  Faults f;
  f.add(net::FCNTL_ERR, EINVAL);
  if (int e = f.pick(call)) return err(e);
  touch(s);
  s->nonblock = on;
  trace("%s(%d, %s)", call, fd, on ? "nonblocking" : "blocking");
  return 0;
}
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!simFd(fd)) {
    long r = syscall(SYS_fcntl, fd, cmd, arg);
    return (int)r;
  }
  N.calls++;
  if (cmd == F_GETFL) {
    Sock* s = find(fd, "fcntl");
    Faults f;
    f.add(net::FCNTL_ERR, EINVAL);
    if (int e = f.pick("fcntl")) return err(e);
    touch(s);
    return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  }
  if (cmd == F_SETFL && (arg & (O_ASYNC | O_APPEND | O_DIRECT))) mc::fail("fcntl sets flags of a socket that were not asked for (%lx)", arg);
  if (cmd == F_SETFL) return setNonblock(fd, arg & O_NONBLOCK, "fcntl");
  find(fd, "fcntl");
  return 0;
}
extern "C" __attribute__((visibility("default"), alias("fcntl"))) int fcntl64(int fd, int cmd, ...);
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (!simFd(fd)) return syscall(SYS_ioctl, fd, req, arg);
  N.calls++;
  if (req == FIONBIO) return setNonblock(fd, *(int*)arg != 0, "ioctl");
  if (req == FIONREAD) {
    Sock* s = find(fd, "ioctl");
    touch(s);
    *(int*)arg = s->len;
    return 0;
  }
  return err(EINVAL);
}
EXPORT int bind(int fd, const struct sockaddr* a, socklen_t n) {
  if (!simFd(fd)) return active() ? err(EBADF) : syscall(SYS_bind, fd, a, n);
  point(7, &N.ports);
  Sock* s = find(fd, "bind");
  N.calls++;
  touchPorts();
  touch(s);
  memRead(a, n);
  Faults f;
  f.add(net::BIND_ERR, EACCES);
  if (int e = f.pick("bind")) return err(e);
  if (n < sizeof(sockaddr_in) || s->bound) return err(EINVAL);
  const sockaddr_in* in = (const sockaddr_in*)a;
  if (in->sin_family != AF_INET) return err(EAFNOSUPPORT);
  uint32_t ip = ntohl(in->sin_addr.s_addr);
  if (ip != 0 && (ip >> 24) != 127) return err(EADDRNOTAVAIL);
  int port = ntohs(in->sin_port);
  if (port == 0) port = 40000 + s->fd;
  for (int i = 0; i < N.ns; i++) {
    Sock* o = &N.s[i];
    if (o == s || !o->bound || o->gone || o->port != port) continue;
    if (!s->reuse || !o->reuse || o->st == LISTEN) return trace("bind(%d, %d) = EADDRINUSE", fd, port), err(EADDRINUSE);
  }
  for (int i = 0; i < N.ntw; i++)
    if (N.tw[i].port == port && (!s->reuse || !N.tw[i].reuse)) return trace("bind(%d, %d) = EADDRINUSE", fd, port), err(EADDRINUSE);
  s->bound = true;
  s->port = port;
  s->st = BOUND;
  trace("bind(%d, %d)", fd, port);
  return 0;
}
EXPORT int listen(int fd, int backlog) {
  if (!simFd(fd)) return active() ? err(EBADF) : syscall(SYS_listen, fd, backlog);
  point(8, &N.ports);
  Sock* s = find(fd, "listen");
  N.calls++;
  touchPorts();
  touch(s);
  Faults f;
  f.add(net::LISTEN_ERR, EADDRINUSE);
  if (int e = f.pick("listen")) return err(e);
  if (s->st == CONN || s->st == CONNECTING) return err(EINVAL);
  if (!s->bound) {
    s->bound = true;
    s->port = 40000 + s->fd;
  }
  Sock* o = listenerAt(s->port);
  if (o && o != s) return err(EADDRINUSE);
  s->st = LISTEN;
  s->backlog = backlog < 0 ? 0 : backlog > 6 ? 6 : backlog;
  trace("listen(%d)", fd);
  return 0;
}
EXPORT int accept4(int fd, struct sockaddr* a, socklen_t* n, int flags) {
  if (!simFd(fd)) return active() ? err(EBADF) : syscall(SYS_accept4, fd, a, n, flags);
  point(9, &N.fds[fd & 4095]);
  Sock* s = find(fd, "accept");
  N.calls++;
  Faults f;
  f.add(net::INTR, EINTR);
  f.add(net::ACCEPT_ERR, ECONNABORTED);
  f.add(net::ACCEPT_ERR, EMFILE);
  if (int e = f.pick("accept")) return err(e);
  s->refs++;
  if (!s->nonblock && s->st == LISTEN) block(9, s, canAccept, s->rcvTimeo);
  touchPorts();
  settle();
  touch(s);
  int r;
  if (s->st != LISTEN) {
    r = err(EINVAL);
  } else if (s->nq == 0) {
    r = err(EAGAIN);
  } else {
    Sock* c = &N.s[s->queue[0]];
    memmove(s->queue, s->queue + 1, sizeof(int) * --s->nq);
    touch(c);
    acquire(tagOf(c));
    r = openFd(c);
    c->nonblock = flags & SOCK_NONBLOCK;
    settle();
    if (a && n && *n >= sizeof(sockaddr_in)) {
      sockaddr_in* in = (sockaddr_in*)a;
      memset(in, 0, sizeof *in);
      in->sin_family = AF_INET;
      in->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      *n = sizeof *in;
    }
  }
  trace("accept(%d) = %d%s", fd, r, r < 0 ? strerror(errno) : "");
  unref(s);
  return r;
}
EXPORT int accept(int fd, struct sockaddr* a, socklen_t* n) { return accept4(fd, a, n, 0); }
EXPORT int connect(int fd, const struct sockaddr* a, socklen_t n) {
  if (!simFd(fd)) return active() ? err(EBADF) : syscall(SYS_connect, fd, a, n);
  point(10, &N.ports);
  Sock* s = find(fd, "connect");
  N.calls++;
  touchPorts();
  touch(s);
  settle();
  memRead(a, n);
  Faults f;
  f.add(net::CONNECT_ERR, ENETUNREACH);
  if (!s->nonblock) f.add(net::INTR, EINTR);
  int x = f.pick("connect");
  if (x == ENETUNREACH) return err(x);
  if (n < sizeof(sockaddr_in)) return err(EINVAL);
  const sockaddr_in* in = (const sockaddr_in*)a;
  if (s->st == CONN) return err(EISCONN);
  if (s->st == CONNECTING && s->nonblock) return err(EALREADY);
  if (s->st == LISTEN) return err(EISCONN);
  if (s->st == DEADST) {
    if (s->err) {
      int e = s->err;
      s->err = 0;
      return err(e);
    }
    return err(ECONNABORTED);
  }
  if (s->st != CONNECTING) {
    s->port = ntohs(in->sin_port);
    uint32_t ip = ntohl(in->sin_addr.s_addr);
    s->st = CONNECTING;
    s->readyAt = virtualNow();
    s->connErr = 0;
    if (ip != 0 && (ip >> 24) != 127) {
      s->readyAt += 130000000000ull;
      s->connErr = ETIMEDOUT;
    }
    for (int i = 0; i < N.ndelays; i++)
      if (N.delays[i].port == s->port) {
        s->readyAt = virtualNow() + N.delays[i].ns;
        s->connErr = N.delays[i].err;
      }
    settle();
  }
  if (x == EINTR) return err(EINTR);
  if (s->nonblock) {
    if (s->st == CONN && may(net::CONNECT_NOW) && mc::deviate(2, "connect now")) return 0;
    trace("connect(%d, %d): in progress", fd, s->port);
    return err(EINPROGRESS);
  }
  s->refs++;
  int r = 0;
  if (!block(10, s, canConnect, s->sndTimeo)) {
    r = err(EINPROGRESS);
  } else {
    touchPorts();
    settle();
    touch(s);
    if (s->st == CONN) {
      acquire(tagOf(s));
    } else {
      int e = s->err ? s->err : ECONNABORTED;
      s->err = 0;
      s->st = FRESH;
      r = err(e);
    }
  }
  trace("connect(%d, %d) = %d%s", fd, s->port, r, r < 0 ? strerror(errno) : "");
  unref(s);
  return r;
}
EXPORT ssize_t send(int fd, const void* b, size_t n, int flags) {
  if (!simFd(fd)) return active() ? err(EBADF) : syscall(SYS_sendto, fd, b, n, flags, nullptr, 0);
  return doSend(fd, b, n, flags, "send");
}
EXPORT ssize_t sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* a, socklen_t l) {
  if (!simFd(fd)) return syscall(SYS_sendto, fd, b, n, flags, a, l);
  return doSend(fd, b, n, flags, "sendto");
}
EXPORT ssize_t recv(int fd, void* b, size_t n, int flags) {
  if (!simFd(fd)) return active() ? err(EBADF) : syscall(SYS_recvfrom, fd, b, n, flags, nullptr, nullptr);
  return doRecv(fd, b, n, flags, "recv");
}
EXPORT ssize_t recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* a, socklen_t* l) {
  if (!simFd(fd)) return syscall(SYS_recvfrom, fd, b, n, flags, a, l);
  return doRecv(fd, b, n, flags, "recvfrom");
}
EXPORT ssize_t read(int fd, void* b, size_t n) {
  if (!simFd(fd)) return syscall(SYS_read, fd, b, n);
  return doRecv(fd, b, n, 0, "read");
}
EXPORT ssize_t write(int fd, const void* b, size_t n) {
  if (!simFd(fd)) return syscall(SYS_write, fd, b, n);
  return doSend(fd, b, n, 0, "write");
}
EXPORT ssize_t sendmsg(int fd, const struct msghdr* m, int flags) {
  if (!simFd(fd)) return syscall(SYS_sendmsg, fd, m, flags);
  static char tmp[kBuf];
  size_t n = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) {
    memRead(m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    size_t k = m->msg_iov[i].iov_len;
    if (n + k > sizeof tmp) k = sizeof tmp - n;
    memcpy(tmp + n, m->msg_iov[i].iov_base, k);
    n += k;
  }
  char* own = (char*)alloca(n + 1);
  memcpy(own, tmp, n);
  return doSend(fd, own, n, flags, "sendmsg");
}
EXPORT ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!simFd(fd)) return syscall(SYS_writev, fd, v, c);
  struct msghdr m = {};
  m.msg_iov = (struct iovec*)v;
  m.msg_iovlen = c;
  return sendmsg(fd, &m, 0);
}
EXPORT int close(int fd) {
  if (!simFd(fd)) return syscall(SYS_close, fd);
  return doClose(fd);
}
EXPORT int shutdown(int fd, int how) {
  if (!simFd(fd)) return active() ? err(EBADF) : syscall(SYS_shutdown, fd, how);
  return doShutdown(fd, how);
}
EXPORT int getpeername(int fd, struct sockaddr* a, socklen_t* n) {
  if (!simFd(fd)) return syscall(SYS_getpeername, fd, a, n);
  Sock* s = find(fd, "getpeername");
  touch(s);
  settle();
  if (s->st != CONN || s->rst) return err(ENOTCONN);
  sockaddr_in in = {};
  in.sin_family = AF_INET;
  in.sin_port = htons(s->port);
  in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t k = *n < sizeof in ? *n : sizeof in;
  memWrite(a, k);
  memcpy(a, &in, k);
  *n = sizeof in;
  return 0;
}
EXPORT int getsockname(int fd, struct sockaddr* a, socklen_t* n) {
  if (!simFd(fd)) return syscall(SYS_getsockname, fd, a, n);
  Sock* s = find(fd, "getsockname");
  touch(s);
  sockaddr_in in = {};
  in.sin_family = AF_INET;
  in.sin_port = htons(s->port);
  in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t k = *n < sizeof in ? *n : sizeof in;
  memWrite(a, k);
  memcpy(a, &in, k);
  *n = sizeof in;
  return 0;
}

// --------------------------------------------------------------- select, poll
struct PollSet {
  Sock* s[16];
  bool r[16], w[16];
  int n;
};
static bool anyReady(void* a) {
  PollSet* p = (PollSet*)a;
  for (int i = 0; i < p->n; i++)
    if ((p->r[i] && readable(p->s[i])) || (p->w[i] && writable(p->s[i])) || (!p->r[i] && !p->w[i] && p->s[i]->err)) return true;
  return false;
}
// Returns false when the time passed.
static bool waitReady(PollSet* p, bool forever, u64 ns) {
  u64 limit = virtualNow() + ns;
  if (limit < virtualNow()) limit = ~0ull - 1;
  for (;;) {
    if (anyReady(p)) return true;
    if (!forever && virtualNow() >= limit) return false;
    u64 d = forever ? 0 : limit;
    for (int i = 0; i < p->n; i++)
      for (int j = 0; j < N.ns; j++) {
        Sock* s = &N.s[j];
        if (s->st == CONNECTING && (s == p->s[i] || (p->s[i]->st == LISTEN && p->s[i]->port == s->port)) &&
            s->readyAt > virtualNow() && (!d || s->readyAt < d))
          d = s->readyAt;
      }
    schedPoint(K_NET + 11, p->n ? (const void*)tagOf(p->s[0]) : (const void*)&N.ports, anyReady, p, d);
  }
}
static int selectImpl(int n, fd_set* r, fd_set* w, fd_set* x, bool forever, u64 ns, u64* left) {
  N.calls++;
  if (n < 0) return err(EINVAL);
  if (n > FD_SETSIZE) mc::fail("select is called with %d descriptors, more than an fd_set holds", n);
  PollSet p;
  p.n = 0;
  int fdOf[16];
  for (int fd = 0; fd < n; fd++) {
    bool rr = r && FD_ISSET(fd, r), ww = w && FD_ISSET(fd, w), xx = x && FD_ISSET(fd, x);
    if (!rr && !ww && !xx) continue;
    if (fd < FD0) return err(EBADF);
    if (p.n == 16) mc::fail("too many descriptors in select");
    fdOf[p.n] = fd;
    p.s[p.n] = find(fd, "select");
    p.r[p.n] = rr;
    p.w[p.n++] = ww;
  }
  Faults f;
  f.add(net::INTR, EINTR);
  f.add(net::SELECT_ERR, ENOMEM);
  if (int e = f.pick("select")) return err(e);
  for (int i = 0; i < p.n; i++) p.s[i]->refs++;
  u64 t0 = virtualNow();
  bool ok = waitReady(&p, forever, ns);
  u64 used = virtualNow() - t0;
  *left = ns > used ? ns - used : 0;
  touchPorts();
  settle();
  int c = 0;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (x) FD_ZERO(x);
  for (int i = 0; i < p.n; i++) {
    touch(p.s[i]);
    if (ok && p.r[i] && readable(p.s[i])) FD_SET(fdOf[i], r), c++;
    if (ok && p.w[i] && writable(p.s[i])) FD_SET(fdOf[i], w), c++;
    unref(p.s[i]);
  }
  trace("select() = %d", c);
  return c;
}
EXPORT int select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* t) {
  if (!active()) return syscall(SYS_select, n, r, w, x, t);
  point(11, &N.ports);
  u64 ns = 0, left = 0;
  if (t) {
    memRead(t, sizeof *t);
    if (t->tv_sec < 0 || t->tv_usec < 0) return err(EINVAL);
    ns = (u64)t->tv_sec * 1000000000ull + (u64)t->tv_usec * 1000ull;
  }
  int r2 = selectImpl(n, r, w, x, !t, ns, &left);
  if (t && r2 >= 0) {
    t->tv_sec = left / 1000000000ull;
    t->tv_usec = left % 1000000000ull / 1000;
  }
  return r2;
}
EXPORT int pselect(int n, fd_set* r, fd_set* w, fd_set* x, const struct timespec* t, const sigset_t*) {
  if (!active()) return err(ENOSYS);
  point(11, &N.ports);
  u64 left;
  return selectImpl(n, r, w, x, !t, t ? (u64)t->tv_sec * 1000000000ull + t->tv_nsec : 0, &left);
}
EXPORT int poll(struct pollfd* fds, nfds_t n, int ms) {
  if (!active()) return syscall(SYS_poll, fds, n, ms);
  point(11, &N.ports);
  N.calls++;
  PollSet p;
  p.n = 0;
  int at[16];
  int c = 0;
  memRead(fds, n * sizeof *fds);
  for (nfds_t i = 0; i < n; i++) {
    fds[i].revents = 0;
    if (fds[i].fd < 0) continue;
    if (fds[i].fd < FD0) {
      fds[i].revents = POLLNVAL;
      c++;
      continue;
    }
    at[p.n] = i;
    p.s[p.n] = find(fds[i].fd, "poll");
    p.r[p.n] = fds[i].events & POLLIN;
    p.w[p.n++] = fds[i].events & POLLOUT;
  }
  if (c) return c;
  Faults f;
  f.add(net::INTR, EINTR);
  f.add(net::SELECT_ERR, ENOMEM);
  if (int e = f.pick("poll")) return err(e);
  for (int i = 0; i < p.n; i++) p.s[i]->refs++;
  bool ok = waitReady(&p, ms < 0, ms < 0 ? 0 : (u64)ms * 1000000ull);
  touchPorts();
  settle();
  for (int i = 0; i < p.n; i++) {
    Sock* s = p.s[i];
    touch(s);
    short re = 0;
    if (ok) {
      if (p.r[i] && readable(s)) re |= POLLIN;
      if (p.w[i] && writable(s)) re |= POLLOUT;
      if (s->err) re |= POLLERR;
      if (s->st == DEADST || (s->st == CONN && s->finIn && s->shutWr)) re |= POLLHUP;
    }
    fds[at[i]].revents = re;
    if (re) c++;
    unref(s);
  }
  trace("poll() = %d", c);
  return c;
}

// ------------------------------------------------------------------ resolver
EXPORT int getaddrinfo(const char* host, const char* serv, const struct addrinfo* hints, struct addrinfo** out) {
  if (!active()) return EAI_FAIL;
  N.calls++;
  touchPorts();
  Faults f;
  f.add(net::RESOLVE_ERR, EAI_AGAIN);
  if (int e = f.pick("getaddrinfo")) return e;
  long port = 0;
  if (serv) {
    char* end;
    port = strtol(serv, &end, 10);
    if (*end || !*serv || port < 0 || port > 65535) return EAI_SERVICE;
  }
  uint32_t ip = INADDR_LOOPBACK;
  if (!host) {
    if (hints && (hints->ai_flags & AI_PASSIVE)) ip = INADDR_ANY;
  } else if (strcmp(host, "localhost") != 0) {
    in_addr a;
    if (inet_pton(AF_INET, host, &a) != 1) return EAI_NONAME;
    ip = ntohl(a.s_addr);
  }
  if (hints && hints->ai_family != AF_INET && hints->ai_family != AF_UNSPEC) return EAI_FAMILY;
  addrinfo* i = (addrinfo*)malloc(sizeof(addrinfo) + sizeof(sockaddr_in));
  memset(i, 0, sizeof(addrinfo) + sizeof(sockaddr_in));
  i->ai_family = AF_INET;
  i->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
  i->ai_protocol = IPPROTO_TCP;
  i->ai_addrlen = sizeof(sockaddr_in);
  i->ai_addr = (sockaddr*)(i + 1);
  sockaddr_in* in = (sockaddr_in*)i->ai_addr;
  in->sin_family = AF_INET;
  in->sin_port = htons(port);
  in->sin_addr.s_addr = htonl(ip);
  if (N.ninfos < 32) N.infos[N.ninfos++] = i;
  memWrite(out, sizeof *out);
  *out = i;
  return 0;
}
EXPORT void freeaddrinfo(struct addrinfo* i) {
  if (!active()) return;
  touchPorts();
  for (int k = 0; k < N.ninfos; k++)
    if (N.infos[k] == i) {
      N.infos[k] = nullptr;
      free(i);
      return;
    }
  mc::fail("freeaddrinfo is called with %p, which is not a resolver result or was released before", (void*)i);
}
