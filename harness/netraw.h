// Plain socket helpers of the environment (never faulted).
#ifndef NETRAW_H
#define NETRAW_H
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>

#include <string>

#include "common.h"
#include "net.h"

namespace raw {
struct Trust {
  Trust() { mc::net::trusted(true); }
  ~Trust() { mc::net::trusted(false); }
};
inline sockaddr_in addr(int port) {
  sockaddr_in a = {};
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  return a;
}
// A listening socket, or -1 (errno set).
inline int listenOn(int port, int backlog = 4, bool reuse = true) {
  Trust t;
  int s = ::socket(AF_INET, SOCK_STREAM, 0);
  int on = reuse;
  ::setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
  auto a = addr(port);
  if (::bind(s, (sockaddr*)&a, sizeof a) != 0 || ::listen(s, backlog) != 0) {
    int e = errno;
    ::close(s);
    errno = e;
    return -1;
  }
  return s;
}
inline int acceptOne(int s) {
  Trust t;
  return ::accept(s, nullptr, nullptr);
}
inline int connectTo(int port) {
  Trust t;
  int s = ::socket(AF_INET, SOCK_STREAM, 0);
  auto a = addr(port);
  if (::connect(s, (sockaddr*)&a, sizeof a) != 0) {
    int e = errno;
    ::close(s);
    errno = e;
    return -1;
  }
  return s;
}
inline bool sendAll(int s, const std::string& d) {
  Trust t;
  size_t at = 0;
  while (at < d.size()) {
    auto n = ::send(s, d.data() + at, d.size() - at, MSG_NOSIGNAL);
    if (n <= 0) return false;
    at += n;
  }
  return true;
}
// Up to n bytes, fewer at the end of the stream; *end: "" (complete), "eof" or "reset".
inline std::string recvN(int s, size_t n, std::string* end = nullptr) {
  Trust t;
  std::string out;
  if (end) *end = "";
  while (out.size() < n) {
    char b[64];
    size_t k = n - out.size() < sizeof b ? n - out.size() : sizeof b;
    auto r = ::recv(s, b, k, 0);
    if (r <= 0) {
      if (end) *end = r == 0 ? "eof" : "reset";
      break;
    }
    out.append(b, r);
  }
  return out;
}
inline void closeIt(int s) {
  Trust t;
  ::close(s);
}
inline void resetIt(int s) {  // abortive close
  Trust t;
  struct linger l = {1, 0};
  ::setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l);
  ::close(s);
}
inline void fin(int s) {
  Trust t;
  ::shutdown(s, SHUT_WR);
}
}  // namespace raw
#endif
