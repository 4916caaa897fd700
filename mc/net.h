// Controls of the simulated TCP stack (concurrent engine only).
//
// The code under test and the harness use the ordinary socket functions
// (socket, bind, listen, accept, connect, send, recv, read, write, shutdown,
// close, select, poll, fcntl, ioctl, getsockopt, setsockopt, getaddrinfo ...);
// within an execution they act on a simulated loopback network.
#ifndef MC_NET_H
#define MC_NET_H
#include <cstddef>
#include <cstdint>

namespace mc {
namespace net {

// Faults the stack may inject, each as a deviation (costs one unit).
enum Fault : unsigned {
  SHORT_SEND = 1,     // a send accepts only 1 or n-1 bytes
  SHORT_RECV = 2,     // a recv returns only 1 byte
  INTR = 4,           // a call is interrupted by a signal (EINTR)
  RESET = 8,          // the connection is reset at a send or recv
  ACCEPT_ERR = 16,    // accept fails (ECONNABORTED, EMFILE)
  RESOLVE_ERR = 32,   // getaddrinfo fails
  SOCKET_ERR = 64,    // socket fails
  BIND_ERR = 128,     // bind fails
  LISTEN_ERR = 256,   // listen fails
  CONNECT_ERR = 512,  // connect fails at once
  FCNTL_ERR = 1024,   // fcntl / ioctl fails
  SELECT_ERR = 2048,  // select / poll fails
  CONNECT_NOW = 4096, // a non-blocking connect succeeds at once
};
void faults(unsigned mask);
// Calls of this thread are the environment's own: never faulted.
void trusted(bool on);
// Capacity of a connection's buffer per direction.
void bufferSize(size_t n);
// Connections to `port` are decided only after delayNs; err != 0: they fail.
void delay(int port, uint64_t delayNs, int err);
// An abortive close discards what is still in flight.  On a network where
// delivery is immediate (as the loopback) nothing is in flight.
void prompt(bool on);
// Number of the next descriptor.
void firstFd(int fd);
int openFds();             // descriptors open now
long calls();              // system calls so far
uint64_t clock();          // virtual time
bool listening(int port);

}  // namespace net
}  // namespace mc
#endif
