// UDP over loopback between the code under test and a check.
#pragma once

#include "util.hpp"

#include <bnl/ip/endpoint.hpp>

#include <arpa/inet.h>
#include <cerrno>
#include <fcntl.h>
#include <functional>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <unistd.h>

using namespace bnl;

static bool
is_open(int fd)
{
  return fcntl(fd, F_GETFD) != -1;
}

// Called right before the code under test reads from or asks about a socket, so
// that datagrams can arrive in between (the linker redirects these calls).
static std::function<void()> before_call;

static void
interleave()
{
  if (before_call) {
    before_call();
  }
}

// How many of its next sends fail because the socket's buffer is full.
static unsigned full = 0;
static bool was_full = false;

static bool
refuse()
{
  if (full == 0) {
    return false;
  }
  full--;
  was_full = true;
  errno = EAGAIN;
  return true;
}

extern "C" {

int __real_ioctl(int fd, unsigned long request, void *argument);
ssize_t __real_recv(int fd, void *data, size_t size, int flags);
ssize_t __real_recvfrom(int fd, void *data, size_t size, int flags, sockaddr *from, socklen_t *n);
ssize_t __real_recvmsg(int fd, msghdr *message, int flags);
ssize_t __real_send(int fd, const void *data, size_t size, int flags);
ssize_t __real_sendto(int fd, const void *data, size_t size, int flags, const sockaddr *to, socklen_t n);
ssize_t __real_sendmsg(int fd, const msghdr *message, int flags);
ssize_t __real_read(int fd, void *data, size_t size);
ssize_t __real_write(int fd, const void *data, size_t size);

ssize_t
__wrap_read(int fd, void *data, size_t size)
{
  interleave();
  return __real_read(fd, data, size);
}

ssize_t
__wrap_write(int fd, const void *data, size_t size)
{
  return refuse() ? -1 : __real_write(fd, data, size);
}

ssize_t
__wrap_send(int fd, const void *data, size_t size, int flags)
{
  return refuse() ? -1 : __real_send(fd, data, size, flags);
}

ssize_t
__wrap_sendto(int fd, const void *data, size_t size, int flags, const sockaddr *to, socklen_t n)
{
  return refuse() ? -1 : __real_sendto(fd, data, size, flags, to, n);
}

ssize_t
__wrap_sendmsg(int fd, const msghdr *message, int flags)
{
  return refuse() ? -1 : __real_sendmsg(fd, message, flags);
}

int
__wrap_ioctl(int fd, unsigned long request, ...)
{
  va_list list;
  va_start(list, request);
  void *argument = va_arg(list, void *);
  va_end(list);
  interleave();
  return __real_ioctl(fd, request, argument);
}

ssize_t
__wrap_recv(int fd, void *data, size_t size, int flags)
{
  interleave();
  return __real_recv(fd, data, size, flags);
}

ssize_t
__wrap_recvfrom(int fd, void *data, size_t size, int flags, sockaddr *from, socklen_t *n)
{
  interleave();
  return __real_recvfrom(fd, data, size, flags, from, n);
}

ssize_t
__wrap_recvmsg(int fd, msghdr *message, int flags)
{
  interleave();
  return __real_recvmsg(fd, message, flags);
}
}

// The loopback network delivers at once, unless the machine is very busy.
static void
wait_for(int fd, short events)
{
  pollfd p = { fd, events, 0 };
  if (poll(&p, 1, 5000) <= 0) {
    throw pbt::discard();
  }
}

struct peer {
  int s = -1;
  sockaddr_storage address = {};
  socklen_t size = 0;

  // At another loopback address when `host` isn't zero. With IPv6, that's an
  // IPv4 address mapped to an IPv6 one.
  explicit peer(bool v6, uint32_t host = 0)
  {
    s = socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    address.ss_family = v6 ? AF_INET6 : AF_INET;
    if (v6) {
      in6_addr &a = reinterpret_cast<sockaddr_in6 *>(&address)->sin6_addr;
      a = in6addr_loopback;
      if (host != 0) {
        a = in6_addr();
        a.s6_addr[10] = a.s6_addr[11] = 0xff;
        a.s6_addr[12] = 127;
        a.s6_addr[13] = static_cast<uint8_t>(host >> 16U);
        a.s6_addr[14] = static_cast<uint8_t>(host >> 8U);
        a.s6_addr[15] = static_cast<uint8_t>(host);
      }
    } else {
      reinterpret_cast<sockaddr_in *>(&address)->sin_addr.s_addr = htonl(host != 0 ? 127U << 24U | host : INADDR_LOOPBACK);
    }
    size = v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
    if (s == -1 || bind(s, reinterpret_cast<sockaddr *>(&address), size) == -1) {
      if (s != -1) {
        close(s);
      }
      throw pbt::discard(); // no such network here
    }
    // What is sent before it is taken must not be lost.
    int room = 4 << 20;
    (void) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &room, sizeof room);
    getsockname(s, reinterpret_cast<sockaddr *>(&address), &size);
  }
  ~peer() { close(s); }

  static ip::endpoint endpoint(const sockaddr_storage &a)
  {
    if (a.ss_family == AF_INET6) {
      const auto &x = reinterpret_cast<const sockaddr_in6 &>(a);
      return { ip::address(base::buffer_view(reinterpret_cast<const uint8_t *>(&x.sin6_addr), 16)), ntohs(x.sin6_port) };
    }
    const auto &x = reinterpret_cast<const sockaddr_in &>(a);
    return { ip::address(base::buffer_view(reinterpret_cast<const uint8_t *>(&x.sin_addr), 4)), ntohs(x.sin_port) };
  }
};

static bool
same_endpoint(const ip::endpoint &a, const ip::endpoint &b)
{
  return a.address() == b.address() && a.port() == b.port();
}

