// C30: the system layer of the client program: descriptors, UDP sockets,
// addresses, error codes, event sources.
#include "udp.hpp"

#include <os/dns.hpp>
#include <os/fd.hpp>
#include <os/ip/address.hpp>
#include <os/result.hpp>
#include <os/socket/udp.hpp>
#include <sd/event/loop.hpp>
#include <sd/event/source.hpp>

#include <sd.hpp>

#include <algorithm>
#include <deque>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <map>
#include <memory>
#include <set>

PROPERTY("C30",
         "the system layer of the client program: histories of owning, moving and replacing descriptors; datagrams of 1 to 65000 bytes "
         "both ways over loopback UDP (IPv4 and IPv6) with refusals; address texts in many spellings and near misses; names for which a stand-in for the resolver has several addresses, some of "
         "them more than once, or fails; error codes; "
         "timers and I/O sources that are moved, updated and destroyed on a simulated event loop; non-trivial: an object was moved, "
         "two datagrams were pending, or an address was not in its plainest spelling");

// --- descriptors ---

static void
descriptors(gen &g)
{
  struct owner {
    std::unique_ptr<os::fd> fd;
    int value = -1;
  };
  // Descriptor 0 is one like any other.
  struct zero {
    int kept = -1;
    ~zero()
    {
      if (kept != -1) {
        dup2(kept, 0);
        close(kept);
      }
    }
  } zero;
  if (g.chance(1, 3)) {
    zero.kept = fcntl(0, F_DUPFD_CLOEXEC, 100);
    if (zero.kept != -1) {
      close(0);
    }
  }
  std::vector<owner> pool;
  std::set<int> seen;
  auto compare = [&] {
    std::set<int> owned;
    for (const owner &o : pool) {
      CHECK(static_cast<int>(*o.fd) == o.value, "an object holds " << static_cast<int>(*o.fd) << " instead of " << o.value);
      if (o.value != -1) {
        owned.insert(o.value);
      }
    }
    for (int fd : seen) {
      CHECK(is_open(fd) == (owned.count(fd) != 0), "descriptor " << (owned.count(fd) != 0 ? "is closed although it is owned" : "stays open without an owner"));
    }
  };
  for (size_t n = 0; g.more(n, 1, 60, 12); n++) {
    size_t at = pool.empty() ? 0 : static_cast<size_t>(g.draw(pool.size() - 1));
    switch (g.pick({ 4, 1, 3, 5, 1, 3 })) {
      case 0: {
        int fd = open("/dev/null", O_RDONLY | O_CLOEXEC);
        seen.insert(fd);
        g.note("open");
        pool.push_back({ std::unique_ptr<os::fd>(new os::fd(fd)), fd });
        break;
      }
      case 1:
        g.note("an empty one");
        pool.push_back({ std::unique_ptr<os::fd>(new os::fd()), -1 });
        break;
      case 2:
        if (!pool.empty()) {
          g.note("move " + std::to_string(at));
          g.nontrivial();
          std::unique_ptr<os::fd> next(new os::fd(std::move(*pool[at].fd)));
          int value = pool[at].value;
          pool[at].value = -1;
          pool.push_back({ std::move(next), value });
        }
        break;
      case 3:
        if (!pool.empty()) {
          size_t to = static_cast<size_t>(g.draw(pool.size() - 1));
          g.note("assign " + std::to_string(at) + " to " + std::to_string(to));
          g.nontrivial();
          os::fd &from = *pool[at].fd;
          *pool[to].fd = std::move(from);
          if (to != at) {
            pool[to].value = pool[at].value;
            pool[at].value = -1;
          }
        }
        break;
      case 4:
        if (!pool.empty()) {
          g.note("replace " + std::to_string(at) + " by a new one");
          int fd = open("/dev/null", O_RDONLY | O_CLOEXEC);
          seen.insert(fd);
          *pool[at].fd = os::fd(fd);
          pool[at].value = fd;
        }
        break;
      default:
        if (!pool.empty()) {
          g.note("destroy " + std::to_string(at));
          pool.erase(pool.begin() + static_cast<ptrdiff_t>(at));
        }
        break;
    }
    compare();
  }
  pool.clear();
  compare();
}

// --- UDP ---

static bool
same_bytes(base::buffer_view v, const std::string &s)
{
  return v.size() == s.size() && std::equal(v.begin(), v.end(), s.begin(), [](uint8_t a, char b) { return a == static_cast<uint8_t>(b); });
}

static bool
again(const std::error_code &e)
{
  return e == std::errc::resource_unavailable_try_again;
}

static void
sockets(gen &g)
{
  struct reset {
    ~reset()
    {
      before_call = nullptr;
      full = 0;
    }
  } reset;
  bool v6 = g.chance(1, 3);
  peer server(v6, g.chance(1, 3) ? static_cast<uint32_t>(g.range(2, 0xfffffe)) : 0);
  ip::endpoint there = peer::endpoint(server.address);
  std::unique_ptr<os::socket::udp> udp(new os::socket::udp(there));
  CHECK(same_endpoint(udp->peer(), there), "the peer's endpoint is not the one that was given");
  sockaddr_storage mine = {};
  socklen_t size = sizeof mine;
  getsockname(udp->fd(), reinterpret_cast<sockaddr *>(&mine), &size);
  ip::endpoint here = peer::endpoint(mine);
  CHECK(same_endpoint(udp->local(), here), "the local endpoint is not that of the socket");
  CHECK((fcntl(udp->fd(), F_GETFL) & O_NONBLOCK) != 0, "the socket blocks");

  std::deque<std::string> queued, coming;
  size_t coming_bytes = 0;
  bool refusing = false;
  unsigned pending = 0; // an error that the kernel keeps for us
  auto arrived = [&](const std::string &expected) {
    static thread_local std::vector<uint8_t> b(70000);
    sockaddr_storage from = {};
    while (true) {
      pollfd p = { server.s, POLLIN, 0 };
      (void) poll(&p, 1, 5000);
      socklen_t n = sizeof from;
      ssize_t rv = recvfrom(server.s, b.data(), b.size(), 0, reinterpret_cast<sockaddr *>(&from), &n);
      CHECK(rv >= 0, "a datagram of " << expected.size() << " bytes was not sent");
      if (same_endpoint(peer::endpoint(from), here)) {
        std::string got(b.begin(), b.begin() + rv);
        CHECK(got == expected, "a datagram of " << got.size() << " bytes was sent instead of one of " << expected.size());
        return;
      }
    }
  };
  for (size_t n = 0; g.more(n, 1, 60, 14); n++) {
    switch (g.pick({ 5, 6, 4, 6, 2, 1 })) {
      case 0: {
        std::string b = g.bytes(static_cast<size_t>(g.chance(1, 60) ? g.range(9000, 65000) : g.chance(1, 8) ? g.integer(1, 9000) : g.integer(1, 1400)));
        g.note("add " + std::to_string(b.size()) + " bytes");
        queued.push_back(b);
        if (queued.size() > 1) {
          g.nontrivial();
        }
        udp->add(base::buffer(reinterpret_cast<const uint8_t *>(b.data()), b.size()));
        break;
      }
      case 1: {
        g.note("send");
        if (!queued.empty() && pending == 0 && g.chance(1, 5)) {
          g.note("  but the socket's buffer is full");
          g.nontrivial();
          full = 1;
          auto r = udp->send();
          full = 0;
          CHECK(!r && again(r.error()), "a full buffer is not reported as 'try again'");
          break;
        }
        auto r = udp->send();
        if (queued.empty()) {
          CHECK(!r && r.error() == error::idle, "sending nothing is not idle");
        } else if (pending > 0) {
          // The error of an earlier datagram: ours stays.
          CHECK(!r && r.error() == std::errc::connection_refused, "a refusal is not reported when sending");
          pending = 0;
        } else {
          CHECK(r, "sending fails");
          if (refusing) {
            wait_for(udp->fd(), POLLERR);
            pending = 1;
          } else {
            arrived(queued.front());
          }
          queued.pop_front();
        }
        break;
      }
      case 2:
        if (!refusing && coming_bytes < 60000 && coming.size() < 30) {
          std::string b = g.bytes(static_cast<size_t>(coming.empty() && g.chance(1, 60) ? g.range(9000, 65000)
                                                     : g.chance(1, 8)                  ? g.integer(0, 9000)
                                                                                       : g.integer(0, 1400)));
          ssize_t rv = __real_sendto(server.s, b.data(), b.size(), 0, reinterpret_cast<sockaddr *>(&mine), size);
          if (rv == static_cast<ssize_t>(b.size())) {
            g.note("the peer sends " + std::to_string(b.size()) + " bytes");
            coming.push_back(b);
            coming_bytes += b.size();
            if (coming.size() > 1) {
              g.nontrivial();
            }
          }
        }
        break;
      case 3: {
        bool empty = coming.empty();
        int calls = refusing || coming_bytes >= 60000 || !g.chance(1, 4) ? 0 : static_cast<int>(g.integer(1, 3));
        if (calls > 0) {
          g.note("receive, with a datagram that arrives meanwhile");
          g.nontrivial();
          before_call = [&] {
            if (--calls == 0) {
              std::string b = g.bytes(static_cast<size_t>(g.integer(0, 1400)));
              __real_sendto(server.s, b.data(), b.size(), 0, reinterpret_cast<sockaddr *>(&mine), size);
              wait_for(udp->fd(), POLLIN);
              coming.push_back(b);
              coming_bytes += b.size();
            }
          };
        } else {
          g.note("receive");
        }
        if (!empty) {
          wait_for(udp->fd(), POLLIN);
        }
        auto r = udp->recv();
        before_call = nullptr;
        if (pending > 0) {
          CHECK(!r && r.error() == std::errc::connection_refused, "a refusal is not reported when receiving");
          pending = 0;
        } else if (coming.empty() || (empty && !r)) {
          CHECK(!r && again(r.error()), "receiving nothing is not reported as 'try again'");
        } else {
          CHECK(r, "receiving fails");
          CHECK(same_bytes(r.value(), coming.front()),
                "a datagram of " << r.value().size() << " bytes instead of one of " << coming.front().size());
          coming_bytes -= coming.front().size();
          coming.pop_front();
        }
        break;
      }
      case 4:
        if (g.draw(1) == 0) {
          g.note("move");
          udp.reset(new os::socket::udp(std::move(*udp)));
        } else {
          g.note("move over another one");
          std::unique_ptr<os::socket::udp> other(new os::socket::udp(there));
          int replaced = other->fd();
          *other = std::move(*udp);
          CHECK(!is_open(replaced), "the socket that was replaced stays open");
          udp = std::move(other);
        }
        g.nontrivial();
        CHECK(same_endpoint(udp->local(), here), "the socket is another one after a move");
        break;
      default:
        if (refusing) {
          auto e = udp->error();
          if (pending > 0) {
            CHECK(e == std::errc::connection_refused, "the socket's error is not reported: " << e.value());
            pending = 0;
          } else {
            CHECK(!e, "an error that is not there");
          }
        } else if (coming.empty()) {
          // The server keeps its port but talks to somebody else from now on:
          // our datagrams are refused.
          g.note("the peer refuses from now on");
          sockaddr_storage other = server.address;
          if (v6) {
            reinterpret_cast<sockaddr_in6 *>(&other)->sin6_port = htons(9);
          } else {
            reinterpret_cast<sockaddr_in *>(&other)->sin_port = htons(9);
          }
          refusing = connect(server.s, reinterpret_cast<sockaddr *>(&other), server.size) == 0;
        } else {
          CHECK(!udp->error(), "an error that is not there");
        }
        break;
    }
  }
  int fd = udp->fd();
  udp.reset();
  CHECK(!is_open(fd), "the socket stays open");
}

// --- addresses ---

static std::string
v4_text(const std::string &b)
{
  std::string s;
  for (size_t i = 0; i < 4; i++) {
    s += (i > 0 ? "." : "") + std::to_string(static_cast<uint8_t>(b[i]));
  }
  return s;
}

static std::string
v6_text(gen &g, const std::string &b, bool *plain)
{
  unsigned words[8];
  for (size_t i = 0; i < 8; i++) {
    words[i] = static_cast<unsigned>(static_cast<uint8_t>(b[2 * i]) << 8 | static_cast<uint8_t>(b[2 * i + 1]));
  }
  bool tail = g.chance(1, 5);
  size_t count = tail ? 6 : 8;
  // A run of zeros to leave out.
  size_t from = 9, len = 0;
  if (g.chance(2, 3)) {
    for (size_t i = 0; i < count; i++) {
      size_t n = 0;
      while (i + n < count && words[i + n] == 0) {
        n++;
      }
      if (n > len) {
        from = i;
        len = n;
      }
    }
  }
  bool upper = g.chance(1, 4), pad = g.chance(1, 4);
  *plain = !tail && !upper && !pad && len == 0;
  std::string s;
  for (size_t i = 0; i < count; i++) {
    if (len > 0 && i == from) {
      s += i == 0 ? "::" : ":";
      i += len - 1;
      continue;
    }
    char word[8];
    snprintf(word, sizeof word, pad ? (upper ? "%04X" : "%04x") : (upper ? "%X" : "%x"), words[i]);
    s += word;
    if (i + 1 < count) {
      s += ":";
    }
  }
  if (tail) {
    if (s.empty() || s.back() != ':') {
      s += ":";
    }
    s += v4_text(b.substr(12));
  }
  return s;
}

// Whether the text is an address, by the rules for dotted decimal and RFC 4291.
static bool
parse_v4(const std::string &s, std::string *out)
{
  out->clear();
  size_t at = 0;
  for (int i = 0; i < 4; i++) {
    if (i > 0) {
      if (at >= s.size() || s[at] != '.') {
        return false;
      }
      at++;
    }
    unsigned v = 0;
    size_t digits = 0;
    while (at < s.size() && s[at] >= '0' && s[at] <= '9') {
      if (digits > 0 && v == 0) {
        return false; // a leading zero
      }
      v = v * 10 + static_cast<unsigned>(s[at] - '0');
      digits++;
      at++;
      if (v > 255) {
        return false;
      }
    }
    if (digits == 0) {
      return false;
    }
    *out += static_cast<char>(v);
  }
  return at == s.size();
}

static bool
parse_v6(const std::string &s, std::string *out)
{
  auto half = [](const std::string &h, bool last, std::string *bytes) {
    if (h.empty()) {
      return true;
    }
    size_t at = 0;
    while (true) {
      size_t colon = h.find(':', at);
      std::string word = h.substr(at, colon == std::string::npos ? std::string::npos : colon - at);
      if (last && colon == std::string::npos && word.find('.') != std::string::npos) {
        std::string v4;
        if (!parse_v4(word, &v4)) {
          return false;
        }
        *bytes += v4;
        return true;
      }
      if (word.empty() || word.size() > 4 || word.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
        return false;
      }
      unsigned v = static_cast<unsigned>(std::stoul(word, nullptr, 16));
      *bytes += static_cast<char>(v >> 8U);
      *bytes += static_cast<char>(v);
      if (colon == std::string::npos) {
        return true;
      }
      at = colon + 1;
    }
  };
  size_t gap = s.find("::");
  std::string a, b;
  if (gap == std::string::npos) {
    if (!half(s, true, &a) || a.size() != 16) {
      return false;
    }
    *out = a;
    return true;
  }
  if (!half(s.substr(0, gap), false, &a) || !half(s.substr(gap + 2), true, &b) || a.size() + b.size() > 14) {
    return false;
  }
  *out = a + std::string(16 - a.size() - b.size(), '\0') + b;
  return true;
}

static base::string_view
sv(const std::string &s)
{
  return base::string_view(s.data(), s.size());
}

static void
addresses(gen &g)
{
  bool v6 = g.draw(1) == 1;
  std::string b;
  for (size_t i = 0; i < (v6 ? 8U : 2U); i++) {
    bool zero = g.chance(1, 2);
    b += zero ? std::string(2, '\0') : g.bytes(2);
  }
  bool plain = true;
  std::string s = v6 ? v6_text(g, b, &plain) : v4_text(b);
  std::string bytes;
  CHECK(v6 ? parse_v6(s, &bytes) : parse_v4(s, &bytes), "(the check itself: " << s << ")");
  CHECK(bytes == b, "(the check itself: " << s << ")");
  if (!plain) {
    g.nontrivial();
  }
  bool changed = g.chance(1, 2);
  if (changed) {
    size_t at = static_cast<size_t>(g.draw(s.size()));
    char c = "0123456789abcdefgG.:/ %-x"[g.draw(24)];
    switch (g.draw(2)) {
      case 0:
        s.insert(at, 1, c);
        break;
      case 1:
        s.erase(at, 1);
        break;
      default:
        if (at < s.size()) {
          s[at] = c;
        }
        break;
    }
    g.nontrivial();
  }
  g.note("'" + s + "'");
  bool is4 = parse_v4(s, &bytes), is6 = !is4 && parse_v6(s, &bytes);
  errno = 0;
  // The text does not end with a NUL.
  std::vector<char> exact(s.begin(), s.end());
  auto r = os::make_address(base::string_view(exact.data(), exact.size()));
  if (is4 || is6) {
    CHECK(r, "'" << s << "' is refused");
    CHECK((r.value() == ip::address::type::ipv4) == is4, "'" << s << "' is of the other family");
    CHECK(same_bytes(r.value().bytes(), bytes), "'" << s << "' is " << r.value());
  } else {
    CHECK(!r, "'" << s << "' is accepted as " << r.value());
    CHECK(r.error(), "'" << s << "' is refused with an error code that means success");
  }
  if (!changed) { // a numeric host needs no name server
    auto all = os::dns::resolve(ip::host(s));
    CHECK(all, "resolving '" << s << "' fails");
    CHECK(all.value().size() == 1, "'" << s << "' resolves to " << all.value().size() << " addresses");
    CHECK(same_bytes(all.value()[0].bytes(), b), "'" << s << "' resolves to " << all.value()[0]);
  } else if (g.chance(1, 4)) { // these are refused without one, too
    std::string host = g.draw(1) == 0 ? std::string(static_cast<size_t>(g.range(260, 400)), 'a') : "a..b";
    auto none = os::dns::resolve(ip::host(host));
    CHECK(!none, "an impossible host name is resolved");
    CHECK(none.error(), "failing to resolve gives an error code that means success");
    CHECK(none.error().category() != std::system_category() || none.error().value() > 0,
          "failing to resolve gives system error " << none.error().value() << ", which does not exist");
  }
}

// --- names ---

// What the resolver answers, while it is a stand-in.
struct resolver {
  bool on = false;
  int status = 0, error = 0;
  std::vector<std::string> addresses; // 4 or 16 bytes
  std::string asked;
  std::vector<addrinfo *> given;
};

static resolver names_known;

extern "C" {
int __real_getaddrinfo(const char *node, const char *service, const addrinfo *hints, addrinfo **results);
void __real_freeaddrinfo(addrinfo *results);

int
__wrap_getaddrinfo(const char *node, const char *service, const addrinfo *hints, addrinfo **results)
{
  resolver &r = names_known;
  if (!r.on) {
    return __real_getaddrinfo(node, service, hints, results);
  }
  r.asked = node != nullptr ? node : "";
  if (r.status != 0) {
    errno = r.error;
    return r.status;
  }
  *results = nullptr;
  // As the real one does: an entry for every type of socket, unless one is
  // asked for, and no address of a family that is not asked for.
  std::vector<int> types = { SOCK_STREAM, SOCK_DGRAM, SOCK_RAW };
  if (hints != nullptr && hints->ai_socktype != 0) {
    types = { hints->ai_socktype };
  }
  addrinfo **next = results;
  for (const std::string &a : r.addresses) {
    int family = a.size() == 4 ? AF_INET : AF_INET6;
    if (hints != nullptr && hints->ai_family != AF_UNSPEC && hints->ai_family != family) {
      continue;
    }
    for (int type : types) {
      auto info = static_cast<addrinfo *>(calloc(1, sizeof(addrinfo)));
      info->ai_family = family;
      info->ai_socktype = type;
      if (family == AF_INET) {
        auto v4 = static_cast<sockaddr_in *>(calloc(1, sizeof(sockaddr_in)));
        v4->sin_family = AF_INET;
        memcpy(&v4->sin_addr, a.data(), 4);
        info->ai_addr = reinterpret_cast<sockaddr *>(v4);
        info->ai_addrlen = sizeof(*v4);
      } else {
        auto v6 = static_cast<sockaddr_in6 *>(calloc(1, sizeof(sockaddr_in6)));
        v6->sin6_family = AF_INET6;
        memcpy(&v6->sin6_addr, a.data(), 16);
        info->ai_addr = reinterpret_cast<sockaddr *>(v6);
        info->ai_addrlen = sizeof(*v6);
      }
      *next = info;
      next = &info->ai_next;
    }
  }
  r.given.push_back(*results);
  return *results != nullptr ? 0 : EAI_NONAME;
}

void
__wrap_freeaddrinfo(addrinfo *results)
{
  resolver &r = names_known;
  auto match = std::find(r.given.begin(), r.given.end(), results);
  if (match == r.given.end()) {
    __real_freeaddrinfo(results);
    return;
  }
  r.given.erase(match);
  while (results != nullptr) {
    addrinfo *next = results->ai_next;
    free(results->ai_addr);
    free(results);
    results = next;
  }
}
}

// Addresses of names come from a resolver, in any order and more than once.
static void
names(gen &g)
{
  resolver &r = names_known;
  r = resolver();
  r.on = true;
  struct cleanup {
    ~cleanup()
    {
      while (!names_known.given.empty()) {
        __wrap_freeaddrinfo(names_known.given.back());
      }
      names_known.on = false;
    }
  } cleanup;
  std::string host;
  for (size_t n = 0; g.more(n, 1, 100, 10); n++) {
    host += "abcdefghijklmnopqrstuvwxyz0123456789-."[g.draw(37)];
  }
  std::vector<std::string> pool;
  for (size_t n = 0; g.more(n, 1, 6, 3); n++) {
    pool.push_back(g.bytes(g.draw(1) == 0 ? 4 : 16));
  }
  std::vector<std::string> expected;
  for (size_t n = 0; g.more(n, 1, 12, 5); n++) {
    std::string a = pool[g.draw(pool.size() - 1)];
    if (g.chance(1, 6)) { // almost the same
      a[g.draw(a.size() - 1)] ^= 1;
    }
    r.addresses.push_back(a);
    if (std::find(expected.begin(), expected.end(), a) == expected.end()) {
      expected.push_back(a);
    }
  }
  if (expected.size() < r.addresses.size() || expected.size() > 2) {
    g.nontrivial();
  }
  static const int statuses[] = { EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_FAMILY, EAI_SERVICE, EAI_SYSTEM };
  static const int errors[] = { EMFILE, ENOMEM, ECONNREFUSED, EIO, EACCES };
  if (g.chance(1, 6)) {
    r.status = statuses[g.draw(6)];
    r.error = errors[g.draw(4)];
  }
  g.note(host + " has " + std::to_string(expected.size()) + " addresses in " + std::to_string(r.addresses.size()) + " answers" +
         (r.status != 0 ? ", status " + std::to_string(r.status) : ""));
  auto all = os::dns::resolve(ip::host(host));
  CHECK(r.asked == host, "the resolver is asked for '" << r.asked << "' instead of '" << host << "'");
  if (r.status != 0) {
    CHECK(!all, "a name that is not resolved has addresses");
    CHECK(all.error(), "failing to resolve gives an error code that means success");
    if (r.status == EAI_SYSTEM) {
      CHECK(all.error().default_error_condition() == std::error_code(r.error, std::generic_category()).default_error_condition(),
            "failing to resolve gives the error " << all.error().message() << " instead of " << strerror(r.error));
    }
    return;
  }
  CHECK(all, "resolving fails");
  CHECK(all.value().size() == expected.size(), host << " resolves to " << all.value().size() << " addresses instead of " << expected.size());
  for (size_t i = 0; i < expected.size(); i++) {
    CHECK(same_bytes(all.value()[i].bytes(), expected[i]), "address " << i << " is " << all.value()[i]);
    CHECK((all.value()[i] == ip::address::type::ipv4) == (expected[i].size() == 4), "address " << i << " is of the other family");
  }
}

// --- error codes ---

static void
codes(gen &g)
{
  static const error all[] = { error::timeout, error::resolve, error::invalid_argument, error::idle, error::finished };
  static const char *const names[] = { "timeout", "resolve", "invalid argument", "idle", "finished" };
  size_t i = static_cast<size_t>(g.draw(4)), j = static_cast<size_t>(g.draw(4));
  g.note(names[i]);
  std::error_code a = all[i], b = make_error_code(all[j]);
  CHECK(static_cast<bool>(a), "the error '" << names[i] << "' is converted to a code that means success");
  CHECK((a == b) == (i == j), "two errors are " << (i == j ? "different" : "the same"));
  CHECK(a.message() == names[i], "the message of '" << names[i] << "' is '" << a.message() << "'");
  CHECK(a.category() == error_category() && a.category() != std::system_category(), "another category");
  result<int> r = all[i];
  CHECK(!r && r.error() == all[i], "the error changes in a result");
  g.nontrivial();
}

// --- event sources ---

struct loops {
  ~loops()
  {
    sim::idle = nullptr;
    sim::choose = nullptr;
  }
};

static void
events(gen &g)
{
  loops cleanup;
  sim::event_problem.clear();
  sim::now = g.integer(1, 1ULL << 40U);
  size_t before = sim::sources.size();
  {
    std::unique_ptr<sd::event::loop> loop(new sd::event::loop);
    auto clock = loop->clock();

    struct timer {
      std::unique_ptr<sd::event::timer> t;
      uint64_t at = UINT64_MAX; // UINT64_MAX: not set
      unsigned fired = 0, expected = 0;
    };
    struct socket {
      std::unique_ptr<sd::event::io> io;
      std::unique_ptr<os::fd> fd;
      int other = -1;
      unsigned in = 0, out = 0;
      bool pending = false;
    };
    std::vector<std::unique_ptr<timer>> timers;
    std::vector<std::unique_ptr<socket>> sockets;
    struct closer {
      std::vector<std::unique_ptr<socket>> &all;
      ~closer()
      {
        for (auto &s : all) {
          close(s->other);
        }
      }
    } closing{ sockets };
    sim::choose = [&g](size_t n) { return static_cast<size_t>(g.draw(n - 1)); };

    std::error_code leave;
    bool left = false, success = false;
    auto hook = [](timer *x) {
      x->t->on_expire([x](sd::event::duration d) -> result<void> {
        x->fired++;
        CHECK(d.count() == x->at, "a timer for " << x->at << " expires with the time " << d.count());
        CHECK(sim::now >= x->at, "a timer expires early");
        x->at = UINT64_MAX;
        return base::success();
      });
    };
    auto hook_io = [](socket *x) {
      x->io->on_io([x](uint32_t events) -> result<void> {
        if ((events & EPOLLIN) != 0) {
          char b[64];
          while (read(*x->fd, b, sizeof b) > 0) {
          }
          x->in++;
        }
        if ((events & EPOLLOUT) != 0) {
          x->out++;
        }
        return base::success();
      });
    };
    auto settle = [&] {
      // Runs until nothing is left to do at this time.
      size_t rounds = 0;
      for (auto &t : timers) {
        if (t->at <= sim::now) {
          t->expected++;
        }
      }
      while (sd_event_run(sim::sources.empty() ? nullptr : sim::sources.back()->event, 0) == 1) {
        CHECK(++rounds < 500, "the loop does not come to rest");
      }
      for (auto &t : timers) {
        CHECK(t->at == UINT64_MAX || t->at > sim::now, "a timer for " << t->at << " did not expire at " << sim::now);
        CHECK(t->fired == t->expected, "a timer expired " << t->fired << " times instead of " << t->expected);
      }
      for (auto &s : sockets) {
        CHECK(s->in == (s->pending ? 1U : 0U), "a socket was reported readable " << s->in << " times");
        s->in = 0;
        s->pending = false;
      }
      CHECK(sim::event_problem.empty(), sim::event_problem);
    };

    for (size_t n = 0; g.more(n, 1, 50, 12); n++) {
      switch (g.pick({ 3, 5, 4, 3, 2, 3, 3, 1 })) {
        case 0: {
          g.note("a new timer");
          auto t = loop->timer();
          CHECK(t, "a timer is refused");
          std::unique_ptr<timer> x(new timer);
          x->t.reset(new sd::event::timer(std::move(t).value()));
          CHECK(static_cast<bool>(*x->t), "a timer does not convert to true");
          hook(x.get());
          timers.push_back(std::move(x));
          break;
        }
        case 1:
          if (!timers.empty()) {
            size_t i = static_cast<size_t>(g.draw(timers.size() - 1));
            uint64_t at = sim::now + g.integer(0, 1ULL << 30U);
            g.note("timer " + std::to_string(i) + " for " + std::to_string(at));
            timers[i]->at = at;
            timers[i]->t->update(sd::event::duration(at));
          }
          break;
        case 2: { // time passes
          uint64_t first = UINT64_MAX;
          for (auto &t : timers) {
            first = std::min(first, t->at);
          }
          uint64_t to = first != UINT64_MAX && first > sim::now && g.chance(1, 2) ? first - g.draw(1) : sim::now + g.integer(0, 1ULL << 30U);
          g.note("the time is " + std::to_string(to));
          sim::now = to;
          CHECK(loop->now().count() == sim::now && clock().count() == sim::now, "the loop's clock shows another time");
          settle();
          break;
        }
        case 3:
          if (!timers.empty()) {
            size_t i = static_cast<size_t>(g.draw(timers.size() - 1));
            g.note("move timer " + std::to_string(i));
            g.nontrivial();
            std::unique_ptr<sd::event::timer> next;
            if (g.draw(1) == 0) {
              next.reset(new sd::event::timer(std::move(*timers[i]->t)));
            } else {
              auto t = loop->timer();
              CHECK(t, "a timer is refused");
              next.reset(new sd::event::timer(std::move(t).value()));
              *next = std::move(*timers[i]->t);
            }
            CHECK(!static_cast<bool>(*timers[i]->t) && static_cast<bool>(*next), "a timer that was moved from converts to true");
            timers[i]->t = std::move(next);
            if (g.draw(1) == 1) {
              hook(timers[i].get());
            }
          }
          break;
        case 4:
          if (!timers.empty()) {
            size_t i = static_cast<size_t>(g.draw(timers.size() - 1));
            g.note("destroy timer " + std::to_string(i));
            timers.erase(timers.begin() + static_cast<ptrdiff_t>(i));
          }
          break;
        case 5: {
          if (sockets.size() > 3) {
            break;
          }
          g.note("watch a socket");
          int pair[2];
          CHECK(socketpair(AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, pair) == 0, "(socketpair)");
          std::unique_ptr<socket> x(new socket);
          x->other = pair[1];
          x->fd.reset(new os::fd(pair[0]));
          auto io = loop->io(*x->fd);
          sockets.push_back(std::move(x));
          CHECK(io, "watching a socket is refused");
          sockets.back()->io.reset(new sd::event::io(std::move(io).value()));
          hook_io(sockets.back().get());
          settle();
          CHECK(sockets.back()->out == 1, "a writable socket was reported " << sockets.back()->out << " times");
          break;
        }
        case 6:
          if (!sockets.empty()) {
            socket &x = *sockets[g.draw(sockets.size() - 1)];
            if (g.draw(1) == 0) {
              g.note("move a watched socket's source");
              g.nontrivial();
              x.io.reset(new sd::event::io(std::move(*x.io)));
            } else {
              g.note("a socket becomes readable");
              x.pending = write(x.other, "x", 1) == 1;
              settle();
            }
          }
          break;
        default: {
          g.note("move the loop");
          g.nontrivial();
          std::unique_ptr<sd::event::loop> next(new sd::event::loop(std::move(*loop)));
          loop = std::move(next);
          CHECK(clock().count() == sim::now, "the clock shows another time after the loop was moved");
          break;
        }
      }
    }
    // The end.
    size_t how = g.draw(3);
    static const error all[] = { error::timeout, error::resolve, error::invalid_argument, error::idle, error::finished };
    bool once = false;
    sigset_t mask;
    sigprocmask(SIG_BLOCK, nullptr, &mask);
    if (how == 2) {
      CHECK(loop->signal(SIGUSR1), "watching a signal is refused");
    }
    if (how == 1) {
      leave = g.draw(1) == 0 ? make_error_code(all[g.draw(4)]) : std::error_code(static_cast<int>(g.integer(1, 100)), std::system_category());
    }
    sim::idle = [&] {
      if (once) {
        return false;
      }
      once = true;
      switch (how) {
        case 0:
          g.note("exit");
          left = success = static_cast<bool>(loop->exit());
          break;
        case 1:
          g.note("exit with the error '" + leave.message() + "'");
          left = static_cast<bool>(loop->exit(leave));
          break;
        case 2:
          g.note("a signal");
          sim::raise(SIGUSR1);
          left = success = true;
          break;
        default: // the loop itself fails
          g.note("the loop fails");
          left = true;
          return false;
      }
      return true;
    };
    auto r = loop->run();
    sigprocmask(SIG_SETMASK, &mask, nullptr);
    CHECK(left, "the loop ends by itself");
    if (success) {
      CHECK(r, "the loop ends with the error '" << r.error().message() << "' after a regular exit");
    } else {
      CHECK(!r, "the loop ends without an error although it was left with one");
      CHECK(r.error(), "the loop ends with an error that means success");
      CHECK(how != 1 || r.error() == leave, "the loop ends with the error '" << r.error().message() << "' instead of '" << leave.message() << "'");
    }
    for (auto &s : sockets) {
      s->io.reset();
    }
  }
  CHECK(sim::event_problem.empty(), sim::event_problem);
  CHECK(sim::sources.size() == before, (sim::sources.size() - before) << " sources stay behind");
}

PART("descriptors", descriptors, 40000, 400000);
PART("sockets", sockets, 30000, 400000);
PART("addresses", addresses, 60000, 600000);
PART("names", names, 30000, 300000);
PART("codes", codes, 200, 1000);
PART("events", events, 40000, 400000);
