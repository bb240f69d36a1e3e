// C31: the client program from its arguments to its output.
#include "net.hpp"
#include "quic.hpp"
#include "udp.hpp"

#include <bnl/base/log.hpp>

#include <client.hpp>
#include <sd.hpp>

#include <csignal>
#include <deque>
#include <iostream>
#include <sstream>
#include <sys/epoll.h>

PROPERTY("C31",
         "whole runs of the client program against a scripted server over loopback UDP: handshakes and responses (any headers, in some runs more than a thousand, "
         "framings and bodies to 3000 bytes, in some runs to 2 MB, as far as the client's limits allow) cut into generated frames, packets and bursts; flow control, stream limits, full socket "
         "buffers, loss and acknowledgement timers; servers that fall silent, fail the handshake, violate HTTP/3, reset the "
         "stream or refuse datagrams; non-trivial: the response took two packets, something blocked, a timer expired, or the server failed");

int
bnl_client_main(int argc, char *argv[]);

namespace {

const uint64_t PATIENCE = 30000000; // microseconds: the idle timeout the program asks for

// Where the program's log goes.
struct quiet {
  FILE *out = stdout, *err = stderr;
  FILE *null = fopen("/dev/null", "w");
  quiet()
  {
    stdout = null;
    stderr = null;
  }
  ~quiet()
  {
    stdout = out;
    stderr = err;
    fclose(null);
  }
};

struct output {
  std::ostringstream text;
  std::streambuf *before = std::cout.rdbuf(text.rdbuf());
  ~output() { std::cout.rdbuf(before); }
};

struct signals {
  sigset_t before;
  signals() { sigprocmask(SIG_BLOCK, nullptr, &before); }
  ~signals() { sigprocmask(SIG_SETMASK, &before, nullptr); }
};

enum class ending { complete, silence, handshake, transport, http3, reset, refused };

const char *
describe(ending e)
{
  switch (e) {
    case ending::complete:
      return "answers";
    case ending::silence:
      return "falls silent";
    case ending::handshake:
      return "fails the handshake";
    case ending::transport:
      return "violates the transport protocol";
    case ending::http3:
      return "violates HTTP/3";
    case ending::reset:
      return "resets the stream";
    case ending::refused:
      return "refuses datagrams";
  }
  return "";
}

struct session {
  gen &g;
  peer server;
  qw::handshake_script script;
  ngtcp2_conn *t = nullptr;
  ssl_st *tls = nullptr;

  // What the server does.
  ending end = ending::complete;
  size_t fails_after = SIZE_MAX; // packets
  net::message response;
  struct piece { // a frame, and what it counts against the client's limits
    sim::action action;
    int64_t id;
    uint64_t size;
  };
  std::deque<std::vector<sim::action>> handshake;
  std::deque<std::vector<piece>> streams;
  uint64_t used = 0;
  std::map<int64_t, uint64_t> used_of;

  sockaddr_storage there = {};
  socklen_t there_size = 0;
  int fd = -1; // the program's socket

  size_t taken = 0;       // datagrams of the program
  size_t sent = 0;        // datagrams to the program
  size_t owed = 0;        // packets the transport has to send
  bool failing = false;   // the server has failed or stopped
  bool free = false;      // nothing blocks any more
  bool done = false;      // everything was delivered
  unsigned patience = 0;  // of the current wait
  size_t rounds = 0;
  uint64_t due = UINT64_MAX; // a timer of the transport that must be handled now
  uint64_t active = 0;       // when the program last had something to do
  uint64_t delivered = 0;    // when it was last given a datagram
  size_t dispatches = 0;
  bool asked = false;        // the whole request was seen
  std::string host;
  std::string problem;       // found where no exception may be thrown

  session(gen &g_, bool v6, uint32_t host_)
    : g(g_)
    , server(v6, host_)
  {}

  ~session()
  {
    sim::idle = nullptr;
    sim::choose = nullptr;
    sim::new_session = nullptr;
    full = 0;
    was_full = false;
  }

  // --- the script ---

  void prepare()
  {
    uint32_t cipher = 0x03001301U + static_cast<uint32_t>(g.draw(2));
    size_t secret = qw::suite_of(cipher).sha384 ? 48 : 32;
    size_t hello = static_cast<size_t>(g.integer(1, 200)), rest = static_cast<size_t>(g.integer(1, 1500));
    auto &f = script.flights;
    f.resize(3);
    f[0].output = { { ssl_encryption_initial, std::string(static_cast<size_t>(g.integer(1, 400)), 'c') } };
    f[1].needs = hello;
    f[1].cipher = cipher;
    f[1].secrets = { { ssl_encryption_handshake, std::string(secret, 'r'), std::string(secret, 'w') } };
    f[1].failure = end == ending::handshake;
    f[2].needs_level = ssl_encryption_handshake;
    f[2].needs = rest;
    f[2].secrets = { { ssl_encryption_application, std::string(secret, 'R'), std::string(secret, 'W') } };
    f[2].output = { { ssl_encryption_handshake, std::string(36, 'f') } };

    std::vector<sim::action> frames;
    auto crypto = [&](ngtcp2_crypto_level level, size_t size) {
      uint64_t at = 0;
      for (size_t n : g.segments(size)) {
        frames.push_back([level, n, at](ngtcp2_conn *c) {
          std::vector<uint8_t> bytes(n, 's');
          return c->cb.recv_crypto_data(c, level, at, bytes.data(), n, c->user);
        });
        at += n;
      }
    };
    crypto(NGTCP2_CRYPTO_LEVEL_INITIAL, hello);
    crypto(NGTCP2_CRYPTO_LEVEL_HANDSHAKE, rest);
    for (auto &packet : pack(frames, end == ending::handshake)) {
      handshake.push_back(packet);
    }

    // The response, and the control stream somewhere in between.
    bool large = end == ending::complete && g.chance(1, 60);
    bool many = !large && g.chance(1, 50);
    response = many ? net::gen_message(g, 1500, 20, 300, 500) : net::gen_message(g, 6, 200, large ? 0 : 3000);
    if (large) {
      response.body = g.bytes(g.integer(200000, 2000000));
    }
    net::framing framing;
    framing.unknown_frames = g.chance(1, 2);
    std::string wire = net::gen_stream(g, response, framing).bytes;
    if (end == ending::http3) { // a frame that may not be there
      ref::frame bad;
      bad.type = ref::F_SETTINGS;
      wire = net::frame(ref::F_HEADERS, net::gen_block(g, response.headers)) + ref::frame_head(bad);
    }
    std::vector<net::piece> pieces;
    for (net::piece &x : net::gen_pieces(g, wire, true)) {
      size_t most = static_cast<size_t>(large ? g.integer(1000, 20000) : 20000);
      while (x.bytes.size() > most) {
        pieces.push_back({ x.bytes.substr(0, most), false });
        x.bytes.erase(0, most);
      }
      pieces.push_back(x);
    }
    std::vector<piece> sent_frames;
    std::string control = std::string(1, '\0');
    ref::frame settings;
    settings.type = ref::F_SETTINGS;
    settings.num_placeholders = g.draw(50);
    control += ref::frame_head(settings);
    size_t when = static_cast<size_t>(g.draw(pieces.size() - 1));
    // Servers also open streams for QPACK, which the client has no use for.
    bool encoder = g.chance(1, 3), decoder = g.chance(1, 3);
    size_t with[2] = { static_cast<size_t>(g.draw(pieces.size() - 1)), static_cast<size_t>(g.draw(pieces.size() - 1)) };
    uint64_t at = 0;
    for (size_t i = 0; i < pieces.size(); i++) {
      if (i == when) {
        sent_frames.push_back(data(3, 0, control, false));
      }
      if (encoder && i == with[0]) {
        sent_frames.push_back(data(7, 0, "\x02", false));
      }
      if (decoder && i == with[1]) {
        sent_frames.push_back(data(11, 0, "\x03", false));
      }
      if (end == ending::reset && i + 1 == pieces.size()) {
        sent_frames.push_back({ [at](ngtcp2_conn *c) { return c->cb.stream_reset(c, 0, at, 0x10c, c->user, nullptr); }, 0, 0 });
        break;
      }
      sent_frames.push_back(data(0, at, pieces[i].bytes, pieces[i].fin));
      at += pieces[i].bytes.size();
    }
    streams = pack(sent_frames, end == ending::http3 || end == ending::reset);
    if (streams.size() > 1) {
      g.nontrivial();
    }
    if (end != ending::complete) {
      g.nontrivial();
    }
    if (end == ending::silence || end == ending::refused || end == ending::transport) {
      fails_after = static_cast<size_t>(g.draw(handshake.size() + streams.size() - 1));
    }
  }

  static piece data(int64_t id, uint64_t at, const std::string &bytes, bool fin)
  {
    sim::action a = [id, at, bytes, fin](ngtcp2_conn *c) {
      std::vector<uint8_t> copy(bytes.begin(), bytes.end());
      return c->cb.recv_stream_data(c, id, fin ? 1 : 0, at, copy.data(), copy.size(), c->user, nullptr);
    };
    return { a, id, bytes.size() };
  }

  template<typename F>
  std::deque<std::vector<F>> pack(const std::vector<F> &frames, bool together)
  {
    std::deque<std::vector<F>> packets(1);
    for (const F &f : frames) {
      if (!packets.back().empty() && !together && g.chance(1, 2)) {
        packets.emplace_back();
      }
      packets.back().push_back(f);
    }
    return packets;
  }

  // --- the transport ---

  void plan()
  {
    if (g.chance(1, 3)) {
      t->max_bidi = 0;
    }
    if (g.chance(1, 3)) {
      t->max_uni = 2;
    }
    t->write_stream = [this](int64_t, size_t size, bool) {
      sim::plan p;
      if (free) {
        return p;
      }
      switch (g.pick({ 5, 2, 1, others < 20 ? 1U : 0U, size > 0 ? 1U : 0U })) {
        case 1:
          p.limit = static_cast<size_t>(g.integer(1, 60));
          break;
        case 2:
          p.what = sim::plan::nothing;
          g.nontrivial();
          break;
        case 3:
          p.what = sim::plan::other_packet;
          others++;
          break;
        case 4:
          p.what = sim::plan::data_blocked;
          g.nontrivial();
          break;
        default:
          break;
      }
      timers();
      return p;
    };
    t->write_pkt = [this] {
      sim::plan p;
      if (!failing && owed > 0) {
        owed--;
        p.what = sim::plan::other_packet;
      } else if (!free && !failing && others < 20 && g.chance(1, 12)) {
        others++;
        p.what = sim::plan::other_packet;
      }
      timers();
      return p;
    };
    t->on_loss = [this] {
      t->loss_expiry = UINT64_MAX;
      expiry();
      owe();
    };
    t->on_ack = [this] {
      t->ack_expiry = UINT64_MAX;
      expiry();
      owe();
    };
  }

  // The transport has something to say: an acknowledgement, a limit, something
  // that was lost.
  void owe()
  {
    if (!failing && g.chance(1, 2)) {
      owed++;
    }
  }

  void expiry() { t->expiry = std::min(t->loss_expiry, t->ack_expiry); }

  void timers()
  {
    if (!failing && !free && g.chance(1, 6)) {
      uint64_t &e = g.draw(1) == 0 ? t->loss_expiry : t->ack_expiry;
      e = (sim::now + g.integer(1, 3000000)) * 1000;
      expiry();
    }
  }

  // --- the loop has nothing to do ---

  bool idle()
  {
    CHECK(problem.empty(), problem);
    CHECK(++rounds < 20000, "the run does not end");
    others = 0;
    if (t == nullptr) {
      CHECK(sim::connections.size() == 1, "there are " << sim::connections.size() << " connections");
    }
    CHECK(t->problem.empty(), "the transport was misused: " << t->problem);
    CHECK(sim::event_problem.empty(), sim::event_problem);
    for (sd_event_source *s : sim::sources) {
      if (s->what == sd_event_source::io) {
        fd = s->fd;
      }
    }
    CHECK(fd != -1, "no socket is watched");
    if (dispatches > 0) {
      active = sim::now;
    }
    dispatches = 0;

    if (!collect()) {
      return true;
    }
    if (!failing && t->received.size() < sent) {
      // It may still be on its way if the machine is very busy.
      CHECK(patience++ < 3, sent - t->received.size() << " datagrams were not given to the transport");
      wait_for(fd, POLLIN);
      return true;
    }
    patience = 0;
    if (!failing) {
      CHECK(t->expiry / 1000 > sim::now || t->expiry == UINT64_MAX,
            "a timer of the transport expired at " << t->expiry / 1000 << " and nothing happened until " << sim::now);
      CHECK(owed == 0, "the transport has " << owed << " packets to send, after what it received or a timer, and is not asked for them");
    }
    return step();
  }

  // Takes the datagrams of the program. Returns false when there is more to come.
  bool collect()
  {
    static thread_local std::vector<uint8_t> b(70000);
    while (true) {
      sockaddr_storage from = {};
      socklen_t n = sizeof from;
      ssize_t rv = __real_recvfrom(server.s, b.data(), b.size(), 0, reinterpret_cast<sockaddr *>(&from), &n);
      if (rv < 0) {
        break;
      }
      if (there_size == 0) {
        there = from;
        there_size = n;
      }
      if (!same_endpoint(peer::endpoint(from), peer::endpoint(there))) {
        continue;
      }
      std::string got(b.begin(), b.begin() + rv);
      CHECK(taken < t->written.size(), "a datagram of " << rv << " bytes that the transport did not write");
      CHECK(got == t->written[taken], "datagram " << taken << " has " << rv << " bytes that are not those of the packet of " << t->written[taken].size());
      taken++;
    }
    if (end == ending::refused && failing) {
      return true;
    }
    if (was_full) { // the buffer has room again
      was_full = false;
      g.note("the socket's buffer has room again");
      for (sd_event_source *s : sim::sources) {
        if (s->what == sd_event_source::io) {
          s->revents |= EPOLLOUT;
        }
      }
      return false;
    }
    if (taken < t->written.size() && !failing) {
      CHECK(patience++ < 3, t->written.size() - taken << " packets of the transport were not sent");
      pollfd p = { server.s, POLLIN, 0 };
      (void) poll(&p, 1, 1000);
      return false;
    }
    return true;
  }

  // The next packet of the response, as far as the client's limits allow.
  bool respond()
  {
    std::vector<sim::action> actions;
    std::vector<piece> &front = streams.front();
    while (!front.empty()) {
      piece &x = front.front();
      uint64_t limit = (x.id == 0 ? t->settings.max_stream_data_bidi_local : t->settings.max_stream_data_uni) + t->stream_credit[x.id];
      if (used_of[x.id] + x.size > limit || used + x.size > t->settings.max_data + t->credit) {
        break;
      }
      if (x.id != 0) {
        CHECK(static_cast<uint64_t>(x.id) / 4 < t->settings.max_streams_uni, "the server may not open stream " << x.id);
      }
      used += x.size;
      used_of[x.id] += x.size;
      actions.push_back(x.action);
      front.erase(front.begin());
    }
    if (actions.empty() && !front.empty() && t->received.size() < sent) {
      return false; // what was sent may still raise the limits
    }
    CHECK(!actions.empty() || front.empty(),
          "the server may not send more than " << used << " bytes: the client, which has received them all, does not raise its limits");
    deliver(actions);
    if (!front.empty()) {
      return false;
    }
    streams.pop_front();
    return true;
  }

  void deliver(const std::vector<sim::action> &actions)
  {
    t->packets.push_back(actions);
    if (!failing) {
      t->packets.back().insert(t->packets.back().begin(), [this](ngtcp2_conn *) {
        owe();
        return 0;
      });
    }
    uint32_t index = static_cast<uint32_t>(t->packets.size() - 1);
    std::string bytes(reinterpret_cast<const char *>(&index), 4);
    bytes += g.bytes(static_cast<size_t>(g.integer(0, 1200)));
    ssize_t rv = __real_sendto(server.s, bytes.data(), bytes.size(), 0, reinterpret_cast<sockaddr *>(&there), there_size);
    if (rv != static_cast<ssize_t>(bytes.size())) {
      throw pbt::discard();
    }
    sent++;
    active = delivered = sim::now;
  }

  bool request_complete()
  {
    auto it = t->streams.find(0);
    auto control = t->streams.find(2);
    if (it == t->streams.end() || !it->second.fin || control == t->streams.end() || control->second.data.size() < 2) {
      return false;
    }
    CHECK(!control->second.fin && control->second.data[0] == '\0', "the control stream is not one");
    if (asked) {
      return true;
    }
    asked = true;
    const std::string &s = it->second.data;
    ref::decoded d = ref::decode_frame(s);
    CHECK(d.what == ref::decoded::frame_ok && d.frame.type == ref::F_HEADERS && d.end + d.frame.size == s.size(),
          "the request is not one HEADERS frame: " << pbt::hex(s));
    ref::headers h;
    CHECK(ref::qpack_section(s.substr(d.end), h) == ref::status::ok, "the request's header block is not valid");
    ref::headers expected = { { ":method", "GET" }, { ":scheme", "https" }, { ":authority", host }, { ":path", "/index.html" } };
    CHECK(h == expected, "the request is " << ::show(h));
    return true;
  }

  sim::action acknowledge(int64_t id, size_t size)
  {
    return [id, size](ngtcp2_conn *c) { return c->ack(id, size); };
  }

  sim::action allow()
  {
    return [](ngtcp2_conn *c) {
      if (c->max_bidi == 0) {
        c->max_bidi = INT64_MAX;
        c->cb.extend_max_local_streams_bidi(c, 1, c->user);
      }
      if (c->max_uni == 2) {
        c->max_uni = INT64_MAX;
        c->cb.extend_max_local_streams_uni(c, 3, c->user);
      }
      return 0;
    };
  }

  bool fail()
  {
    switch (end) {
      case ending::refused: {
        sockaddr_storage other = server.address;
        if (other.ss_family == AF_INET6) {
          reinterpret_cast<sockaddr_in6 &>(other).sin6_port = htons(9);
        } else {
          reinterpret_cast<sockaddr_in &>(other).sin_port = htons(9);
        }
        deliver({}); // makes it send or at least look
        failing = true;
        if (connect(server.s, reinterpret_cast<sockaddr *>(&other), server.size) != 0) {
          throw pbt::discard();
        }
        break;
      }
      case ending::transport:
        deliver({ [](ngtcp2_conn *) { return NGTCP2_ERR_PROTO; } });
        failing = true;
        break;
      default:
        failing = true;
        break;
    }
    t->loss_expiry = t->ack_expiry = UINT64_MAX;
    expiry();
    g.note("the server " + std::string(describe(end)));
    return true;
  }

  // The server's next move, or time passes.
  bool step()
  {
    if (failing) {
      // Nothing comes any more: the program gives up in the end.
      CHECK(sim::now - active <= PATIENCE + 1000, "the program has not given up " << (sim::now - active) / 1000 << " ms after the last packet");
      uint64_t next = sim::next_timer();
      CHECK(next != UINT64_MAX && next - std::min(next, active) <= PATIENCE + 1000, "the program waits for " << next << " at " << sim::now);
      sim::now = std::max(sim::now + 1, next);
      return true;
    }
    if (done) {
      CHECK(false, "the program waits for more after the whole response");
    }
    size_t packets = handshake.size() + streams.size();
    if (sent >= fails_after || (packets == 0 && end != ending::complete)) {
      return fail();
    }
    // In between.
    switch (g.pick({ 6, 2, 2, 1, 1 })) {
      case 1: { // time passes, to the next timer of the transport at the latest
        uint64_t most = PATIENCE / 2;
        if (t->expiry != UINT64_MAX) {
          most = t->expiry / 1000 - sim::now;
        }
        uint64_t by = g.chance(1, 2) && t->expiry != UINT64_MAX ? most : g.integer(1, std::min(most, PATIENCE / 2));
        if (sim::now + by >= active + PATIENCE) {
          break;
        }
        sim::now += by;
        g.note("after " + std::to_string(by) + " us");
        if (sim::now >= t->expiry / 1000) {
          g.nontrivial();
        }
        return true;
      }
      case 2: { // an acknowledgement
        for (auto &e : t->streams) {
          size_t open = e.second.data.size() - e.second.acked;
          if (e.second.fin_alone && (open == 0 || g.chance(1, 2))) {
            int64_t id = e.first;
            g.note("acknowledges the end of stream " + std::to_string(id));
            deliver({ [id](ngtcp2_conn *c) { return c->ack_fin(id); } });
            return true;
          }
          if (open > 0 && g.draw(1) == 0) {
            size_t n = static_cast<size_t>(g.integer(1, open));
            g.note("acknowledges " + std::to_string(n) + " bytes of stream " + std::to_string(e.first));
            deliver({ acknowledge(e.first, n) });
            return true;
          }
        }
        break;
      }
      case 3:
        if (!free) {
          g.note("the socket's buffer is full");
          g.nontrivial();
          full = 1;
        }
        break;
      case 4:
        g.note("more streams");
        deliver({ allow() });
        return true;
      default:
        break;
    }
    size_t burst = static_cast<size_t>(g.chance(1, 4) ? g.integer(2, 4) : 1);
    while (burst-- > 0 && sent < fails_after) {
      if (!handshake.empty()) {
        g.note("a packet of the handshake");
        if (end == ending::handshake && handshake.size() == 1) {
          failing = true;
        }
        deliver(handshake.front());
        handshake.pop_front();
        continue;
      }
      // Responses are to requests.
      bool complete = request_complete();
      if (t->streams.count(0) == 0 || (streams.size() == 1 && !complete)) {
        if (free) {
          CHECK(patience_for_request++ < 2, "the request or the control stream is not sent although nothing is in its way");
        } else {
          g.note("nothing is in the way of the request any more");
          free = true;
        }
        deliver({ allow() });
        break;
      }
      if (!streams.empty()) {
        bool last = streams.size() == 1;
        g.note(last ? "the last packet of the response" : "a packet of the response");
        if (!respond()) {
          break; // the client must have it before there is more
        }
        if (last) {
          (end == ending::complete ? done : failing) = true;
          break;
        }
      }
    }
    return true;
  }

  unsigned patience_for_request = 0;
  unsigned others = 0; // packets without data at once
};

// What the program does, as another program that uses the client, and moves it
// before it runs.
int
embedded(gen &g, const std::string &host, ip::endpoint there, std::string &text)
{
  ip::host name(host);
  std::unique_ptr<client> c(new client(name, there));
  auto move = [&] {
    if (g.draw(1) == 1) {
      g.note("move");
      g.nontrivial();
      std::unique_ptr<client> next(new client(std::move(*c)));
      c = std::move(next);
    }
  };
  move();
  auto request = c->request();
  CHECK(request, "a request is refused");
  http3::request::handle handle = std::move(request).value();
  move();
  auto add = [&](const char *n, base::string_view v) { CHECK(handle.header({ n, v }), "a header is refused"); };
  add(":method", "GET");
  add(":scheme", "https");
  add(":authority", name.name());
  add(":path", "/index.html");
  move();
  CHECK(handle.start() && handle.fin(), "the request is refused");
  move();
  std::string head, body;
  auto r = c->run([&](http3::event e) -> result<void> {
    switch (e) {
      case http3::event::type::settings:
        break;
      case http3::event::type::header:
        head += ::str(e.header.header.name()) + ": " + ::str(e.header.header.value()) + "\n";
        break;
      case http3::event::type::body:
        body += ::str(e.body.buffer);
        break;
      case http3::event::type::finished:
        return error::finished;
    }
    return base::success();
  });
  if (!r) {
    return 1;
  }
  text = head + "\n" + body;
  return 0;
}

void
run(gen &g)
{
  signals mask;
  sim::event_problem.clear();
  sim::now = g.integer(1, 1ULL << 40U);
  full = 0;
  was_full = false;
  bool v6 = g.chance(1, 3);
  uint32_t number = !v6 && g.chance(1, 4) ? static_cast<uint32_t>(g.range(2, 0xfffffe)) : 0;
  session s(g, v6, number);
  static const ending endings[] = { ending::silence, ending::handshake, ending::transport, ending::http3, ending::reset, ending::refused };
  s.end = g.chance(1, 4) ? endings[g.draw(5)] : ending::complete;
  g.note(std::string("the server ") + describe(s.end));
  s.host = v6 ? "::1" : g.chance(1, 6) ? "127.1" : "127.0.0.1";
  if (number != 0) {
    s.host = "127." + std::to_string(number >> 16U) + "." + std::to_string(number >> 8U & 0xffU) + "." + std::to_string(number & 0xffU);
  }
  s.prepare();
  s.active = sim::now;

  sim::new_session = [&s](ssl_st *x) {
    s.tls = x;
    ngtcp2_transport_params params = {};
    params.max_packet_size = 65527;
    params.ack_delay_exponent = 3;
    params.max_ack_delay = 25;
    x->peer_params = sim::encode_params(params);
    x->do_handshake = [&s](ssl_st *y) { return s.script.run(y); };
  };
  sim::choose = [&s](size_t n) {
    if (s.t == nullptr) {
      s.t = sim::connections.back();
      s.plan();
    }
    CHECK(++s.dispatches < 3000, "the program is busy without an end");
    return static_cast<size_t>(s.g.draw(n - 1));
  };
  sim::idle = [&s] { return s.idle(); };
  size_t sources = sim::sources.size();

  std::string port = std::to_string(peer::endpoint(s.server.address).port());
  std::string name = "client", host = s.host;
  char *argv[] = { &name[0], &host[0], &port[0], nullptr };
  int code = -1;
  std::string text;
  struct restore {
    bnl::base::log::api *logger = bnl::base::logger;
    ~restore() { bnl::base::logger = logger; }
  } restore;
  {
    quiet silence;
    output out;
    if (g.chance(1, 4)) {
      code = embedded(g, host, peer::endpoint(s.server.address), text);
    } else {
      code = bnl_client_main(3, argv);
      text = out.text.str();
    }
  }
  CHECK(s.problem.empty(), s.problem);
  CHECK(sim::event_problem.empty(), sim::event_problem);
  CHECK(sim::sources.size() == sources && sim::connections.empty(), "something stays behind after the program");
  CHECK(!is_open(s.fd), "the socket stays open");
  if (s.done) {
    CHECK(code == 0, "the program ends with " << code << " after a complete response");
    std::string expected;
    for (const ref::header &h : s.response.headers) {
      expected += h.name + ": " + h.value + "\n";
    }
    expected += "\n" + s.response.body;
    CHECK(text == expected, "the output has " << text.size() << " bytes instead of " << expected.size() << ":\n"
                                              << pbt::hex(text, 100) << "\n" << pbt::hex(expected, 100));
  } else {
    CHECK(code != 0, "the program succeeds although the server " << describe(s.end));
    CHECK(s.failing, "the program gives up with " << code << " although nothing is wrong");
    CHECK(text.empty(), "the program prints a response that is not complete");
    CHECK(sim::now >= s.delivered + PATIENCE || s.end != ending::silence,
          "the program gives up " << (sim::now - s.delivered) / 1000 << " ms after the last packet");
  }
}

void
arguments(gen &g)
{
  signals mask;
  struct restore {
    bnl::base::log::api *logger = bnl::base::logger;
    ~restore() { bnl::base::logger = logger; }
  } restore;
  std::vector<std::string> words = { "client" };
  g.nontrivial();
  if (g.draw(1) == 0) {
    if (g.draw(1) == 0) {
      words.push_back("127.0.0.1");
    }
  } else { // a name that does not exist, or could not
    static const std::vector<std::string> bad = { "a..b", ".", "", "::1::", "1.2.3.4.5.", std::string(300, 'a') };
    std::string host = g.of(bad);
    if (host == "1.2.3.4.5." || host == "." || host.empty()) {
      host = "x..y";
    }
    words.push_back(host);
    words.push_back(std::to_string(g.draw(65535)));
  }
  std::vector<char *> argv;
  std::string shown;
  for (std::string &w : words) {
    argv.push_back(&w[0]);
    shown += " '" + w + "'";
  }
  argv.push_back(nullptr);
  g.note("arguments" + shown);
  int code = 0;
  {
    quiet silence;
    output out;
    code = bnl_client_main(static_cast<int>(words.size()), argv.data());
  }
  CHECK(code != 0, "the program succeeds");
}

} // namespace

PART("run", run, 16000, 200000);
PART("arguments", arguments, 30, 100);
