// C29: the QUIC connection relays faithfully between TLS, the transport and the
// application.
#include "quic.hpp"

#include <bnl/base/log.hpp>

#include <algorithm>
#include <deque>
#include <set>

PROPERTY("C29",
         "a QUIC connection between a simulated transport and a scripted TLS handshake: generated parameters, addresses and host "
         "names; handshakes with every cipher, 0-RTT, split and interleaved crypto data, acknowledgements, key updates, failures "
         "of either side, moves; received stream data, resets, errors and log lines of any content with generators drained in "
         "parts; timers; non-trivial: the handshake took more than one packet, failed or was moved, or an event was left in a generator");

using namespace qw;

// --- a logger that keeps what it is given ---

struct capture : base::log::api {
  mutable std::vector<std::string> lines;

protected:
  void log(base::log::level, const char *, const char *, int, const char *format, const fmt::format_args &args) const override
  {
    lines.push_back(fmt::vformat(format, args));
  }
};

struct logging {
  capture log;
  base::log::api *before = base::logger;
  explicit logging(bool on)
  {
    if (on) {
      base::logger = &log;
    }
  }
  ~logging() { base::logger = before; }
};

// --- what the application sees ---

static std::string
describe(quic::result<quic::event> r)
{
  if (!r) {
    return "error " + std::to_string(static_cast<uint64_t>(r.error()));
  }
  quic::event &e = r.value();
  if (e == quic::event::type::data) {
    return "data " + std::to_string(e.id()) + (e.data.fin ? " end " : " ") + str(e.data.buffer);
  }
  return "stream error " + std::to_string(static_cast<int>(e.error.type)) + " " + std::to_string(e.error.id) + " " +
         std::to_string(e.error.value);
}

static std::string
short_of(const std::string &s)
{
  return s.size() < 80 ? pbt::hex(s) : pbt::hex(s.substr(0, 40)) + "... of " + std::to_string(s.size());
}

struct inbox {
  std::deque<std::string> expected;

  void drain(gen &g, quic::client::generator &events, bool all)
  {
    while (true) {
      bool more = events.next();
      CHECK(more || expected.empty(), "an event is missing: " << short_of(expected.front()));
      CHECK(!more || !expected.empty(), "an event too many: " << short_of(describe(events.get())));
      if (!more) {
        return;
      }
      if (!all && g.chance(1, 4)) {
        g.note("  the rest of the events stays");
        g.nontrivial();
        return;
      }
      std::string got = describe(events.get());
      CHECK(got == expected.front(), "the event is '" << short_of(got) << "' instead of '" << short_of(expected.front()) << "'");
      expected.pop_front();
    }
  }
};

// --- generated settings ---

static ip::address
an_address(gen &g, bool v6)
{
  std::string b = g.bytes(v6 ? 16 : 4);
  return ip::address(view(b));
}

// The settings as numbers. What is not set keeps the protocol's default.
static ngtcp2_settings
configure(gen &g, world &w)
{
  auto number = [&g] { return g.integer(0, (1ULL << 62U) - 1); };
  quic::params p;
  ngtcp2_settings s;
  ngtcp2_settings_default(&s);
  if (g.chance(7, 8)) {
    p.max_stream_data_bidi_local = s.max_stream_data_bidi_local = number();
    p.max_stream_data_bidi_remote = s.max_stream_data_bidi_remote = number();
    p.max_stream_data_uni = s.max_stream_data_uni = number();
    p.max_data = s.max_data = number();
    p.max_streams_bidi = s.max_streams_bidi = number();
    p.max_streams_uni = s.max_streams_uni = number();
    s.idle_timeout = g.integer(0, 1ULL << 42U);
    p.idle_timeout = quic::milliseconds(s.idle_timeout);
  }
  if (g.chance(1, 2)) {
    p.max_packet_size = s.max_packet_size = g.integer(1200, 65527);
    s.ack_delay_exponent = g.integer(0, 20);
    p.ack_delay_exponent = s.ack_delay_exponent;
    s.disable_migration = static_cast<uint8_t>(g.draw(1));
    p.disable_migration = s.disable_migration;
    s.max_ack_delay = g.integer(0, 16383);
    p.max_ack_delay = quic::milliseconds(s.max_ack_delay);
  }
  w.params = p;
  bool v6 = g.chance(1, 3);
  ip::endpoint local(an_address(g, v6), static_cast<uint16_t>(g.draw(65535)));
  ip::endpoint peer(an_address(g, v6), static_cast<uint16_t>(g.draw(65535)));
  w.path = quic::path(local, peer);
  std::string name;
  for (size_t n = 0; g.more(n, 1, 200, 12); n++) {
    name += "abcdefghijklmnopqrstuvwxyz0123456789-."[g.draw(37)];
  }
  w.host = ip::host(name);
  w.now = g.integer(0, 1ULL << 44U);
  return s;
}

static void
check_created(const world &w, const ngtcp2_settings &p)
{
  const ngtcp2_settings &s = w.t->settings;
  CHECK(s.max_stream_data_bidi_local == p.max_stream_data_bidi_local && s.max_stream_data_bidi_remote == p.max_stream_data_bidi_remote &&
          s.max_stream_data_uni == p.max_stream_data_uni && s.max_data == p.max_data,
        "the flow control limits of the transport are not those of the parameters");
  CHECK(s.max_streams_bidi == p.max_streams_bidi && s.max_streams_uni == p.max_streams_uni,
        "the stream limits of the transport are not those of the parameters");
  CHECK(s.idle_timeout == p.idle_timeout && s.max_ack_delay == p.max_ack_delay,
        "the times of the transport are not those of the parameters");
  CHECK(s.max_packet_size == p.max_packet_size && s.ack_delay_exponent == p.ack_delay_exponent && s.disable_migration == p.disable_migration,
        "a setting of the transport is not that of the parameters");
  CHECK(s.initial_ts == w.now * 1000, "the transport starts at " << s.initial_ts << " instead of " << w.now * 1000);
  CHECK(w.t->local == str(w.path.local().address().bytes()), "the transport has another local address");
  CHECK(w.t->remote == str(w.path.peer().address().bytes()),
        "the transport's peer is " << pbt::hex(w.t->remote) << " instead of " << pbt::hex(str(w.path.peer().address().bytes())));
  CHECK(w.t->version == 0xff000016U, "another version of QUIC");
  CHECK(w.t->dcid.datalen >= 8 && w.t->dcid.datalen <= 20, "a connection id of " << w.t->dcid.datalen << " bytes");
  CHECK(w.tls->alpn == "\x05h3-22", "the offered protocol is " << pbt::hex(w.tls->alpn));
  CHECK(w.tls->client && w.tls->min == 0x0304 && w.tls->max == 0x0304, "TLS is not a TLS 1.3 client");
  std::string name(w.host.name().data(), w.host.name().size());
  CHECK(w.tls->host_set && w.tls->host == name, "TLS is given the host '" << w.tls->host << "' instead of '" << name << "'");
  ngtcp2_transport_params local;
  ngtcp2_conn_get_local_transport_params(w.t, &local);
  CHECK(w.tls->local_params == sim::encode_params(local), "TLS is given other transport parameters than the transport's");
}

static void
check_keys(const world &w, const std::string &name, const keys &expected, bool update = false)
{
  auto it = w.t->installed.find(name);
  CHECK(it != w.t->installed.end(), "no " << name << " keys");
  const sim::keys &k = it->second;
  CHECK(k.key == expected.key && k.iv == expected.iv && (update || k.hp == expected.hp), "the " << name << " keys are not those of the secret");
}

// --- handshakes ---

static ngtcp2_crypto_level
level_of(ssl_encryption_level_t l)
{
  switch (l) {
    case ssl_encryption_initial:
      return NGTCP2_CRYPTO_LEVEL_INITIAL;
    case ssl_encryption_early_data:
      return NGTCP2_CRYPTO_LEVEL_EARLY;
    case ssl_encryption_handshake:
      return NGTCP2_CRYPTO_LEVEL_HANDSHAKE;
    case ssl_encryption_application:
      break;
  }
  return NGTCP2_CRYPTO_LEVEL_APP;
}

struct exchange {
  gen &g;
  world w;
  uint32_t cipher = 0;
  uint32_t early_cipher = 0;
  std::map<ssl_encryption_level_t, std::string> provided; // given to TLS
  inbox in;
  bool failed = false;
  unsigned updates = 0;
  std::string tx, rx; // the current secrets

  explicit exchange(gen &g_)
    : g(g_)
  {}

  size_t secret_size() const { return suite_of(cipher).sha384 ? 48 : 32; }

  // What must hold at any time.
  void compare()
  {
    w.healthy();
    w.t->retransmit();
    w.healthy();
    std::map<ssl_encryption_level_t, std::string> out, got;
    std::map<std::string, keys> installed;
    std::string client_in = expand_label(false, initial(), "client in", 32), server_in = expand_label(false, initial(), "server in", 32);
    check_keys(w, "initial tx", derive(16, false, client_in));
    check_keys(w, "initial rx", derive(16, false, server_in));
    bool cut = failed; // the last flight may have come through in part
    for (size_t i = 0; i < w.script.next; i++) {
      const flight &f = w.script.flights[i];
      for (const auto &o : f.output) {
        out[o.first] += o.second;
      }
      suite s = suite_of(f.cipher);
      for (const auto &x : f.secrets) {
        if (cut) {
          continue;
        }
        switch (x.level) {
          case ssl_encryption_early_data:
            check_keys(w, "early tx", derive(s.key, s.sha384, x.write));
            break;
          case ssl_encryption_handshake:
            check_keys(w, "handshake tx", derive(s.key, s.sha384, x.write));
            check_keys(w, "handshake rx", derive(s.key, s.sha384, x.read));
            break;
          default:
            check_keys(w, "tx", derive(s.key, s.sha384, x.write));
            check_keys(w, "rx", derive(s.key, s.sha384, x.read));
            break;
        }
        CHECK(w.t->aead_overhead == 16, "the overhead of the packets is " << w.t->aead_overhead);
      }
    }
    if (!cut) {
      size_t n = 2;
      for (size_t i = 0; i < w.script.next; i++) {
        for (const auto &x : w.script.flights[i].secrets) {
          n += x.level == ssl_encryption_early_data ? 1 : 2;
        }
      }
      n += updates > 0 ? 2 : 0;
      CHECK(w.t->installed.size() == n, "keys without a secret were installed");
      for (const auto &k : w.t->installed) {
        unsigned times = k.first.compare(0, 6, "update") == 0 ? updates : 1;
        CHECK(k.second.installed == times, "the " << k.first << " keys were installed " << k.second.installed << " times");
      }
      static const ssl_encryption_level_t levels[] = { ssl_encryption_initial, ssl_encryption_early_data, ssl_encryption_handshake,
                                                       ssl_encryption_application };
      for (ssl_encryption_level_t l : levels) {
        CHECK(w.t->crypto[level_of(l)] == out[l], "the transport has other crypto data of level " << l << " than TLS gave: "
                                                                                              << short_of(w.t->crypto[level_of(l)])
                                                                                              << " instead of " << short_of(out[l]));
      }
    }
    for (const auto &p : w.tls->provided) {
      got[p.first] += p.second;
    }
    CHECK(got == provided || cut, "TLS was given other bytes than the transport received");
    if (!cut) {
      bool complete = w.script.next == w.script.flights.size() && received_last;
      CHECK(w.t->completed == complete, (complete ? "the handshake is not complete" : "the handshake is complete too early"));
      CHECK(w.t->remote_params.size() == (complete ? 1U : 0U), "the peer's parameters were set " << w.t->remote_params.size() << " times");
      if (complete) {
        CHECK(sim::encode_params(w.t->remote_params[0]) == w.tls->peer_params, "the peer's parameters are not those TLS received");
      }
    }
  }

  std::string initial() const
  {
    static const std::string salt("\x7f\xbc\xdb\x0e\x7c\x66\xbb\xe9\x21\x93\xa9\x6c\xd2\x15\x19\xeb\xd7\xa0\x26\x44", 20);
    return extract(false, salt, std::string(reinterpret_cast<const char *>(w.t->dcid.data), w.t->dcid.datalen));
  }

  bool received_last = false;

  void ack()
  {
    std::vector<int> levels;
    for (int l = 0; l < 4; l++) {
      if (!w.t->crypto_unacked[l].empty()) {
        levels.push_back(l);
      }
    }
    if (levels.empty()) {
      return;
    }
    int l = g.of(levels);
    size_t left = 0;
    for (const auto &k : w.t->crypto_unacked[l]) {
      left += k.bytes.size();
    }
    size_t n = static_cast<size_t>(g.chance(1, 2) ? left : g.integer(1, left));
    g.note("acknowledge " + std::to_string(n) + " of " + std::to_string(left) + " bytes of crypto data, level " + std::to_string(l));
    auto e = w.packet({ [l, n](ngtcp2_conn *t) { return t->ack_crypto(static_cast<ngtcp2_crypto_level>(l), n); } });
    in.drain(g, e, false);
    compare();
  }

  void update()
  {
    g.note("the keys are updated");
    auto e = w.packet({ [](ngtcp2_conn *t) { return t->cb.update_key(t, t->user); } });
    updates++;
    suite s = suite_of(cipher);
    tx = expand_label(s.sha384, tx, "traffic upd", tx.size());
    rx = expand_label(s.sha384, rx, "traffic upd", rx.size());
    check_keys(w, "update tx", derive(s.key, s.sha384, tx), true);
    check_keys(w, "update rx", derive(s.key, s.sha384, rx), true);
    in.drain(g, e, false);
    compare();
  }

  // The packet protection the transport uses.
  void protection(bool negotiated)
  {
    ngtcp2_conn *t = w.t;
    bool init = g.draw(1) == 1;
    uint32_t id = init ? 0x03001301U : cipher;
    suite s = suite_of(id);
    std::string key = g.bytes(s.key), hp = g.bytes(s.key), nonce = g.bytes(12), ad = g.bytes(g.size(40)), plain = g.bytes(g.size(1200));
    g.note(std::string("protect ") + (init ? "an initial packet" : "a packet") + " of " + std::to_string(plain.size()) + " bytes");
    auto u = [](const std::string &x) { return reinterpret_cast<const uint8_t *>(x.data()); };
    std::vector<uint8_t> out(plain.size() + 16), m(16);
    auto enc = init ? t->cb.in_encrypt : t->cb.encrypt;
    auto dec = init ? t->cb.in_decrypt : t->cb.decrypt;
    auto hpm = init ? t->cb.in_hp_mask : t->cb.hp_mask;
    ssize_t n = enc(t, out.data(), out.size(), u(plain), plain.size(), u(key), key.size(), u(nonce), nonce.size(), u(ad), ad.size(), t->user);
    if (!init && !negotiated) {
      CHECK(n == NGTCP2_ERR_CALLBACK_FAILURE, "a packet is protected before a cipher was negotiated");
      return;
    }
    std::string sealed = seal(s.aead, key, nonce, plain, ad);
    CHECK(n == static_cast<ssize_t>(sealed.size()) && std::equal(out.begin(), out.end(), sealed.begin(), [](uint8_t a, char b) { return a == static_cast<uint8_t>(b); }),
          "the packet is not protected with the negotiated cipher");
    std::vector<uint8_t> back(sealed.size());
    n = dec(t, back.data(), back.size(), u(sealed), sealed.size(), u(key), key.size(), u(nonce), nonce.size(), u(ad), ad.size(), t->user);
    CHECK(n == static_cast<ssize_t>(plain.size()) && std::string(back.begin(), back.begin() + n) == plain, "a packet is not opened");
    size_t at = static_cast<size_t>(g.integer(0, sealed.size() - 1));
    sealed[at] = static_cast<char>(sealed[at] ^ 1);
    n = dec(t, back.data(), back.size(), u(sealed), sealed.size(), u(key), key.size(), u(nonce), nonce.size(), u(ad), ad.size(), t->user);
    CHECK(n < 0, "a changed packet is opened");
    std::string sample = g.bytes(16);
    n = hpm(t, m.data(), m.size(), u(hp), hp.size(), u(sample), sample.size(), t->user);
    CHECK(n == 5 && std::string(m.begin(), m.begin() + 5) == mask(s.aead, hp, sample), "the mask is not that of the negotiated cipher");
  }

  void send()
  {
    auto r = w.c->send();
    if (failed) {
      return;
    }
    CHECK(r || r.error() == quic::error::idle, "sending fails in a handshake");
    compare();
  }
};

static void
handshakes(gen &g)
{
  exchange x(g);
  world &w = x.w;
  ngtcp2_settings settings = configure(g, w);
  logging log(g.chance(1, 3));
  static const uint32_t ids[] = { 0x03001301U, 0x03001302U, 0x03001303U };
  x.cipher = ids[g.draw(2)];
  size_t size = x.secret_size();
  bool zero_rtt = g.chance(1, 4);
  auto bytes = [&g](size_t max) { return g.bytes(1 + g.size(max - 1)); };

  // The script.
  w.script.flights.resize(3);
  flight &hello = w.script.flights[0], &keys_flight = w.script.flights[1], &finish = w.script.flights[2];
  for (size_t n = 0; g.more(n, 1, 4, 1.5); n++) {
    hello.output.push_back({ ssl_encryption_initial, bytes(600) });
  }
  if (zero_rtt) {
    // 0-RTT keys belong to the cipher of the session that is resumed.
    hello.cipher = x.cipher;
    hello.secrets = { { ssl_encryption_early_data, "", g.bytes(size) } };
  }
  std::string server_hello = bytes(300), server_rest = bytes(3000);
  keys_flight.needs = server_hello.size();
  keys_flight.cipher = x.cipher;
  keys_flight.secrets = { { ssl_encryption_handshake, g.bytes(size), g.bytes(size) } };
  finish.needs_level = ssl_encryption_handshake;
  finish.needs = server_rest.size();
  finish.cipher = x.cipher;
  finish.secrets = { { ssl_encryption_application, g.bytes(size), g.bytes(size) } };
  for (size_t n = 0; g.more(n, 1, 4, 1.2); n++) {
    finish.output.push_back({ ssl_encryption_handshake, bytes(100) });
  }
  for (flight *f : { &keys_flight, &finish }) {
    if (g.chance(1, 6)) {
      f->want = SSL_ERROR_WANT_WRITE;
    }
  }
  x.rx = finish.secrets[0].read;
  x.tx = finish.secrets[0].write;

  w.create();
  check_created(w, settings);
  ngtcp2_transport_params peer = {};
  peer.max_packet_size = g.integer(1200, 65527);
  peer.ack_delay_exponent = g.integer(0, 20);
  peer.max_ack_delay = g.integer(0, 16383);
  peer.max_data = g.integer(0, (1ULL << 62U) - 1);
  peer.max_stream_data_bidi_local = g.integer(0, (1ULL << 62U) - 1);
  peer.max_stream_data_uni = g.integer(0, (1ULL << 62U) - 1);
  peer.max_streams_bidi = g.integer(0, (1ULL << 60U) - 1);
  w.tls->peer_params = sim::encode_params(peer);

  // What goes wrong, if anything.
  enum { nothing, tls, unsupported, key_install, parameters, provide, submit, refuse } fault = nothing;
  if (g.chance(1, 3)) {
    switch (g.draw(6)) {
      case 0:
        fault = tls;
        w.script.flights[1 + g.draw(1)].failure = true;
        g.note("TLS fails");
        break;
      case 1:
        fault = unsupported;
        keys_flight.cipher = 0x03001304U;
        g.note("TLS chooses an unsupported cipher");
        break;
      case 2:
        fault = key_install;
        w.t->key_failures = static_cast<unsigned>(1 + (zero_rtt ? 1 : 0) + g.draw(3));
        g.note("the transport refuses a key");
        break;
      case 3:
        fault = parameters;
        w.tls->peer_params = g.bytes(g.size(20));
        if (w.tls->peer_params == std::string(2, '\0')) {
          throw pbt::discard();
        }
        g.note("the peer's parameters are malformed");
        break;
      case 4:
        fault = submit;
        w.t->crypto_failures = static_cast<unsigned>(g.range(1, hello.output.size() + finish.output.size()));
        g.note("the transport does not take crypto data");
        break;
      case 5:
        fault = refuse;
        w.t->refuse_params = true;
        g.note("the transport refuses the peer's parameters");
        break;
      default:
        fault = provide;
        g.note("TLS refuses data");
        break;
    }
    g.nontrivial();
  }

  // Data that is added early must wait for the handshake.
  bool queued = g.chance(1, 3);
  if (queued) {
    quic::data d;
    d.id = 0;
    d.fin = true;
    d.buffer = buf("early");
    CHECK(w.c->add(quic::event(std::move(d))), "data is refused during the handshake");
  }
  w.t->write_stream = [&w](int64_t, size_t, bool) {
    CHECK(w.t->completed, "stream data is sent during the handshake");
    return sim::plan();
  };

  if (fault == submit && w.t->crypto_failures <= hello.output.size()) {
    auto r = w.c->send();
    CHECK(!r && r.error() == quic::error::handshake, "the handshake starts although its first bytes are refused");
    w.healthy();
    return;
  }
  x.send(); // the client's first packet: the hello
  CHECK(w.script.next >= 1, "the handshake does not start when a packet is sent");

  struct piece {
    ssl_encryption_level_t level;
    std::string bytes;
  };
  std::vector<piece> pieces;
  auto cut = [&](ssl_encryption_level_t l, const std::string &s) {
    size_t at = 0;
    while (at < s.size()) {
      size_t n = g.chance(1, 2) ? s.size() - at : static_cast<size_t>(g.integer(1, s.size() - at));
      pieces.push_back({ l, s.substr(at, n) });
      at += n;
    }
  };
  cut(ssl_encryption_initial, server_hello);
  cut(ssl_encryption_handshake, server_rest);
  if (pieces.size() > 2) {
    g.nontrivial();
  }
  size_t next = 0;
  size_t refused_at = fault == provide ? g.draw(pieces.size() - 1) : SIZE_MAX;
  w.tls->provide = [&](ssl_st *s) { return s->provided.size() == refused_at + 1 ? 0 : 1; };

  auto between = [&] {
    while (g.chance(1, 4)) {
      switch (g.draw(3)) {
        case 0:
          g.note("send");
          x.send();
          break;
        case 1:
          x.ack();
          break;
        case 2:
          w.move(g);
          g.nontrivial();
          x.compare();
          break;
        default:
          x.protection(w.tls->cipher != nullptr);
          break;
      }
    }
  };
  while (next < pieces.size() && !x.failed) {
    between();
    std::vector<sim::action> frames;
    for (size_t n = 0; next < pieces.size() && g.more(n, 1, 10, 2); n++) {
      piece p = pieces[next++];
      g.note("crypto data, level " + std::to_string(p.level) + ", " + std::to_string(p.bytes.size()) + " bytes");
      bool last = next == pieces.size();
      frames.push_back([p, &x, last](ngtcp2_conn *t) {
        x.provided[p.level] += p.bytes;
        if (last) {
          x.received_last = true;
        }
        std::vector<uint8_t> copy(p.bytes.begin(), p.bytes.end());
        return t->cb.recv_crypto_data(t, level_of(p.level), 0, copy.data(), copy.size(), t->user);
      });
    }
    auto events = w.packet(frames, g.bytes(g.size(30)));
    if (w.t->read_result != 0) {
      CHECK(fault != nothing, "the handshake fails");
      x.failed = true;
      x.in.expected.push_back("error " + std::to_string(static_cast<uint64_t>(quic::error::ngtcp2)));
      if (fault == tls || fault == provide || fault == unsupported || fault == key_install || fault == submit) {
        CHECK(w.t->read_result == NGTCP2_ERR_CRYPTO, "a failure of TLS is reported as " << w.t->read_result);
      } else {
        CHECK(w.t->read_result == NGTCP2_ERR_CALLBACK_FAILURE, "a failure is reported as " << w.t->read_result);
      }
    }
    x.in.drain(g, events, false);
    x.compare();
  }
  if (fault != nothing) {
    CHECK(x.failed, "the handshake succeeds in spite of the failure");
    return;
  }
  CHECK(w.t->completed, "the handshake does not complete");
  // Afterwards: key updates, session tickets, data.
  for (size_t n = 0; g.more(n, 0, 8, 2); n++) {
    switch (g.pick({ 4, 4, 4, 1, 2 })) {
      case 0:
        x.update();
        break;
      case 3: { // ends the connection
        g.note("the keys are updated and the transport refuses one");
        w.t->key_failures = static_cast<unsigned>(g.range(1, 2));
        auto e = w.packet({ [](ngtcp2_conn *t) { return t->cb.update_key(t, t->user); } });
        CHECK(w.t->read_result == NGTCP2_ERR_CALLBACK_FAILURE, "an update of the keys that failed is reported as " << w.t->read_result);
        x.in.expected.push_back("error " + std::to_string(static_cast<uint64_t>(quic::error::ngtcp2)));
        x.in.drain(g, e, true);
        w.healthy();
        return;
      }
      case 4: {
        g.note("the transport fails to write a packet");
        w.t->write_pkt = [] {
          sim::plan p;
          p.what = sim::plan::failure;
          return p;
        };
        auto r = w.c->send();
        CHECK(!r && r.error() == quic::error::ngtcp2, "a failure of the transport is not reported");
        w.t->write_pkt = nullptr;
        x.compare();
        break;
      }
      case 1: {
        std::string ticket = bytes(200);
        unsigned before = w.tls->post_handshakes;
        bool refuse = g.chance(1, 6);
        w.tls->post_handshake = [refuse](ssl_st *) { return refuse ? 0 : 1; };
        g.note(std::string("a session ticket") + (refuse ? " that TLS refuses" : ""));
        x.provided[ssl_encryption_application] += ticket;
        auto e = w.packet({ [ticket](ngtcp2_conn *t) {
          return t->cb.recv_crypto_data(t, NGTCP2_CRYPTO_LEVEL_APP, 0, reinterpret_cast<const uint8_t *>(ticket.data()),
                                        ticket.size(), t->user);
        } });
        CHECK(w.tls->post_handshakes == before + 1, "TLS does not process data after the handshake");
        if (refuse) {
          CHECK(w.t->read_result == NGTCP2_ERR_CRYPTO, "a failure of TLS is reported as " << w.t->read_result);
          x.in.expected.push_back("error " + std::to_string(static_cast<uint64_t>(quic::error::ngtcp2)));
        }
        x.in.drain(g, e, false);
        x.compare();
        break;
      }
      default:
        between();
        break;
    }
  }
  for (int i = 0; i < 20; i++) {
    auto r = w.c->send();
    w.healthy();
    if (!r) {
      CHECK(r.error() == quic::error::idle, "sending fails after the handshake");
      break;
    }
  }
  if (queued) {
    CHECK(w.t->streams.count(0) == 1 && w.t->streams[0].data == "early" && w.t->streams[0].fin, "data that was added early is not sent");
  }
  auto e = w.packet({});
  x.in.drain(g, e, true);
}

// --- what is received ---

static std::string
any_text(gen &g)
{
  std::string s;
  for (size_t n = 0; g.more(n, 0, 60, 8); n++) {
    s += "{}%sd0:aé \n"[g.draw(10)];
  }
  return s;
}

static void
received(gen &g)
{
  world w;
  configure(g, w);
  static const uint32_t ids[] = { 0x03001301U, 0x03001302U, 0x03001303U };
  logging log(g.chance(1, 3));
  establish(w, ids[g.draw(2)]);
  inbox in;
  std::set<std::string> random;
  uint64_t total = 0;
  std::map<int64_t, uint64_t> totals; // of streams that go on
  std::set<int64_t> ended;
  for (size_t n = 0; g.more(n, 1, 40, 8); n++) {
    if (g.chance(1, 8)) {
      w.move(g);
    }
    std::vector<sim::action> frames;
    bool stop = false;
    g.note("a packet");
    for (size_t k = 0; !stop && g.more(k, 0, 8, 2); k++) {
      uint64_t id = g.integer(0, (1ULL << 62U) - 1);
      switch (g.pick({ 8, 3, 3, 1, 1, 1, 1, 1, 1, 1 })) {
        case 0: {
          bool fin = g.chance(1, 4);
          std::string b = g.bytes(g.size(1200));
          in.expected.push_back("data " + std::to_string(id) + (fin ? " end " : " ") + b);
          g.note("  " + std::to_string(b.size()) + " bytes of stream " + std::to_string(id) + (fin ? " and its end" : ""));
          total += b.size();
          totals[static_cast<int64_t>(id)] += b.size();
          if (fin) {
            ended.insert(static_cast<int64_t>(id));
          }
          int flag = fin ? (g.chance(1, 4) ? 4 : 1) : 0;
          frames.push_back([=](ngtcp2_conn *t) {
            std::vector<uint8_t> copy(b.begin(), b.end());
            return t->cb.recv_stream_data(t, static_cast<int64_t>(id), flag, 7, copy.data(), copy.size(), t->user, nullptr);
          });
          break;
        }
        case 1: {
          uint64_t code = g.integer(0, (1ULL << 62U) - 1), size = g.integer(0, (1ULL << 62U) - 1);
          in.expected.push_back("stream error 0 " + std::to_string(id) + " " + std::to_string(code));
          ended.insert(static_cast<int64_t>(id));
          g.note("  a reset of stream " + std::to_string(id) + ", error " + std::to_string(code));
          frames.push_back([=](ngtcp2_conn *t) { return t->cb.stream_reset(t, static_cast<int64_t>(id), size, code, t->user, nullptr); });
          break;
        }
        case 2: { // nothing for the application
          size_t which = g.draw(8);
          uint64_t v = g.integer(0, (1ULL << 62U) - 1);
          g.note("  notification " + std::to_string(which));
          frames.push_back([=](ngtcp2_conn *t) {
            int64_t i = static_cast<int64_t>(id);
            switch (which) {
              case 0:
                return t->cb.stream_open(t, i, t->user);
              case 1:
                return t->cb.stream_close(t, i, v, t->user, nullptr);
              case 2:
                return t->cb.extend_max_local_streams_bidi(t, v, t->user);
              case 3:
                return t->cb.extend_max_local_streams_uni(t, v, t->user);
              case 4:
                return t->cb.extend_max_remote_streams_bidi(t, v, t->user);
              case 5:
                return t->cb.extend_max_remote_streams_uni(t, v, t->user);
              case 6:
                return t->cb.extend_max_stream_data(t, i, v, t->user, nullptr);
              case 7:
                return t->cb.handshake_completed(t, t->user);
              default:
                return t->cb.remove_connection_id(t, &t->scid, t->user);
            }
          });
          break;
        }
        case 3: { // the transport's log
          std::string s = any_text(g);
          g.note("  the transport logs '" + s + "'");
          frames.push_back([=, &log](ngtcp2_conn *t) {
            size_t before = log.log.lines.size();
            t->settings.log_printf(t->user, "%s|%d", s.c_str(), 42);
            if (base::logger == &log.log) {
              CHECK(log.log.lines.size() == before + 1 && log.log.lines.back() == s + "|42",
                    "the transport's message '" << s << "|42' is logged as '"
                                                << (log.log.lines.size() > before ? log.log.lines.back() : "nothing") << "'");
            }
            return 0;
          });
          break;
        }
        case 4: { // random bytes
          size_t size = static_cast<size_t>(g.range(16, 40));
          g.note("  the transport wants " + std::to_string(size) + " random bytes");
          frames.push_back([&random, size](ngtcp2_conn *t) {
            std::vector<uint8_t> b(size, 0);
            int rv = t->cb.rand(t, b.data(), size, NGTCP2_RAND_CTX_PATH_CHALLENGE, t->user);
            // 16 random bytes are not all equal to anything seen, and their
            // last 8 are not zero.
            CHECK(random.insert(std::string(b.begin(), b.end())).second, "the same random bytes twice");
            CHECK(std::any_of(b.end() - 8, b.end(), [](uint8_t c) { return c != 0; }), "random bytes were not filled in");
            return rv;
          });
          break;
        }
        case 5: { // a connection id
          size_t size = static_cast<size_t>(g.range(8, 20));
          g.note("  the transport wants a connection id of " + std::to_string(size) + " bytes");
          frames.push_back([&random, size](ngtcp2_conn *t) {
            ngtcp2_cid cid;
            memset(&cid, 0, sizeof cid);
            cid.datalen = 77;
            uint8_t token[16] = {};
            int rv = t->cb.get_new_connection_id(t, &cid, token, size, t->user);
            CHECK(cid.datalen == size, "the connection id has " << cid.datalen << " bytes instead of " << size);
            CHECK(std::any_of(cid.data + size - 8, cid.data + size, [](uint8_t c) { return c != 0; }), "the connection id is not filled in");
            CHECK(std::any_of(token + 8, token + 16, [](uint8_t c) { return c != 0; }), "the reset token is not filled in");
            CHECK(random.insert(std::string(cid.data, cid.data + size)).second && random.insert(std::string(token, token + 16)).second,
                  "a connection id or reset token was given twice");
            return rv;
          });
          break;
        }
        case 6: { // path validation
          bool ok = g.chance(2, 3);
          g.note(std::string("  the path is ") + (ok ? "valid" : "not valid"));
          frames.push_back([ok](ngtcp2_conn *t) {
            uint8_t a[4] = { 1, 2, 3, 4 }, b[4] = { 5, 6, 7, 8 };
            ngtcp2_path p = { { 4, a, nullptr }, { 4, b, nullptr } };
            return t->cb.path_validation(
              t, &p, ok ? NGTCP2_PATH_VALIDATION_RESULT_SUCCESS : NGTCP2_PATH_VALIDATION_RESULT_FAILURE, t->user);
          });
          if (!ok) {
            in.expected.push_back("error " + std::to_string(static_cast<uint64_t>(quic::error::ngtcp2)));
            stop = true;
          }
          break;
        }
        case 7: { // the preferred address
          std::string v4 = g.bytes(4), v6 = g.bytes(16);
          bool six = w.path.local().address() == ip::address::type::ipv6;
          g.note("  the server prefers another address");
          frames.push_back([=](ngtcp2_conn *t) {
            ngtcp2_preferred_addr p = {};
            std::copy(v4.begin(), v4.end(), p.ipv4_addr);
            std::copy(v6.begin(), v6.end(), p.ipv6_addr);
            uint8_t dest[128] = {};
            ngtcp2_addr a = { sizeof dest, dest, nullptr };
            int rv = t->cb.select_preferred_addr(t, &a, &p, t->user);
            std::string expected = six ? v6 : v4;
            CHECK(rv == 0 && std::string(dest, dest + expected.size()) == expected, "another address is preferred");
            return rv;
          });
          break;
        }
        case 8: { // what the connection does not handle ends it
          bool retry = g.draw(1) == 1;
          std::string bytes = g.bytes(30);
          g.note(retry ? "  a retry" : "  a stateless reset");
          frames.push_back([=](ngtcp2_conn *t) {
            ngtcp2_pkt_hd head = {};
            head.dcid = t->dcid;
            ngtcp2_pkt_retry r = {};
            r.odcid = t->dcid;
            ngtcp2_pkt_stateless_reset s = {};
            s.rand = reinterpret_cast<const uint8_t *>(bytes.data());
            s.randlen = bytes.size();
            return retry ? t->cb.recv_retry(t, &head, &r, t->user) : t->cb.recv_stateless_reset(t, &s, t->user);
          });
          in.expected.push_back("error " + std::to_string(static_cast<uint64_t>(quic::error::ngtcp2)));
          stop = true;
          break;
        }
        default: { // the transport gives up
          g.note("  a broken frame");
          frames.push_back([](ngtcp2_conn *) { return NGTCP2_ERR_PROTO; });
          in.expected.push_back("error " + std::to_string(static_cast<uint64_t>(quic::error::ngtcp2)));
          stop = true;
          break;
        }
      }
    }
    auto events = w.packet(frames, g.bytes(g.size(40)));
    in.drain(g, events, false);
  }
  auto e = w.packet({});
  in.drain(g, e, true);
  // The server may send as much more as was received.
  auto sent = w.c->send();
  CHECK(sent || sent.error() == quic::error::idle, "sending fails");
  CHECK(w.t->credit == total, "the server may send " << w.t->credit << " bytes more after it sent " << total);
  for (const auto &x : totals) {
    auto credit = w.t->stream_credit.find(x.first);
    uint64_t more = credit == w.t->stream_credit.end() ? 0 : credit->second;
    CHECK(ended.count(x.first) == 1 ? more <= x.second : more == x.second,
          "the server may send " << more << " bytes more of stream " << x.first << " after it sent " << x.second);
  }
}

// --- timers and clocks ---

static void
timers(gen &g)
{
  world w;
  configure(g, w);
  establish(w);
  ngtcp2_conn *t = w.t;
  for (size_t n = 0; g.more(n, 1, 20, 5); n++) {
    w.now += g.integer(0, 1ULL << 30U);
    if (g.chance(1, 8)) {
      w.move(g);
    }
    uint64_t ns = w.now * 1000;
    auto around = [&]() -> uint64_t {
      switch (g.pick({ 2, 3, 3, 1 })) {
        case 0:
          return ns;
        case 1:
          return ns - g.integer(0, ns < 2000 ? ns : 2000);
        case 2:
          return ns + g.integer(1, 2000);
        default:
          return UINT64_MAX;
      }
    };
    t->loss_expiry = around();
    t->ack_expiry = around();
    t->expiry = std::min(t->loss_expiry, t->ack_expiry);
    t->idle_timeout = g.integer(0, 1ULL << 60U);
    CHECK(w.c->expiry().count() == t->expiry / 1000, "the expiry is " << w.c->expiry().count() << " instead of " << t->expiry / 1000);
    CHECK(w.c->timeout().count() == t->idle_timeout / 1000,
          "the timeout is " << w.c->timeout().count() << " instead of " << t->idle_timeout / 1000);
    t->loss_result = g.chance(1, 6) ? NGTCP2_ERR_NOMEM : 0;
    t->timers.clear();
    bool loss = t->loss_expiry <= ns, ack = t->ack_expiry <= ns;
    g.note(std::string("expire: ") + (loss ? "loss " : "") + (ack ? "ack " : "") + (t->loss_result != 0 ? "failing" : ""));
    if (loss != ack) {
      g.nontrivial();
    }
    auto r = w.c->expire();
    bool fails = loss && t->loss_result != 0;
    CHECK(fails ? !r && r.error() == quic::error::ngtcp2 : static_cast<bool>(r), "expire() " << (fails ? "succeeds" : "fails"));
    std::vector<std::pair<std::string, uint64_t>> expected;
    if (loss) {
      expected.push_back({ "loss", ns });
    }
    if (ack && !fails) {
      expected.push_back({ "ack", ns });
    }
    std::vector<std::pair<std::string, uint64_t>> got = t->timers;
    std::sort(got.begin(), got.end(), std::greater<std::pair<std::string, uint64_t>>());
    if (fails) { // the other timer is free to be handled or not
      got.erase(std::remove(got.begin(), got.end(), std::make_pair(std::string("ack"), ns)), got.end());
    }
    CHECK(got == expected, "expire() handles " << got.size() << " timers instead of " << expected.size() << ", or at another time");
    // Every call gets the time of the clock.
    t->stamps.clear();
    auto s = w.c->send();
    quic::data d;
    auto e = w.packet({});
    for (uint64_t stamp : t->stamps) {
      CHECK(stamp == ns, "the transport is told the time " << stamp << " instead of " << ns);
    }
    CHECK(t->stamps.size() >= 2, "the transport was not called");
  }
}

PART("handshakes", handshakes, 18000, 90000);
PART("received packets", received, 12000, 80000);
PART("timers", timers, 9000, 60000);
