// A QUIC connection between a simulated transport (ngtcp2), a scripted TLS
// handshake and a generated application; reference key schedule.
#pragma once

#include "util.hpp"

#include <bnl/quic/client/connection.hpp>
#include <bnl/quic/crypto.hpp>

#include <sim.hpp>
#include <tls.hpp>

#include <openssl/evp.h>
#include <openssl/hmac.h>

#include <memory>

namespace qw {

namespace quic = bnl::quic;
namespace base = bnl::base;
namespace ip = bnl::ip;

inline std::string
str(base::buffer_view v)
{
  return std::string(reinterpret_cast<const char *>(v.data()), v.size());
}

inline base::buffer_view
view(const std::string &s)
{
  return base::buffer_view(reinterpret_cast<const uint8_t *>(s.data()), s.size());
}

inline base::buffer
buf(const std::string &s)
{
  return base::buffer(reinterpret_cast<const uint8_t *>(s.data()), s.size());
}

// --- the key schedule (RFC 5869, RFC 8446 7.1, draft-ietf-quic-tls-22) ---

inline std::string
hmac(bool sha384, const std::string &key, const std::string &data)
{
  // Through the definition, not through OpenSSL's HMAC.
  const EVP_MD *md = sha384 ? EVP_sha384() : EVP_sha256();
  size_t block = sha384 ? 128 : 64;
  auto digest = [md](const std::string &s) {
    uint8_t out[EVP_MAX_MD_SIZE];
    unsigned n = 0;
    EVP_Digest(s.data(), s.size(), out, &n, md, nullptr);
    return std::string(reinterpret_cast<char *>(out), n);
  };
  std::string k = key.size() > block ? digest(key) : key;
  k.resize(block, '\0');
  std::string inner, outer;
  for (char c : k) {
    inner += static_cast<char>(c ^ 0x36);
    outer += static_cast<char>(c ^ 0x5c);
  }
  return digest(outer + digest(inner + data));
}

inline std::string
extract(bool sha384, const std::string &salt, const std::string &secret)
{
  return hmac(sha384, salt, secret);
}

inline std::string
expand(bool sha384, const std::string &prk, const std::string &info, size_t size)
{
  std::string out, t;
  for (unsigned i = 1; out.size() < size; i++) {
    t = hmac(sha384, prk, t + info + static_cast<char>(i));
    out += t;
  }
  return out.substr(0, size);
}

inline std::string
expand_label(bool sha384, const std::string &secret, const std::string &label, size_t size)
{
  std::string info;
  info += static_cast<char>(size >> 8U);
  info += static_cast<char>(size);
  std::string full = "tls13 " + label;
  info += static_cast<char>(full.size());
  info += full;
  info += '\0';
  return expand(sha384, secret, info, size);
}

struct suite {
  quic::crypto::aead aead;
  quic::crypto::hash hash;
  size_t key;
  bool sha384;
};

inline suite
suite_of(uint32_t id)
{
  switch (id) {
    case 0x03001301U:
      return { quic::crypto::aead::aes_128_gcm, quic::crypto::hash::sha256, 16, false };
    case 0x03001302U:
      return { quic::crypto::aead::aes_256_gcm, quic::crypto::hash::sha384, 32, true };
    default:
      return { quic::crypto::aead::chacha20_poly1305, quic::crypto::hash::sha256, 32, false };
  }
}

struct keys {
  std::string key, iv, hp;
};

inline keys
derive(size_t key, bool sha384, const std::string &secret)
{
  return { expand_label(sha384, secret, "quic key", key), expand_label(sha384, secret, "quic iv", 12),
           expand_label(sha384, secret, "quic hp", key) };
}

inline const EVP_CIPHER *
aead_cipher(quic::crypto::aead a)
{
  switch (a) {
    case quic::crypto::aead::aes_128_gcm:
      return EVP_aes_128_gcm();
    case quic::crypto::aead::aes_256_gcm:
      return EVP_aes_256_gcm();
    case quic::crypto::aead::chacha20_poly1305:
      return EVP_chacha20_poly1305();
  }
  return nullptr;
}

inline std::string
seal(quic::crypto::aead a, const std::string &key, const std::string &nonce, const std::string &plain,
     const std::string &ad)
{
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
  int n = 0;
  std::string out(plain.size() + 16, '\0');
  auto u = [](const std::string &s) { return reinterpret_cast<const uint8_t *>(s.data()); };
  uint8_t *o = reinterpret_cast<uint8_t *>(&out[0]);
  EVP_EncryptInit_ex(c, aead_cipher(a), nullptr, u(key), u(nonce));
  EVP_EncryptUpdate(c, nullptr, &n, u(ad), static_cast<int>(ad.size()));
  EVP_EncryptUpdate(c, o, &n, u(plain), static_cast<int>(plain.size()));
  EVP_EncryptFinal_ex(c, o + plain.size(), &n);
  EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, o + plain.size());
  EVP_CIPHER_CTX_free(c);
  return out;
}

// The five bytes of the header protection mask.
inline std::string
mask(quic::crypto::aead a, const std::string &key, const std::string &sample)
{
  auto u = [](const std::string &s) { return reinterpret_cast<const uint8_t *>(s.data()); };
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
  int n = 0;
  uint8_t out[64] = {};
  if (a == quic::crypto::aead::chacha20_poly1305) {
    // OpenSSL's IV is the counter (little endian) and the nonce: the sample.
    static const uint8_t zeros[5] = {};
    EVP_EncryptInit_ex(c, EVP_chacha20(), nullptr, u(key), u(sample));
    EVP_EncryptUpdate(c, out, &n, zeros, 5);
  } else {
    EVP_EncryptInit_ex(c, a == quic::crypto::aead::aes_128_gcm ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, u(key),
                       nullptr);
    EVP_CIPHER_CTX_set_padding(c, 0);
    EVP_EncryptUpdate(c, out, &n, u(sample), 16);
  }
  EVP_CIPHER_CTX_free(c);
  return std::string(reinterpret_cast<char *>(out), 5);
}

// --- the handshake ---

struct flight {
  ssl_encryption_level_t needs_level = ssl_encryption_initial;
  size_t needs = 0; // bytes of that level from the peer
  uint32_t cipher = 0;
  std::vector<std::pair<ssl_encryption_level_t, std::string>> output;
  struct secret {
    ssl_encryption_level_t level;
    std::string read, write;
  };
  std::vector<secret> secrets;
  bool failure = false; // of TLS
  int want = SSL_ERROR_WANT_READ; // what it says while it waits
};

struct handshake_script {
  std::vector<flight> flights;
  size_t next = 0;
  std::string problem;

  int run(ssl_st *s)
  {
    while (next < flights.size()) {
      flight &f = flights[next];
      size_t have = 0;
      for (const auto &p : s->provided) {
        if (p.first == f.needs_level) {
          have += p.second.size();
        }
      }
      if (have < f.needs) {
        s->last_error = f.want;
        return -1;
      }
      next++;
      if (f.failure) {
        s->last_error = SSL_ERROR_SSL;
        return -1;
      }
      for (const ssl_cipher_st &c : sim::CIPHERS) {
        if (c.id == f.cipher) {
          s->cipher = &c;
        }
      }
      bool ok = true;
      for (const auto &x : f.secrets) {
        ok = ok && (x.level == ssl_encryption_early_data ? s->early_secret(x.write) : s->secrets(x.level, x.read, x.write)) == 1;
      }
      for (const auto &o : f.output) {
        ok = ok && s->output(o.first, o.second) == 1;
      }
      if (!ok) {
        s->last_error = SSL_ERROR_SSL;
        return -1;
      }
    }
    return 1;
  }
};

// Names that the clock, the transport and TLS share with the connection.
struct world {
  uint64_t now = 1000; // microseconds
  handshake_script script;
  quic::params params;
  quic::path path;
  ip::host host;
  std::unique_ptr<quic::client::connection> c;
  ngtcp2_conn *t = nullptr;
  ssl_st *tls = nullptr;

  world() = default;
  world(const world &) = delete;

  ~world() { sim::new_session = nullptr; }

  void create()
  {
    sim::new_session = [this](ssl_st *s) {
      tls = s;
      s->do_handshake = [this](ssl_st *x) { return script.run(x); };
    };
    uint64_t *time = &now;
    size_t before = sim::connections.size();
    c.reset(new quic::client::connection(host, path, params, [time] { return quic::duration(*time); }));
    sim::new_session = nullptr;
    CHECK(sim::connections.size() == before + 1, "no transport was made");
    t = sim::connections.back();
    CHECK(tls != nullptr, "no TLS session was made");
  }

  // Moves the connection to another object.
  void move(gen &g)
  {
    g.note("move");
    std::unique_ptr<quic::client::connection> next;
    if (g.chance(1, 4)) { // over another one
      std::unique_ptr<world> other(new world);
      bool v6 = path.local().address() == ip::address::type::ipv6;
      std::string there(v6 ? 4 : 16, 'q');
      ip::endpoint end(ip::address(view(there)), 77);
      other->path = quic::path(end, end);
      other->now = now + 55;
      other->create();
      *other->c = std::move(*c);
      next = std::move(other->c);
      // The clock of the other one is gone with it, ours came along.
    } else {
      next.reset(new quic::client::connection(std::move(*c)));
    }
    c = std::move(next);
  }

  void healthy() const { CHECK(t->problem.empty(), "the transport was misused: " << t->problem); }

  // Delivers a packet with these contents, followed by any bytes.
  quic::client::generator packet(const std::vector<sim::action> &actions, const std::string &rest = "")
  {
    t->packets.push_back(actions);
    uint32_t index = static_cast<uint32_t>(t->packets.size() - 1);
    std::string bytes(reinterpret_cast<const char *>(&index), 4);
    bytes += rest;
    // Gone as soon as the call is over.
    std::vector<uint8_t> copy(bytes.begin(), bytes.end());
    auto r = c->recv(base::buffer_view(copy.data(), copy.size()));
    CHECK(r, "receiving gives an error instead of events");
    CHECK(!t->received.empty() && t->received.back() == bytes, "the transport got other bytes than the packet's");
    healthy();
    return std::move(r).value();
  }
};

// A connection after a plain handshake.
inline void
establish(world &w, uint32_t cipher = 0x03001301U)
{
  size_t secret = suite_of(cipher).sha384 ? 48 : 32;
  w.script.flights.resize(3);
  w.script.flights[0].output = { { ssl_encryption_initial, std::string(300, 'c') } };
  w.script.flights[1].needs = 90;
  w.script.flights[1].cipher = cipher;
  w.script.flights[1].secrets = { { ssl_encryption_handshake, std::string(secret, 'r'), std::string(secret, 'w') } };
  w.script.flights[2].needs_level = ssl_encryption_handshake;
  w.script.flights[2].needs = 700;
  w.script.flights[2].secrets = { { ssl_encryption_application, std::string(secret, 'R'), std::string(secret, 'W') } };
  w.script.flights[2].output = { { ssl_encryption_handshake, std::string(36, 'f') } };
  w.create();
  quic::client::connection &c = *w.c;
  for (int i = 0; i < 4; i++) {
    auto r = c.send();
    if (!r) {
      break;
    }
  }
  ngtcp2_transport_params peer = {};
  peer.max_packet_size = 65527;
  peer.ack_delay_exponent = 3;
  peer.max_ack_delay = 25;
  w.tls->peer_params = sim::encode_params(peer);
  static const std::string hello(90, 's');
  static const std::string rest(700, 'e');
  auto crypto = [](ngtcp2_crypto_level level, const std::string &bytes) {
    return [level, &bytes](ngtcp2_conn *t) {
      return t->cb.recv_crypto_data(t, level, 0, reinterpret_cast<const uint8_t *>(bytes.data()), bytes.size(), t->user);
    };
  };
  auto events = w.packet({ crypto(NGTCP2_CRYPTO_LEVEL_INITIAL, hello), crypto(NGTCP2_CRYPTO_LEVEL_HANDSHAKE, rest) });
  CHECK(!events.next(), "an event during the handshake");
  CHECK(w.t->completed, "the handshake did not complete");
  for (int i = 0; i < 4; i++) {
    auto s = c.send();
    if (!s) {
      CHECK(s.error() == quic::error::idle, "sending after the handshake fails");
      break;
    }
  }
}

} // namespace qw
