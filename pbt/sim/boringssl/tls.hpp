// The scripted TLS handshake.
#pragma once

#include <openssl/ssl.h>

#include <functional>
#include <string>
#include <utility>
#include <vector>

struct ssl_cipher_st {
  uint32_t id;
  const char *name;
};

struct ssl_st {
  void *app_data = nullptr;
  std::string alpn, host, local_params, peer_params;
  bool host_set = false;
  bool client = false;
  uint16_t min = 0, max = 0;
  const SSL_QUIC_METHOD *method = nullptr;
  const SSL_CIPHER *cipher = nullptr;
  int last_error = SSL_ERROR_NONE;
  std::vector<std::pair<ssl_encryption_level_t, std::string>> provided; // what came from the peer
  unsigned handshakes = 0, post_handshakes = 0;

  // What the next calls do; without them nothing ever happens.
  std::function<int(SSL *)> do_handshake; // 1: complete; otherwise sets last_error
  std::function<int(SSL *)> provide;
  std::function<int(SSL *)> post_handshake;

  int secrets(ssl_encryption_level_t level, const std::string &read, const std::string &write);
  int early_secret(const std::string &write);
  int output(ssl_encryption_level_t level, const std::string &bytes);
};

namespace sim {
extern thread_local std::vector<ssl_st *> sessions; // all that live
extern thread_local std::function<void(ssl_st *)> new_session;
extern const ssl_cipher_st CIPHERS[4]; // the last one is not supported
} // namespace sim
