#include "tls.hpp"

#include <algorithm>
#include <cstring>
#include <vector>

struct ssl_ctx_st {
  int references = 1;
};

namespace sim {
thread_local std::vector<ssl_st *> sessions;
thread_local std::function<void(ssl_st *)> new_session;
const ssl_cipher_st CIPHERS[4] = { { 0x03001301U, "TLS_AES_128_GCM_SHA256" },
                                   { 0x03001302U, "TLS_AES_256_GCM_SHA384" },
                                   { 0x03001303U, "TLS_CHACHA20_POLY1305_SHA256" },
                                   { 0x03001304U, "TLS_AES_128_CCM_SHA256 {}" } };
} // namespace sim

int
ssl_st::secrets(ssl_encryption_level_t level, const std::string &read, const std::string &write)
{
  // Copies that are gone as soon as the call is over.
  std::vector<uint8_t> r(read.begin(), read.end()), w(write.begin(), write.end());
  return method->set_encryption_secrets(this, level, r.data(), w.data(), w.size());
}

int
ssl_st::early_secret(const std::string &write)
{
  std::vector<uint8_t> w(write.begin(), write.end());
  return method->set_encryption_secrets(this, ssl_encryption_early_data, nullptr, w.data(), w.size());
}

int
ssl_st::output(ssl_encryption_level_t level, const std::string &bytes)
{
  std::vector<uint8_t> b(bytes.begin(), bytes.end());
  return method->add_handshake_data(this, level, b.data(), b.size());
}

const SSL_METHOD *
TLS_method()
{
  static const int method = 0;
  return reinterpret_cast<const SSL_METHOD *>(&method);
}

SSL_CTX *
SSL_CTX_new(const SSL_METHOD *)
{
  return new ssl_ctx_st;
}

void
SSL_CTX_free(SSL_CTX *ctx)
{
  delete ctx;
}

int
SSL_CTX_set_default_verify_paths(SSL_CTX *)
{
  return 1;
}

SSL *
SSL_new(SSL_CTX *)
{
  SSL *ssl = new ssl_st;
  sim::sessions.push_back(ssl);
  if (sim::new_session) {
    sim::new_session(ssl);
  }
  return ssl;
}

void
SSL_free(SSL *ssl)
{
  auto &all = sim::sessions;
  all.erase(std::remove(all.begin(), all.end(), ssl), all.end());
  delete ssl;
}

int
SSL_set_ex_data(SSL *ssl, int, void *data)
{
  ssl->app_data = data;
  return 1;
}

void *
SSL_get_ex_data(const SSL *ssl, int)
{
  return ssl->app_data;
}

int
SSL_set_alpn_protos(SSL *ssl, const uint8_t *protos, unsigned protos_len)
{
  ssl->alpn.assign(reinterpret_cast<const char *>(protos), protos_len);
  return 0;
}

void
SSL_set_connect_state(SSL *ssl)
{
  ssl->client = true;
}

int
SSL_set_min_proto_version(SSL *ssl, uint16_t version)
{
  ssl->min = version;
  return 1;
}

int
SSL_set_max_proto_version(SSL *ssl, uint16_t version)
{
  ssl->max = version;
  return 1;
}

int
SSL_set_tlsext_host_name(SSL *ssl, const char *name)
{
  ssl->host_set = true;
  ssl->host = name;
  return 1;
}

int
SSL_set_quic_transport_params(SSL *ssl, const uint8_t *params, size_t params_len)
{
  ssl->local_params.assign(reinterpret_cast<const char *>(params), params_len);
  return 1;
}

void
SSL_get_peer_quic_transport_params(const SSL *ssl, const uint8_t **out_params, size_t *out_params_len)
{
  *out_params = reinterpret_cast<const uint8_t *>(ssl->peer_params.data());
  *out_params_len = ssl->peer_params.size();
}

int
SSL_set_quic_method(SSL *ssl, const SSL_QUIC_METHOD *quic_method)
{
  ssl->method = quic_method;
  return 1;
}

int
SSL_do_handshake(SSL *ssl)
{
  ssl->handshakes++;
  if (!ssl->do_handshake) {
    ssl->last_error = SSL_ERROR_WANT_READ;
    return -1;
  }
  return ssl->do_handshake(ssl);
}

int
SSL_get_error(const SSL *ssl, int ret)
{
  return ret > 0 ? SSL_ERROR_NONE : ssl->last_error;
}

int
SSL_provide_quic_data(SSL *ssl, ssl_encryption_level_t level, const uint8_t *data, size_t len)
{
  ssl->provided.push_back({ level, std::string(reinterpret_cast<const char *>(data), len) });
  return ssl->provide ? ssl->provide(ssl) : 1;
}

int
SSL_process_quic_post_handshake(SSL *ssl)
{
  ssl->post_handshakes++;
  return ssl->post_handshake ? ssl->post_handshake(ssl) : 1;
}

const SSL_CIPHER *
SSL_get_current_cipher(const SSL *ssl)
{
  return ssl->cipher;
}

uint32_t
SSL_CIPHER_get_id(const SSL_CIPHER *cipher)
{
  return cipher->id;
}

const char *
SSL_CIPHER_standard_name(const SSL_CIPHER *cipher)
{
  return cipher->name;
}
