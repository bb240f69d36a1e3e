// The TLS part, scripted by the checks (see tls.hpp).
#pragma once

#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <memory>

#include <openssl/err.h>

struct ssl_ctx_st;
struct ssl_st;
struct ssl_cipher_st;
struct ssl_method_st;
struct ssl_quic_method_st;

using SSL_CTX = ssl_ctx_st;
using SSL = ssl_st;
using SSL_CIPHER = ssl_cipher_st;
using SSL_METHOD = ssl_method_st;
using SSL_QUIC_METHOD = ssl_quic_method_st;

enum ssl_encryption_level_t {
  ssl_encryption_initial = 0,
  ssl_encryption_early_data,
  ssl_encryption_handshake,
  ssl_encryption_application
};

struct ssl_quic_method_st {
  int (*set_encryption_secrets)(SSL *ssl, ssl_encryption_level_t level, const uint8_t *read_secret,
                                const uint8_t *write_secret, size_t secret_len);
  int (*add_handshake_data)(SSL *ssl, ssl_encryption_level_t level, const uint8_t *data, size_t len);
  int (*flush_flight)(SSL *ssl);
  int (*send_alert)(SSL *ssl, ssl_encryption_level_t level, uint8_t alert);
};

#define TLS1_2_VERSION 0x0303
#define TLS1_3_VERSION 0x0304
#define SSL_ERROR_NONE 0
#define SSL_ERROR_SSL 1
#define SSL_ERROR_WANT_READ 2
#define SSL_ERROR_WANT_WRITE 3
#define SSL_ERROR_SYSCALL 5

const SSL_METHOD *TLS_method();
SSL_CTX *SSL_CTX_new(const SSL_METHOD *method);
void SSL_CTX_free(SSL_CTX *ctx);
int SSL_CTX_set_default_verify_paths(SSL_CTX *ctx);
SSL *SSL_new(SSL_CTX *ctx);
void SSL_free(SSL *ssl);
int SSL_set_ex_data(SSL *ssl, int idx, void *data);
void *SSL_get_ex_data(const SSL *ssl, int idx);
inline int SSL_set_app_data(SSL *ssl, void *data) { return SSL_set_ex_data(ssl, 0, data); }
inline void *SSL_get_app_data(const SSL *ssl) { return SSL_get_ex_data(ssl, 0); }
// 0 on success, unlike everything else.
int SSL_set_alpn_protos(SSL *ssl, const uint8_t *protos, unsigned protos_len);
void SSL_set_connect_state(SSL *ssl);
int SSL_set_min_proto_version(SSL *ssl, uint16_t version);
int SSL_set_max_proto_version(SSL *ssl, uint16_t version);
int SSL_set_tlsext_host_name(SSL *ssl, const char *name);
int SSL_set_quic_transport_params(SSL *ssl, const uint8_t *params, size_t params_len);
void SSL_get_peer_quic_transport_params(const SSL *ssl, const uint8_t **out_params, size_t *out_params_len);
int SSL_set_quic_method(SSL *ssl, const SSL_QUIC_METHOD *quic_method);
int SSL_do_handshake(SSL *ssl);
int SSL_get_error(const SSL *ssl, int ret);
int SSL_provide_quic_data(SSL *ssl, ssl_encryption_level_t level, const uint8_t *data, size_t len);
int SSL_process_quic_post_handshake(SSL *ssl);
const SSL_CIPHER *SSL_get_current_cipher(const SSL *ssl);
uint32_t SSL_CIPHER_get_id(const SSL_CIPHER *cipher);
const char *SSL_CIPHER_standard_name(const SSL_CIPHER *cipher);
