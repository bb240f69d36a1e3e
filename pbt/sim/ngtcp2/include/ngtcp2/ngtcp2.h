// The part of ngtcp2's interface (August 2019) that bnl-quic uses.
#pragma once

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <sys/types.h>

#define NGTCP2_PROTO_VER 0xff000016U
#define NGTCP2_ALPN_H3 "\x5h3-22"
#define NGTCP2_INITIAL_SALT                                                    \
  "\x7f\xbc\xdb\x0e\x7c\x66\xbb\xe9\x21\x93\xa9\x6c\xd2\x15\x19\xeb\xd7\xa0\x26\x44"

#define NGTCP2_MAX_CIDLEN 20
#define NGTCP2_STATELESS_RESET_TOKENLEN 16
#define NGTCP2_MAX_PKTLEN_IPV4 1252
#define NGTCP2_HP_MASKLEN 5
#define NGTCP2_HP_SAMPLELEN 16
#define NGTCP2_MICROSECONDS (1000ULL)

enum ngtcp2_lib_error {
  NGTCP2_ERR_INVALID_ARGUMENT = -201,
  NGTCP2_ERR_UNKNOWN_PKT_TYPE = -202,
  NGTCP2_ERR_NOBUF = -203,
  NGTCP2_ERR_PROTO = -205,
  NGTCP2_ERR_INVALID_STATE = -206,
  NGTCP2_ERR_ACK_FRAME = -207,
  NGTCP2_ERR_STREAM_ID_BLOCKED = -208,
  NGTCP2_ERR_STREAM_IN_USE = -209,
  NGTCP2_ERR_STREAM_DATA_BLOCKED = -210,
  NGTCP2_ERR_FLOW_CONTROL = -211,
  NGTCP2_ERR_STREAM_LIMIT = -213,
  NGTCP2_ERR_FINAL_OFFSET = -214,
  NGTCP2_ERR_PKT_NUM_EXHAUSTED = -216,
  NGTCP2_ERR_REQUIRED_TRANSPORT_PARAM = -217,
  NGTCP2_ERR_MALFORMED_TRANSPORT_PARAM = -218,
  NGTCP2_ERR_FRAME_ENCODING = -219,
  NGTCP2_ERR_TLS_DECRYPT = -220,
  NGTCP2_ERR_STREAM_NOT_FOUND = -222,
  NGTCP2_ERR_STREAM_SHUT_WR = -221,
  NGTCP2_ERR_STREAM_STATE = -226,
  NGTCP2_ERR_NOKEY = -227,
  NGTCP2_ERR_EARLY_DATA_REJECTED = -228,
  NGTCP2_ERR_CRYPTO = -230,
  NGTCP2_ERR_CLOSING = -231,
  NGTCP2_ERR_DRAINING = -232,
  NGTCP2_ERR_DISCARD_PKT = -235,
  NGTCP2_ERR_INTERNAL = -237,
  NGTCP2_ERR_FATAL = -500,
  NGTCP2_ERR_NOMEM = -501,
  NGTCP2_ERR_CALLBACK_FAILURE = -502
};

#define NGTCP2_WRITE_STREAM_FLAG_NONE 0x00U

using ngtcp2_tstamp = uint64_t;

enum ngtcp2_crypto_level : int {
  NGTCP2_CRYPTO_LEVEL_INITIAL,
  NGTCP2_CRYPTO_LEVEL_HANDSHAKE,
  NGTCP2_CRYPTO_LEVEL_APP,
  NGTCP2_CRYPTO_LEVEL_EARLY
};

enum ngtcp2_rand_ctx : int { NGTCP2_RAND_CTX_NONE, NGTCP2_RAND_CTX_PATH_CHALLENGE };

enum ngtcp2_path_validation_result : int {
  NGTCP2_PATH_VALIDATION_RESULT_SUCCESS,
  NGTCP2_PATH_VALIDATION_RESULT_FAILURE
};

enum ngtcp2_transport_params_type {
  NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO,
  NGTCP2_TRANSPORT_PARAMS_TYPE_ENCRYPTED_EXTENSIONS
};

struct ngtcp2_cid {
  size_t datalen;
  uint8_t data[NGTCP2_MAX_CIDLEN];
};

struct ngtcp2_addr {
  size_t addrlen;
  uint8_t *addr;
  void *user_data;
};

struct ngtcp2_path {
  ngtcp2_addr local;
  ngtcp2_addr remote;
};

struct ngtcp2_path_storage {
  uint8_t local_addrbuf[128];
  uint8_t remote_addrbuf[128];
  ngtcp2_path path;
};

struct ngtcp2_pkt_stateless_reset {
  uint8_t stateless_reset_token[NGTCP2_STATELESS_RESET_TOKENLEN];
  const uint8_t *rand;
  size_t randlen;
};

struct ngtcp2_pkt_hd {
  ngtcp2_cid dcid;
};

struct ngtcp2_pkt_retry {
  ngtcp2_cid odcid;
  const uint8_t *token;
  size_t tokenlen;
};

struct ngtcp2_preferred_addr {
  ngtcp2_cid cid;
  uint16_t ipv4_port;
  uint16_t ipv6_port;
  uint8_t ipv4_addr[4];
  uint8_t ipv6_addr[16];
  uint8_t stateless_reset_token[NGTCP2_STATELESS_RESET_TOKENLEN];
};

struct ngtcp2_transport_params {
  uint64_t max_stream_data_bidi_local;
  uint64_t max_stream_data_bidi_remote;
  uint64_t max_stream_data_uni;
  uint64_t max_data;
  uint64_t max_streams_bidi;
  uint64_t max_streams_uni;
  uint64_t idle_timeout;
  uint64_t max_packet_size;
  uint64_t ack_delay_exponent;
  uint8_t disable_migration;
  uint64_t max_ack_delay;
};

typedef void (*ngtcp2_printf)(void *user_data, const char *format, ...);

struct ngtcp2_settings {
  ngtcp2_tstamp initial_ts;
  ngtcp2_printf log_printf;
  uint64_t max_stream_data_bidi_local;
  uint64_t max_stream_data_bidi_remote;
  uint64_t max_stream_data_uni;
  uint64_t max_data;
  uint64_t max_streams_bidi;
  uint64_t max_streams_uni;
  uint64_t idle_timeout;
  uint64_t max_packet_size;
  uint64_t ack_delay_exponent;
  uint8_t disable_migration;
  uint64_t max_ack_delay;
};

struct ngtcp2_conn;

struct ngtcp2_conn_callbacks {
  int (*client_initial)(ngtcp2_conn *, void *);
  int (*recv_client_initial)(ngtcp2_conn *, const ngtcp2_cid *, void *);
  int (*recv_crypto_data)(ngtcp2_conn *, ngtcp2_crypto_level, uint64_t, const uint8_t *, size_t, void *);
  int (*handshake_completed)(ngtcp2_conn *, void *);
  int (*recv_version_negotiation)(ngtcp2_conn *, const ngtcp2_pkt_hd *, const uint32_t *, size_t, void *);
  ssize_t (*in_encrypt)(ngtcp2_conn *, uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t,
                        const uint8_t *, size_t, const uint8_t *, size_t, void *);
  ssize_t (*in_decrypt)(ngtcp2_conn *, uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t,
                        const uint8_t *, size_t, const uint8_t *, size_t, void *);
  ssize_t (*encrypt)(ngtcp2_conn *, uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *,
                     size_t, const uint8_t *, size_t, void *);
  ssize_t (*decrypt)(ngtcp2_conn *, uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *,
                     size_t, const uint8_t *, size_t, void *);
  ssize_t (*in_hp_mask)(ngtcp2_conn *, uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, void *);
  ssize_t (*hp_mask)(ngtcp2_conn *, uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, void *);
  int (*recv_stream_data)(ngtcp2_conn *, int64_t, int, uint64_t, const uint8_t *, size_t, void *, void *);
  int (*acked_crypto_offset)(ngtcp2_conn *, ngtcp2_crypto_level, uint64_t, size_t, void *);
  int (*acked_stream_data_offset)(ngtcp2_conn *, int64_t, uint64_t, size_t, void *, void *);
  int (*stream_open)(ngtcp2_conn *, int64_t, void *);
  int (*stream_close)(ngtcp2_conn *, int64_t, uint64_t, void *, void *);
  int (*recv_stateless_reset)(ngtcp2_conn *, const ngtcp2_pkt_stateless_reset *, void *);
  int (*recv_retry)(ngtcp2_conn *, const ngtcp2_pkt_hd *, const ngtcp2_pkt_retry *, void *);
  int (*extend_max_local_streams_bidi)(ngtcp2_conn *, uint64_t, void *);
  int (*extend_max_local_streams_uni)(ngtcp2_conn *, uint64_t, void *);
  int (*rand)(ngtcp2_conn *, uint8_t *, size_t, ngtcp2_rand_ctx, void *);
  int (*get_new_connection_id)(ngtcp2_conn *, ngtcp2_cid *, uint8_t *, size_t, void *);
  int (*remove_connection_id)(ngtcp2_conn *, const ngtcp2_cid *, void *);
  int (*update_key)(ngtcp2_conn *, void *);
  int (*path_validation)(ngtcp2_conn *, const ngtcp2_path *, ngtcp2_path_validation_result, void *);
  int (*select_preferred_addr)(ngtcp2_conn *, ngtcp2_addr *, const ngtcp2_preferred_addr *, void *);
  int (*stream_reset)(ngtcp2_conn *, int64_t, uint64_t, uint64_t, void *, void *);
  int (*extend_max_remote_streams_bidi)(ngtcp2_conn *, uint64_t, void *);
  int (*extend_max_remote_streams_uni)(ngtcp2_conn *, uint64_t, void *);
  int (*extend_max_stream_data)(ngtcp2_conn *, int64_t, uint64_t, void *, void *);
};

const char *ngtcp2_strerror(int liberr);

void ngtcp2_settings_default(ngtcp2_settings *settings);

void ngtcp2_path_storage_init(ngtcp2_path_storage *ps, const uint8_t *local_addr, size_t local_addrlen,
                              void *local_user_data, const uint8_t *remote_addr, size_t remote_addrlen,
                              void *remote_user_data);

int ngtcp2_conn_client_new(ngtcp2_conn **pconn, const ngtcp2_cid *dcid, const ngtcp2_cid *scid, const ngtcp2_path *path,
                           uint32_t version, const ngtcp2_conn_callbacks *callbacks, const ngtcp2_settings *settings,
                           const void *mem, void *user_data);
void ngtcp2_conn_del(ngtcp2_conn *conn);

const ngtcp2_cid *ngtcp2_conn_get_dcid(ngtcp2_conn *conn);
void ngtcp2_conn_set_aead_overhead(ngtcp2_conn *conn, size_t aead_overhead);
int ngtcp2_conn_get_handshake_completed(ngtcp2_conn *conn);
void ngtcp2_conn_handshake_completed(ngtcp2_conn *conn);

void ngtcp2_conn_get_local_transport_params(ngtcp2_conn *conn, ngtcp2_transport_params *params);
int ngtcp2_conn_extend_max_stream_offset(ngtcp2_conn *conn, int64_t stream_id, uint64_t datalen);
void ngtcp2_conn_extend_max_offset(ngtcp2_conn *conn, uint64_t datalen);
int ngtcp2_conn_set_remote_transport_params(ngtcp2_conn *conn, const ngtcp2_transport_params *params);
ssize_t ngtcp2_encode_transport_params(uint8_t *dest, size_t destlen, ngtcp2_transport_params_type exttype,
                                       const ngtcp2_transport_params *params);
int ngtcp2_decode_transport_params(ngtcp2_transport_params *params, ngtcp2_transport_params_type exttype,
                                   const uint8_t *data, size_t datalen);

#define SIM_KEYS6(name)                                                        \
  int name(ngtcp2_conn *conn, const uint8_t *key, size_t keylen, const uint8_t *iv, size_t ivlen, const uint8_t *hp, \
           size_t hplen)
SIM_KEYS6(ngtcp2_conn_install_initial_tx_keys);
SIM_KEYS6(ngtcp2_conn_install_initial_rx_keys);
SIM_KEYS6(ngtcp2_conn_install_early_keys);
SIM_KEYS6(ngtcp2_conn_install_handshake_tx_keys);
SIM_KEYS6(ngtcp2_conn_install_handshake_rx_keys);
SIM_KEYS6(ngtcp2_conn_install_tx_keys);
SIM_KEYS6(ngtcp2_conn_install_rx_keys);
int ngtcp2_conn_update_tx_key(ngtcp2_conn *conn, const uint8_t *key, size_t keylen, const uint8_t *iv, size_t ivlen);
int ngtcp2_conn_update_rx_key(ngtcp2_conn *conn, const uint8_t *key, size_t keylen, const uint8_t *iv, size_t ivlen);

// `data` is not copied: it has to stay until it is acknowledged.
int ngtcp2_conn_submit_crypto_data(ngtcp2_conn *conn, ngtcp2_crypto_level level, const uint8_t *data, size_t datalen);

ssize_t ngtcp2_conn_write_pkt(ngtcp2_conn *conn, ngtcp2_path *path, uint8_t *dest, size_t destlen, ngtcp2_tstamp ts);

// `data` is not copied: what was written has to stay until it is acknowledged.
ssize_t ngtcp2_conn_write_stream(ngtcp2_conn *conn, ngtcp2_path *path, uint8_t *dest, size_t destlen, ssize_t *pdatalen,
                                 uint32_t flags, int64_t stream_id, uint8_t fin, const uint8_t *data, size_t datalen,
                                 ngtcp2_tstamp ts);

int ngtcp2_conn_read_pkt(ngtcp2_conn *conn, const ngtcp2_path *path, const uint8_t *pkt, size_t pktlen, ngtcp2_tstamp ts);

uint64_t ngtcp2_conn_get_idle_timeout(ngtcp2_conn *conn);
ngtcp2_tstamp ngtcp2_conn_get_expiry(ngtcp2_conn *conn);
ngtcp2_tstamp ngtcp2_conn_loss_detection_expiry(ngtcp2_conn *conn);
ngtcp2_tstamp ngtcp2_conn_ack_delay_expiry(ngtcp2_conn *conn);
int ngtcp2_conn_on_loss_detection_timer(ngtcp2_conn *conn, ngtcp2_tstamp ts);
void ngtcp2_conn_cancel_expired_ack_delay_timer(ngtcp2_conn *conn, ngtcp2_tstamp ts);

int ngtcp2_conn_open_bidi_stream(ngtcp2_conn *conn, int64_t *pstream_id, void *stream_user_data);
int ngtcp2_conn_open_uni_stream(ngtcp2_conn *conn, int64_t *pstream_id, void *stream_user_data);
