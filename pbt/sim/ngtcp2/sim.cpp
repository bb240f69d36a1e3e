#include "sim.hpp"

#include <algorithm>
#include <cstdio>
#include <cstring>

namespace sim {
thread_local std::vector<ngtcp2_conn *> connections;

static void
misuse(ngtcp2_conn *c, const std::string &text)
{
  if (c->problem.empty()) {
    c->problem = text;
  }
}

static void
varint(std::string &s, uint64_t v)
{
  unsigned form = v < 64 ? 0 : v < 16384 ? 1 : v < (1U << 30U) ? 2 : 3;
  unsigned n = 1U << form;
  for (unsigned i = 0; i < n; i++) {
    uint8_t b = static_cast<uint8_t>(v >> (8 * (n - 1 - i)));
    s += static_cast<char>(i == 0 ? b | (form << 6U) : b);
  }
}

static void
param(std::string &s, unsigned id, uint64_t v, uint64_t absent)
{
  if (v == absent) {
    return;
  }
  std::string x;
  varint(x, v);
  s += static_cast<char>(id >> 8U);
  s += static_cast<char>(id);
  s += static_cast<char>(x.size() >> 8U);
  s += static_cast<char>(x.size());
  s += x;
}

// draft-22, as ngtcp2 writes it: a length and then the parameters.
std::string
encode_params(const ngtcp2_transport_params &p)
{
  std::string s;
  param(s, 1, p.idle_timeout, 0);
  param(s, 3, p.max_packet_size, 65527);
  param(s, 4, p.max_data, 0);
  param(s, 5, p.max_stream_data_bidi_local, 0);
  param(s, 6, p.max_stream_data_bidi_remote, 0);
  param(s, 7, p.max_stream_data_uni, 0);
  param(s, 8, p.max_streams_bidi, 0);
  param(s, 9, p.max_streams_uni, 0);
  param(s, 10, p.ack_delay_exponent, 3);
  param(s, 11, p.max_ack_delay, 25);
  if (p.disable_migration != 0) {
    s += std::string("\x00\x0c\x00\x00", 4);
  }
  std::string r;
  r += static_cast<char>(s.size() >> 8U);
  r += static_cast<char>(s.size());
  return r + s;
}

static bool
decode_params(const std::string &in, ngtcp2_transport_params &p)
{
  p = ngtcp2_transport_params();
  p.max_packet_size = 65527;
  p.ack_delay_exponent = 3;
  p.max_ack_delay = 25;
  auto u8 = [&](size_t i) { return static_cast<uint8_t>(in[i]); };
  if (in.size() < 2 || static_cast<size_t>(u8(0) << 8 | u8(1)) != in.size() - 2) {
    return false;
  }
  for (size_t at = 2; at < in.size();) {
    if (in.size() - at < 4) {
      return false;
    }
    unsigned id = u8(at) << 8 | u8(at + 1);
    size_t len = static_cast<size_t>(u8(at + 2) << 8 | u8(at + 3));
    at += 4;
    if (in.size() - at < len) {
      return false;
    }
    uint64_t v = 0;
    if (id != 12) {
      if (len == 0 || (1U << (u8(at) >> 6)) != len) {
        return false;
      }
      v = u8(at) & 0x3f;
      for (size_t i = 1; i < len; i++) {
        v = v << 8 | u8(at + i);
      }
    }
    at += len;
    switch (id) {
      case 1: p.idle_timeout = v; break;
      case 3: p.max_packet_size = v; break;
      case 4: p.max_data = v; break;
      case 5: p.max_stream_data_bidi_local = v; break;
      case 6: p.max_stream_data_bidi_remote = v; break;
      case 7: p.max_stream_data_uni = v; break;
      case 8: p.max_streams_bidi = v; break;
      case 9: p.max_streams_uni = v; break;
      case 10: p.ack_delay_exponent = v; break;
      case 11: p.max_ack_delay = v; break;
      case 12: p.disable_migration = 1; break;
      default: break;
    }
  }
  return true;
}

static int
install(ngtcp2_conn *c, const char *name, const uint8_t *key, size_t keylen, const uint8_t *iv, size_t ivlen,
        const uint8_t *hp, size_t hplen)
{
  if (c->key_failures > 0 && --c->key_failures == 0) {
    return NGTCP2_ERR_NOMEM;
  }
  keys &k = c->installed[name];
  k.installed++;
  k.key.assign(reinterpret_cast<const char *>(key), keylen);
  k.iv.assign(reinterpret_cast<const char *>(iv), ivlen);
  k.hp.assign(reinterpret_cast<const char *>(hp), hplen);
  return 0;
}

// A packet of some bytes nobody else makes.
static ssize_t
packet(ngtcp2_conn *c, uint8_t *dest, size_t destlen, size_t payload)
{
  size_t size = std::min(destlen, payload + 29);
  c->last_packet.clear();
  c->packets_written++;
  uint64_t x = c->packets_written * 0x9e3779b97f4a7c15ULL + 1;
  for (size_t i = 0; i < size; i++) {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    c->last_packet += static_cast<char>(x);
  }
  c->written.push_back(c->last_packet);
  memcpy(dest, c->last_packet.data(), size);
  return static_cast<ssize_t>(size);
}

} // namespace sim

void
ngtcp2_conn::retransmit()
{
  auto look = [&](const std::list<sim::kept> &l, const std::string &what) {
    for (const sim::kept &k : l) {
      // Under AddressSanitizer this also finds memory that was released.
      if (memcmp(k.data, k.bytes.data(), k.bytes.size()) != 0) {
        sim::misuse(this, what + ": bytes that were not acknowledged yet have changed in memory");
      }
    }
  };
  for (auto &e : streams) {
    look(e.second.unacked, "stream " + std::to_string(e.first));
  }
  for (int l = 0; l < 4; l++) {
    look(crypto_unacked[l], "crypto level " + std::to_string(l));
  }
}

static void
drop(std::list<sim::kept> &l, size_t size)
{
  while (size > 0) {
    sim::kept &k = l.front();
    size_t n = std::min(size, k.bytes.size());
    k.data += n;
    k.bytes.erase(0, n);
    size -= n;
    if (k.bytes.empty()) {
      l.pop_front();
    }
  }
}

int
ngtcp2_conn::ack(int64_t id, size_t size)
{
  sim::out_stream &s = streams[id];
  uint64_t offset = s.acked;
  drop(s.unacked, size);
  s.acked += size;
  return cb.acked_stream_data_offset(this, id, offset, size, user, nullptr);
}

// The frame with nothing but the end: its acknowledgement is one of 0 bytes.
int
ngtcp2_conn::ack_fin(int64_t id)
{
  sim::out_stream &s = streams[id];
  s.fin_alone = false;
  return cb.acked_stream_data_offset(this, id, s.acked, 0, user, nullptr);
}

int
ngtcp2_conn::ack_crypto(ngtcp2_crypto_level level, size_t size)
{
  drop(crypto_unacked[level], size);
  return cb.acked_crypto_offset(this, level, 0, size, user);
}

const char *
ngtcp2_strerror(int liberr)
{
  static thread_local char text[64];
  snprintf(text, sizeof text, "simulated error %d {}", liberr);
  return text;
}

void
ngtcp2_settings_default(ngtcp2_settings *settings)
{
  memset(settings, 0, sizeof *settings);
  settings->max_packet_size = 65527;
  settings->ack_delay_exponent = 3;
  settings->max_ack_delay = 25;
}

void
ngtcp2_path_storage_init(ngtcp2_path_storage *ps, const uint8_t *local_addr, size_t local_addrlen, void *local_user_data,
                         const uint8_t *remote_addr, size_t remote_addrlen, void *remote_user_data)
{
  memcpy(ps->local_addrbuf, local_addr, local_addrlen);
  memcpy(ps->remote_addrbuf, remote_addr, remote_addrlen);
  ps->path.local = { local_addrlen, ps->local_addrbuf, local_user_data };
  ps->path.remote = { remote_addrlen, ps->remote_addrbuf, remote_user_data };
}

static std::string
text(const ngtcp2_addr &a)
{
  return std::string(reinterpret_cast<const char *>(a.addr), a.addrlen);
}

static void
same_path(ngtcp2_conn *c, const ngtcp2_path *path)
{
  if (path != nullptr && (text(path->local) != c->local || text(path->remote) != c->remote)) {
    sim::misuse(c, "a call with another path than the one of the connection");
  }
}

int
ngtcp2_conn_client_new(ngtcp2_conn **pconn, const ngtcp2_cid *dcid, const ngtcp2_cid *scid, const ngtcp2_path *path,
                       uint32_t version, const ngtcp2_conn_callbacks *callbacks, const ngtcp2_settings *settings,
                       const void *, void *user_data)
{
  ngtcp2_conn *c = new ngtcp2_conn;
  c->cb = *callbacks;
  c->settings = *settings;
  c->dcid = *dcid;
  c->scid = *scid;
  c->local = text(path->local);
  c->remote = text(path->remote);
  c->version = version;
  c->user = user_data;
  c->idle_timeout = settings->idle_timeout * 1000000;
  c->stamps.push_back(settings->initial_ts);
  sim::connections.push_back(c);
  *pconn = c;
  return 0;
}

void
ngtcp2_conn_del(ngtcp2_conn *conn)
{
  auto &all = sim::connections;
  all.erase(std::remove(all.begin(), all.end(), conn), all.end());
  delete conn;
}

const ngtcp2_cid *
ngtcp2_conn_get_dcid(ngtcp2_conn *conn)
{
  return &conn->dcid;
}

void
ngtcp2_conn_set_aead_overhead(ngtcp2_conn *conn, size_t aead_overhead)
{
  conn->aead_overhead = aead_overhead;
}

int
ngtcp2_conn_get_handshake_completed(ngtcp2_conn *conn)
{
  return conn->completed ? 1 : 0;
}

void
ngtcp2_conn_handshake_completed(ngtcp2_conn *conn)
{
  conn->completed = true;
}

void
ngtcp2_conn_get_local_transport_params(ngtcp2_conn *conn, ngtcp2_transport_params *params)
{
  const ngtcp2_settings &s = conn->settings;
  *params = { s.max_stream_data_bidi_local,
              s.max_stream_data_bidi_remote,
              s.max_stream_data_uni,
              s.max_data,
              s.max_streams_bidi,
              s.max_streams_uni,
              s.idle_timeout,
              s.max_packet_size,
              s.ack_delay_exponent,
              s.disable_migration,
              s.max_ack_delay };
}

int
ngtcp2_conn_extend_max_stream_offset(ngtcp2_conn *conn, int64_t stream_id, uint64_t datalen)
{
  conn->stream_credit[stream_id] += datalen;
  return 0;
}

void
ngtcp2_conn_extend_max_offset(ngtcp2_conn *conn, uint64_t datalen)
{
  conn->credit += datalen;
}

int
ngtcp2_conn_set_remote_transport_params(ngtcp2_conn *conn, const ngtcp2_transport_params *params)
{
  conn->remote_params.push_back(*params);
  return conn->refuse_params ? NGTCP2_ERR_MALFORMED_TRANSPORT_PARAM : 0;
}

ssize_t
ngtcp2_encode_transport_params(uint8_t *dest, size_t destlen, ngtcp2_transport_params_type,
                               const ngtcp2_transport_params *params)
{
  std::string s = sim::encode_params(*params);
  if (s.size() > destlen) {
    return NGTCP2_ERR_NOBUF;
  }
  memcpy(dest, s.data(), s.size());
  return static_cast<ssize_t>(s.size());
}

int
ngtcp2_decode_transport_params(ngtcp2_transport_params *params, ngtcp2_transport_params_type, const uint8_t *data,
                               size_t datalen)
{
  return sim::decode_params(std::string(reinterpret_cast<const char *>(data), datalen), *params)
           ? 0
           : NGTCP2_ERR_MALFORMED_TRANSPORT_PARAM;
}

#define INSTALL(fn, name)                                                      \
  SIM_KEYS6(fn)                                                                \
  {                                                                            \
    return sim::install(conn, name, key, keylen, iv, ivlen, hp, hplen);        \
  }
INSTALL(ngtcp2_conn_install_initial_tx_keys, "initial tx")
INSTALL(ngtcp2_conn_install_initial_rx_keys, "initial rx")
INSTALL(ngtcp2_conn_install_early_keys, "early tx")
INSTALL(ngtcp2_conn_install_handshake_tx_keys, "handshake tx")
INSTALL(ngtcp2_conn_install_handshake_rx_keys, "handshake rx")
INSTALL(ngtcp2_conn_install_tx_keys, "tx")
INSTALL(ngtcp2_conn_install_rx_keys, "rx")

int
ngtcp2_conn_update_tx_key(ngtcp2_conn *conn, const uint8_t *key, size_t keylen, const uint8_t *iv, size_t ivlen)
{
  return sim::install(conn, "update tx", key, keylen, iv, ivlen, nullptr, 0);
}

int
ngtcp2_conn_update_rx_key(ngtcp2_conn *conn, const uint8_t *key, size_t keylen, const uint8_t *iv, size_t ivlen)
{
  return sim::install(conn, "update rx", key, keylen, iv, ivlen, nullptr, 0);
}

int
ngtcp2_conn_submit_crypto_data(ngtcp2_conn *conn, ngtcp2_crypto_level level, const uint8_t *data, size_t datalen)
{
  if (level < 0 || level > 3) {
    sim::misuse(conn, "crypto data at an unknown level");
    return NGTCP2_ERR_INVALID_ARGUMENT;
  }
  if (conn->crypto_failures > 0 && --conn->crypto_failures == 0) {
    return NGTCP2_ERR_NOMEM;
  }
  std::string bytes(reinterpret_cast<const char *>(data), datalen);
  conn->crypto[level] += bytes;
  if (datalen > 0) {
    conn->crypto_unacked[level].push_back({ data, bytes });
  }
  conn->crypto_pending = true;
  return 0;
}

ssize_t
ngtcp2_conn_write_pkt(ngtcp2_conn *conn, ngtcp2_path *path, uint8_t *dest, size_t destlen, ngtcp2_tstamp ts)
{
  same_path(conn, path);
  conn->stamps.push_back(ts);
  if (!conn->initial_called) {
    conn->initial_called = true;
    int rv = conn->cb.client_initial(conn, conn->user);
    if (rv != 0) {
      return rv;
    }
  }
  conn->retransmit();
  if (conn->write_pkt) {
    sim::plan p = conn->write_pkt();
    if (p.what == sim::plan::failure) {
      return p.error;
    }
    if (p.what == sim::plan::other_packet) {
      return sim::packet(conn, dest, destlen, 10);
    }
  }
  if (conn->crypto_pending) {
    conn->crypto_pending = false;
    return sim::packet(conn, dest, destlen, 1200);
  }
  return 0;
}

ssize_t
ngtcp2_conn_write_stream(ngtcp2_conn *conn, ngtcp2_path *path, uint8_t *dest, size_t destlen, ssize_t *pdatalen,
                         uint32_t, int64_t stream_id, uint8_t fin, const uint8_t *data, size_t datalen, ngtcp2_tstamp ts)
{
  same_path(conn, path);
  conn->stamps.push_back(ts);
  *pdatalen = -1;
  auto it = conn->streams.find(stream_id);
  if (it == conn->streams.end()) {
    sim::misuse(conn, "writing a stream that was not opened");
    return NGTCP2_ERR_STREAM_NOT_FOUND;
  }
  sim::out_stream &s = it->second;
  if (s.fin) {
    sim::misuse(conn, "writing stream " + std::to_string(stream_id) + " after its end");
    return NGTCP2_ERR_STREAM_SHUT_WR;
  }
  sim::plan p;
  if (conn->write_stream) {
    p = conn->write_stream(stream_id, datalen, fin != 0);
  }
  switch (p.what) {
    case sim::plan::data_blocked:
      if (datalen > 0) {
        return NGTCP2_ERR_STREAM_DATA_BLOCKED;
      }
      break;
    case sim::plan::failure:
      return p.error;
    case sim::plan::nothing:
      return 0;
    case sim::plan::other_packet:
      return sim::packet(conn, dest, destlen, 20);
    case sim::plan::data:
      break;
  }
  size_t n = std::min(datalen, std::min(p.limit, destlen - 29));
  if (datalen > 0 && n == 0) {
    return 0;
  }
  std::string bytes(reinterpret_cast<const char *>(data), n);
  s.data += bytes;
  if (n > 0) {
    s.unacked.push_back({ data, bytes });
  }
  if (n == datalen && fin != 0) {
    s.fin = true;
    s.fin_alone = n == 0;
  }
  *pdatalen = static_cast<ssize_t>(n);
  return sim::packet(conn, dest, destlen, n);
}

int
ngtcp2_conn_read_pkt(ngtcp2_conn *conn, const ngtcp2_path *path, const uint8_t *pkt, size_t pktlen, ngtcp2_tstamp ts)
{
  same_path(conn, path);
  conn->stamps.push_back(ts);
  std::string bytes(reinterpret_cast<const char *>(pkt), pktlen);
  conn->received.push_back(bytes);
  // The first four bytes tell which of the prepared packets this is.
  if (bytes.size() < 4) {
    return NGTCP2_ERR_PROTO;
  }
  uint32_t index = 0;
  memcpy(&index, bytes.data(), 4);
  if (index >= conn->packets.size()) {
    return NGTCP2_ERR_PROTO;
  }
  std::vector<sim::action> actions = conn->packets[index];
  conn->read_result = 0;
  for (const sim::action &a : actions) {
    conn->read_result = a(conn);
    if (conn->read_result != 0) {
      return conn->read_result;
    }
  }
  return 0;
}

uint64_t
ngtcp2_conn_get_idle_timeout(ngtcp2_conn *conn)
{
  return conn->idle_timeout;
}

ngtcp2_tstamp
ngtcp2_conn_get_expiry(ngtcp2_conn *conn)
{
  return conn->expiry;
}

ngtcp2_tstamp
ngtcp2_conn_loss_detection_expiry(ngtcp2_conn *conn)
{
  return conn->loss_expiry;
}

ngtcp2_tstamp
ngtcp2_conn_ack_delay_expiry(ngtcp2_conn *conn)
{
  return conn->ack_expiry;
}

int
ngtcp2_conn_on_loss_detection_timer(ngtcp2_conn *conn, ngtcp2_tstamp ts)
{
  conn->timers.push_back({ "loss", ts });
  if (conn->on_loss) {
    conn->on_loss();
  }
  return conn->loss_result;
}

void
ngtcp2_conn_cancel_expired_ack_delay_timer(ngtcp2_conn *conn, ngtcp2_tstamp ts)
{
  conn->timers.push_back({ "ack", ts });
  if (conn->on_ack) {
    conn->on_ack();
  }
}

int
ngtcp2_conn_open_bidi_stream(ngtcp2_conn *conn, int64_t *pstream_id, void *)
{
  if (conn->open_failures > 0 && --conn->open_failures == 0) {
    return NGTCP2_ERR_NOMEM;
  }
  if (conn->next_bidi >= conn->max_bidi) {
    return NGTCP2_ERR_STREAM_ID_BLOCKED;
  }
  *pstream_id = conn->next_bidi;
  conn->streams[conn->next_bidi];
  conn->next_bidi += 4;
  return 0;
}

int
ngtcp2_conn_open_uni_stream(ngtcp2_conn *conn, int64_t *pstream_id, void *)
{
  if (conn->open_failures > 0 && --conn->open_failures == 0) {
    return NGTCP2_ERR_NOMEM;
  }
  if (conn->next_uni >= conn->max_uni) {
    return NGTCP2_ERR_STREAM_ID_BLOCKED;
  }
  *pstream_id = conn->next_uni;
  conn->streams[conn->next_uni];
  conn->next_uni += 4;
  return 0;
}
