// The simulated transport: what it was told, and what it should do next.
#pragma once

#include <ngtcp2/ngtcp2.h>

#include <functional>
#include <list>
#include <map>
#include <string>
#include <vector>

namespace sim {

// Bytes that were handed over without being copied.
struct kept {
  const uint8_t *data;
  std::string bytes; // what they were at that time
};

struct out_stream {
  std::string data; // written so far
  bool fin = false;
  bool fin_alone = false; // the end was in a frame of its own that was not acknowledged
  uint64_t acked = 0;
  std::list<kept> unacked;
};

struct keys {
  std::string key, iv, hp;
  unsigned installed = 0;
};

// What a call to write a stream does.
struct plan {
  enum kind { data, nothing, other_packet, data_blocked, failure } what = data;
  size_t limit = SIZE_MAX; // of the stream's bytes
  int error = NGTCP2_ERR_NOMEM;
};

// A frame in a received packet.
using action = std::function<int(ngtcp2_conn *)>;

} // namespace sim

struct ngtcp2_conn {
  ngtcp2_conn_callbacks cb = {};
  ngtcp2_settings settings = {};
  ngtcp2_cid dcid = {}, scid = {};
  std::string local, remote;
  uint32_t version = 0;
  void *user = nullptr;

  std::map<int64_t, sim::out_stream> streams;
  int64_t next_bidi = 0, next_uni = 2;
  int64_t max_bidi = INT64_MAX, max_uni = INT64_MAX; // first ids that are blocked

  std::map<int64_t, uint64_t> stream_credit; // what the limits of the server were raised by
  uint64_t credit = 0;

  std::string crypto[4]; // submitted, per level
  std::list<sim::kept> crypto_unacked[4];
  bool crypto_pending = false;
  bool initial_called = false;

  std::map<std::string, sim::keys> installed;
  size_t aead_overhead = 0;
  bool completed = false;
  std::vector<ngtcp2_transport_params> remote_params;

  std::function<sim::plan(int64_t id, size_t size, bool fin)> write_stream;
  std::function<sim::plan()> write_pkt;
  std::vector<std::vector<sim::action>> packets; // what received packets contain
  int read_result = 0;                           // of the last received packet
  std::vector<std::string> received;             // the packets, as they came
  std::string last_packet;                       // the last one that was written
  std::vector<std::string> written;              // all of them
  std::string problem;                           // a misuse of the interface
  unsigned key_failures = 0;                     // fail the next installations
  unsigned open_failures = 0;
  unsigned crypto_failures = 0;  // fail to take crypto data
  bool refuse_params = false;

  uint64_t idle_timeout = 0, expiry = UINT64_MAX, loss_expiry = UINT64_MAX, ack_expiry = UINT64_MAX;
  int loss_result = 0;
  std::function<void()> on_loss, on_ack; // the timers were handled
  std::vector<std::pair<std::string, uint64_t>> timers; // the calls
  std::vector<uint64_t> stamps;                         // the times of all calls that have one
  uint64_t packets_written = 0;

  // Reads everything that was handed over and not acknowledged again, as a
  // retransmission does.
  void retransmit();
  int ack(int64_t id, size_t size);
  int ack_fin(int64_t id);
  int ack_crypto(ngtcp2_crypto_level level, size_t size);
};

namespace sim {
extern thread_local std::vector<ngtcp2_conn *> connections; // all that live
std::string encode_params(const ngtcp2_transport_params &p);
} // namespace sim
