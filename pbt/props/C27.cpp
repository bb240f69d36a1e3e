// C27: QUIC streams hand every byte to the transport once, in order, and keep
// it until it is acknowledged.
#include "quic.hpp"

#include <algorithm>
#include <map>

PROPERTY("C27",
         "an established QUIC connection on a simulated transport: generated histories of adding data (pieces of 0 to 5000 bytes, "
         "in some runs to 140000, equal pieces, the end with or without data) to up to six (in some runs 90) streams, sending with a transport that takes all, part or "
         "nothing, blocks, fails or sends something of its own, acknowledging any prefix, retransmitting and moving the "
         "connection; non-trivial: a piece was taken in parts or a stream was blocked or a move happened while data was unacknowledged");

using namespace qw;

struct model {
  std::string added;
  bool fin = false;
  bool first = true;
};

struct run {
  gen &g;
  world w;
  std::map<uint64_t, model> streams;
  std::vector<uint64_t> wrote; // bytes offered per call, for the notes
  unsigned mode = 0;           // of the transport
  bool produced = false;
  bool failed = false;
  bool all = false; // the transport takes everything now
  bool interesting = false;
  unsigned other = 0;
  bool large = false;

  explicit run(gen &g_)
    : g(g_)
  {}

  sim::plan plan(int64_t id, size_t size, bool fin)
  {
    sim::plan p;
    if (all) {
      produced = true;
      return p;
    }
    switch (g.pick({ 6, 5, 2, 2, 2, 1 })) {
      case 0:
        produced = true;
        break;
      case 1:
        p.limit = static_cast<size_t>(large && g.chance(7, 8) ? SIZE_MAX : g.integer(1, size > 1 ? size : 1));
        if (p.limit < size) {
          interesting = true;
        }
        produced = true;
        break;
      case 2:
        p.what = sim::plan::nothing;
        interesting = true;
        break;
      case 3:
        if (other < 20) {
          other++;
          p.what = sim::plan::other_packet;
        }
        produced = true;
        break;
      case 4:
        p.what = size > 0 ? sim::plan::data_blocked : sim::plan::nothing;
        interesting = true;
        break;
      default:
        p.what = sim::plan::failure;
        p.error = NGTCP2_ERR_NOMEM;
        failed = true;
        break;
    }
    g.note("  the transport is offered " + std::to_string(size) + " bytes of stream " + std::to_string(id) +
           (fin ? " and the end" : "") + ": " +
           (p.what == sim::plan::data           ? "takes up to " + std::to_string(p.limit)
            : p.what == sim::plan::nothing      ? "takes nothing"
            : p.what == sim::plan::other_packet ? "sends something else"
            : p.what == sim::plan::data_blocked ? "is blocked"
                                                : "fails"));
    return p;
  }

  void send()
  {
    produced = failed = false;
    auto r = w.c->send();
    w.healthy();
    if (failed) {
      CHECK(!r && r.error() == quic::error::ngtcp2, "a failure of the transport is not reported");
    } else if (produced) {
      CHECK(r, "the transport made a packet but sending gave an error");
      CHECK(str(r.value()) == w.t->last_packet, "the packet is not the one the transport made");
    } else {
      CHECK(!r, "a packet of " << r.value().size() << " bytes although the transport made none");
      CHECK(r.error() == quic::error::idle, "having nothing to send is not reported as idle");
    }
    compare(false);
  }

  void compare(bool complete)
  {
    for (auto &e : streams) {
      auto it = w.t->streams.find(static_cast<int64_t>(e.first));
      std::string sent = it == w.t->streams.end() ? "" : it->second.data;
      bool fin = it != w.t->streams.end() && it->second.fin;
      const model &m = e.second;
      CHECK(m.added.compare(0, sent.size(), sent) == 0 && sent.size() <= m.added.size(),
            "stream " << e.first << " carries " << pbt::hex(sent) << " instead of " << pbt::hex(m.added));
      CHECK(!fin || (m.fin && sent.size() == m.added.size()),
            "stream " << e.first << " ended after " << sent.size() << " of " << m.added.size() << " bytes"
                      << (m.fin ? "" : " although it was not ended"));
      if (complete) {
        CHECK(sent.size() == m.added.size(),
              "stream " << e.first << " carries " << sent.size() << " of " << m.added.size() << " bytes");
        CHECK(fin == m.fin, "the end of stream " << e.first << " was not sent");
      }
    }
    if (complete || !large || g.chance(1, 16)) {
      w.t->retransmit();
    }
    w.healthy();
  }

  void ack(int64_t id, size_t size)
  {
    acked({ [id, size](ngtcp2_conn *t) { return t->ack(id, size); } });
  }

  void ack_fin(int64_t id)
  {
    acked({ [id](ngtcp2_conn *t) { return t->ack_fin(id); } });
  }

  void acked(const std::vector<sim::action> &actions)
  {
    w.t->packets.push_back(actions);
    uint32_t index = static_cast<uint32_t>(w.t->packets.size() - 1);
    auto e = w.c->recv(base::buffer_view(reinterpret_cast<const uint8_t *>(&index), 4));
    CHECK(e, "a packet was refused");
    CHECK(!e.value().next(), "an acknowledgement gives an event: " << (e.value().get() ? "an event" : "an error"));
    CHECK(w.t->read_result == 0, "an acknowledgement of what was sent is refused: " << w.t->read_result);
  }
};

static void
histories(gen &g)
{
  run r(g);
  establish(r.w);
  r.large = g.chance(1, 40);
  size_t most = r.large ? 90 : 6;
  r.w.t->write_stream = [&r](int64_t id, size_t size, bool fin) { return r.plan(id, size, fin); };
  uint64_t next_bidi = 0, next_uni = 2;
  if (g.chance(1, 8)) { // as if there had been others before
    uint64_t few = g.integer(0, 1ULL << 58U), many = g.integer(0, 1ULL << 58U);
    r.w.t->next_bidi = static_cast<int64_t>(next_bidi += 4 * few);
    r.w.t->next_uni = static_cast<int64_t>(next_uni += 4 * many);
  }
  bool blocked = g.chance(1, 4);
  if (blocked) {
    r.w.t->max_bidi = static_cast<int64_t>(next_bidi + 4 * g.draw(2));
    r.w.t->max_uni = static_cast<int64_t>(next_uni + 4 * g.draw(2));
    g.note("streams from " + std::to_string(r.w.t->max_bidi) + " and " + std::to_string(r.w.t->max_uni) + " are blocked");
  }
  std::string last = "x";
  size_t moves = 0;
  for (size_t n = 0; r.large ? g.more(n, 40, 300, 150) : g.more(n, 1, 60, 16); n++) {
    switch (g.pick({ 5, 6, 3, 1 })) {
      case 0: { // add
        std::vector<uint64_t> open;
        for (auto &e : r.streams) {
          if (!e.second.fin) {
            open.push_back(e.first);
          }
        }
        uint64_t id = 0;
        bool fresh = r.streams.size() < most && (open.empty() || g.chance(1, r.large ? 2 : 4));
        if (fresh) {
          if (g.chance(1, 2)) {
            id = next_uni;
            next_uni += 4;
          } else {
            id = next_bidi;
            next_bidi += 4;
          }
        } else if (open.empty()) {
          break;
        } else {
          id = g.of(open);
        }
        std::string bytes;
        switch (g.pick({ 4, 4, 2, 2 })) {
          case 0:
            bytes = g.bytes(g.range(fresh ? 1 : 0, 24));
            break;
          case 1:
            bytes = last;
            break;
          case 2:
            bytes = g.bytes(r.large && g.chance(1, 4) ? g.integer(60000, 140000) : g.size(5000));
            break;
          default:
            break;
        }
        bool fin = g.chance(1, 4);
        if (fresh && bytes.empty() && !fin) {
          bytes = "y";
        }
        if (!bytes.empty()) {
          last = bytes;
        }
        g.note("add " + std::to_string(bytes.size()) + " bytes" + (fin ? " and the end" : "") + " to stream " +
               std::to_string(id));
        quic::data d;
        d.id = id;
        d.fin = fin;
        d.buffer = buf(bytes);
        auto a = r.w.c->add(quic::event(std::move(d)));
        CHECK(a, "data was refused");
        model &m = r.streams[id];
        m.added += bytes;
        m.fin = fin;
        break;
      }
      case 1:
        g.note("send");
        for (size_t k = r.large ? g.draw(60) : 0; k > 0; k--) {
          r.send();
        }
        r.send();
        break;
      case 2: { // acknowledge
        std::vector<int64_t> ids;
        for (auto &e : r.w.t->streams) {
          if (!e.second.unacked.empty() || e.second.fin_alone) {
            ids.push_back(e.first);
          }
        }
        if (ids.empty()) {
          break;
        }
        int64_t id = g.of(ids);
        sim::out_stream &s = r.w.t->streams[id];
        if (s.fin_alone && (s.unacked.empty() || g.chance(1, 3))) {
          g.note("acknowledge the end of stream " + std::to_string(id));
          r.ack_fin(id);
          r.compare(false);
          break;
        }
        size_t left = s.data.size() - static_cast<size_t>(s.acked);
        size_t size = static_cast<size_t>(g.chance(1, 2) ? left : g.integer(1, left));
        g.note("acknowledge " + std::to_string(size) + " of " + std::to_string(left) + " bytes of stream " + std::to_string(id));
        r.ack(id, size);
        r.compare(false);
        break;
      }
      default:
        if (moves < 3) {
          moves++;
          for (auto &e : r.w.t->streams) {
            if (!e.second.unacked.empty()) {
              r.interesting = true;
            }
          }
          r.w.move(g);
          r.compare(false);
        }
        break;
    }
  }
  // Everything gets through in the end.
  g.note("the transport takes everything now");
  r.all = true;
  r.w.t->max_bidi = r.w.t->max_uni = INT64_MAX;
  size_t bound = 100;
  for (auto &e : r.streams) {
    bound += e.second.added.size() / 200 + 60;
  }
  bool idle = false;
  for (size_t i = 0; i < bound && !idle; i++) {
    r.produced = r.failed = false;
    uint64_t packets = r.w.t->packets_written;
    auto s = r.w.c->send();
    idle = !s;
    CHECK(s || s.error() == quic::error::idle, "sending fails");
    CHECK(!s || r.w.t->packets_written > packets, "a packet the transport did not make");
  }
  CHECK(idle, "sending does not come to an end");
  r.compare(true);
  // And is forgotten when the peer has it.
  if (g.chance(1, 2)) {
    g.note("everything is acknowledged");
    size_t total = 0;
    for (auto &e : r.w.t->streams) {
      total += e.second.data.size();
      if (e.second.data.size() > e.second.acked) {
        r.ack(e.first, e.second.data.size() - static_cast<size_t>(e.second.acked));
      }
      if (e.second.fin_alone) {
        r.ack_fin(e.first);
      }
    }
    auto s = r.w.c->send();
    CHECK(!s && s.error() == quic::error::idle, "something is sent after everything was acknowledged");
    for (auto &e : r.w.t->streams) {
      sim::out_stream none;
      std::swap(e.second, none);
    }
    std::vector<std::string>().swap(r.w.t->received);
    std::vector<std::string>().swap(r.w.t->written);
    std::vector<std::vector<sim::action>>().swap(r.w.t->packets);
    std::vector<uint64_t>().swap(r.w.t->stamps);
    int64_t before = pbt::live_bytes();
    r.w.c.reset();
    int64_t held = before - pbt::live_bytes(), few = 30000 + 1000 * static_cast<int64_t>(r.streams.size());
    CHECK(held < few, "the connection still holds " << held << " bytes after all " << total << " were acknowledged");
  }
  if (r.interesting) {
    g.nontrivial();
  }
}

PART("histories of a sending connection", histories, 36000, 120000);
