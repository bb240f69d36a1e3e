// A client and a server joined by a transport, driven by a generated program.
#pragma once

#include "net.hpp"

#include <deque>

namespace world {

using namespace bnl;
using namespace net;
using client_t = http3::client::connection;
using server_t = http3::server::connection;
using handle_t = http3::request::handle;

// What a program submitted on one stream, in one direction.
struct outgoing {
  std::unique_ptr<handle_t> handle;
  message m;
  bool started = false;
  bool ended = false;
  bool complete() const { return started && ended; }
};

// What the transport carries on one stream, in one direction.
struct channel {
  std::deque<base::buffer> queue;
  std::string sent;      // everything the sender handed over
  bool fin = false;      // the sender ended the stream
  bool fin_taken = false;
  size_t events = 0;
};

template<typename Connection>
struct endpoint {
  using generator_t = http3::endpoint::generator<Connection>;
  std::unique_ptr<Connection> connection{ new Connection() };
  std::map<uint64_t, outgoing> out;
  std::map<uint64_t, channel> incoming; // what is on its way to this endpoint
  std::map<uint64_t, observed> seen;
  std::map<uint64_t, generator_t> pending;
  bool idle = false;
};

inline void
prefix_check(const char *who, uint64_t id, const observed &o, const outgoing &from, const channel &c)
{
  CHECK(o.headers.size() <= from.m.headers.size() &&
          std::equal(o.headers.begin(), o.headers.end(), from.m.headers.begin()),
        who << " stream " << id << ": reported headers " << show(o.headers) << "\nsubmitted " << show(from.m.headers));
  CHECK(!o.headers_done || (from.started && o.headers.size() == from.m.headers.size()),
        who << " stream " << id << ": the last header is flagged too early");
  CHECK(from.m.body.compare(0, o.body.size(), o.body) == 0,
        who << " stream " << id << ": reported body " << pbt::hex(o.body) << " submitted " << pbt::hex(from.m.body));
  CHECK(!o.finished || (from.complete() && c.fin_taken && o.body == from.m.body && o.headers_done),
        who << " stream " << id << ": finished early, with " << describe(o));
  CHECK(!o.body_done || (from.ended && o.body == from.m.body), who << " stream " << id << ": body flagged complete early");
}

struct world {
  gen &g;
  endpoint<client_t> client;
  endpoint<server_t> server;
  size_t max_value;
  size_t max_body;
  size_t max_requests = 5;
  size_t interleaved = 0;
  size_t moves = 0;
  size_t early = 0;

  world(gen &g, size_t max_value, size_t max_body)
    : g(g)
    , max_value(max_value)
    , max_body(max_body)
  {}

  // --- the program ---

  uint64_t new_request()
  {
    auto r = client.connection->request();
    CHECK(r, "request() failed with " << name(r.error()));
    handle_t h = std::move(r).value();
    uint64_t id = h.id();
    CHECK(client.out.count(id) == 0, "stream number " << id << " was used before");
    CHECK(id % 4 == 0, "stream number " << id << " is not that of a client-initiated bidirectional stream");
    client.out[id].handle.reset(new handle_t(std::move(h)));
    g.note("request " + std::to_string(id));
    return id;
  }

  // One valid call on the handle; false when the message is complete.
  bool submit(const char *who, uint64_t id, outgoing &o)
  {
    if (o.complete()) {
      return false;
    }
    std::string label = std::string(who) + " " + std::to_string(id) + ": ";
    unsigned can_header = !o.started && o.m.headers.size() < 12;
    unsigned can_start = !o.started && !o.m.headers.empty();
    unsigned can_body = !o.ended;
    unsigned can_end = !o.ended;
    switch (g.pick({ 2 * can_end, 3 * can_start, 6 * can_header, 3 * can_body })) {
      case 0: {
        g.note(label + "fin");
        auto r = o.handle->fin();
        CHECK(r, label << "fin() failed with " << name(r.error()));
        o.ended = true;
        break;
      }
      case 1: {
        g.note(label + "start");
        auto r = o.handle->start();
        CHECK(r, label << "start() failed with " << name(r.error()));
        o.started = true;
        break;
      }
      case 2: {
        ref::header h = gen_header(g, max_value);
        g.note(label + "header " + text(h.name) + " " + text(h.value));
        auto r = o.handle->header(view(h));
        CHECK(r, label << "header() failed with " << name(r.error()));
        o.m.headers.push_back(h);
        break;
      }
      default: {
        std::string b = g.bytes(g.size(max_body));
        g.note(label + "body of " + std::to_string(b.size()) + " " + pbt::hex(b, 16));
        auto r = o.handle->body(gen_buffer(g, b));
        CHECK(r, label << "body() failed with " << name(r.error()));
        o.m.body += b;
        break;
      }
    }
    CHECK(o.handle->id() == id, "the handle of stream " << id << " says " << o.handle->id());
    return true;
  }

  // --- sending ---

  template<typename From, typename To>
  bool send(const char *who, From &from, To &to)
  {
    auto r = from.connection->send();
    if (!r) {
      CHECK(r.error() == error::idle, who << " send() failed with " << name(r.error()));
      return false;
    }
    quic::event e = std::move(r).value();
    CHECK(e == quic::event::type::data, who << " sent an error event");
    uint64_t id = e.data.id;
    channel &c = to.incoming[id];
    g.note(std::string(who) + " sends on " + std::to_string(id) + ": " + std::to_string(e.data.buffer.size()) +
           " bytes" + (e.data.fin ? " and the end" : "") + " " + pbt::hex(str(e.data.buffer), 24));
    CHECK(!c.fin, who << " sent on stream " << id << " after its end");
    c.sent += str(e.data.buffer);
    c.queue.push_back(std::move(e.data.buffer));
    c.fin = e.data.fin;
    c.events++;
    return true;
  }

  // --- delivering ---

  template<typename E>
  void step(const char *who, E &to, uint64_t id, size_t most)
  {
    auto it = to.pending.find(id);
    if (it == to.pending.end()) {
      return;
    }
    bool control = id == peer_control<typename std::remove_reference<decltype(*to.connection)>::type>();
    for (size_t n = 0; n < most; n++) {
      CHECK(n < 200000, "endless events");
      if (!it->second.next()) {
        to.pending.erase(it);
        return;
      }
      http3::result<http3::event> r = it->second.get();
      CHECK(r, who << " reported " << name(r.error()) << " on stream " << id);
      http3::event e = std::move(r).value();
      observe(to.seen[id], id, e, control);
    }
  }

  template<typename E>
  static bool deliverable(const E &to, uint64_t id)
  {
    auto it = to.incoming.find(id);
    return it != to.incoming.end() && (!it->second.queue.empty() || (it->second.fin && !it->second.fin_taken));
  }

  template<typename E>
  void deliver_some(const char *who, E &to, uint64_t id, bool plain)
  {
    channel &c = to.incoming[id];
    step(who, to, id, SIZE_MAX); // one generator per stream at a time
    base::buffer b;
    if (!c.queue.empty()) {
      size_t how = plain ? 0 : g.pick({ 4, 3, 2, 1 });
      if (how == 0) { // as it was sent
        b = std::move(c.queue.front());
        c.queue.pop_front();
      } else if (how == 1) { // a part of it
        size_t n = c.queue.front().size();
        n = static_cast<size_t>(g.draw(n));
        b = c.queue.front().slice(n);
        if (c.queue.front().empty()) {
          c.queue.pop_front();
        }
      } else if (how == 2) { // all there is
        while (!c.queue.empty()) {
          b = base::buffer::concat(b, c.queue.front());
          c.queue.pop_front();
        }
      } else { // copied by the transport
        b = to_buffer(str(c.queue.front()));
        c.queue.pop_front();
      }
    }
    bool fin = c.fin && c.queue.empty() && (plain || b.empty() || !g.chance(1, 4));
    if (fin) {
      c.fin_taken = true;
    }
    g.note(std::string(who) + " receives on " + std::to_string(id) + ": " + std::to_string(b.size()) + " bytes" +
           (fin ? " and the end" : ""));
    auto r = to.connection->recv(quic::event(quic::data{ id, fin, std::move(b) }));
    CHECK(r, who << " recv() failed with " << name(r.error()) << " on stream " << id);
    to.pending.emplace(id, std::move(r).value());
  }

  template<typename E>
  void settle(const char *who, E &to)
  {
    while (!to.pending.empty()) {
      step(who, to, to.pending.begin()->first, SIZE_MAX);
    }
  }

  template<typename E>
  void move(const char *who, E &e)
  {
    settle(who, e); // generators refer to the connection
    using C = typename std::remove_reference<decltype(*e.connection)>::type;
    g.note(std::string(who) + " moves");
    moves++;
    if (g.chance(1, 2)) {
      e.connection.reset(new C(std::move(*e.connection)));
    } else {
      std::unique_ptr<C> next(new C());
      *next = std::move(*e.connection);
      e.connection = std::move(next);
    }
  }

  void respond(uint64_t id)
  {
    auto r = server.connection->response(id);
    CHECK(r, "response() failed with " << name(r.error()) << " on stream " << id);
    outgoing &o = server.out[id];
    o.handle.reset(new handle_t(std::move(r).value()));
    CHECK(o.handle->id() == id, "the response handle of stream " << id << " says " << o.handle->id());
    g.note("respond " + std::to_string(id));
    if (!server.seen[id].finished) {
      early++;
    }
  }

  // Whether a response can be made: something of the request has arrived.
  bool answerable(uint64_t id)
  {
    return server.incoming.count(id) != 0 && server.incoming[id].events > 0 && server.seen.count(id) != 0 &&
           !server.seen[id].headers.empty() && server.out.count(id) == 0;
  }

  void check()
  {
    for (auto &entry : client.out) {
      uint64_t id = entry.first;
      prefix_check("server", id, server.seen[id], entry.second, server.incoming[id]);
      if (server.out.count(id) != 0) {
        prefix_check("client", id, client.seen[id], server.out[id], client.incoming[id]);
      } else {
        CHECK(client.seen[id].headers.empty() && !client.seen[id].finished,
              "client stream " << id << ": a response nobody gave");
      }
    }
  }

  template<typename Map>
  uint64_t any(const Map &m)
  {
    auto it = m.begin();
    std::advance(it, static_cast<long>(g.draw(m.size() - 1)));
    return it->first;
  }

  void one()
  {
    switch (g.pick({ 2, 10, 8, 6, 6, 7, 7, 2, 2, 1, 1, 1 })) {
      case 0:
        if (client.out.size() < max_requests) {
          new_request();
        }
        break;
      case 1:
        if (!client.out.empty()) {
          uint64_t id = any(client.out);
          submit("request", id, client.out[id]);
        }
        break;
      case 2: {
        if (client.out.empty()) {
          break;
        }
        uint64_t id = any(client.out);
        if (server.out.count(id) != 0) {
          submit("response", id, server.out[id]);
        } else if (answerable(id)) {
          respond(id);
        }
        break;
      }
      case 3:
        send("client", client, server);
        break;
      case 4:
        send("server", server, client);
        break;
      case 5:
        if (!server.incoming.empty()) {
          uint64_t id = any(server.incoming);
          if (deliverable(server, id)) {
            deliver_some("server", server, id, false);
            if (!g.chance(1, 4)) {
              step("server", server, id, SIZE_MAX);
            }
          }
        }
        break;
      case 6:
        if (!client.incoming.empty()) {
          uint64_t id = any(client.incoming);
          if (deliverable(client, id)) {
            deliver_some("client", client, id, false);
            if (!g.chance(1, 4)) {
              step("client", client, id, SIZE_MAX);
            }
          }
        }
        break;
      case 7:
        if (!server.pending.empty()) {
          step("server", server, any(server.pending), 1);
          interleaved++;
        }
        break;
      case 8:
        if (!client.pending.empty()) {
          step("client", client, any(client.pending), 1);
          interleaved++;
        }
        break;
      case 9:
        if (g.chance(1, 2)) {
          move("client", client);
        } else {
          move("server", server);
        }
        break;
      case 10: { // move a handle
        auto &out = g.chance(1, 2) ? client.out : server.out;
        if (!out.empty()) {
          outgoing &o = out[any(out)];
          std::unique_ptr<handle_t> h(new handle_t(std::move(*o.handle)));
          o.handle = std::move(h);
        }
        break;
      }
      default: // a burst
        for (size_t n = 0; n < 4; n++) {
          send("client", client, server);
          send("server", server, client);
        }
        break;
    }
    check();
  }

  // Completes every message and delivers everything.
  void finish()
  {
    g.note("-- finish");
    for (size_t round = 0;; round++) {
      CHECK(round < 10000, "the exchange never ends");
      bool progress = false;
      settle("client", client);
      settle("server", server);
      for (auto &entry : client.out) {
        uint64_t id = entry.first;
        progress |= submit("request", id, entry.second);
        if (answerable(id)) {
          respond(id);
          progress = true;
        }
        if (server.out.count(id) != 0) {
          progress |= submit("response", id, server.out[id]);
        }
      }
      for (size_t n = 0; send("client", client, server); n++) {
        CHECK(n < 100000, "client send() never becomes idle");
        progress = true;
      }
      for (size_t n = 0; send("server", server, client); n++) {
        CHECK(n < 100000, "server send() never becomes idle");
        progress = true;
      }
      for (auto &entry : server.incoming) {
        while (deliverable(server, entry.first)) {
          deliver_some("server", server, entry.first, round > 50);
          step("server", server, entry.first, SIZE_MAX);
          progress = true;
        }
      }
      for (auto &entry : client.incoming) {
        while (deliverable(client, entry.first)) {
          deliver_some("client", client, entry.first, round > 50);
          step("client", client, entry.first, SIZE_MAX);
          progress = true;
        }
      }
      check();
      if (!progress) {
        break;
      }
    }
    for (auto &entry : client.out) {
      uint64_t id = entry.first;
      CHECK(server.seen[id].finished, "server stream " << id << ": the request never finished: got "
                                                       << describe(server.seen[id]) << "\nsubmitted "
                                                       << show(entry.second.m.headers) << ", body of "
                                                       << entry.second.m.body.size());
      CHECK(server.out.count(id) != 0, "server stream " << id << " could not be answered");
      CHECK(client.seen[id].finished, "client stream " << id << ": the response never finished: got "
                                                       << describe(client.seen[id]));
    }
    CHECK(server.seen[2].settings == 1, "the server reported " << server.seen[2].settings << " settings events");
    CHECK(client.seen[3].settings == 1, "the client reported " << client.seen[3].settings << " settings events");
  }
};

} // namespace world
