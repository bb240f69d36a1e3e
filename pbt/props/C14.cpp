// C14: streams and connections are isolated from each other.
#include "program.hpp"

PROPERTY("C14",
         "receiving: two to six streams (messages with or without unknown frames and trailing headers, some not finished yet) cut "
         "into pieces, delivered to a server or a waiting client in a generated interleaving, event by event, together with the "
         "control stream, own messages being sent, and traffic, valid or not, on two further connections; sending: "
         "programs over two to five streams on two connections; each stream must give what it gives alone on a fresh connection; "
         "also the numbers of up to 300 requests, and client and server pairs that live through 15000 to 70000 exchanges; non-trivial: two streams were in progress at the same time");

using namespace net;
using program::op;
using program::runner;

struct traffic {
  uint64_t id;
  std::vector<piece> pieces;
  size_t next = 0;
  observed alone;
  observed together;
};

// Takes one event from a delivery in progress; false when there is none left.
template<typename C>
static bool
take(bnl::http3::endpoint::generator<C> &generator, uint64_t id, bool control, observed &o)
{
  if (!generator.next()) {
    return false;
  }
  bnl::http3::result<bnl::http3::event> e = generator.get();
  CHECK(e, "stream " << id << " failed with " << name(e.error()));
  bnl::http3::event event = std::move(e).value();
  observe(o, id, event, control);
  return true;
}

static std::string
garbage(gen &g)
{
  std::string s;
  while (g.chance(2, 3)) {
    switch (g.draw(3)) {
      case 0:
        s += gen_stream(g, gen_message(g, 3, 20, 20), framing()).bytes;
        break;
      case 1:
        s += ref::frame_head(ref::frame());
        break;
      default:
        s += g.bytes(g.size(20));
        break;
    }
  }
  return s;
}

// `make(all)` gives a connection with streams open to receive on.
template<typename C, typename Make>
static void
receive(gen &g, Make make, uint64_t control, size_t streams)
{
  std::vector<traffic> ts;
  std::vector<uint64_t> ids;
  if (control == 2) {
    ids = gen_stream_ids(g, streams);
  }
  for (size_t i = 0; i < streams; i++) {
    traffic t;
    t.id = control == 2 ? ids[i] : 4 * i;
    message m = gen_message(g, 5, g.chance(1, 100) ? 200000 : 40, g.chance(1, 100) ? 1 << 20 : 200);
    framing f;
    f.unknown_frames = g.chance(1, 4);
    f.trailers = g.chance(1, 6);
    std::string bytes = gen_stream(g, m, f).bytes;
    bool fin = g.chance(3, 4);
    if (!fin) {
      bytes.resize(static_cast<size_t>(g.draw(bytes.size())));
    }
    t.pieces = gen_pieces(g, bytes, fin);
    auto c = make(streams);
    for (const piece &p : t.pieces) {
      CHECK(deliver(c->connection, t.id, p, t.alone), "stream " << t.id << " alone: " << describe(t.alone));
    }
    CHECK(!fin || t.alone == complete(m), "stream " << t.id << " alone: " << describe(t.alone));
    ts.push_back(std::move(t));
  }
  {
    ref::frame s;
    s.type = ref::F_SETTINGS;
    s.num_placeholders = g.draw(1000);
    traffic t;
    t.id = control;
    t.pieces = gen_pieces(g, std::string(1, '\0') + ref::frame_head(s), false);
    t.alone.settings = 1;
    ts.push_back(std::move(t));
  }

  auto c = make(streams);
  auto other_client = make_client(3);
  auto other_server = make_server();
  bool client_ok = true;
  bool server_ok = true;
  std::map<size_t, bnl::http3::endpoint::generator<C>> pending;
  size_t concurrent = 0;
  while (true) {
    std::vector<size_t> can;
    for (size_t i = 0; i < ts.size(); i++) {
      if (ts[i].next < ts[i].pieces.size() || pending.count(i) != 0) {
        can.push_back(i);
      }
    }
    if (can.empty()) {
      break;
    }
    uint64_t what = g.pick({ 12, 1, 1, 1 });
    if (what == 1) { // something of its own to send
      auto e = c->connection.send();
      CHECK(e || e.error() == error::idle, "send() failed");
      continue;
    }
    if (what == 2) {
      observed o;
      try {
        client_ok = client_ok && deliver(other_client->connection, g.chance(1, 3) ? 3 : 4 * g.draw(4), to_buffer(garbage(g)), g.chance(1, 4), o);
      } catch (pbt::failure &) { // not what is examined here
        client_ok = false;
      }
      continue;
    }
    if (what == 3) {
      observed o;
      try {
        server_ok = server_ok && deliver(other_server->connection, g.chance(1, 3) ? 2 : 4 * g.draw(6), to_buffer(garbage(g)), g.chance(1, 4), o);
      } catch (pbt::failure &) {
        server_ok = false;
      }
      continue;
    }
    size_t i = g.of(can);
    traffic &t = ts[i];
    bool is_control = t.id == control;
    auto it = pending.find(i);
    if (it != pending.end() && (t.next == t.pieces.size() || g.chance(1, 2))) {
      if (!take(it->second, t.id, is_control, t.together)) {
        pending.erase(it);
      }
      continue;
    }
    if (it != pending.end()) { // the rest of the events first
      size_t n = 0;
      while (take(it->second, t.id, is_control, t.together)) {
        CHECK(n++ < 100000, "endless events");
      }
      pending.erase(it);
    }
    const piece &p = t.pieces[t.next++];
    g.note("stream " + std::to_string(t.id) + ": " + pbt::hex(p.bytes, 100) + (p.fin ? " and the end" : ""));
    auto r = c->connection.recv(bnl::quic::event(bnl::quic::data{ t.id, p.fin, to_buffer(p.bytes) }));
    CHECK(r, "recv() failed with " << name(r.error()) << " on stream " << t.id);
    pending.emplace(i, std::move(r).value());
    size_t open = 0;
    for (const traffic &x : ts) {
      open += x.id != control && x.next > 0 && x.next < x.pieces.size();
    }
    concurrent = std::max(concurrent, open);
  }
  for (const traffic &t : ts) {
    CHECK(t.together == t.alone, "stream " << t.id << " among others: " << describe(t.together) << "\nalone: " << describe(t.alone));
  }
  if (concurrent >= 2) {
    g.nontrivial();
  }
}

static void
receiving(gen &g)
{
  size_t streams = static_cast<size_t>(g.range(2, 6));
  if (g.chance(1, 2)) {
    g.label("server");
    receive<bnl::http3::server::connection>(g, [](size_t) { return make_server(); }, 2, streams);
  } else {
    g.label("client");
    receive<bnl::http3::client::connection>(g, [](size_t n) { return make_client(n); }, 3, streams);
  }
}

template<typename C>
static void
open(runner<C> &r, const std::vector<bool> &ended, const std::vector<uint64_t> &numbers)
{
  r.numbers = numbers;
  for (bool e : ended) {
    r.open(e);
  }
}

template<typename C>
static void
send(gen &g)
{
  program::options o;
  o.streams = static_cast<size_t>(g.range(2, 5));
  o.steps = 100;
  std::vector<op> ops[2] = { program::gen_program(g, o), program::gen_program(g, o) };
  std::vector<bool> ended;
  for (size_t i = 0; i < o.streams; i++) {
    ended.push_back(g.chance(1, 2));
  }
  runner<C> both[2];
  std::vector<uint64_t> numbers = gen_stream_ids(g, o.streams);
  open(both[0], ended, numbers);
  open(both[1], ended, numbers);
  size_t next[2] = { 0, 0 };
  while (next[0] < ops[0].size() || next[1] < ops[1].size()) {
    size_t k = next[0] == ops[0].size() ? 1 : next[1] == ops[1].size() ? 0 : static_cast<size_t>(g.draw(1));
    g.note("connection " + std::to_string(k) + ": " + program::show(ops[k][next[k]]));
    both[k].run(ops[k][next[k]++]);
  }
  both[0].drain();
  both[1].drain();
  uint64_t control = runner<C>::is_client ? 2 : 3;
  size_t started = 0;
  for (size_t k = 0; k < 2; k++) {
    for (size_t s = 0; s < o.streams; s++) {
      runner<C> alone;
      open(alone, ended, numbers);
      for (const op &x : ops[k]) {
        bool shared = x.what == op::poll || x.what == op::drain || x.what == op::move_connection;
        if (shared || x.stream == s) {
          alone.run(x);
        }
      }
      alone.drain();
      uint64_t id = alone.ids[s];
      CHECK(both[k].out[id] == alone.out[id], "connection " << k << " stream " << id << ": sent "
                                                            << pbt::hex(both[k].out[id].bytes, 200)
                                                            << (both[k].out[id].fin ? " end" : "") << "\nalone "
                                                            << pbt::hex(alone.out[id].bytes, 200)
                                                            << (alone.out[id].fin ? " end" : ""));
      CHECK(both[k].out[control] == alone.out[control], "connection " << k << ": the control stream differs");
      started += k == 0 && both[k].at[s].started;
    }
  }
  if (started >= 2) {
    g.nontrivial();
  }
}

// Stream numbers, with messages coming and going.
static void
numbers(gen &g)
{
  using client_t = bnl::http3::client::connection;
  client_t a;
  client_t b;
  std::map<uint64_t, bnl::http3::request::handle> open[2];
  std::map<uint64_t, bool> used[2];
  size_t total = 0;
  for (size_t n = 0; g.more(n, 1, 300, 40); n++) {
    size_t k = static_cast<size_t>(g.draw(1));
    client_t &c = k == 0 ? a : b;
    if (open[k].empty() || g.chance(2, 3)) {
      auto r = c.request();
      CHECK(r, "request() failed with " << name(r.error()));
      bnl::http3::request::handle h = std::move(r).value();
      uint64_t id = h.id();
      CHECK(id % 4 == 0 && id <= ref::VARINT_MAX, "stream number " << id << " is not that of a client-initiated bidirectional stream");
      CHECK(!used[k][id], "stream number " << id << " was given twice");
      used[k][id] = true;
      open[k].emplace(id, std::move(h));
      total++;
      continue;
    }
    // Completes an exchange, so that the stream goes away.
    auto it = open[k].begin();
    std::advance(it, static_cast<long>(g.draw(open[k].size() - 1)));
    uint64_t id = it->first;
    CHECK(it->second.id() == id, "the handle of stream " << id << " says " << it->second.id());
    if (g.chance(1, 4)) {
      open[k].erase(it);
      continue;
    }
    CHECK(it->second.header(bnl::http3::header_view("a", "b")) && it->second.start() && it->second.fin(),
          "the request on stream " << id << " failed");
    bool ended = false;
    for (size_t i = 0;; i++) {
      CHECK(i < 100000, "send() never becomes idle");
      auto e = c.send();
      if (!e) {
        CHECK(e.error() == error::idle, "send() failed with " << name(e.error()));
        break;
      }
      bnl::quic::event v = std::move(e).value();
      CHECK(v.data.id == 2 || used[k].count(v.data.id) != 0, "something was sent on stream " << v.data.id);
      ended |= v.data.id == id && v.data.fin;
    }
    CHECK(ended, "the request on stream " << id << " was not ended");
    observed o;
    CHECK(deliver(c, id, to_buffer(frame(ref::F_HEADERS, std::string("\0\0\xd1", 3))), true, o) && o.finished,
          "the response on stream " << id << ": " << describe(o));
    open[k].erase(it);
  }
  if (total >= 3) {
    g.nontrivial();
  }
}

// A connection that lives long: tens of thousands of exchanges, one after the
// other or a few at a time.
static void
lifetimes(gen &g)
{
  bnl::http3::client::connection client;
  bnl::http3::server::connection server;
  size_t n = static_cast<size_t>(g.chance(1, 4) ? g.range(60000, 70000) : g.range(15000, 20000));
  size_t open = static_cast<size_t>(g.range(1, 4));
  g.note(std::to_string(n) + " exchanges, " + std::to_string(open) + " at a time");
  std::map<uint64_t, bnl::http3::request::handle> requests;
  std::map<uint64_t, observed> seen[2]; // by the server, by the client
  uint64_t last = 0;
  size_t total = 0;
  auto relay = [&](auto &from, auto &to, std::map<uint64_t, observed> &by, uint64_t control) {
    for (size_t i = 0;; i++) {
      CHECK(i < 1000, "send() never becomes idle");
      auto e = from.send();
      if (!e) {
        CHECK(e.error() == error::idle, "send() failed with " << name(e.error()));
        return;
      }
      bnl::quic::event v = std::move(e).value();
      uint64_t id = v.data.id;
      CHECK(id == control || requests.count(id) != 0, "something was sent on stream " << id << " after " << total << " requests");
      observed control_events;
      observed &o = id == control ? control_events : by[id];
      CHECK(deliver(to, id, to_buffer(str(v.data.buffer)), v.data.fin, o), "stream " << id << " failed after " << total << " requests: " << describe(o));
    }
  };
  while (total < n) {
    size_t batch = std::min(open, n - total);
    for (size_t i = 0; i < batch; i++) {
      auto r = client.request();
      CHECK(r, "request() failed with " << name(r.error()) << " after " << total << " requests");
      bnl::http3::request::handle h = std::move(r).value();
      uint64_t id = h.id();
      CHECK(id % 4 == 0 && id <= ref::VARINT_MAX, "stream number " << id << " is not that of a client-initiated bidirectional stream");
      CHECK(total == 0 || id > last, "stream number " << id << " was given again, after " << last);
      last = id;
      total++;
      std::string path = std::to_string(id);
      CHECK(h.header(bnl::http3::header_view("n", path.c_str())) && h.start() && h.fin(), "the request on stream " << id << " failed");
      requests.emplace(id, std::move(h));
    }
    relay(client, server, seen[0], 2);
    for (auto &entry : requests) {
      uint64_t id = entry.first;
      observed &o = seen[0][id];
      CHECK(o.finished && o.headers == (ref::headers{ { "n", std::to_string(id) } }), "the server got on stream " << id << ": " << describe(o));
      auto r = server.response(id);
      CHECK(r, "response(" << id << ") failed with " << name(r.error()));
      bnl::http3::response::handle h = std::move(r).value();
      std::string value = std::to_string(id + 1);
      CHECK(h.header(bnl::http3::header_view("m", value.c_str())) && h.start() && h.fin(), "the response on stream " << id << " failed");
      relay(server, client, seen[1], 3);
      observed &p = seen[1][id];
      CHECK(p.finished && p.headers == (ref::headers{ { "m", value } }), "the client got on stream " << id << ": " << describe(p));
    }
    requests.clear();
    seen[0].clear();
    seen[1].clear();
  }
  g.nontrivial();
  g.label("exchanges", total);
}

PART("receiving", receiving, 12000, 160000);
PART("sending, client", send<program::client_t>, 8000, 80000);
PART("sending, server", send<program::server_t>, 8000, 80000);
PART("stream numbers", numbers, 10000, 100000);
PART("long lives", lifetimes, 12, 400);
