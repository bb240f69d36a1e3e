// C19: handles are safe through every move and lifetime order.
#include "program.hpp"

PROPERTY("C19",
         "histories of up to 150 steps over a pool of handles and up to four client and server connections: handles are obtained "
         "(also a second time for the same stream, and into handles that are in use), moved, assigned over each other and themselves, destroyed and used "
         "for every operation; connections send, receive, finish streams, are moved, assigned over each other and destroyed; a "
         "model knows which stream each handle stands for and whether it lives, and in the end what was sent on every "
         "stream must be what was submitted through its handles; non-trivial: a handle was used after its stream was gone, "
         "overwritten while attached, or moved together with its connection; the same for streams without a connection, themselves "
         "moved, assigned over each other and destroyed");

using namespace program;

struct stream_model {
  uint64_t id = 0;
  progress p;
  bool alive = true;
  bool sent_all = false;     // the end of our message was sent
  bool received_all = false; // the end of the peer's message was reported
  bool started_sending = false;
  std::string wire;
};

using stream_ptr = std::shared_ptr<stream_model>;

struct slot {
  std::unique_ptr<handle_t> real{ new handle_t() };
  stream_ptr stream; // the stream it stands for, alive or not
};

struct conn {
  std::unique_ptr<client_t> client;
  std::unique_ptr<server_t> server;
  std::map<uint64_t, stream_ptr> streams;
  uint64_t next = 0;
  bool idle = false;
};

struct world_t {
  gen &g;
  std::vector<slot> slots;
  std::vector<conn> conns;
  size_t interesting = 0;

  explicit world_t(gen &g)
    : g(g)
  {}

  conn *any_conn() { return conns.empty() ? nullptr : &conns[static_cast<size_t>(g.draw(conns.size() - 1))]; }
  slot *any_slot() { return slots.empty() ? nullptr : &slots[static_cast<size_t>(g.draw(slots.size() - 1))]; }

  void kill(conn &c)
  {
    for (auto &s : c.streams) {
      s.second->alive = false;
    }
    c.streams.clear();
  }

  void settle(conn &c, const stream_ptr &s)
  {
    if (s->sent_all && s->received_all && s->alive) {
      s->alive = false;
      g.label("finished streams");
    }
    (void) c;
  }

  // Puts a fresh handle into a new slot or over an old one.
  void keep(http3::result<handle_t> r, const stream_ptr &s)
  {
    CHECK(r, "a handle was refused: " << name(r.error()));
    for (slot &x : slots) { // an earlier handle to the same stream is invalid now
      if (x.stream == s) {
        x.stream.reset();
        interesting++;
      }
    }
    if (!slots.empty() && g.chance(1, 3)) {
      slot &x = *any_slot();
      g.note("  into slot " + std::to_string(&x - slots.data()));
      interesting += x.stream != nullptr;
      *x.real = std::move(r).value();
      x.stream = s;
      return;
    }
    slot x;
    x.real.reset(new handle_t(std::move(r).value()));
    x.stream = s;
    slots.push_back(std::move(x));
    g.note("  into new slot " + std::to_string(slots.size() - 1));
  }

  void obtain()
  {
    conn *c = any_conn();
    if (c == nullptr) {
      return;
    }
    g.note("connection " + std::to_string(c - conns.data()) + ": obtain");
    if (c->client) {
      stream_ptr s(new stream_model());
      auto r = c->client->request();
      CHECK(r, "request() failed");
      s->id = r.value().id();
      CHECK(c->streams.count(s->id) == 0, "stream number " << s->id << " was given twice");
      c->streams[s->id] = s;
      keep(std::move(r), s);
      return;
    }
    if (c->streams.empty() || g.chance(1, 2)) {
      stream_ptr s(new stream_model());
      s->id = c->next;
      c->next += 4;
      observed o;
      bool fin = g.chance(1, 2);
      CHECK(deliver(*c->server, s->id, to_buffer(frame(ref::F_HEADERS, std::string("\0\0\xd1", 3))), fin, o), "a request failed");
      CHECK(o.finished == fin, "a request was not reported");
      s->received_all = fin;
      c->streams[s->id] = s;
    }
    auto it = c->streams.begin();
    std::advance(it, static_cast<long>(g.draw(c->streams.size() - 1)));
    if (it->second->alive) {
      keep(c->server->response(it->first), it->second);
    } else {
      CHECK(!c->server->response(it->first), "a handle for finished stream " << it->first);
    }
  }

  void receive()
  {
    conn *c = any_conn();
    if (c == nullptr || c->streams.empty()) {
      return;
    }
    auto it = c->streams.begin();
    std::advance(it, static_cast<long>(g.draw(c->streams.size() - 1)));
    stream_model &s = *it->second;
    if (!s.alive || s.received_all || (c->client && !s.started_sending)) {
      return;
    }
    g.note("connection " + std::to_string(c - conns.data()) + " stream " + std::to_string(s.id) + ": the peer finishes");
    observed o;
    if (c->client) {
      CHECK(deliver(*c->client, s.id, to_buffer(frame(ref::F_HEADERS, std::string("\0\0\xd9", 3))), true, o) && o.finished,
            "the response on stream " << s.id << ": " << describe(o));
    } else {
      o.headers_done = true;
      CHECK(deliver(*c->server, s.id, base::buffer(), true, o) && o.finished, "the end of the request on stream " << s.id << ": " << describe(o));
    }
    s.received_all = true;
    settle(*c, it->second);
  }

  bool poll(conn &c)
  {
    auto r = c.client ? c.client->send() : c.server->send();
    if (!r) {
      CHECK(r.error() == error::idle, "send() failed with " << name(r.error()));
      return false;
    }
    quic::event e = std::move(r).value();
    if (e.data.id % 4 != 0) {
      return true;
    }
    CHECK(c.streams.count(e.data.id) != 0, "something was sent on stream " << e.data.id);
    stream_ptr s = c.streams[e.data.id];
    CHECK(s->alive && !s->sent_all, "something was sent on finished stream " << e.data.id);
    s->started_sending = true;
    s->wire += str(e.data.buffer);
    s->sent_all = e.data.fin;
    settle(c, s);
    return true;
  }

  void drain(conn &c)
  {
    for (size_t n = 0; poll(c); n++) {
      CHECK(n < 100000, "send() never becomes idle");
    }
    check(c);
  }

  // Idle: everything submitted must have been sent.
  void check(conn &c)
  {
    for (auto &entry : c.streams) {
      check(*entry.second);
    }
  }

  static void check(const stream_model &s)
  {
    if (!s.p.started) {
      CHECK(s.wire.empty(), "something was sent on stream " << s.id << ", which was not started");
      return;
    }
    ref::headers headers;
    bool has = false;
    std::string body;
    std::string want;
    for (const std::string &b : s.p.body) {
      want += b;
    }
    std::string wrong = parse_stream(s.wire, true, headers, has, body);
    CHECK(wrong.empty() && headers == s.p.headers && body == want && s.sent_all == s.p.ended,
          "stream " << s.id << ": sent " << show(headers) << " " << pbt::hex(body) << (s.sent_all ? " end " : " ") << wrong
                    << "\nsubmitted " << show(s.p.headers) << " " << pbt::hex(want) << (s.p.ended ? " end" : ""));
  }

  void use()
  {
    slot *x = any_slot();
    if (x == nullptr) {
      return;
    }
    handle_t &h = *x->real;
    bool valid = x->stream && x->stream->alive;
    g.note("slot " + std::to_string(x - slots.data()) + ": use, " + (valid ? "valid" : "invalid"));
    if (!valid) {
      interesting += x->stream != nullptr;
      auto invalid = [&](const http3::result<void> &r, const char *what) {
        CHECK(!r && r.error() == error::invalid_handle, what << "() on an invalid handle: " << ::show(r));
      };
      switch (g.draw(3)) {
        case 0:
          invalid(h.header(http3::header_view("a", "b")), "header");
          break;
        case 1:
          invalid(h.body(to_buffer(g.bytes(g.size(30)))), "body");
          break;
        case 2:
          invalid(h.start(), "start");
          break;
        default:
          invalid(h.fin(), "fin");
          break;
      }
      return;
    }
    progress &p = x->stream->p;
    CHECK(h.id() == x->stream->id, "the handle of stream " << x->stream->id << " says " << h.id());
    auto ok = [&](const http3::result<void> &r, const char *what) {
      CHECK(r, what << "() on stream " << x->stream->id << " failed with " << name(r.error()));
    };
    unsigned can_header = !p.started;
    unsigned can_start = !p.started && !p.headers.empty();
    unsigned can_body = !p.ended;
    if (can_header + can_body == 0) {
      return;
    }
    switch (g.pick({ 2 * can_header, 3 * can_start, 2 * can_body, can_body })) {
      case 0: {
        ref::header v = gen_header(g, 20);
        ok(h.header(view(v)), "header");
        p.headers.push_back(v);
        break;
      }
      case 1:
        ok(h.start(), "start");
        p.started = true;
        break;
      case 2: {
        std::string b = g.bytes(g.size(30));
        ok(h.body(to_buffer(b)), "body");
        p.body.push_back(b);
        break;
      }
      default:
        ok(h.fin(), "fin");
        p.ended = true;
        break;
    }
  }

  void handles()
  {
    slot *a = any_slot();
    switch (g.draw(5)) {
      case 0: // never attached
        slots.emplace_back();
        break;
      case 1:
        if (a != nullptr) { // move out
          slot x;
          x.real.reset(new handle_t(std::move(*a->real)));
          x.stream = a->stream;
          a->stream.reset();
          g.note("slot " + std::to_string(a - slots.data()) + ": moved to slot " + std::to_string(slots.size()));
          slots.push_back(std::move(x));
        }
        break;
      case 2:
      case 3:
        if (a != nullptr) { // assign, maybe to itself
          slot *b = any_slot();
          g.note("slot " + std::to_string(a - slots.data()) + " = slot " + std::to_string(b - slots.data()));
          interesting += a != b && a->stream != nullptr;
          *a->real = std::move(*b->real);
          if (a != b) {
            a->stream = b->stream;
            b->stream.reset();
          }
        }
        break;
      default:
        if (a != nullptr) {
          g.note("slot " + std::to_string(a - slots.data()) + ": destroyed");
          size_t i = static_cast<size_t>(a - slots.data());
          slots.erase(slots.begin() + static_cast<long>(i));
        }
        break;
    }
  }

  template<typename C>
  void replace(std::unique_ptr<C> &p)
  {
    if (g.chance(1, 2)) {
      p.reset(new C(std::move(*p)));
    } else {
      std::unique_ptr<C> q(new C());
      if (g.chance(1, 2)) {
        (void) q->send();
      }
      *q = std::move(*p);
      p = std::move(q);
    }
  }

  void connections()
  {
    conn *c = any_conn();
    switch (g.draw(4)) {
      case 0:
        if (conns.size() < 4) {
          conn n;
          if (g.chance(1, 2)) {
            n.client.reset(new client_t());
          } else {
            n.server.reset(new server_t());
          }
          conns.push_back(std::move(n));
        }
        break;
      case 1:
        if (c != nullptr) {
          g.note("connection " + std::to_string(c - conns.data()) + ": moved");
          if (c->client) {
            replace(c->client);
          } else {
            replace(c->server);
          }
          interesting += !c->streams.empty();
        }
        break;
      case 2: { // over another one
        conn *d = any_conn();
        if (c != nullptr && c != d && bool(c->client) == bool(d->client)) {
          g.note("connection " + std::to_string(c - conns.data()) + ": moved over " + std::to_string(d - conns.data()));
          if (c->client) {
            *d->client = std::move(*c->client);
          } else {
            *d->server = std::move(*c->server);
          }
          kill(*d);
          d->streams = std::move(c->streams);
          c->streams.clear();
          d->next = c->next;
          size_t i = static_cast<size_t>(c - conns.data());
          conns.erase(conns.begin() + static_cast<long>(i));
        }
        break;
      }
      default:
        if (c != nullptr && g.chance(1, 3)) {
          size_t i = static_cast<size_t>(c - conns.data());
          g.note("connection " + std::to_string(i) + ": destroyed");
          kill(*c);
          conns.erase(conns.begin() + static_cast<long>(i));
        }
        break;
    }
  }
};

static void
history(gen &g, size_t &interesting)
{
  world_t w(g);
  for (size_t i = 0; i < 2; i++) {
    conn n;
    if (g.chance(1, 2)) {
      n.client.reset(new client_t());
    } else {
      n.server.reset(new server_t());
    }
    w.conns.push_back(std::move(n));
  }
  for (size_t n = 0; g.more(n, 1, 150, 50); n++) {
    switch (g.pick({ 3, 8, 3, 3, 2, 2, 1 })) {
      case 0:
        w.obtain();
        break;
      case 1:
        w.use();
        break;
      case 2:
        w.handles();
        break;
      case 3:
        if (!w.conns.empty()) {
          w.poll(*w.any_conn());
        }
        break;
      case 4:
        w.receive();
        break;
      case 5:
        if (!w.conns.empty()) {
          w.drain(*w.any_conn());
        }
        break;
      default:
        w.connections();
        break;
    }
  }
  if (g.chance(1, 2)) {
    w.slots.clear();
  }
  for (conn &c : w.conns) {
    w.drain(c);
  }
  if (g.chance(1, 2)) { // connections first
    for (conn &c : w.conns) {
      w.kill(c);
    }
    w.conns.clear();
    while (!w.slots.empty()) {
      w.use();
      w.slots.pop_back();
    }
  }
  interesting = w.interesting;
}

static void
histories(gen &g)
{
  size_t interesting = 0;
  history(g, interesting);
  if (interesting > 0) {
    g.nontrivial();
  }
}

// Streams on their own: what a connection is made of.
template<typename S>
struct streams {
  struct entry {
    std::unique_ptr<S> real;
    stream_ptr stream; // none when it was moved from
  };

  world_t w;
  std::vector<entry> all;
  uint64_t next = 0;

  explicit streams(gen &g)
    : w(g)
  {}

  size_t any() { return static_cast<size_t>(w.g.draw(all.size() - 1)); }

  void make()
  {
    entry e;
    e.stream.reset(new stream_model());
    e.stream->id = next;
    e.real.reset(new S(next));
    next += 4;
    w.g.note("sender " + std::to_string(all.size()) + " for stream " + std::to_string(e.stream->id));
    all.push_back(std::move(e));
  }

  bool poll(entry &e)
  {
    if (!e.stream || e.stream->sent_all) {
      return false;
    }
    stream_model &s = *e.stream;
    auto r = e.real->send();
    if (!r) {
      CHECK(r.error() == error::idle, "send() of stream " << s.id << " failed with " << name(r.error()));
      return false;
    }
    quic::event v = std::move(r).value();
    CHECK(v == quic::event::type::data && v.data.id == s.id, "stream " << s.id << " sends something for stream " << v.data.id);
    s.wire += str(v.data.buffer);
    s.sent_all = v.data.fin;
    CHECK(e.real->finished() == s.sent_all, "stream " << s.id << " is " << (s.sent_all ? "not " : "") << "finished");
    return true;
  }

  void drain(entry &e)
  {
    while (poll(e)) {
    }
    if (e.stream) {
      world_t::check(*e.stream);
    }
  }

  void step()
  {
    gen &g = w.g;
    if (all.empty()) {
      make();
    }
    size_t i = any();
    entry &e = all[i];
    switch (g.pick({ 2, 4, 8, 4, 4, 3, 3, 1, 2 })) {
      case 0:
        if (all.size() < 6) {
          make();
        }
        break;
      case 1: // a handle
        if (e.stream) {
          g.note("sender " + std::to_string(i) + ": obtain");
          w.keep(handle_t(e.real.get()), e.stream);
        }
        break;
      case 2:
        w.use();
        break;
      case 3:
        w.handles();
        break;
      case 4:
        poll(e);
        break;
      case 5: // to a new place
        if (e.stream) {
          g.note("sender " + std::to_string(i) + ": moved");
          entry f;
          f.real.reset(new S(std::move(*e.real)));
          f.stream = e.stream;
          w.interesting++;
          if (g.chance(1, 2)) { // what is left can be given another stream, or be destroyed
            e.real = std::move(f.real);
          } else {
            e.stream.reset();
            all.push_back(std::move(f));
          }
        }
        break;
      case 6: { // over another one, or itself
        size_t j = any();
        if (e.stream) {
          g.note("sender " + std::to_string(j) + " = sender " + std::to_string(i));
          *all[j].real = std::move(*e.real);
          if (i != j) {
            if (all[j].stream) {
              all[j].stream->alive = false;
            }
            all[j].stream = e.stream;
            e.stream.reset();
            w.interesting++;
          }
        }
        break;
      }
      case 7:
        g.note("sender " + std::to_string(i) + ": destroyed");
        if (e.stream) {
          e.stream->alive = false;
        }
        all.erase(all.begin() + static_cast<long>(i));
        break;
      default:
        drain(e);
        break;
    }
  }
};

template<typename S>
static void
stream_history(gen &g)
{
  streams<S> x(g);
  for (size_t n = 0; g.more(n, 1, 150, 50); n++) {
    x.step();
  }
  for (auto &e : x.all) {
    x.drain(e);
  }
  if (x.w.interesting > 0) {
    g.nontrivial();
  }
  if (g.chance(1, 2)) {
    x.w.slots.clear();
  }
}

PART("histories", histories, 300000, 4000000);
PART("request streams", stream_history<http3::client::stream::request::sender>, 60000, 1000000);
PART("response streams", stream_history<http3::server::stream::request::sender>, 60000, 1000000);
