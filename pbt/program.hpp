// Programs over the sending half of one endpoint.
#pragma once

#include "net.hpp"

namespace program {

using namespace bnl;
using namespace net;
using handle_t = http3::request::handle;
using client_t = http3::client::connection;
using server_t = http3::server::connection;

struct op {
  enum kind { header, body, start, fin, poll, drain, move_connection, move_handle } what = poll;
  size_t stream = 0;
  ref::header h = {};
  std::string b = {};
};

inline std::string
show(const op &o)
{
  std::string s = "#" + std::to_string(o.stream);
  switch (o.what) {
    case op::header: return s + " header " + text(o.h.name) + " " + text(o.h.value);
    case op::body: return s + " body of " + std::to_string(o.b.size()) + " " + pbt::hex(o.b, 16);
    case op::start: return s + " start";
    case op::fin: return s + " fin";
    case op::poll: return "poll";
    case op::drain: return "poll until idle";
    case op::move_connection: return "move the connection";
    default: return s + " move the handle";
  }
}

// What a program has done to one stream so far.
struct progress {
  ref::headers headers;
  std::vector<std::string> body;
  bool started = false;
  bool ended = false;
};

inline void
track(progress &p, const op &o)
{
  switch (o.what) {
    case op::header:
      p.headers.push_back(o.h);
      break;
    case op::body:
      p.body.push_back(o.b);
      break;
    case op::start:
      p.started = true;
      break;
    case op::fin:
      p.ended = true;
      break;
    default:
      break;
  }
}

struct options {
  size_t streams = 3;
  size_t steps = 60;
  size_t max_value = 40;
  size_t max_body = 60;
  bool moves = true;
  bool complete = false; // end every message
};

// A valid program: headers before the start, body pieces before the end.
inline std::vector<op>
gen_program(gen &g, const options &o)
{
  std::vector<op> ops;
  std::vector<progress> at(o.streams);
  auto step = [&](size_t s, bool forward) {
    progress &p = at[s];
    op x;
    x.stream = s;
    unsigned can_header = !p.started && p.headers.size() < 8 && !forward;
    unsigned must_header = !p.started && p.headers.empty();
    unsigned can_start = !p.started && !p.headers.empty();
    unsigned can_body = !p.ended && p.body.size() < 8 && !forward;
    unsigned can_fin = !p.ended;
    unsigned w[4] = { 3 * can_start, 5U * static_cast<unsigned>(can_header || must_header), 4 * can_body, can_fin };
    if (w[0] + w[1] + w[2] + w[3] == 0) {
      return false;
    }
    switch (g.pick({ w[0], w[1], w[2], w[3] })) {
      case 0:
        x.what = op::start;
        break;
      case 1:
        x.what = op::header;
        x.h = gen_header(g, o.max_value);
        break;
      case 2:
        x.what = op::body;
        x.b = g.bytes(g.chance(1, 8) ? 0 : g.size(o.max_body));
        break;
      default:
        x.what = op::fin;
        break;
    }
    track(p, x);
    ops.push_back(x);
    return true;
  };
  auto extra = [&]() {
    op x;
    switch (g.pick({ 6, 2, o.moves ? 1u : 0u, o.moves ? 1u : 0u })) {
      case 0:
        x.what = op::poll;
        break;
      case 1:
        x.what = op::drain;
        break;
      case 2:
        x.what = op::move_connection;
        break;
      default:
        x.what = op::move_handle;
        x.stream = static_cast<size_t>(g.draw(o.streams - 1));
        break;
    }
    ops.push_back(x);
  };
  for (size_t n = 0; g.more(n, 1, o.steps, static_cast<double>(o.steps) / 3); n++) {
    if (g.chance(3, 5)) {
      step(static_cast<size_t>(g.draw(o.streams - 1)), false);
    } else {
      extra();
    }
  }
  if (o.complete) {
    std::vector<size_t> open;
    for (size_t s = 0; s < o.streams; s++) {
      open.push_back(s);
    }
    while (!open.empty()) {
      size_t i = static_cast<size_t>(g.draw(open.size() - 1));
      if (!step(open[i], true)) {
        open.erase(open.begin() + static_cast<long>(i));
      } else if (g.chance(1, 4)) {
        extra();
      }
    }
  }
  return ops;
}

struct event {
  uint64_t id;
  bool fin;
  std::string bytes;
  bool operator==(const event &o) const { return id == o.id && fin == o.fin && bytes == o.bytes; }
};

struct sent {
  std::string bytes;
  bool fin = false;
  size_t events = 0;
  bool operator==(const sent &o) const { return bytes == o.bytes && fin == o.fin; }
};

// Runs programs. The streams exist before the program begins.
template<typename Connection>
struct runner {
  static constexpr bool is_client = std::is_same<Connection, client_t>::value;
  std::unique_ptr<Connection> connection{ new Connection() };
  std::vector<uint64_t> ids;
  std::vector<uint64_t> numbers; // of the streams of a server
  std::vector<std::unique_ptr<handle_t>> handles;
  std::vector<progress> at;
  std::vector<event> events;
  std::map<uint64_t, sent> out;
  bool idle = false; // the last poll found nothing

  // `ended`: on a server, whether the request is complete.
  void open(bool ended)
  {
    uint64_t id = !is_client && ids.size() < numbers.size() ? numbers[ids.size()] : 4 * ids.size();
    handle_t h;
    open_(ended, id, h, std::integral_constant<bool, is_client>());
    CHECK(h.id() == id, "the handle of stream " << id << " says " << h.id());
    ids.push_back(id);
    handles.emplace_back(new handle_t(std::move(h)));
    at.emplace_back();
  }

  void open_(bool, uint64_t, handle_t &h, std::true_type)
  {
    auto r = connection->request();
    CHECK(r, "request() failed with " << name(r.error()));
    h = std::move(r).value();
  }

  void open_(bool ended, uint64_t id, handle_t &h, std::false_type)
  {
    observed o;
    std::string s = frame(ref::F_HEADERS, std::string("\0\0\xd1", 3));
    CHECK(deliver(*connection, id, to_buffer(s), ended, o), "the request on stream " << id << " gave " << describe(o));
    CHECK(o.headers.size() == 1 && o.finished == ended, "the request on stream " << id << " gave " << describe(o));
    auto r = connection->response(id);
    CHECK(r, "response() failed with " << name(r.error()) << " on stream " << id);
    h = std::move(r).value();
  }

  bool poll()
  {
    auto r = connection->send();
    if (!r) {
      CHECK(r.error() == error::idle, "send() failed with " << name(r.error()));
      idle = true;
      return false;
    }
    idle = false;
    quic::event e = std::move(r).value();
    CHECK(e == quic::event::type::data, "an error event was sent");
    event v{ e.data.id, e.data.fin, str(e.data.buffer) };
    sent &s = out[v.id];
    CHECK(!s.fin, "something was sent on stream " << v.id << " after its end");
    s.bytes += v.bytes;
    s.fin = v.fin;
    s.events++;
    events.push_back(std::move(v));
    return true;
  }

  void drain()
  {
    for (size_t n = 0; poll(); n++) {
      CHECK(n < 100000, "send() never becomes idle");
    }
  }

  void move_connection()
  {
    connection.reset(new Connection(std::move(*connection)));
  }

  void run(const op &o)
  {
    handle_t &h = *handles[o.stream];
    auto ok = [&](const http3::result<void> &r) {
      CHECK(r, program::show(o) << " failed with " << name(r.error()));
      track(at[o.stream], o);
      idle = false;
    };
    switch (o.what) {
      case op::header:
        ok(h.header(view(o.h)));
        break;
      case op::body:
        ok(h.body(to_buffer(o.b)));
        break;
      case op::start:
        ok(h.start());
        break;
      case op::fin:
        ok(h.fin());
        break;
      case op::poll:
        poll();
        break;
      case op::drain:
        drain();
        break;
      case op::move_connection:
        move_connection();
        break;
      case op::move_handle:
        handles[o.stream].reset(new handle_t(std::move(h)));
        break;
    }
  }
};

// Reads what was sent on a request stream the way a peer would. Returns what
// is wrong with it, or nothing. `whole`: the bytes must not end inside a frame.
inline std::string
parse_stream(const std::string &s, bool whole, ref::headers &headers, bool &has_headers, std::string &body)
{
  size_t pos = 0;
  has_headers = false;
  headers.clear();
  body.clear();
  while (pos < s.size()) {
    uint64_t type = 0;
    uint64_t length = 0;
    size_t at = pos;
    if (!ref::varint_decode(s, pos, type) || !ref::varint_decode(s, pos, length)) {
      return whole ? "ends inside the head of a frame" : "";
    }
    if (type != (has_headers ? ref::F_DATA : ref::F_HEADERS)) {
      return "a frame of type " + std::to_string(type) + " at offset " + std::to_string(at);
    }
    bool cut = length > s.size() - pos;
    if (cut && whole) {
      return "ends inside a frame";
    }
    std::string payload = s.substr(pos, cut ? s.size() - pos : static_cast<size_t>(length));
    pos += payload.size();
    if (type == ref::F_DATA) {
      body += payload;
      continue;
    }
    if (cut) {
      return "";
    }
    has_headers = true;
    if (payload.size() < 2 || payload[0] != 0 || payload[1] != 0) {
      return "a bad header block prefix " + pbt::hex(payload.substr(0, 2));
    }
    size_t p = 2;
    while (p < payload.size()) {
      ref::header h;
      ref::status st = ref::qpack_line(payload, p, h);
      if (st != ref::status::ok) {
        return "a bad header block " + pbt::hex(payload, 200);
      }
      headers.push_back(h);
    }
  }
  return "";
}

} // namespace program
