// Writing HTTP/3 streams by hand, and watching what a connection reports.
#pragma once

#include "util.hpp"

#include <bnl/http3/client/connection.hpp>
#include <bnl/http3/server/connection.hpp>

#include <algorithm>
#include <map>
#include <memory>

namespace net {

using bnl::http3::error;
using ::show;

// A message as an application sees it.
struct message {
  ref::headers headers;
  std::string body;
};

// --- writing ---

// One of the representations that a static-only encoder may choose for `h`.
inline std::string
gen_line_for(gen &g, const ref::header &h)
{
  auto string_ = [&](const std::string &s, unsigned prefix, uint8_t flags) {
    return ref::literal(s, prefix, flags, g.chance(1, 2));
  };
  std::vector<size_t> exact;
  std::vector<size_t> names;
  for (size_t i = 0; i < 99; i++) {
    if (h.name == ref::static_table[i].name) {
      names.push_back(i);
      if (h.value == ref::static_table[i].value) {
        exact.push_back(i);
      }
    }
  }
  uint64_t how = g.draw(2);
  if (how == 0 && !exact.empty()) {
    return ref::prefix_int(g.of(exact), 6, 0xc0);
  }
  if (how <= 1 && !names.empty()) {
    return ref::prefix_int(g.of(names), 4, static_cast<uint8_t>(0x50 | (g.chance(1, 3) ? 0x20 : 0))) +
           string_(h.value, 7, 0);
  }
  return string_(h.name, 3, static_cast<uint8_t>(0x20 | (g.chance(1, 3) ? 0x10 : 0))) + string_(h.value, 7, 0);
}

inline std::string
gen_block(gen &g, const ref::headers &hs)
{
  std::string s("\0\0", 2);
  for (const ref::header &h : hs) {
    s += gen_line_for(g, h);
  }
  return s;
}

inline uint64_t
gen_reserved_type(gen &g)
{
  uint64_t t = 0;
  switch (g.pick({ 4, 2, 2 })) {
    case 0: // reserved for exactly this purpose
      t = 0x1f * g.draw(40) + 0x21;
      break;
    case 1:
      t = g.range(0xf, 0x3f);
      break;
    default:
      t = g.integer(0xf, ref::VARINT_MAX);
      break;
  }
  return t;
}

// A frame of a type that must be ignored.
inline std::string
gen_unknown_frame(gen &g, size_t max)
{
  uint64_t type = gen_reserved_type(g);
  std::string payload;
  switch (g.pick({ 40, 60, 40, max >= 40 ? 1U : 0U })) {
    case 0:
      break;
    case 1:
      payload = g.bytes(g.size(max));
      break;
    case 3: // more than fits in 8, 14 or 16 bits
      payload = std::string(static_cast<size_t>(g.of(std::vector<uint64_t>{ 256, 16384, 65536 }) + g.draw(40)), static_cast<char>(g.of(std::vector<uint64_t>{ 2, 3, 7, 13 })));
      break;
    default: // looks like a frame itself
      payload = ref::varint(g.draw(14)) + ref::varint(g.draw(30)) + g.bytes(g.size(8));
      break;
  }
  return ref::varint(type) + ref::varint(payload.size()) + payload;
}

inline std::string
frame(uint64_t type, const std::string &payload)
{
  return ref::varint(type) + ref::varint(payload.size()) + payload;
}

struct framing {
  bool unknown_frames = false; // sprinkle unknown frames
  bool trailers = false;       // allow trailing HEADERS
  size_t max_trailer = 30;
};

struct wire {
  std::string bytes;
  std::vector<size_t> boundaries; // offsets at which a known frame ends
  std::vector<size_t> ends;       // offsets at which any frame ends
  size_t headers_end = 0;         // offset at which the HEADERS frame ends
  size_t trailers_begin = SIZE_MAX;
  bool has_trailers = false;
  size_t data_frames = 0;
  size_t empty_data = 0;
  size_t unknown = 0;
};

inline void
sprinkle(gen &g, wire &w, bool on)
{
  while (on && g.chance(1, 3)) {
    w.bytes += gen_unknown_frame(g, 40);
    w.ends.push_back(w.bytes.size());
    w.unknown++;
  }
}

// The bytes of a stream carrying `m`, framed one of the many possible ways.
inline wire
gen_stream(gen &g, const message &m, framing f)
{
  wire w;
  auto end = [&]() {
    w.boundaries.push_back(w.bytes.size());
    w.ends.push_back(w.bytes.size());
  };
  sprinkle(g, w, f.unknown_frames);
  w.bytes += frame(ref::F_HEADERS, gen_block(g, m.headers));
  end();
  w.headers_end = w.bytes.size();
  sprinkle(g, w, f.unknown_frames);
  if (!m.body.empty() || g.chance(1, 4)) {
    size_t at = 0;
    for (size_t n : g.segments(m.body.size())) {
      w.bytes += frame(ref::F_DATA, m.body.substr(at, n));
      end();
      w.data_frames++;
      w.empty_data += n == 0 ? 1 : 0;
      at += n;
      sprinkle(g, w, f.unknown_frames);
    }
    if (m.body.empty() || g.chance(1, 8)) {
      w.bytes += frame(ref::F_DATA, "");
      end();
      w.data_frames++;
      w.empty_data++;
      sprinkle(g, w, f.unknown_frames);
    }
  }
  if (f.trailers && g.chance(1, 3)) {
    ref::headers t;
    for (size_t n = 0; g.more(n, 1, 4, 2); n++) {
      t.push_back(gen_header(g, f.max_trailer));
    }
    w.trailers_begin = w.bytes.size();
    w.bytes += frame(ref::F_HEADERS, gen_block(g, t));
    end();
    w.has_trailers = true;
    sprinkle(g, w, f.unknown_frames);
  }
  return w;
}

inline message
gen_message(gen &g, size_t max_headers, size_t max_value, size_t max_body, double mean = 3)
{
  message m;
  for (size_t n = 0; g.more(n, 1, max_headers, mean); n++) {
    m.headers.push_back(gen_header(g, max_value));
  }
  m.body = g.bytes(g.chance(1, 3) ? 0 : g.size(max_body));
  return m;
}

// Divides `s` over deliveries. The end of the stream comes with the last one
// or in one of its own.
struct piece {
  std::string bytes;
  bool fin = false;
};

inline std::vector<piece>
gen_pieces(gen &g, const std::string &s, bool fin)
{
  std::vector<piece> r;
  size_t at = 0;
  auto add = [&](size_t n) {
    r.push_back({ s.substr(at, n), false });
    at += n;
  };
  switch (g.pick({ 5, 1, 1 })) {
    case 0:
      for (size_t n : g.segments(s.size())) {
        add(n);
      }
      break;
    case 1: // byte by byte, up to a limit
      while (at < s.size() && at < 200) {
        add(1);
      }
      if (at < s.size()) {
        add(s.size() - at);
      }
      break;
    default:
      add(s.size());
      break;
  }
  if (r.empty()) {
    r.push_back({ "", false });
  }
  if (fin) {
    if (g.chance(1, 3)) {
      r.push_back({ "", true });
    } else {
      r.back().fin = true;
    }
  }
  return r;
}

// --- watching ---

// What a connection reported for one stream. Checks, event by event, what any
// user of the events relies on.
struct observed {
  ref::headers headers;
  bool headers_done = false;
  std::string body;
  size_t body_events = 0;
  bool body_done = false;
  bool finished = false;
  size_t settings = 0;
  bnl::http3::settings values;
  bool failed = false;
  error failure = error::no_error;

  bool operator==(const observed &o) const
  {
    return headers == o.headers && headers_done == o.headers_done && body == o.body && finished == o.finished &&
           settings == o.settings && failed == o.failed && (!failed || failure == o.failure);
  }
};

inline std::string
describe(const observed &o)
{
  std::string s = show(o.headers) + (o.headers_done ? " complete" : "") + ", body of " + std::to_string(o.body.size()) +
                  " " + pbt::hex(o.body, 24) + (o.finished ? ", finished" : "");
  if (o.settings > 0) {
    s += ", settings";
  }
  if (o.failed) {
    s += std::string(", error ") + name(o.failure);
  }
  return s;
}

inline void
observe(observed &o, uint64_t id, bnl::http3::event &e, bool control)
{
  using type = bnl::http3::event::type;
  CHECK(!o.finished, "stream " << id << ": an event after `finished`");
  switch (e) {
    case type::settings:
      CHECK(control, "stream " << id << ": settings on a request stream");
      o.settings++;
      o.values = e.settings;
      break;
    case type::header:
      CHECK(!control, "a header on a control stream");
      CHECK(e.header.id == id, "stream " << id << ": header labelled " << e.header.id);
      CHECK(!o.headers_done, "stream " << id << ": a header after the last one");
      CHECK(o.body_events == 0, "stream " << id << ": a header after the body");
      o.headers.push_back(to_ref(e.header.header));
      o.headers_done = e.header.fin;
      break;
    case type::body:
      CHECK(!control, "a body on a control stream");
      CHECK(e.body.id == id, "stream " << id << ": body labelled " << e.body.id);
      CHECK(o.headers_done, "stream " << id << ": body before the last header");
      CHECK(!o.body_done, "stream " << id << ": body after the last part");
      o.body += str(e.body.buffer);
      o.body_events++;
      o.body_done = e.body.fin;
      break;
    case type::finished:
      CHECK(!control, "`finished` on a control stream");
      CHECK(e.finished.id == id, "stream " << id << ": `finished` labelled " << e.finished.id);
      CHECK(o.headers_done, "stream " << id << ": finished before the last header");
      CHECK(o.body_events == 0 || o.body_done, "stream " << id << ": finished, but no part of the body was the last");
      o.finished = true;
      break;
  }
}

template<typename Connection>
constexpr uint64_t
peer_control()
{
  return std::is_same<Connection, bnl::http3::client::connection>::value ? 3 : 2;
}

// Hands the connection one piece and collects everything it reports. Returns
// false after an error (which is fatal to the connection).
template<typename Connection>
bool
deliver(Connection &c, uint64_t id, bnl::base::buffer b, bool fin, observed &o)
{
  size_t limit = 16 + 4 * b.size();
  bool control = id == peer_control<Connection>();
  auto r = c.recv(bnl::quic::event(bnl::quic::data{ id, fin, std::move(b) }));
  if (!r) {
    o.failed = true;
    o.failure = r.error();
    return false;
  }
  auto generator = std::move(r).value();
  size_t n = 0;
  while (generator.next()) {
    // Every event takes at least one byte of input, some of which may have
    // arrived earlier.
    CHECK(n++ < limit + 4 * 70000, "endless events on stream " << id);
    bnl::http3::result<bnl::http3::event> e = generator.get();
    if (!e) {
      o.failed = true;
      o.failure = e.error();
      return false;
    }
    bnl::http3::event event = std::move(e).value();
    observe(o, id, event, control);
  }
  return true;
}

template<typename Connection>
bool
deliver(Connection &c, uint64_t id, const piece &p, observed &o)
{
  return deliver(c, id, to_buffer(p.bytes), p.fin, o);
}

// A client with request streams 0, 4, ... open and started, so that it takes
// responses for them.
struct open_client {
  bnl::http3::client::connection connection;
  std::vector<bnl::http3::request::handle> handles;

  void open(size_t n)
  {
    for (size_t i = 0; i < n; i++) {
      auto r = connection.request();
      CHECK(r, "request() failed: " << ::show(r));
      handles.push_back(std::move(r).value());
      CHECK(handles.back().header(bnl::http3::header_view(":method", "GET")), "header() failed");
      CHECK(handles.back().start(), "start() failed");
      CHECK(handles.back().fin(), "fin() failed");
    }
    flush();
  }

  void flush()
  {
    for (size_t i = 0;; i++) {
      CHECK(i < 100000, "send() never becomes idle");
      auto e = connection.send();
      if (!e) {
        CHECK(e.error() == error::idle, "send() failed: " << name(e.error()));
        break;
      }
    }
  }
};

struct open_server {
  bnl::http3::server::connection connection;
};

inline std::unique_ptr<open_server>
make_server()
{
  return std::unique_ptr<open_server>(new open_server());
}

inline std::unique_ptr<open_client>
make_client(size_t streams = 2)
{
  std::unique_ptr<open_client> c(new open_client());
  c->open(streams);
  return c;
}

// The number of a stream that a client may open. Besides small ones, numbers
// that agree with a small one in their low 8, 16, 32 or 48 bits.
inline uint64_t
gen_stream_id(gen &g, uint64_t small)
{
  uint64_t low = 4 * g.draw(small);
  switch (g.pick({ 6, 2, 1 })) {
    case 0:
      return low;
    case 1: {
      static const unsigned shifts[] = { 32, 31, 8, 16, 24, 33, 48, 56, 61 };
      return low + (g.range(1, 2) << shifts[g.draw(8)]) % (ref::VARINT_MAX + 1);
    }
    default:
      return g.integer(0, ref::VARINT_MAX / 4) * 4;
  }
}

inline std::vector<uint64_t>
gen_stream_ids(gen &g, size_t n)
{
  std::vector<uint64_t> ids;
  uint64_t next = 0;
  while (ids.size() < n) {
    uint64_t id = gen_stream_id(g, n - 1);
    while (std::find(ids.begin(), ids.end(), id) != ids.end()) {
      id = next;
      next += 4;
    }
    ids.push_back(id);
  }
  return ids;
}

// What must be reported for all of `m`.
inline observed
complete(const message &m)
{
  observed o;
  o.headers = m.headers;
  o.headers_done = true;
  o.body = m.body;
  o.finished = true;
  return o;
}

// The content of `o` is a prefix of `m`.
inline void
check_prefix(const observed &o, const message &m)
{
  CHECK(o.headers.size() <= m.headers.size() && std::equal(o.headers.begin(), o.headers.end(), m.headers.begin()),
        "reported headers " << show(o.headers) << "\nsent " << show(m.headers));
  CHECK(!o.headers_done || o.headers.size() == m.headers.size(), "the last header is flagged too early");
  CHECK(m.body.compare(0, o.body.size(), o.body) == 0,
        "reported body " << pbt::hex(o.body) << " sent " << pbt::hex(m.body));
}

} // namespace net
