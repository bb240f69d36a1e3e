// C15: hostile input cannot crash or stall an endpoint.
#include "hostile.hpp"
#include "program.hpp"

#include <bnl/http3/codec/body.hpp>
#include <bnl/http3/codec/headers.hpp>
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/http3/codec/qpack/huffman.hpp>
#include <bnl/http3/codec/qpack/literal.hpp>
#include <bnl/http3/codec/qpack/prefix_int.hpp>
#include <bnl/http3/codec/varint.hpp>

PROPERTY("C15",
         "histories of up to 60 transport events for a server or client (its requests open or not), on any stream number, with "
         "random bytes, valid traffic, and valid traffic mutated by flips, cuts, insertions, repetitions and wrong lengths, in "
         "generated pieces, ended or not, going on after errors, together with polls and responses; and every decoder fed the "
         "same kinds of bytes over all kinds of sequences; and floods of 20000 to 120000 small elements of one kind; run under the address and undefined-behaviour sanitizers with bounds on the number "
         "of events, on memory while it runs, and none left over; non-trivial: something was decoded and something was refused");

using namespace program;
using namespace hostile;

static size_t
touch(const std::string &s)
{
  size_t n = 0;
  for (char c : s) {
    n = n * 31 + static_cast<unsigned char>(c);
  }
  return n;
}

static volatile size_t sink;

struct stats {
  size_t bytes = 0;
  size_t prepared = 0; // bytes this file made, delivered or not
  int64_t peak = 0;    // of the memory in use, except while they were made
  size_t deliveries = 0;
  size_t events = 0;
  size_t errors = 0;
};

static void
touch(http3::event &e)
{
  using type = http3::event::type;
  switch (e) {
    case type::header:
      sink += touch(str(e.header.header.name())) + touch(str(e.header.header.value()));
      break;
    case type::body:
      sink += touch(str(e.body.buffer));
      break;
    default:
      break;
  }
}

template<typename C>
static void
feed(gen &g, C &c, uint64_t id, const std::string &bytes, bool fin, stats &st)
{
  g.note("stream " + std::to_string(id) + ": " + pbt::hex(bytes, 200) + (fin ? " and the end" : ""));
  st.bytes += bytes.size();
  st.deliveries++;
  auto r = c.recv(quic::event(quic::data{ id, fin, gen_buffer(g, bytes) }));
  if (!r) {
    st.errors++;
    return;
  }
  auto generator = std::move(r).value();
  size_t again = static_cast<size_t>(g.chance(1, 4) ? g.draw(4) : 0);
  while (generator.next()) {
    auto e = generator.get();
    if (!e) {
      st.errors++;
      if (again-- == 0) {
        break;
      }
      continue;
    }
    st.events++;
    CHECK(st.events <= 2 * st.bytes + 3 * st.deliveries + 8,
          st.events << " events from " << st.bytes << " bytes in " << st.deliveries << " deliveries");
    http3::event event = std::move(e).value();
    touch(event);
  }
}

template<typename C>
static bool
respond(gen &, C &, uint64_t, std::vector<handle_t> &)
{
  return false;
}

template<>
bool
respond(gen &g, server_t &c, uint64_t id, std::vector<handle_t> &handles)
{
  auto r = c.response(id);
  if (r) {
    handles.push_back(std::move(r).value());
    g.note("response " + std::to_string(id));
    return true;
  }
  return false;
}

static http3::result<handle_t>
request(client_t &c)
{
  return c.request();
}

static http3::result<handle_t>
request(server_t &)
{
  return error::internal;
}

template<typename C>
static void
history(gen &g, stats &st)
{
  C c;
  bool client = runner<C>::is_client;
  uint64_t control = client ? 3 : 2;
  std::vector<handle_t> handles;
  std::map<uint64_t, std::string> left; // bytes of a stream still to be delivered
  auto poll = [&]() {
    auto e = c.send();
    if (e) {
      quic::event v = std::move(e).value();
      sink += touch(str(v.data.buffer));
    }
  };
  if (client) {
    for (size_t n = g.draw(3); n > 0; n--) {
      auto r = request(c);
      CHECK(r, "request() failed");
      handles.push_back(std::move(r).value());
      if (g.chance(7, 8)) {
        (void) handles.back().header(http3::header_view("a", "b"));
        (void) handles.back().start();
        if (g.chance(1, 2)) {
          (void) handles.back().fin();
        }
      }
    }
    for (size_t n = g.draw(20); n > 0; n--) {
      poll();
    }
  }
  for (size_t n = 0; g.more(n, 1, 60, 12); n++) {
    uint64_t id = 0;
    switch (g.pick({ 8, 3, 1, 1 })) {
      case 0:
        id = g.chance(9, 10) ? 4 * g.draw(3) : gen_stream_id(g, 3);
        break;
      case 1:
        id = control;
        break;
      case 2:
        id = g.draw(12);
        break;
      default:
        id = g.integer(0, UINT64_MAX);
        break;
    }
    switch (g.pick({ 12, 2, 2, 1, 1 })) {
      case 0: {
        std::string &s = left[id];
        if (s.empty()) {
          st.peak = std::max(st.peak, pbt::peak_bytes(false));
          s = id == control && g.chance(2, 3) ? (g.chance(1, 2) ? control_bytes(g) : mutate(g, control_bytes(g))) : input(g);
          st.prepared += s.capacity();
          pbt::peak_bytes(true);
        }
        size_t k = g.chance(1, 2) ? s.size() : static_cast<size_t>(g.draw(s.size()));
        std::string now = s.substr(0, k);
        s.erase(0, k);
        feed(g, c, id, now, g.chance(1, id == control ? 20 : 5), st);
        break;
      }
      case 1:
        poll();
        break;
      case 2:
        respond(g, c, id, handles);
        break;
      case 3:
        if (!handles.empty()) {
          handle_t &h = handles[static_cast<size_t>(g.draw(handles.size() - 1))];
          (void) h.header(http3::header_view(":status", "200"));
          (void) h.body(to_buffer("x"));
          (void) h.start();
          if (g.chance(1, 2)) {
            (void) h.fin();
          }
        }
        break;
      default: {
        auto r = c.recv(quic::event(quic::application::error{ static_cast<decltype(quic::application::error::type)>(g.draw(2)), id, g.integer(0, ref::VARINT_MAX) }));
        st.deliveries++;
        if (!r) {
          st.errors++;
        } else {
          auto generator = std::move(r).value();
          for (size_t i = 0; i < 3 && generator.next(); i++) {
            (void) generator.get();
          }
        }
        break;
      }
    }
    if (g.chance(1, 30) && !handles.empty()) {
      handles.pop_back();
    }
  }
}

template<typename C>
static void
connection(gen &g)
{
  stats st;
  // What the case itself keeps (choices, notes) is measured by doing nothing.
  int64_t before = pbt::live_bytes();
  pbt::peak_bytes(true);
  history<C>(g, st);
  int64_t peak = std::max(st.peak, pbt::peak_bytes(false)) - before;
  int64_t limit = (1 << 18) + 64 * static_cast<int64_t>(st.bytes) + 8192 * static_cast<int64_t>(st.deliveries) +
                  3 * static_cast<int64_t>(st.prepared) + 32 * static_cast<int64_t>(g.choices().capacity()) + 4 * static_cast<int64_t>(g.notes().capacity());
  CHECK(peak <= limit, "up to " << peak << " bytes were in use for " << st.bytes << " bytes in " << st.deliveries << " deliveries");
  if (st.events > 0 && st.errors > 0) {
    g.nontrivial();
  }
  g.label("events", st.events);
  g.label("errors", st.errors);
}

// Nothing stays allocated when the connection is gone.
template<typename C>
static void
leaks(gen &g)
{
  // The history is made once, and then run again with nothing else going on.
  stats st;
  history<C>(g, st);
  std::vector<uint64_t> choices = g.choices();
  stats st2;
  int64_t blocks = pbt::live_blocks();
  {
    gen inner(choices);
    history<C>(inner, st2);
  }
  CHECK(pbt::live_blocks() == blocks, pbt::live_blocks() - blocks << " blocks of memory were left behind");
  if (st.events > 0 && st.errors > 0) {
    g.nontrivial();
  }
}

// --- decoders ---

template<typename Sequence, typename F>
static void
exhaust(Sequence &seq, size_t bytes, const char *what, stats &st, F decode)
{
  size_t steps = 0;
  size_t before = seq.size();
  while (decode(seq)) {
    st.events++;
    CHECK(++steps <= 2 * bytes + 8, what << ": " << steps << " results from " << bytes << " bytes");
    CHECK(seq.size() <= before, what << ": the input grew");
    before = seq.size();
  }
  CHECK(seq.size() <= before, what << ": the input grew");
  st.errors++;
}

template<typename Sequence>
static void
message_decoders(size_t which, Sequence &seq, const std::string &s, const char *kind, stats &st)
{
    switch (which) {
      case 4: {
        http3::qpack::decoder d;
        exhaust(seq, s.size(), kind, st, [&](auto &q) {
          auto r = d.decode(q);
          if (r) {
            sink += touch(str(r.value().name())) + touch(str(r.value().value()));
          }
          return bool(r);
        });
        (void) d.decode(seq);
        (void) d.decode(seq);
        break;
      }
      case 6: {
        http3::headers::decoder d;
        exhaust(seq, s.size(), kind, st, [&](auto &q) {
          auto r = d.decode(q);
          if (r) {
            sink += touch(str(r.value().name())) + touch(str(r.value().value()));
          }
          return bool(r);
        });
        (void) d.decode(seq);
        break;
      }
      default: {
        http3::body::decoder d;
        exhaust(seq, s.size(), kind, st, [&](auto &q) {
          auto r = d.decode(q);
          if (r) {
            sink += touch(str(r.value()));
          }
          return bool(r);
        });
        (void) d.decode(seq);
        break;
      }
    }
}

static void
decoders(gen &g)
{
  stats st;
  std::string s = input(g);
  size_t which = static_cast<size_t>(g.draw(9));
  g.note(std::to_string(which) + ": " + pbt::hex(s, 300));
  uint8_t prefix = static_cast<uint8_t>(g.range(1, 8));
  if (which == 4 || which >= 6) {
    if (g.chance(1, 2)) {
      base::buffer b = gen_buffer(g, s);
      message_decoders(which, b, s, "buffer", st);
    } else {
      base::buffers b = gen_rope(g, s);
      message_decoders(which, b, s, "buffers", st);
    }
  } else {
  with_sequence(g, s, [&](auto &seq, const char *kind) {
    switch (which) {
      case 0:
        exhaust(seq, s.size(), kind, st, [&](auto &q) { return bool(http3::varint::decode(q)); });
        break;
      case 1:
        exhaust(seq, s.size(), kind, st, [&](auto &q) { return bool(http3::qpack::prefix_int::decode(q, prefix)); });
        break;
      case 2:
        exhaust(seq, s.size(), kind, st, [&](auto &q) {
          auto r = http3::qpack::literal::decode(q, static_cast<uint8_t>(prefix < 8 ? prefix : 7));
          if (r) {
            sink += touch(r.value());
          }
          return bool(r);
        });
        break;
      case 3: {
        auto r = http3::qpack::huffman::decode(seq, seq.size());
        if (r) {
          sink += touch(r.value());
          CHECK(r.value().size() <= 2 * s.size(), "huffman: " << r.value().size() << " bytes from " << s.size());
          st.events++;
        } else {
          st.errors++;
        }
        break;
      }
      default:
        (void) http3::frame::peek(seq);
        exhaust(seq, s.size(), kind, st, [&](auto &q) { return bool(http3::frame::decode(q)); });
        (void) http3::frame::decode(seq);
        break;
    }
  });
  }
  if (s.size() >= 2) {
    g.nontrivial();
  }
  g.label("results", st.events);
}

// One small element very many times: what is proportional to the input here
// must be time and memory, and never the depth of calls.
template<typename C>
static void
floods(gen &g)
{
  std::string one;
  std::string start;
  bool control = false;
  std::string block = "\x01\x04" + std::string(2, '\0') + "\xd1\xc1"; // a complete HEADERS frame
  switch (g.draw(7)) {
    case 0: // ignorable frames
      one = ref::varint(gen_reserved_type(g)) + ref::varint(g.draw(3));
      one += std::string(static_cast<size_t>(one.back()), '\x01');
      start = g.chance(1, 2) ? block : "";
      break;
    case 1: // the same after the settings
      one = ref::varint(gen_reserved_type(g)) + ref::varint(g.draw(1));
      one += std::string(static_cast<size_t>(one.back()), '\x01');
      start = std::string("\0\x04\0", 3);
      control = true;
      break;
    case 2: // empty or small DATA frames
      one = std::string(1, '\0') + ref::varint(g.draw(2));
      one += std::string(static_cast<size_t>(one.back()), 'x');
      start = block;
      break;
    case 3: // ignorable and DATA frames in turn
      one = std::string("\x21\0\0\x01x", 5);
      start = block;
      break;
    case 4: { // headers of one block
      one = "\xd1";
      break;
    }
    case 5: // trailers
      one = block;
      start = block;
      break;
    case 6: // frames that are refused
      one = g.chance(1, 2) ? std::string("\x0d\x01\0", 3) : std::string("\x05\x02\0\0", 4);
      start = g.chance(1, 2) ? block : "";
      break;
    default: // settings
      one = ref::varint(g.chance(1, 2) ? 6 : 0x21) + ref::varint(g.draw(60));
      control = true;
      break;
  }
  size_t n = static_cast<size_t>(g.range(20000, 120000));
  std::string s = start;
  if (one == "\xd1") {
    s += "\x01" + ref::varint(n + 2) + std::string(2, '\0');
  } else if (control && start.empty()) {
    s += std::string("\0\x04", 2) + ref::varint(n * one.size());
  }
  for (size_t i = 0; i < n; i++) {
    s += one;
  }
  g.note(pbt::hex(s.substr(0, s.size() - n * one.size())) + " and " + std::to_string(n) + " times " + pbt::hex(one));
  C c;
  uint64_t id = control ? (runner<C>::is_client ? 3 : 2) : 0;
  if (runner<C>::is_client && !control) {
    auto r = request(c);
    CHECK(r, "request() failed");
    handle_t h = std::move(r).value();
    (void) h.header(http3::header_view("a", "b"));
    (void) h.start();
    for (int i = 0; i < 10; i++) {
      (void) c.send();
    }
  }
  stats st;
  size_t at = 0;
  for (size_t k = static_cast<size_t>(g.draw(4)); k > 0; k--) {
    size_t size = static_cast<size_t>(g.draw(s.size() - at));
    feed(g, c, id, s.substr(at, size), false, st);
    at += size;
  }
  feed(g, c, id, s.substr(at), g.chance(1, 2), st);
  if (!control) {
    base::buffer b = to_buffer(s);
    (void) http3::frame::peek(b);
    (void) http3::frame::decode(b);
    while (http3::frame::decode(b)) {
    }
  }
  g.label("events", st.events);
  g.label("errors", st.errors);
  g.nontrivial();
}

PART("server", connection<server_t>, 150000, 2000000);
PART("client", connection<client_t>, 150000, 2000000);
PART("nothing left by a server", leaks<server_t>, 20000, 250000);
PART("nothing left by a client", leaks<client_t>, 20000, 250000);
PART("decoders", decoders, 300000, 2000000);
PART("floods of a server", floods<server_t>, 100, 3000);
PART("floods of a client", floods<client_t>, 100, 3000);
