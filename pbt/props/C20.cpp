// C20: reserved and unknown frames and streams are ignored.
#include "frames.hpp"
#include "net.hpp"

PROPERTY("C20",
         "a message (or the settings) is framed once without and once with frames of reserved or unknown types (any type of any "
         "width that is not defined, payloads up to 130 kB, including ones that look like frames, lengths in any width) at "
         "generated positions from the start of the stream to just before its end (after the settings on a control stream); on "
         "a server or a waiting client, in generated pieces, with deliveries on unidirectional streams of other kinds in between, "
         "it must be reported as without them; also floods of ignorable frames (megabytes, or tens of thousands of tiny ones); non-trivial: at least two ignorable frames or streams");

using namespace net;

struct stuffing {
  size_t frames = 0;
  size_t streams = 0;
};

// A varint of any width that fits.
static std::string
wide(gen &g, uint64_t v)
{
  unsigned w = ref::varint_size(v);
  while (w < 8 && g.chance(1, 6)) {
    w *= 2;
  }
  return ref::varint(v, w);
}

static std::string
ignorable(gen &g)
{
  uint64_t type = gen_reserved_type(g);
  std::string payload;
  switch (g.pick({ 2, 4, 2, 2, 1 })) {
    case 0:
      break;
    case 1:
      payload = g.bytes(g.size(60));
      break;
    case 2: { // frames
      ref::frame f = gen_frame(g, 200);
      payload = ref::frame_head(f) + g.bytes(g.size(8));
      break;
    }
    case 3: // the beginning of a frame
      payload = ref::varint(g.draw(14)) + std::string(1, static_cast<char>(g.draw(255)));
      break;
    default:
      payload = g.chance(1, 6) ? std::string(static_cast<size_t>(g.of(std::vector<uint64_t>{ 16384, 65536, 131072 }) + g.draw(40)),
                                             static_cast<char>(g.of(std::vector<uint64_t>{ 0, 1, 2, 4, 7 })))
                               : g.bytes(g.size(5000));
      break;
  }
  return wide(g, type) + wide(g, payload.size()) + payload;
}

// The frames of a stream, with ignorable ones in between.
static std::string
stuff(gen &g, const std::vector<std::string> &frames, size_t from, stuffing &n)
{
  std::string s;
  for (size_t i = 0; i <= frames.size(); i++) {
    while (i >= from && g.chance(2, 5)) {
      s += ignorable(g);
      n.frames++;
    }
    if (i < frames.size()) {
      s += frames[i];
    }
  }
  return s;
}

// Delivers `pieces` with traffic on other unidirectional streams in between.
template<typename C>
static bool
play(gen &g, C &c, uint64_t id, const std::vector<piece> &pieces, observed &o, stuffing &n)
{
  bool client = std::is_same<C, bnl::http3::client::connection>::value;
  std::map<uint64_t, bool> started;
  std::map<uint64_t, bool> ended;
  auto other = [&]() {
    uint64_t other_id = (client ? 7 : 6) + 4 * (g.chance(1, 6) ? g.integer(0, 1ULL << 40) : g.draw(3));
    if (ended[other_id]) {
      return;
    }
    std::string s;
    if (!started[other_id]) {
      started[other_id] = true;
      n.streams++;
      uint64_t type = g.chance(1, 2) ? g.range(2, 3) : 0x1f * g.draw(20) + 0x21; // QPACK streams, reserved
      s = wide(g, type);
    }
    s += g.bytes(g.size(40));
    bool fin = g.chance(1, 3);
    ended[other_id] = fin;
    observed none;
    g.note("stream " + std::to_string(other_id) + ": " + pbt::hex(s));
    CHECK(deliver(c, other_id, to_buffer(s), fin, none), "stream " << other_id << ", of another kind, gave " << describe(none));
    CHECK(none == observed(), "stream " << other_id << ", of another kind, gave " << describe(none));
  };
  for (const piece &p : pieces) {
    while (g.chance(1, 6)) {
      other();
    }
    g.note("piece " + pbt::hex(p.bytes, 200) + (p.fin ? " and the end" : ""));
    if (!deliver(c, id, p, o)) {
      return false;
    }
  }
  while (g.chance(1, 6)) {
    other();
  }
  return true;
}

static void
messages(gen &g)
{
  message m = gen_message(g, 5, 40, 200);
  std::vector<std::string> frames;
  frames.push_back(frame(ref::F_HEADERS, gen_block(g, m.headers)));
  if (!m.body.empty() || g.chance(1, 4)) {
    size_t at = 0;
    for (size_t n : g.segments(m.body.size())) {
      frames.push_back(frame(ref::F_DATA, m.body.substr(at, n)));
      at += n;
    }
  }
  std::string plain;
  for (const std::string &f : frames) {
    plain += f;
  }
  stuffing n;
  std::string stuffed = stuff(g, frames, 0, n);
  g.note("stream " + pbt::hex(stuffed, 400));
  std::vector<piece> pieces = gen_pieces(g, stuffed, true);
  observed without;
  observed with;
  if (g.chance(1, 2)) {
    g.label("request");
    uint64_t id = gen_stream_id(g, 3);
    deliver(make_server()->connection, id, piece{ plain, true }, without);
    auto c = make_server();
    play(g, c->connection, id, pieces, with, n);
  } else {
    g.label("response");
    uint64_t id = 4 * g.draw(1);
    deliver(make_client()->connection, id, piece{ plain, true }, without);
    auto c = make_client();
    play(g, c->connection, id, pieces, with, n);
  }
  CHECK(without == complete(m), "without: " << describe(without));
  CHECK(with == without, "with " << n.frames << " ignorable frames: " << describe(with) << "\nwithout: " << describe(without));
  if (n.frames + n.streams >= 2) {
    g.nontrivial();
  }
  g.label("ignorable frames", n.frames);
  g.label("ignorable streams", n.streams);
}

template<typename C>
static void
control(gen &g, std::unique_ptr<C> c, uint64_t id)
{
  ref::frame s;
  s.type = ref::F_SETTINGS;
  s.max_header_list_size = g.integer(0, ref::VARINT_MAX);
  s.num_placeholders = g.draw(1000);
  stuffing n;
  std::string bytes = stuff(g, { std::string(1, '\0'), ref::frame_head(s) }, 2, n);
  std::vector<piece> pieces = gen_pieces(g, bytes, false);
  observed o;
  CHECK(play(g, c->connection, id, pieces, o, n), "the control stream failed: " << describe(o));
  CHECK(o.settings == 1 && o.values.max_header_list_size == s.max_header_list_size &&
          o.values.num_placeholders == s.num_placeholders,
        "the control stream gave " << describe(o));
  // What follows is still understood.
  std::string bad = g.chance(1, 2) ? frame(ref::F_DATA, "") : ref::frame_head(s);
  CHECK(!deliver(c->connection, id, piece{ bad, false }, o), "a violation after the ignorable frames gave no error");
  CHECK(o.failure == (bad[0] == 0 ? error::wrong_stream : error::unexpected_frame),
        "a violation after the ignorable frames gave " << name(o.failure));
  if (n.frames + n.streams >= 2) {
    g.nontrivial();
  }
}

static void
controls(gen &g)
{
  if (g.chance(1, 2)) {
    control(g, make_server(), 2);
  } else {
    control(g, make_client(), 3);
  }
}

// Ignorable frames of megabytes, or very many small ones, in one place.
static void
floods(gen &g)
{
  message m = gen_message(g, 3, 20, 60);
  std::vector<std::string> frames;
  frames.push_back(frame(ref::F_HEADERS, gen_block(g, m.headers)));
  if (!m.body.empty()) {
    frames.push_back(frame(ref::F_DATA, m.body));
  }
  std::string flood;
  stuffing n;
  if (g.chance(1, 2)) {
    size_t size = static_cast<size_t>(g.range(1 << 20, 5 << 20));
    flood = wide(g, gen_reserved_type(g)) + wide(g, size) + std::string(size, static_cast<char>(g.of(std::vector<uint64_t>{ 0, 1, 4, 255 })));
    n.frames = 2;
    g.note("an ignorable frame of " + std::to_string(size) + " bytes");
  } else {
    std::string one = ref::varint(gen_reserved_type(g)) + ref::varint(g.draw(2));
    one += std::string(static_cast<size_t>(one.back()), '\0');
    n.frames = static_cast<size_t>(g.range(20000, 120000));
    for (size_t i = 0; i < n.frames; i++) {
      flood += one;
    }
    g.note(std::to_string(n.frames) + " times " + pbt::hex(one));
  }
  size_t where = static_cast<size_t>(g.draw(frames.size()));
  std::string stuffed;
  for (size_t i = 0; i <= frames.size(); i++) {
    stuffed += (i == where ? flood : "") + (i < frames.size() ? frames[i] : "");
  }
  g.note("before frame " + std::to_string(where));
  std::vector<piece> pieces;
  size_t at = 0;
  for (size_t k = static_cast<size_t>(g.draw(6)); k > 0; k--) {
    size_t size = static_cast<size_t>(g.draw(stuffed.size() - at));
    pieces.push_back({ stuffed.substr(at, size), false });
    at += size;
  }
  pieces.push_back({ stuffed.substr(at), g.chance(1, 2) });
  if (!pieces.back().fin) {
    pieces.push_back({ "", true });
  }
  observed with;
  if (g.chance(1, 2)) {
    auto c = make_server();
    play(g, c->connection, 4 * g.draw(2), pieces, with, n);
  } else {
    auto c = make_client();
    play(g, c->connection, 4 * g.draw(1), pieces, with, n);
  }
  CHECK(with == complete(m), "with " << n.frames << " ignorable frames: " << describe(with) << "\nwant: " << describe(complete(m)));
  g.nontrivial();
}

PART("messages", messages, 120000, 600000);
PART("control streams", controls, 80000, 400000);
PART("floods", floods, 240, 4000);
