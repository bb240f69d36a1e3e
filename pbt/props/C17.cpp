// C17: protocol violations are detected and classified.
#include "frames.hpp"
#include "net.hpp"

PROPERTY("C17",
         "a valid beginning of a request, response or control stream (settings, headers, any number of DATA frames, unknown frames "
         "in between) followed by one violation (a frame out of place, of an unimplemented feature or of a wrong length, a bad "
         "header block, a wrong stream type, the end of a control stream) and generated further frames, delivered in generated "
         "pieces to a server or a waiting client; the beginning must be reported, then exactly the error that the table in this "
         "file gives for role, stream, position and violation; non-trivial: something was reported before the error, or the "
         "violation was split");

using namespace net;

struct violation {
  std::string bytes;
  std::vector<error> errors; // those that describe it
  std::string what;
};

static const std::vector<uint64_t> WITH_ID = { ref::F_CANCEL_PUSH, ref::F_GOAWAY, ref::F_MAX_PUSH_ID, ref::F_DUPLICATE_PUSH };

// A correct frame of the given type, payload included.
static std::string
whole_frame(gen &g, uint64_t type)
{
  ref::frame f;
  do {
    f = gen_frame(g, g.chance(1, 2) ? 200 : ref::VARINT_MAX);
    f.type = type;
    if (type == ref::F_DATA || type == ref::F_HEADERS || type == ref::F_PUSH_PROMISE) {
      f.size = g.draw(20);
    } else {
      f.size = 0;
    }
  } while (false);
  return ref::frame_head(f) + g.bytes(static_cast<size_t>(f.size));
}

// A known frame whose length does not fit its fields.
static std::string
misfit(gen &g, uint64_t type)
{
  ref::frame f = gen_frame(g, g.chance(1, 2) ? 200 : ref::VARINT_MAX);
  f.type = type;
  f.size = 0;
  std::string p = ref::frame_payload(f);
  size_t n = p.size();
  std::string declared = ref::varint(type);
  if (g.chance(1, 2)) { // shorter than its last field
    size_t less = 0;
    if (type == ref::F_PRIORITY) {
      less = static_cast<size_t>(g.draw(n - 1));
    } else if (type == ref::F_SETTINGS) {
      less = n - 1; // cuts the last value
      if (p[n - 1] == 0 && less > 0) {
        // fine: still one byte short
      }
    } else {
      less = static_cast<size_t>(g.draw(n - 1));
    }
    // The fields are all there; only the length says otherwise.
    return declared + ref::varint(less) + p;
  }
  if (type == ref::F_SETTINGS) { // an identifier without a value
    return declared + ref::varint(n + 1) + p + std::string(1, '\x21') + std::string(1, '\x05');
  }
  size_t more = static_cast<size_t>(g.range(1, 20));
  return declared + ref::varint(n + more) + p + g.bytes(more);
}

static const char *
type_name(uint64_t t)
{
  switch (t) {
    case ref::F_DATA: return "DATA";
    case ref::F_HEADERS: return "HEADERS";
    case ref::F_PRIORITY: return "PRIORITY";
    case ref::F_CANCEL_PUSH: return "CANCEL_PUSH";
    case ref::F_SETTINGS: return "SETTINGS";
    case ref::F_PUSH_PROMISE: return "PUSH_PROMISE";
    case ref::F_GOAWAY: return "GOAWAY";
    case ref::F_MAX_PUSH_ID: return "MAX_PUSH_ID";
    default: return "DUPLICATE_PUSH";
  }
}

enum position { START, AFTER_HEADERS, AFTER_TRAILERS };

// The error for a correct frame of a type that may not appear there.
static error
on_request(bool server, uint64_t type, position p)
{
  switch (type) {
    case ref::F_DATA:
    case ref::F_HEADERS:
      return error::unexpected_frame;
    case ref::F_SETTINGS:
    case ref::F_MAX_PUSH_ID:
    case ref::F_CANCEL_PUSH:
    case ref::F_GOAWAY:
      return error::wrong_stream;
    case ref::F_PRIORITY:
      return server && p == START ? error::not_implemented : error::unexpected_frame;
    default: // pushes: only a server can make them
      return server ? error::unexpected_frame : error::not_implemented;
  }
}

static error
on_control(bool server, uint64_t type)
{
  switch (type) {
    case ref::F_DATA:
    case ref::F_HEADERS:
    case ref::F_PUSH_PROMISE:
    case ref::F_DUPLICATE_PUSH:
      return error::wrong_stream;
    case ref::F_SETTINGS:
      return error::unexpected_frame;
    case ref::F_CANCEL_PUSH:
      return error::not_implemented;
    case ref::F_GOAWAY:
      return server ? error::unexpected_frame : error::not_implemented;
    default: // MAX_PUSH_ID, PRIORITY: only from a client
      return server ? error::not_implemented : error::unexpected_frame;
  }
}

// --- delivering ---

template<typename Make>
static void
play(gen &g, Make make, uint64_t id, const std::string &bytes, const observed &before, const violation &v, size_t split_from)
{
  // Nothing depends on the end of the stream, so it comes or not.
  bool control = id == 2 || id == 3;
  std::vector<piece> pieces = gen_pieces(g, bytes, !control && g.chance(1, 4));
  observed o;
  size_t at = 0;
  auto c = make();
  for (const piece &p : pieces) {
    g.note("piece of " + std::to_string(p.bytes.size()) + " bytes" + (p.fin ? " and the end" : "") + ": " +
           pbt::hex(p.bytes));
    bool ok = deliver(c->connection, id, p, o);
    at += p.bytes.size();
    if (!ok) {
      break;
    }
    if (at > split_from && at < bytes.size()) {
      g.nontrivial();
    }
  }
  CHECK(o.failed, v.what << ": no error; got " << describe(o));
  CHECK(std::find(v.errors.begin(), v.errors.end(), o.failure) != v.errors.end(),
        v.what << ": got error " << name(o.failure) << ", want " << name(v.errors[0]));
  observed got = o;
  got.failed = false;
  CHECK(got == before, v.what << ": reported before the error: " << describe(got) << "\nwant " << describe(before));
  CHECK(o.settings == 0 || (o.values.max_header_list_size == before.values.max_header_list_size &&
                            o.values.num_placeholders == before.values.num_placeholders &&
                            o.values.qpack_max_table_capacity == before.values.qpack_max_table_capacity &&
                            o.values.qpack_blocked_streams == before.values.qpack_blocked_streams),
        "the settings were changed");
  if (!o.headers.empty() || o.settings > 0) {
    g.nontrivial();
  }
  g.label(v.what);
}

static std::string
tail(gen &g)
{
  std::string s;
  while (g.chance(1, 2)) {
    s += g.chance(1, 2) ? whole_frame(g, g.of(KNOWN_FRAMES)) : g.bytes(g.size(20));
  }
  return s;
}

// --- request streams ---

static violation
bad_block(gen &g, observed &before)
{
  violation v;
  std::string good("\0\0", 2);
  for (size_t n = 0; g.more(n, 0, 5, 2); n++) {
    ref::header h = gen_header(g, 40);
    good += gen_line_for(g, h);
    before.headers.push_back(h);
  }
  std::string value = ref::literal(gen_token(g, 10, false), 7, 0, g.chance(1, 2));
  std::string after = g.bytes(g.size(10));
  switch (g.draw(8)) {
    case 0:
      v.what = "uppercase header name";
      v.errors = { error::malformed_header };
      {
        std::string n = gen_token(g, 20, true);
        n.insert(static_cast<size_t>(g.draw(n.size())), 1, static_cast<char>('A' + g.draw(25)));
        good += ref::literal(n, 3, 0x20, g.chance(1, 2)) + value;
      }
      break;
    case 1:
      v.what = "static index out of range";
      v.errors = { error::qpack_decompression_failed };
      good += ref::prefix_int(99 + g.integer(0, 100000), 6, 0xc0);
      break;
    case 2:
      v.what = "static name index out of range";
      v.errors = { error::qpack_decompression_failed };
      good += ref::prefix_int(99 + g.integer(0, 100000), 4, 0x50) + value;
      break;
    case 3:
      v.what = "dynamic table reference";
      v.errors = { error::qpack_decompression_failed };
      switch (g.draw(3)) {
        case 0: good += ref::prefix_int(g.draw(98), 6, 0x80); break;
        case 1: good += ref::prefix_int(g.draw(98), 4, 0x40) + value; break;
        case 2: good += ref::prefix_int(g.draw(98), 4, 0x10); break;
        default: good += ref::prefix_int(g.draw(98), 3, 0) + value; break;
      }
      break;
    case 4:
      v.what = "required insert count";
      v.errors = { error::qpack_decompression_failed };
      good = ref::prefix_int(g.integer(1, 100000), 8, 0) + ref::prefix_int(g.draw(200), 7, 0) + good.substr(2);
      before.headers.clear();
      break;
    case 5: {
      v.what = "bad Huffman string";
      v.errors = { error::qpack_decompression_failed };
      std::string bits = ref::huffman(gen_token(g, 10, true)) + std::string("\xff\xff\xff\xff", 4); // EOS
      good += g.chance(1, 2) ? ref::prefix_int(g.draw(98), 4, 0x50) + ref::prefix_int(bits.size(), 7, 0x80) + bits
                             : ref::prefix_int(bits.size(), 3, 0x28) + bits + value;
      break;
    }
    case 6: { // the frame ends inside a header
      v.what = "header longer than its frame";
      v.errors = { error::malformed_frame };
      std::string l = ref::literal("x" + gen_token(g, 20, true), 3, 0x20, g.chance(1, 2)) + value;
      size_t less = static_cast<size_t>(g.range(1, l.size() - 1));
      good += l;
      v.bytes = ref::varint(ref::F_HEADERS) + ref::varint(good.size() - less) + good;
      return v;
    }
    default:
      v.what = "empty HEADERS frame";
      v.errors = { error::malformed_frame };
      before.headers.clear();
      v.bytes = frame(ref::F_HEADERS, "");
      return v;
  }
  v.bytes = frame(ref::F_HEADERS, good + after);
  return v;
}

static void
request_streams(gen &g)
{
  bool server = g.chance(1, 2);
  uint64_t id = server ? gen_stream_id(g, 5) : 4 * g.draw(1);
  observed before;
  std::string bytes;
  auto unknown = [&]() {
    while (g.chance(1, 5)) {
      bytes += gen_unknown_frame(g, 20);
    }
  };
  unknown();
  position p = START;
  violation v;
  if (g.chance(1, 3)) {
    p = START;
    if (g.chance(1, 2)) {
      v = bad_block(g, before);
    }
  } else {
    p = AFTER_HEADERS;
    message m = gen_message(g, 4, 30, 0);
    before.headers = m.headers;
    before.headers_done = true;
    bytes += frame(ref::F_HEADERS, gen_block(g, m.headers));
    unknown();
    for (size_t n = 0; g.more(n, 0, 4, 1); n++) {
      std::string d = g.bytes(g.size(30));
      before.body += d;
      bytes += frame(ref::F_DATA, d);
      unknown();
    }
    if (g.chance(1, 6)) {
      p = AFTER_TRAILERS;
      bytes += frame(ref::F_HEADERS, gen_block(g, gen_message(g, 2, 10, 0).headers));
      unknown();
    }
  }
  if (v.what.empty()) {
    std::vector<uint64_t> types;
    for (uint64_t t : KNOWN_FRAMES) {
      bool fine = (p == START && t == ref::F_HEADERS) || (p == AFTER_HEADERS && (t == ref::F_DATA || t == ref::F_HEADERS));
      if (!fine) {
        types.push_back(t);
      }
    }
    uint64_t t = g.of(types);
    v.bytes = whole_frame(g, t);
    v.errors = { on_request(server, t, p) };
    v.what = std::string(type_name(t)) + (p == START ? " at the start of a " : p == AFTER_HEADERS ? " after the headers of a "
                                                                                                  : " after the trailers of a ") +
             (server ? "request" : "response");
  }
  size_t from = bytes.size();
  bytes += v.bytes + tail(g);
  g.note("stream: " + pbt::hex(bytes, 300) + ", violation at " + std::to_string(from) + ": " + v.what);
  if (server) {
    play(g, make_server, id, bytes, before, v, from);
  } else {
    play(g, []() { return make_client(); }, id, bytes, before, v, from);
  }
}

// --- control streams ---

static void
control_streams(gen &g)
{
  bool server = g.chance(1, 2);
  std::string bytes;
  observed before;
  violation v;
  uint64_t how = g.pick({ 2, 1, 3, 2, 1 });
  if (how == 4) {
    uint64_t t = g.chance(1, 2) ? g.range(1, 0x3f) : g.integer(1, ref::VARINT_MAX);
    v.what = "a control stream of another type";
    v.errors = { error::not_implemented, error::wrong_stream };
    v.bytes = ref::varint(t);
  } else {
    bytes += std::string(1, '\0');
    if (how == 0) {
      uint64_t t = 0;
      do {
        t = g.of(KNOWN_FRAMES);
      } while (t == ref::F_SETTINGS);
      v.what = std::string(type_name(t)) + " instead of SETTINGS";
      v.errors = { error::missing_settings };
      v.bytes = whole_frame(g, t);
    } else if (how == 1) {
      v.what = "SETTINGS of a wrong length";
      v.errors = { error::malformed_frame };
      v.bytes = misfit(g, ref::F_SETTINGS);
    } else {
      ref::frame s;
      s.type = ref::F_SETTINGS;
      s.max_header_list_size = g.integer(0, ref::VARINT_MAX);
      s.num_placeholders = g.integer(0, 1000);
      s.qpack_max_table_capacity = g.integer(0, 100000);
      s.qpack_blocked_streams = g.integer(0, 1000);
      bytes += ref::frame_head(s);
      before.settings = 1;
      before.values.max_header_list_size = s.max_header_list_size;
      before.values.num_placeholders = s.num_placeholders;
      before.values.qpack_max_table_capacity = s.qpack_max_table_capacity;
      before.values.qpack_blocked_streams = s.qpack_blocked_streams;
      while (g.chance(1, 4)) {
        bytes += gen_unknown_frame(g, 20);
      }
      if (how == 2) {
        uint64_t t = g.of(KNOWN_FRAMES);
        v.what = std::string(type_name(t)) + " on a control stream from a " + (server ? "client" : "server");
        v.errors = { on_control(server, t) };
        v.bytes = whole_frame(g, t);
      } else {
        std::vector<uint64_t> types = { ref::F_CANCEL_PUSH, ref::F_GOAWAY, ref::F_MAX_PUSH_ID, ref::F_PRIORITY };
        uint64_t t = g.of(types);
        v.what = std::string(type_name(t)) + " of a wrong length";
        v.errors = { error::malformed_frame };
        v.bytes = misfit(g, t);
      }
    }
  }
  size_t from = bytes.size();
  bytes += v.bytes + tail(g);
  g.note("stream: " + pbt::hex(bytes, 300) + ", violation at " + std::to_string(from) + ": " + v.what);
  if (server) {
    play(g, make_server, 2, bytes, before, v, from);
  } else {
    play(g, []() { return make_client(); }, 3, bytes, before, v, from);
  }
}

// The peer ends its control stream, at any point.
template<typename Make>
static void
closed_control(gen &g, Make make, uint64_t id)
{
  ref::frame s;
  s.type = ref::F_SETTINGS;
  s.num_placeholders = g.integer(0, 1000);
  std::string bytes = std::string(1, '\0') + ref::frame_head(s);
  size_t settings_end = bytes.size();
  while (g.chance(1, 2)) {
    bytes += gen_unknown_frame(g, 20);
  }
  bytes.resize(static_cast<size_t>(g.draw(bytes.size())));
  std::vector<piece> pieces = gen_pieces(g, bytes, true);
  auto c = make();
  observed o;
  size_t at = 0;
  for (const piece &p : pieces) {
    size_t before = at;
    at += p.bytes.size();
    g.note("piece of " + std::to_string(p.bytes.size()) + " bytes" + (p.fin ? " and the end" : ""));
    bool ok = deliver(c->connection, id, p, o);
    if (p.fin) {
      CHECK(!ok && o.failure == error::closed_critical_stream, "the end of the control stream: " << describe(o));
      CHECK(o.settings == (before >= settings_end) || at >= settings_end, "settings: " << describe(o));
    } else {
      CHECK(ok, "control stream: " << describe(o));
      CHECK(o.settings == (at >= settings_end ? 1 : 0), "settings after " << at << " bytes: " << describe(o));
    }
  }
  if (pieces.size() >= 2) {
    g.nontrivial();
  }
}

static void
closed(gen &g)
{
  if (g.chance(1, 2)) {
    closed_control(g, make_server, 2);
  } else {
    closed_control(g, []() { return make_client(); }, 3);
  }
}

PART("request streams", request_streams, 180000, 900000);
PART("control streams", control_streams, 180000, 900000);
PART("ended control streams", closed, 40000, 200000);
