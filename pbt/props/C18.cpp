// C18: settings are exchanged exactly once, first and unchanged.
#include "frames.hpp"
#include "program.hpp"

PROPERTY("C18",
         "receiving: control streams whose SETTINGS frame carries generated values (or leaves them out) in generated order between "
         "unknown identifiers and that goes on with ignorable frames, in generated pieces interleaved with requests or responses; "
         "exactly one event with exactly the values is allowed, as soon as the frame is complete; sending: programs over up to "
         "four streams with moves of the connection; the control stream must come first, once, with the local settings, and stay "
         "open; non-trivial: at least two pieces of SETTINGS, or two streams in use");

using namespace net;

static std::string
gen_settings(gen &g, ref::frame &f)
{
  std::vector<std::string> entries;
  if (g.chance(2, 3)) {
    f.max_header_list_size = g.integer(0, ref::VARINT_MAX);
    entries.push_back(ref::varint(6) + ref::varint(f.max_header_list_size));
  }
  if (g.chance(2, 3)) {
    f.num_placeholders = g.integer(0, ref::VARINT_MAX);
    entries.push_back(ref::varint(9) + ref::varint(f.num_placeholders));
  }
  if (g.chance(2, 3)) {
    f.qpack_max_table_capacity = g.integer(0, ref::VARINT_MAX);
    entries.push_back(ref::varint(1) + ref::varint(f.qpack_max_table_capacity));
  }
  if (g.chance(2, 3)) {
    f.qpack_blocked_streams = g.integer(0, ref::VARINT_MAX);
    entries.push_back(ref::varint(7) + ref::varint(f.qpack_blocked_streams));
  }
  std::map<uint64_t, bool> used;
  for (size_t n = 0; g.more(n, 0, 5, 1); n++) {
    uint64_t id = g.chance(1, 2) ? 0x1f * g.draw(60) + 0x21 : g.integer(0x10, ref::VARINT_MAX);
    if (!used[id]) {
      used[id] = true;
      entries.push_back(ref::varint(id) + ref::varint(g.integer(0, ref::VARINT_MAX)));
    }
  }
  std::string p;
  while (!entries.empty()) {
    size_t i = static_cast<size_t>(g.draw(entries.size() - 1));
    p += entries[i];
    entries.erase(entries.begin() + static_cast<long>(i));
  }
  return frame(ref::F_SETTINGS, p);
}

static std::string
describe_settings(const bnl::http3::settings &s)
{
  std::ostringstream os;
  os << s.max_header_list_size << ' ' << s.num_placeholders << ' ' << s.qpack_max_table_capacity << ' '
     << s.qpack_blocked_streams;
  return os.str();
}

template<typename C>
static void
receive(gen &g, std::unique_ptr<C> c, uint64_t control)
{
  ref::frame want;
  std::string bytes = std::string(1, '\0');
  bytes += gen_settings(g, want);
  size_t end = bytes.size();
  while (g.chance(1, 2)) {
    bytes += gen_unknown_frame(g, 40);
  }
  std::vector<piece> pieces = gen_pieces(g, bytes, false);
  // Another stream or two in between.
  std::vector<std::vector<piece>> others;
  std::vector<message> messages;
  std::vector<observed> seen(2);
  for (size_t i = 0; i < 2 && g.chance(1, 2); i++) {
    messages.push_back(gen_message(g, 3, 20, 40));
    framing f;
    others.push_back(gen_pieces(g, gen_stream(g, messages.back(), f).bytes, true));
  }
  observed o;
  size_t at = 0;
  size_t next = 0;
  std::vector<size_t> next_other(others.size(), 0);
  size_t split = 0;
  while (true) {
    std::vector<size_t> choices;
    if (next < pieces.size()) {
      choices.push_back(SIZE_MAX);
    }
    for (size_t i = 0; i < others.size(); i++) {
      if (next_other[i] < others[i].size()) {
        choices.push_back(i);
      }
    }
    if (choices.empty()) {
      break;
    }
    size_t i = g.of(choices);
    if (i != SIZE_MAX) {
      CHECK(deliver(c->connection, 4 * i, others[i][next_other[i]++], seen[i]),
            "stream " << 4 * i << " failed: " << describe(seen[i]));
      CHECK(seen[i].settings == 0, "settings were reported for a request stream");
      continue;
    }
    const piece &p = pieces[next++];
    g.note("control: " + pbt::hex(p.bytes, 100));
    bool before = at < end;
    at += p.bytes.size();
    CHECK(deliver(c->connection, control, p, o), "the control stream failed after " << at << " bytes: " << describe(o));
    CHECK(o.settings == (at >= end ? 1 : 0), o.settings << " settings events after " << at << " bytes; the frame ends at " << end);
    split += before ? 1 : 0;
    if (at >= end) {
      CHECK(o.values.max_header_list_size == want.max_header_list_size && o.values.num_placeholders == want.num_placeholders &&
              o.values.qpack_max_table_capacity == want.qpack_max_table_capacity &&
              o.values.qpack_blocked_streams == want.qpack_blocked_streams,
            "settings " << describe_settings(o.values) << ", sent " << show(want));
    }
  }
  for (size_t i = 0; i < others.size(); i++) {
    CHECK(seen[i] == complete(messages[i]), "stream " << 4 * i << ": " << describe(seen[i]));
  }
  if (split >= 2) {
    g.nontrivial();
  }
  if (!others.empty()) {
    g.label("with other streams");
  }
}

static void
receiving(gen &g)
{
  if (g.chance(1, 2)) {
    g.label("server");
    receive(g, make_server(), 2);
  } else {
    g.label("client");
    receive(g, make_client(), 3);
  }
}

template<typename Connection>
static void
send(gen &g)
{
  using R = program::runner<Connection>;
  R r;
  uint64_t control = R::is_client ? 2 : 3;
  program::options o;
  o.streams = static_cast<size_t>(g.range(1, 4));
  o.steps = 40;
  std::vector<program::op> ops = program::gen_program(g, o);
  r.numbers = net::gen_stream_ids(g, o.streams);
  for (size_t i = 0; i < o.streams; i++) {
    r.open(g.chance(1, 2));
  }
  for (const program::op &x : ops) {
    g.note(program::show(x));
    r.run(x);
  }
  r.drain();
  bnl::http3::settings local;
  ref::frame want;
  want.type = ref::F_SETTINGS;
  want.max_header_list_size = local.max_header_list_size;
  want.num_placeholders = local.num_placeholders;
  want.qpack_max_table_capacity = local.qpack_max_table_capacity;
  want.qpack_blocked_streams = local.qpack_blocked_streams;
  const std::string &s = r.out[control].bytes;
  CHECK(!s.empty() && s[0] == 0, "the control stream begins with " << pbt::hex(s, 8));
  ref::decoded d = ref::decode_frame(s.substr(1));
  CHECK(d.what == ref::decoded::frame_ok && d.skips.empty() && d.frame == want,
        "the control stream carries " << pbt::hex(s) << ", want " << show(want));
  CHECK(1 + d.end == s.size(), "more than the settings on the control stream: " << pbt::hex(s));
  CHECK(!r.out[control].fin, "the control stream was ended");
  bool request = false;
  size_t streams = 0;
  for (const program::event &e : r.events) {
    CHECK(e.id != control || !request, "a part of the control stream came after a request stream");
    request |= e.id != control;
  }
  for (auto &entry : r.out) {
    CHECK(entry.first == control || entry.first % 4 == 0, "something was sent on stream " << entry.first);
    streams++;
  }
  if (streams > 2) {
    g.nontrivial();
  }
}

static void
sending(gen &g)
{
  if (g.chance(1, 2)) {
    g.label("sending client");
    send<program::client_t>(g);
  } else {
    g.label("sending server");
    send<program::server_t>(g);
  }
}

PART("receiving", receiving, 160000, 800000);
PART("sending", sending, 60000, 300000);
