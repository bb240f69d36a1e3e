// C34: what is finished is given back.
#include "net.hpp"

PROPERTY("C34",
         "one to six exchanges (messages framed in any way, with unknown frames and trailing headers; own messages of headers and "
         "body pieces; handles dropped early or late; ignored unidirectional streams; ignorable control frames; moves) on a server or "
         "a client, open at once and interleaved in a generated way, repeated for 10 to 400 rounds under new stream numbers (some runs with 20 to 300 exchanges at once); also a message that never ends, received and sent in repeated rounds; the "
         "heap memory after the last round must be that after the first; non-trivial: at least two exchanges, or two pieces, per round");

using namespace net;
namespace http3 = bnl::http3;
using bnl::quic::data;
using handle_t = http3::request::handle;

// What happens on one stream, the same in every round.
struct exchange {
  std::vector<piece> arriving;
  message m; // what arrives
  message own;
  std::vector<std::string> parts; // of the own body
  bool fin_last = true;           // the end comes as a call of its own
  bool drop_early = false;        // the handle goes as soon as it is not needed any more
  size_t respond_at = 0;          // after how many pieces (server)
};

struct side_stream {
  uint64_t offset = 0;
  std::vector<std::string> pieces;
  bool fin = false;
};

struct plan {
  std::vector<exchange> exchanges;
  std::vector<side_stream> sides;
  std::vector<std::string> control; // ignorable frames, in pieces
  std::vector<std::pair<size_t, unsigned>> schedule;
  bool move = false;
};

// The state of one stream in one round.
struct running {
  const exchange *e = nullptr;
  uint64_t id = 0;
  std::unique_ptr<handle_t> handle;
  size_t next_piece = 0;
  size_t next_call = 0;
  observed seen;
  bool sent_fin = false;

  size_t calls() const { return e->own.headers.size() + 1 + e->parts.size() + 1; }
  bool submitted() const { return handle == nullptr ? next_call > 0 : next_call == calls(); }
};

template<typename C>
struct runner {
  static constexpr bool is_client = std::is_same<C, http3::client::connection>::value;

  std::unique_ptr<C> c{ new C() };
  uint64_t round_first = 0;
  uint64_t next_side = 0;
  std::vector<running> now;

  running *find(uint64_t id)
  {
    for (running &r : now) {
      if (r.id == id) {
        return &r;
      }
    }
    return nullptr;
  }

  bool send()
  {
    auto r = c->send();
    if (!r) {
      CHECK(r.error() == error::idle, "send() failed with " << name(r.error()));
      return false;
    }
    bnl::quic::event e = std::move(r).value();
    running *x = find(e.data.id);
    CHECK(x != nullptr || e.data.id == (is_client ? 2 : 3), "something was sent on stream " << e.data.id);
    if (x != nullptr) {
      x->sent_fin = x->sent_fin || e.data.fin;
    }
    return true;
  }

  void receive(running &x)
  {
    if (x.next_piece < x.e->arriving.size()) {
      const piece &p = x.e->arriving[x.next_piece++];
      CHECK(deliver(*c, x.id, p, x.seen), "stream " << x.id << ": " << describe(x.seen));
    }
    if (!is_client && x.handle == nullptr && x.next_call == 0 && x.next_piece >= x.e->respond_at) {
      x.handle = response_of(*c, x.id);
    }
  }

  void call(running &x)
  {
    if (x.handle == nullptr || x.next_call == x.calls()) {
      return;
    }
    size_t k = x.next_call++;
    size_t headers = x.e->own.headers.size();
    bool ok = true;
    if (k < headers) {
      ok = static_cast<bool>(x.handle->header(view(x.e->own.headers[k])));
    } else if (k == headers) {
      ok = static_cast<bool>(x.handle->start());
    } else if (k - headers - 1 < x.e->parts.size()) {
      ok = static_cast<bool>(x.handle->body(to_buffer(x.e->parts[k - headers - 1])));
    } else {
      ok = static_cast<bool>(x.handle->fin());
    }
    CHECK(ok, "call " << k << " on the handle of stream " << x.id << " is refused");
    if (x.next_call == x.calls() && x.e->drop_early) {
      x.handle.reset();
    }
  }

  void ignored(const side_stream &s)
  {
    uint64_t id = (is_client ? 7 : 6) + 4 * (next_side++ + s.offset);
    for (size_t i = 0; i < s.pieces.size(); i++) {
      observed none;
      CHECK(deliver(*c, id, to_buffer(s.pieces[i]), s.fin && i + 1 == s.pieces.size(), none) && none == observed(),
            "stream " << id << ", of another kind, gave " << describe(none));
    }
  }

  void round(const plan &p)
  {
    now.clear();
    for (const exchange &e : p.exchanges) {
      running x;
      x.e = &e;
      if (is_client) {
        x.handle = request();
        x.id = x.handle->id();
      } else {
        x.id = round_first;
        round_first += 4;
      }
      now.push_back(std::move(x));
    }
    size_t control = 0;
    size_t side = 0;
    auto act = [&](size_t which, unsigned what) {
      running &x = now[which % now.size()];
      switch (what) {
        case 0:
          // A client takes a response once its request has begun.
          if (!is_client || begun(x)) {
            receive(x);
          }
          break;
        case 1:
          call(x);
          break;
        case 2:
          send();
          break;
        case 3:
          if (side < p.sides.size()) {
            ignored(p.sides[side++]);
          }
          break;
        default:
          if (control < p.control.size()) {
            observed none;
            CHECK(deliver(*c, is_client ? 3 : 2, to_buffer(p.control[control++]), false, none) && none == observed(),
                  "an ignorable control frame gave " << describe(none));
          }
          break;
      }
    };
    for (const auto &s : p.schedule) {
      act(s.first, s.second);
    }
    for (size_t i = 0; i < p.sides.size(); i++) {
      act(0, 3);
    }
    for (size_t i = 0; i < p.control.size(); i++) {
      act(0, 4);
    }
    for (size_t i = 0; i < now.size(); i++) {
      running &x = now[i];
      while (is_client && !x.submitted()) {
        call(x);
      }
      while (is_client && send()) {
      }
      while (x.next_piece < x.e->arriving.size()) {
        receive(x);
      }
      receive(x);
      while (!x.submitted()) {
        call(x);
      }
      while (send()) {
      }
    }
    for (const running &x : now) {
      CHECK(x.seen == complete(x.e->m), "stream " << x.id << " gave " << describe(x.seen));
      CHECK(x.sent_fin, "stream " << x.id << " was not ended");
    }
    now.clear();
    if (p.move) {
      c.reset(new C(std::move(*c)));
    }
  }

  // Whether a part of the request has been sent: at the latest with its end.
  bool begun(running &x)
  {
    if (x.next_call <= x.e->own.headers.size()) {
      return false; // not started
    }
    while (send()) {
    }
    return true;
  }

  std::unique_ptr<handle_t> request() { return request_of(*c); }

  template<typename T>
  static auto request_of(T &c) -> decltype(c.request(), std::unique_ptr<handle_t>())
  {
    auto r = c.request();
    CHECK(r, "request() failed with " << name(r.error()));
    return std::unique_ptr<handle_t>(new handle_t(std::move(r).value()));
  }

  static std::unique_ptr<handle_t> response_of(http3::server::connection &c, uint64_t id)
  {
    auto r = c.response(id);
    CHECK(r, "response(" << id << ") failed with " << name(r.error()));
    return std::unique_ptr<handle_t>(new handle_t(std::move(r).value()));
  }

  static std::unique_ptr<handle_t> response_of(http3::client::connection &, uint64_t) { return nullptr; }

  static std::unique_ptr<handle_t> request_of(http3::server::connection &) { return nullptr; }
};

static plan
gen_plan(gen &g)
{
  plan p;
  // Now and then, many at once.
  bool crowd = g.chance(1, 60);
  size_t crowded = crowd ? static_cast<size_t>(g.range(20, 300)) : 0;
  for (size_t n = 0; crowd ? n < crowded : g.more(n, 1, 6, 2); n++) {
    exchange e;
    if (crowd) {
      e.m = gen_message(g, 2, 10, 20);
      std::string bytes = gen_stream(g, e.m, framing()).bytes;
      size_t turn = static_cast<size_t>(g.draw(bytes.size()));
      e.arriving = { { bytes.substr(0, turn), false }, { bytes.substr(turn), true } };
      e.own = gen_message(g, 2, 10, 0);
      e.drop_early = g.chance(1, 2);
      e.respond_at = static_cast<size_t>(g.range(1, 2));
      p.exchanges.push_back(std::move(e));
      continue;
    }
    e.m = gen_message(g, 4, g.chance(1, 20) ? 5000 : 40, g.chance(1, 20) ? 20000 : 100);
    framing f;
    f.unknown_frames = g.chance(1, 3);
    f.trailers = g.chance(1, 4);
    std::string bytes = gen_stream(g, e.m, f).bytes;
    e.arriving = gen_pieces(g, bytes, true);
    e.own = gen_message(g, 4, g.chance(1, 20) ? 5000 : 40, 0);
    for (size_t k = 0; g.more(k, 0, 4, 1); k++) {
      e.parts.push_back(g.bytes(g.size(g.chance(1, 20) ? 20000 : 100)));
    }
    e.drop_early = g.chance(1, 2);
    e.respond_at = static_cast<size_t>(g.range(1, e.arriving.size()));
    g.note("exchange: " + std::to_string(e.arriving.size()) + " pieces of " + pbt::hex(bytes, 100) + ", own " + show(e.own.headers) +
           ", " + std::to_string(e.parts.size()) + " parts" + (e.drop_early ? ", handle dropped early" : "") + ", answered after " +
           std::to_string(e.respond_at));
    p.exchanges.push_back(std::move(e));
  }
  for (size_t n = 0; g.more(n, 0, 3, 0.4); n++) {
    side_stream s;
    s.offset = g.chance(1, 4) ? g.integer(0, 1ULL << 38) / 65536 * 65536 : 0; // the numbers never meet
    s.fin = g.chance(1, 2);
    std::string bytes = ref::varint(g.chance(1, 2) ? g.range(2, 3) : 0x1f * g.draw(20) + 0x21) + g.bytes(g.size(300));
    size_t at = 0;
    for (size_t k : g.segments(bytes.size())) {
      s.pieces.push_back(bytes.substr(at, k));
      at += k;
    }
    g.note("ignored stream of " + std::to_string(bytes.size()) + " bytes");
    p.sides.push_back(std::move(s));
  }
  if (g.chance(1, 2)) {
    std::string bytes;
    for (size_t n = 0; g.more(n, 1, 4, 1); n++) {
      bytes += gen_unknown_frame(g, 60);
    }
    size_t at = 0;
    for (size_t k : g.segments(bytes.size())) {
      p.control.push_back(bytes.substr(at, k));
      at += k;
    }
    g.note("ignorable control frames " + pbt::hex(bytes, 60));
  }
  if (crowd) {
    g.note(std::to_string(crowded) + " exchanges at once");
    for (size_t n = 0; n < crowded; n++) {
      if (!g.chance(1, 8)) {
        p.schedule.emplace_back(n, 0U);
      }
    }
  }
  for (size_t n = 0; g.more(n, 0, 80, 25); n++) {
    p.schedule.emplace_back(static_cast<size_t>(g.draw(p.exchanges.size() - 1)), static_cast<unsigned>(g.pick({ 5, 6, 5, 1, 1 })));
  }
  p.move = g.chance(1, 4);
  return p;
}

template<typename C>
static void
lives(gen &g)
{
  plan p = gen_plan(g);
  size_t rounds = static_cast<size_t>(g.chance(1, 40) ? g.range(100, 400) : g.range(10, 24));
  // A header block in pieces is read again for each of them, each time over all
  // that are there.
  uint64_t cost = 1;
  for (const exchange &e : p.exchanges) {
    uint64_t bytes = 0;
    for (const piece &x : e.arriving) {
      bytes += x.bytes.size();
    }
    cost += e.arriving.size() * e.arriving.size() * bytes / 2;
  }
  if (p.exchanges.size() > 10) {
    rounds = 4;
  }
  rounds = static_cast<size_t>(std::min<uint64_t>(rounds, std::max<uint64_t>(4, 400000000 / cost)));
  g.note(std::to_string(rounds) + " rounds");
  runner<C> r;
  {
    observed o;
    std::string s = std::string(1, '\0') + ref::frame_head([] {
                      ref::frame f;
                      f.type = ref::F_SETTINGS;
                      return f;
                    }());
    CHECK(deliver(*r.c, runner<C>::is_client ? 3 : 2, to_buffer(s), false, o) && o.settings == 1, "settings: " << describe(o));
  }
  while (r.send()) {
  }
  // Twice, so that what is kept for reuse is there.
  r.round(p);
  r.round(p);
  int64_t first = pbt::live_bytes();
  for (size_t i = 0; i < rounds; i++) {
    r.round(p);
  }
  int64_t grown = pbt::live_bytes() - first;
  int64_t allowed = static_cast<int64_t>(2 * rounds * p.exchanges.size());
  CHECK(grown <= allowed, "after " << rounds << " more rounds of " << p.exchanges.size() << " exchanges the connection holds "
                                   << grown << " bytes more than after the first");
  if (p.exchanges.size() >= 2) {
    g.nontrivial();
  }
  g.label("exchanges", rounds * p.exchanges.size());
  if (!p.sides.empty()) {
    g.label("with ignored streams");
  }
}

// One message that never ends: what was reported or sent is given back.
template<typename C>
static void
endless(gen &g)
{
  constexpr bool client = runner<C>::is_client;
  message m = gen_message(g, 3, 30, 0);
  std::string head = frame(ref::F_HEADERS, gen_block(g, m.headers));
  std::string control_head = std::string(1, '\0') + ref::frame_head([] {
                               ref::frame f;
                               f.type = ref::F_SETTINGS;
                               return f;
                             }());
  // What arrives in a round.
  bool giant = g.chance(1, 3); // all in one DATA frame
  std::string bytes;
  for (size_t n = 0; g.more(n, 1, 5, 2); n++) {
    std::string part = g.bytes(g.size(g.chance(1, 20) ? 20000 : 100));
    if (giant) {
      bytes += part;
    } else {
      bytes += g.chance(1, 3) ? gen_unknown_frame(g, 60) : frame(ref::F_DATA, part);
    }
  }
  if (bytes.empty()) { // something arrives: empty deliveries stay until the next byte
    bytes = "x";
    giant = true;
  }
  // Rounds end anywhere.
  size_t turn = static_cast<size_t>(g.draw(bytes.size()));
  std::string first = head + (giant ? ref::varint(ref::F_DATA) + ref::varint(1ULL << 40) : "") + bytes.substr(0, turn);
  bytes = bytes.substr(turn) + bytes.substr(0, turn);
  auto cut = [&](const std::string &s) {
    std::vector<std::string> pieces;
    size_t at = 0;
    for (size_t k : g.segments(s.size())) {
      pieces.push_back(s.substr(at, k));
      at += k;
    }
    return pieces;
  };
  std::vector<std::string> arriving = cut(bytes);
  std::vector<std::string> control;
  if (g.chance(1, 2)) {
    std::string s = gen_unknown_frame(g, 60) + (g.chance(1, 2) ? gen_unknown_frame(g, 60) : "");
    turn = static_cast<size_t>(g.draw(s.size()));
    control_head += s.substr(0, turn);
    control = cut(s.substr(turn) + s.substr(0, turn));
  }
  std::vector<std::string> other;
  if (g.chance(1, 2)) {
    other = cut(g.bytes(g.size(200)));
  }
  std::vector<std::string> own;
  for (size_t n = 0; g.more(n, 0, 4, 1); n++) {
    // Empty parts wait for the next byte.
    own.push_back("x" + g.bytes(g.size(g.chance(1, 20) ? 20000 : 100)));
  }
  bool move = g.chance(1, 4);
  size_t rounds = static_cast<size_t>(g.chance(1, 40) ? g.range(100, 400) : g.range(10, 30));
  g.note(std::string(giant ? "one DATA frame, " : "") + std::to_string(arriving.size()) + " pieces of " + pbt::hex(bytes, 200) +
         ", " + std::to_string(control.size()) + " of control frames, " + std::to_string(other.size()) + " of an ignored stream, " +
         std::to_string(own.size()) + " own parts, " + std::to_string(rounds) + " rounds");

  runner<C> r;
  observed o;
  uint64_t control_id = client ? 3 : 2;
  CHECK(deliver(*r.c, control_id, to_buffer(control_head), false, o) && o.settings == 1, "settings: " << describe(o));
  std::unique_ptr<handle_t> handle = r.request();
  r.now.resize(1);
  r.now[0].id = handle ? handle->id() : 0;
  uint64_t id = r.now[0].id;
  auto begin = [&] {
    CHECK(handle->header(bnl::http3::header_view("a", "b")) && handle->start(), "the own message cannot start");
    while (r.send()) {
    }
  };
  if (client) {
    begin();
  }
  observed seen;
  CHECK(deliver(*r.c, id, to_buffer(first), false, seen), "stream " << id << ": " << describe(seen));
  if (!client) {
    handle = r.response_of(*r.c, id);
    begin();
  }
  seen.body.clear();
  auto round = [&] {
    for (const std::string &s : arriving) {
      CHECK(deliver(*r.c, id, to_buffer(s), false, seen), "stream " << id << ": " << describe(seen));
      seen.body.clear();
    }
    for (const std::string &s : own) {
      CHECK(handle->body(to_buffer(s)), "body() is refused");
      while (r.send()) {
      }
    }
    for (const std::string &s : control) {
      observed none;
      CHECK(deliver(*r.c, control_id, to_buffer(s), false, none) && none == observed(), "ignorable: " << describe(none));
    }
    for (const std::string &s : other) {
      observed none;
      CHECK(deliver(*r.c, client ? 7 : 6, to_buffer(s), false, none) && none == observed(), "ignored: " << describe(none));
    }
    if (move) {
      r.c.reset(new C(std::move(*r.c)));
    }
  };
  round();
  round();
  int64_t before = pbt::live_bytes();
  for (size_t i = 0; i < rounds; i++) {
    round();
  }
  int64_t grown = pbt::live_bytes() - before;
  CHECK(grown <= static_cast<int64_t>(2 * rounds), "after " << rounds << " more rounds of " << bytes.size() << " bytes the connection holds "
                                                            << grown << " bytes more than before");
  if (arriving.size() + own.size() >= 2) {
    g.nontrivial();
  }
}

PART("server", lives<http3::server::connection>, 4000, 80000);
PART("client", lives<http3::client::connection>, 4000, 80000);
PART("endless messages, server", endless<http3::server::connection>, 20000, 400000);
PART("endless messages, client", endless<http3::client::connection>, 20000, 400000);
