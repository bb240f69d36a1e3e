// C16: a message cut short is reported as an error, never as complete.
#include "net.hpp"

PROPERTY("C16",
         "a message (1..6 headers in any valid representation, body over any number of DATA frames, empty ones, unknown frames and "
         "trailing headers included) is written by hand, cut at a generated offset (frame ends and their neighbours preferred; in "
         "one part at every offset), and delivered in generated pieces to a server or a waiting client, with the end of the stream "
         "at the cut or not at all; or a frame announces up to 2^62-1 bytes and the stream ends after 0..60 of them; ended inside a frame or before the headers it must give malformed_frame, ended between frames "
         "the message so far, not ended neither; non-trivial: the cut is inside the stream");

using namespace net;

template<typename Make>
static void
run(gen &g, Make make, const message &m, const wire &w, size_t cut, bool fin, uint64_t id)
{
  std::string bytes = w.bytes.substr(0, cut);
  bool whole = cut == w.bytes.size() || std::find(w.ends.begin(), w.ends.end(), cut) != w.ends.end();
  bool complete = whole && cut >= w.headers_end;
  std::vector<piece> pieces = gen_pieces(g, bytes, fin);
  observed o;
  {
    auto c = make();
    for (const piece &p : pieces) {
      g.note("piece of " + std::to_string(p.bytes.size()) + " bytes" + (p.fin ? " and the end" : "") + ": " +
             pbt::hex(p.bytes));
      CHECK(!o.finished, "finished before the end of the stream");
      CHECK(!o.body_done, "the body is complete before the end of the stream");
      if (!deliver(c->connection, id, p, o)) {
        break;
      }
    }
  }
  check_prefix(o, m);
  CHECK(o.headers_done == (cut >= w.headers_end) || (o.failed && !o.headers_done),
        "cut at " << cut << ", the headers end at " << w.headers_end << ": " << describe(o));
  if (!fin) {
    CHECK(!o.failed, "not ended, cut at " << cut << ": " << describe(o));
    CHECK(!o.finished && !o.body_done, "not ended, but finished: " << describe(o));
    g.label("not ended");
    return;
  }
  if (complete) {
    CHECK(!o.failed && o.finished, "ended between frames at " << cut << " of " << w.bytes.size() << ": " << describe(o));
    g.label("ended between frames");
    return;
  }
  CHECK(o.failed && o.failure == error::malformed_frame,
        "ended inside a frame or before the headers, at " << cut << " of " << w.bytes.size() << ": " << describe(o));
  CHECK(!o.finished && !o.body_done, "cut short, but complete: " << describe(o));
  g.label(cut < w.headers_end ? "cut before the end of the headers" : cut > w.trailers_begin ? "cut in the trailing headers"
                                                                                             : "cut in the body");
}

static void
either(gen &g, const message &m, const wire &w, size_t cut, bool fin, bool server)
{
  if (server) {
    run(g, make_server, m, w, cut, fin, gen_stream_id(g, 2));
  } else {
    run(g, []() { return make_client(); }, m, w, cut, fin, 4 * g.draw(1));
  }
}

static wire
stream(gen &g, const message &m)
{
  framing f;
  f.unknown_frames = g.chance(1, 2);
  f.trailers = g.chance(1, 3);
  wire w = gen_stream(g, m, f);
  g.note("stream: " + pbt::hex(w.bytes, 400));
  return w;
}

static void
anywhere(gen &g)
{
  message m = gen_message(g, 6, g.chance(1, 80) ? 100000 : 60, g.chance(1, 80) ? 2 << 20 : g.chance(1, 10) ? 5000 : 80);
  wire w = stream(g, m);
  size_t cut = 0;
  if (g.chance(1, 2)) {
    cut = g.of(w.ends);
    size_t near = static_cast<size_t>(g.draw(4));
    cut = near < 2 ? cut : near == 2 ? cut - 1 : near == 3 ? std::min(cut + 1, w.bytes.size()) : std::min(cut + 2, w.bytes.size());
  } else {
    cut = static_cast<size_t>(g.draw(w.bytes.size()));
  }
  if (cut > 0 && cut < w.bytes.size()) {
    g.nontrivial();
  }
  either(g, m, w, cut, !g.chance(1, 5), g.chance(1, 2));
}

static void
everywhere(gen &g)
{
  message m = gen_message(g, 3, 8, 12);
  wire w = stream(g, m);
  if (w.bytes.size() > 400) {
    throw pbt::discard();
  }
  g.nontrivial();
  bool server = g.chance(1, 2);
  for (size_t cut = 0; cut <= w.bytes.size(); cut++) {
    either(g, m, w, cut, true, server);
  }
}

// The frame that is cut short announces far more than can be sent, and the
// stream ends after a part of it. What did arrive may be all of it in a
// narrower integer.
static void
far_from_complete(gen &g)
{
  message m = gen_message(g, 4, 30, 60);
  framing f;
  f.unknown_frames = g.chance(1, 4);
  wire w = gen_stream(g, m, f);
  std::string tail = g.bytes(g.size(60));
  unsigned bits[] = { 8, 16, 32, 31, 24, 40, 48, 61 };
  uint64_t length = 0;
  switch (g.draw(2)) {
    case 0:
      length = tail.size() + (g.range(1, 3) << bits[g.draw(7)]);
      break;
    case 1:
      length = (g.range(1, 3) << bits[g.draw(7)]) + g.draw(3);
      break;
    default:
      length = g.integer(1 + tail.size(), ref::VARINT_MAX);
      break;
  }
  length = std::min<uint64_t>(length, ref::VARINT_MAX);
  if (length <= tail.size()) {
    throw pbt::discard();
  }
  g.nontrivial();
  uint64_t type = ref::F_DATA;
  bool trailers = false;
  switch (g.draw(2)) {
    case 0:
      m.body += tail;
      g.label("DATA");
      break;
    case 1:
      type = gen_reserved_type(g);
      g.label("unknown frame");
      break;
    default:
      type = ref::F_HEADERS;
      trailers = true;
      g.label("trailing headers");
      break;
  }
  w.bytes += ref::varint(type) + ref::varint(length) + tail;
  g.note("stream: " + pbt::hex(w.bytes, 400));
  bool fin = !g.chance(1, 4);
  std::vector<piece> pieces = gen_pieces(g, w.bytes, fin);
  bool server = g.chance(1, 2);
  uint64_t id = server ? gen_stream_id(g, 2) : 4 * g.draw(1);
  observed o;
  auto play = [&](auto &c) {
    for (const piece &p : pieces) {
      CHECK(!o.finished && !o.body_done, "complete before the end of the stream: " << describe(o));
      if (!deliver(c, id, p, o)) {
        break;
      }
    }
  };
  if (server) {
    auto c = make_server();
    play(c->connection);
  } else {
    auto c = make_client();
    play(c->connection);
  }
  check_prefix(o, m);
  CHECK(o.headers_done && !o.finished && !o.body_done,
        (trailers ? "trailing headers" : "a frame") << " of " << length << " bytes, of which " << tail.size()
                                                    << " were sent: " << describe(o));
  CHECK(fin ? o.failed && o.failure == error::malformed_frame : !o.failed,
        "a frame of " << length << " bytes, of which " << tail.size() << " were sent" << (fin ? " before the end: " : ": ")
                      << describe(o));
}

PART("far from complete", far_from_complete, 60000, 300000);
PART("cut anywhere", anywhere, 120000, 600000);
PART("cut everywhere", everywhere, 3000, 30000);
