// C13: what a receiver reports does not depend on how the bytes are chunked.
#include "net.hpp"

PROPERTY("C13",
         "a message (1..8 headers in any valid representation, up to 3000 in one part; body up to 3 MiB over any number of DATA frames, empty ones "
         "included, with or without trailing headers, with or without unknown frames) is written by hand and delivered to a "
         "server, or to a client waiting for it, twice: in one piece and in generated pieces (single bytes, empty pieces, end of "
         "the stream alone); what is reported must be the message both times; non-trivial: at least three pieces");

using namespace net;

template<typename Make>
static void
run(gen &g, Make make, const message &m, const wire &w, uint64_t id)
{
  observed whole;
  {
    auto c = make();
    deliver(c->connection, id, piece{ w.bytes, true }, whole);
  }
  observed want = complete(m);
  CHECK(whole == want, "in one piece: got " << describe(whole) << "\nwant " << describe(want));

  std::vector<piece> pieces = gen_pieces(g, w.bytes, true);
  observed split;
  {
    auto c = make();
    for (const piece &p : pieces) {
      g.note("piece of " + std::to_string(p.bytes.size()) + " bytes" + (p.fin ? " and the end" : "") + ": " +
             pbt::hex(p.bytes));
      CHECK(!split.finished, "finished before the end of the stream");
      if (!deliver(c->connection, id, p, split)) {
        break;
      }
    }
  }
  CHECK(split == want, "in " << pieces.size() << " pieces: got " << describe(split) << "\nwant " << describe(want));

  if (pieces.size() >= 3) {
    g.nontrivial();
  }
  if (pieces.back().fin && pieces.back().bytes.empty()) {
    g.label("the end alone");
  }
  if (w.empty_data > 0) {
    g.label("empty DATA frames");
  }
  if (w.unknown > 0) {
    g.label("unknown frames");
  }
  if (w.has_trailers) {
    g.label("trailing headers");
  }
  if (w.data_frames == 0) {
    g.label("no DATA frame");
  }
}

static void
chunking(gen &g, const message &m, size_t max_trailer = 30)
{
  framing f;
  f.max_trailer = max_trailer;
  f.unknown_frames = g.chance(1, 4);
  f.trailers = g.chance(1, 4);
  wire w = gen_stream(g, m, f);
  g.note("stream: " + pbt::hex(w.bytes, 400));
  if (g.chance(1, 2)) {
    g.label("request");
    run(g, make_server, m, w, gen_stream_id(g, 3));
  } else {
    g.label("response");
    run(g, []() { return make_client(); }, m, w, 4 * g.draw(1));
  }
}

static void
small(gen &g)
{
  chunking(g, gen_message(g, 8, 60, 60));
}

static void
large(gen &g)
{
  chunking(g, gen_message(g, 8, 60, 20000));
}

// Sizes that do not fit in 16 or 20 bits, of every element.
static void
huge(gen &g)
{
  switch (g.draw(3)) {
    case 0:
      chunking(g, gen_message(g, 4, 60, 3 << 20));
      break;
    case 1:
      chunking(g, gen_message(g, 4, g.chance(1, 3) ? 3 << 20 : 300000, 60));
      break;
    case 2:
      chunking(g, gen_message(g, 3000, 60, 60, 500));
      break;
    default:
      chunking(g, gen_message(g, 4, 60, 60), 300000);
      break;
  }
}

PART("small messages", small, 120000, 600000);
PART("large messages", large, 12000, 60000);
PART("huge messages", huge, 3000, 30000);
