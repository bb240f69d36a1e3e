// C12: messages arrive complete, in order and unchanged between two endpoints.
#include "world.hpp"

PROPERTY("C12",
         "programs of up to 250 steps over a client, a server and a transport (in one part with body pieces up to 2 MiB and values up "
         "to 200000 bytes, in one with up to 400 requests at once): requests, headers, start, body pieces, fin and "
         "responses (also early ones) in any valid order, interleaved with single sends, deliveries of whole, partial, merged or "
         "copied chunks on any stream, half-consumed generators, and moves of handles and connections; then everything is "
         "completed; after every step what was reported must be a prefix of what was submitted, at the end all of it, once; "
         "non-trivial: at least two requests");

static void
run(gen &g, size_t steps, size_t max_value, size_t max_body)
{
  world::world w(g, max_value, max_body);
  for (size_t n = g.draw(3) + 1; n > 0; n--) {
    w.new_request();
  }
  for (size_t n = 0; g.more(n, 1, steps, static_cast<double>(steps) / 3); n++) {
    w.one();
  }
  w.finish();
  if (w.client.out.size() >= 2) {
    g.nontrivial();
  }
  g.label("requests", w.client.out.size());
  if (w.early > 0) {
    g.label("with an early response");
  }
  if (w.moves > 0) {
    g.label("with moved connections");
  }
  if (w.interleaved > 0) {
    g.label("with interleaved generators");
  }
}

static void
short_programs(gen &g)
{
  run(g, 60, 30, 30);
}

static void
long_programs(gen &g)
{
  run(g, 250, 200, 3000);
}

// Sizes that do not fit in 16 or 20 bits.
static void
huge_programs(gen &g)
{
  bool body = g.chance(2, 3);
  run(g, 40, body ? 60 : 200000, body ? 2 << 20 : 60);
}

// More streams than fit in narrow counters, all of them open at once.
static void
many_requests(gen &g)
{
  world::world w(g, 20, 20);
  w.max_requests = 1000;
  for (size_t n = g.range(100, 400); n > 0; n--) {
    w.new_request();
  }
  for (size_t n = 0; g.more(n, 1, 60, 20); n++) {
    w.one();
  }
  w.finish();
  g.nontrivial();
  g.label("requests", w.client.out.size());
}

PART("short programs", short_programs, 220000, 1100000);
PART("long programs", long_programs, 56000, 280000);
PART("huge programs", huge_programs, 2000, 20000);
PART("many requests", many_requests, 300, 3000);
