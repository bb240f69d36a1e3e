// C22: everything sent is well-formed HTTP/3 that any peer can parse.
#include "program.hpp"

PROPERTY("C22",
         "programs of up to 120 steps over 1..5 streams of a client or server (headers, starts, bodies, empty ones included, ends in "
         "any valid order, polls and moves in between), one in two completing every message; after every poll what was sent must "
         "be a prefix of exactly one HEADERS frame and DATA frames carrying what was submitted, and whenever the connection is "
         "idle it must be all of it, with the end of the stream exactly once, last, and only for ended messages; read by the "
         "reference parser; non-trivial: two streams were started");

using namespace program;

template<typename C>
static void
check(const runner<C> &r, bool idle)
{
  uint64_t control = runner<C>::is_client ? 2 : 3;
  for (const auto &entry : r.out) {
    uint64_t id = entry.first;
    const sent &s = entry.second;
    if (id == control) {
      CHECK(!s.fin, "the control stream was ended");
      continue;
    }
    auto found = std::find(r.ids.begin(), r.ids.end(), id);
    CHECK(found != r.ids.end(), "something was sent on stream " << id);
    const progress &p = r.at[static_cast<size_t>(found - r.ids.begin())];
    CHECK(p.started, "something was sent on stream " << id << " before its start: " << pbt::hex(s.bytes));
    CHECK(!s.fin || p.ended, "the end of stream " << id << " was sent before the message ended");
  }
  for (size_t i = 0; i < r.ids.size(); i++) {
    const progress &p = r.at[i];
    auto it = r.out.find(r.ids[i]);
    if (it == r.out.end()) {
      CHECK(!idle || !p.started, "idle, and nothing was sent for stream " << r.ids[i] << ", which was started");
      continue;
    }
    const sent &s = it->second;
    ref::headers headers;
    bool has_headers = false;
    std::string body;
    bool whole = idle || s.fin;
    std::string wrong = parse_stream(s.bytes, whole, headers, has_headers, body);
    CHECK(wrong.empty(), "stream " << r.ids[i] << ": " << wrong << "; sent " << pbt::hex(s.bytes, 300));
    std::string submitted;
    for (const std::string &b : p.body) {
      submitted += b;
    }
    if (has_headers) {
      CHECK(headers == p.headers, "stream " << r.ids[i] << ": sent headers " << show(headers) << "\nsubmitted " << show(p.headers));
    }
    CHECK(submitted.compare(0, body.size(), body) == 0,
          "stream " << r.ids[i] << ": sent body " << pbt::hex(body) << " submitted " << pbt::hex(submitted));
    if (whole) {
      CHECK(has_headers && body == submitted, "stream " << r.ids[i] << ": " << (idle ? "idle" : "ended") << ", but sent only "
                                                        << pbt::hex(s.bytes, 300) << " of a body of " << submitted.size());
      CHECK(s.fin == p.ended, "stream " << r.ids[i] << (s.fin ? " was" : " was not") << " ended");
    }
  }
}

template<typename C>
static void
run(gen &g)
{
  options o;
  o.streams = static_cast<size_t>(g.range(1, 5));
  o.steps = 120;
  o.max_body = g.chance(1, 60) ? 2 << 20 : g.chance(1, 20) ? 70000 : 60;
  o.max_value = g.chance(1, 60) ? 200000 : g.chance(1, 20) ? 20000 : 40;
  o.complete = g.chance(1, 2);
  std::vector<op> ops = gen_program(g, o);
  runner<C> r;
  r.numbers = gen_stream_ids(g, o.streams);
  for (size_t i = 0; i < o.streams; i++) {
    r.open(g.chance(1, 2));
  }
  for (const op &x : ops) {
    g.note(program::show(x));
    r.run(x);
    if (x.what == op::poll || x.what == op::drain) {
      check(r, r.idle);
    }
  }
  for (size_t n = 0; r.poll(); n++) {
    CHECK(n < 100000, "send() never becomes idle");
    if (n < 100) {
      check(r, false);
    }
  }
  check(r, true);
  size_t started = 0;
  for (const progress &p : r.at) {
    started += p.started;
  }
  if (started >= 2) {
    g.nontrivial();
  }
  g.label("streams", started);
}

PART("client", run<client_t>, 60000, 300000);
PART("server", run<server_t>, 60000, 300000);
