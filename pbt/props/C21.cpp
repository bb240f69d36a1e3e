// C21: rejected API calls leave no trace.
#include "program.hpp"

PROPERTY("C21",
         "a valid program of up to 80 steps over 1..4 streams of a client or server (headers, starts, bodies, ends, polls, moves) "
         "is run once as it is and once with refused calls at generated points: headers after the start or with an uppercase "
         "letter anywhere in the name, second starts, starts without headers, body pieces after the end, repeated polls of an "
         "idle connection, handles to streams that do not exist; each must be refused, and both runs must give the same "
         "results and the same sequence of events; non-trivial: at least two different refused calls before the last event");

using namespace program;

enum refused_kind {
  LATE_HEADER,
  LATE_BAD_HEADER,
  UPPERCASE,
  SECOND_START,
  EMPTY_START,
  LATE_BODY,
  IDLE_POLL,
  SECOND_END,
  NO_SUCH_STREAM,
  KINDS
};

static const char *const NAMES[] = { "header after the start",
                                     "uppercase header after the start",
                                     "uppercase header",
                                     "second start",
                                     "start without headers",
                                     "body after the end",
                                     "poll of an idle connection",
                                     "second end",
                                     "no such stream" };

static ref::header
uppercase(gen &g)
{
  ref::header h = gen_header(g, g.chance(1, 50) ? 30000 : 30);
  size_t n = static_cast<size_t>(g.range(1, 3));
  for (size_t i = 0; i < n; i++) {
    h.name.insert(static_cast<size_t>(g.draw(h.name.size())), 1, static_cast<char>('A' + g.draw(25)));
  }
  return h;
}

static void
no_such_stream(gen &g, runner<server_t> &r)
{
  uint64_t id = gen_stream_id(g, 8);
  if (std::find(r.ids.begin(), r.ids.end(), id) != r.ids.end()) {
    return;
  }
  auto h = r.connection->response(id);
  CHECK(!h, "response() for stream " << id << ", which does not exist, succeeded");
  CHECK(h.error() != error::incomplete, "response() for a stream that does not exist suggests to wait for more");
}

static void
no_such_stream(gen &, runner<client_t> &)
{}

template<typename C>
static bool
refuse(gen &g, runner<C> &r, std::map<size_t, size_t> &done)
{
  size_t s = static_cast<size_t>(g.draw(r.ids.size() - 1));
  const progress &p = r.at[s];
  handle_t &h = *r.handles[s];
  std::vector<size_t> kinds;
  if (!runner<C>::is_client) {
    kinds.push_back(NO_SUCH_STREAM);
  }
  if (p.started) {
    kinds.push_back(LATE_HEADER);
    kinds.push_back(LATE_BAD_HEADER);
    kinds.push_back(SECOND_START);
  } else {
    kinds.push_back(UPPERCASE);
    if (p.headers.empty()) {
      kinds.push_back(EMPTY_START);
    }
  }
  if (p.ended) {
    kinds.push_back(LATE_BODY);
    kinds.push_back(SECOND_END);
  }
  if (r.idle) {
    kinds.push_back(IDLE_POLL);
  }
  if (kinds.empty()) {
    return false;
  }
  size_t kind = g.of(kinds);
  g.note("refused: #" + std::to_string(s) + " " + NAMES[kind]);
  auto refused = [&](const http3::result<void> &v) {
    CHECK(!v, "#" << s << ": a " << NAMES[kind] << " was accepted");
    CHECK(v.error() != error::no_error, "#" << s << ": a " << NAMES[kind] << " gave no_error");
  };
  switch (kind) {
    case LATE_HEADER:
      refused(h.header(view(gen_header(g, 30))));
      break;
    case LATE_BAD_HEADER:
    case UPPERCASE:
      refused(h.header(view(uppercase(g))));
      break;
    case SECOND_START:
    case EMPTY_START:
      refused(h.start());
      break;
    case LATE_BODY:
      refused(h.body(to_buffer(g.bytes(g.size(g.chance(1, 50) ? 100000 : 30)))));
      break;
    case SECOND_END: // may also be accepted as saying nothing new
      (void) h.fin();
      break;
    case IDLE_POLL: {
      auto e = r.connection->send();
      CHECK(!e && e.error() == error::idle, "a second poll of an idle connection: " << ::show(e));
      break;
    }
    default:
      no_such_stream(g, r);
      break;
  }
  done[kind]++;
  return true;
}

static std::string
show(const event &e)
{
  return std::to_string(e.id) + ": " + pbt::hex(e.bytes, 40) + (e.fin ? " end" : "");
}

template<typename C>
static void
run(gen &g)
{
  options o;
  o.streams = static_cast<size_t>(g.range(1, 4));
  o.steps = 80;
  o.complete = g.chance(1, 2);
  std::vector<op> ops = gen_program(g, o);
  runner<C> plain;
  runner<C> injected;
  plain.numbers = gen_stream_ids(g, o.streams);
  injected.numbers = plain.numbers;
  for (size_t i = 0; i < o.streams; i++) {
    bool ended = g.chance(1, 2);
    plain.open(ended);
    injected.open(ended);
  }
  std::map<size_t, size_t> done;
  size_t useful = 0;
  for (const op &x : ops) {
    g.note(program::show(x));
    plain.run(x);
    while (g.chance(1, 3)) {
      refuse(g, injected, done);
    }
    injected.run(x);
    CHECK(plain.events.size() == injected.events.size() && plain.idle == injected.idle,
          program::show(x) << " had another result after refused calls: " << injected.events.size() << " events, without "
                           << plain.events.size());
  }
  while (g.chance(1, 3)) {
    refuse(g, injected, done);
  }
  plain.drain();
  injected.drain();
  for (size_t i = 0; i < plain.events.size() || i < injected.events.size(); i++) {
    CHECK(i < plain.events.size() && i < injected.events.size() && plain.events[i] == injected.events[i],
          "event " << i << " with refused calls: " << (i < injected.events.size() ? show(injected.events[i]) : "none")
                   << "\nwithout: " << (i < plain.events.size() ? show(plain.events[i]) : "none"));
  }
  for (auto &k : done) {
    g.label(NAMES[k.first], k.second);
    useful += k.first != NO_SUCH_STREAM;
  }
  if (useful >= 2 && plain.events.size() > 2) {
    g.nontrivial();
  }
}

PART("client", run<client_t>, 80000, 400000);
PART("server", run<server_t>, 80000, 400000);
