// C03: ropes of buffers and lookaheads over them, against a byte-string model.
#include "util.hpp"

#include <deque>

using namespace bnl;
using base::buffer;
using base::buffers;

PROPERTY("C03",
         "histories of up to 100 operations (push of fresh, consumed, sliced and empty segments, consume, slice, pop, index, "
         "front/back, move, nested lookaheads followed by consumption of what they looked at) on a rope against a byte string "
         "and its segment list; non-trivial: some operation crossed a segment boundary");

namespace {

struct model {
  std::string bytes;
  std::deque<size_t> segments; // sizes as pushed, minus what was consumed; leading empties possible

  void consume(size_t n)
  {
    bytes.erase(0, n);
    while (n > 0) {
      size_t k = std::min(n, segments.front());
      segments.front() -= k;
      n -= k;
      if (segments.front() == 0) {
        segments.pop_front();
      }
    }
  }
};

bool
crosses(const model &m, size_t n)
{
  for (size_t s : m.segments) {
    if (s != 0) {
      return n > s;
    }
  }
  return false;
}

void
verify(const buffers &r, const model &m, gen &g, const char *after)
{
  CHECK(r.size() == m.bytes.size(), after << ": size " << r.size() << ", want " << m.bytes.size());
  CHECK(r.empty() == m.bytes.empty(), after << ": empty()");
  if (m.bytes.empty()) {
    return;
  }
  CHECK(*r == static_cast<uint8_t>(m.bytes[0]), after << ": first byte");
  if (m.bytes.size() <= 64) {
    CHECK(rest(r) == m.bytes, after << ": holds " << pbt::hex(rest(r)) << ", want " << pbt::hex(m.bytes));
  } else {
    for (int i = 0; i < 6; i++) {
      size_t at = static_cast<size_t>(g.draw(m.bytes.size() - 1));
      CHECK(r[at] == static_cast<uint8_t>(m.bytes[at]), after << ": byte " << at);
    }
    CHECK(r[m.bytes.size() - 1] == static_cast<uint8_t>(m.bytes.back()), after << ": last byte");
  }
  std::string front = str(r.front());
  std::string back = str(r.back());
  CHECK(front.size() <= m.bytes.size() && m.bytes.compare(0, front.size(), front) == 0, after << ": front() is not the head");
  CHECK(back.size() <= m.bytes.size() && m.bytes.compare(m.bytes.size() - back.size(), back.size(), back) == 0,
        after << ": back() is not the tail");
}

void
check_popped(const buffer &b, const model &m)
{
  std::string got = str(b);
  bool empty_ok = !m.segments.empty() && m.segments.front() == 0;
  size_t first = 0;
  for (size_t s : m.segments) {
    if (s != 0) {
      first = s;
      break;
    }
  }
  CHECK((got.empty() && empty_ok) || got == m.bytes.substr(0, first),
        "pop gave " << got.size() << " bytes, the first segment has " << first);
}

void
histories_inner(gen &g, bool &nontrivial)
{
  buffers r;
  model m;
  std::vector<std::pair<buffer, std::string>> taken;
  for (size_t n = 0; g.more(n, 1, 100, 25); n++) {
    const char *what = "?";
    switch (m.bytes.size() > 60000 ? 1 : g.pick({ 8, 4, 6, 2, 4, 1, 1 })) {
      case 0: {
        what = "push";
        size_t k = static_cast<size_t>(g.pick({ 4, 2, 1 }) == 0 ? g.draw(6) : g.chance(1, 2) ? g.range(16, 30) : g.size(3000));
        std::string s = g.bytes(k);
        g.note("push " + std::to_string(k));
        if (!taken.empty() && g.chance(1, 5)) {
          // What was sliced off goes back in.
          s = taken.back().second;
          r.push(std::move(taken.back().first));
          taken.pop_back();
        } else {
          r.push(gen_buffer(g, s));
        }
        m.bytes += s;
        m.segments.push_back(s.size());
        break;
      }
      case 1: {
        what = "consume";
        size_t k = static_cast<size_t>(g.draw(m.bytes.size()));
        g.note("consume " + std::to_string(k));
        nontrivial = nontrivial || crosses(m, k);
        r.consume(k);
        m.consume(k);
        break;
      }
      case 2: {
        what = "slice";
        size_t k = static_cast<size_t>(g.chance(1, 3) ? g.draw(std::min<size_t>(m.bytes.size(), 30)) : g.draw(m.bytes.size()));
        g.note("slice " + std::to_string(k));
        nontrivial = nontrivial || crosses(m, k);
        buffer b = r.slice(k);
        CHECK(str(b) == m.bytes.substr(0, k), "slice of " << k << " gave " << pbt::hex(str(b)) << ", want "
                                                        << pbt::hex(m.bytes.substr(0, k)));
        taken.emplace_back(std::move(b), m.bytes.substr(0, k));
        m.consume(k);
        break;
      }
      case 3: {
        what = "pop";
        if (m.bytes.empty()) {
          break;
        }
        g.note("pop");
        buffer b = r.pop();
        check_popped(b, m);
        if (b.empty()) {
          m.segments.pop_front();
        } else {
          m.consume(b.size());
        }
        break;
      }
      case 4: {
        what = "lookahead";
        buffers::lookahead l(r);
        size_t at = 0;
        g.note("lookahead");
        auto look = [&](buffers::lookahead &v, size_t from, size_t used) {
          CHECK(v.size() == m.bytes.size() - from && v.empty() == (v.size() == 0),
                "lookahead size " << v.size() << ", want " << m.bytes.size() - from);
          CHECK(v.consumed() == used, "lookahead consumed() " << v.consumed() << ", want " << used);
          if (v.size() > 0) {
            size_t i = static_cast<size_t>(g.draw(v.size() - 1));
            CHECK(v[i] == static_cast<uint8_t>(m.bytes[from + i]), "lookahead byte " << i);
            CHECK(*v == static_cast<uint8_t>(m.bytes[from]), "lookahead first byte");
          }
        };
        look(l, 0, 0);
        for (size_t k = 0; g.more(k, 0, 5, 2); k++) {
          size_t a = static_cast<size_t>(g.draw(l.size()));
          l.consume(a);
          at += a;
          look(l, at, at);
          buffers::lookahead c(l);
          look(c, at, 0);
          size_t b = static_cast<size_t>(g.draw(c.size()));
          c.consume(b);
          look(c, at + b, b);
          buffers::lookahead d(c);
          look(d, at + b, 0);
          look(l, at, at);
        }
        CHECK(r.size() == m.bytes.size(), "looking ahead changed the rope");
        if (g.chance(1, 2)) {
          nontrivial = nontrivial || crosses(m, l.consumed());
          r.consume(l.consumed());
          m.consume(at);
        }
        break;
      }
      case 5: {
        what = "move";
        g.note("move away and back");
        buffers other(std::move(r));
        verify(other, m, g, "move construction");
        r = std::move(other);
        break;
      }
      default: {
        what = "replace";
        g.note("move-assign over a rope with content");
        buffers other;
        other.push(to_buffer(g.bytes(static_cast<size_t>(g.draw(30)))));
        other = std::move(r);
        r = buffers();
        CHECK(r.size() == 0 && r.empty(), "a new rope is empty");
        r = std::move(other);
        break;
      }
    }
    verify(r, m, g, what);
    for (const auto &t : taken) {
      CHECK(str(t.first) == t.second, "after " << what << ": a buffer taken from the rope earlier changed");
    }
  }
}

void
histories(gen &g)
{
  g.draw(1);
  bool nontrivial = false;
  int64_t before = pbt::live_blocks();
  histories_inner(g, nontrivial);
  if (!g.verbose) {
    CHECK(pbt::live_blocks() == before, "heap blocks leaked: " << pbt::live_blocks() - before);
  }
  if (nontrivial) {
    g.nontrivial();
  }
}

// Any way to split the same bytes reads the same through every operation.
void
splits(gen &g)
{
  std::string s = g.bytes(g.size(600));
  buffers a = gen_rope(g, s);
  buffers b = gen_rope(g, s);
  size_t at = 0;
  g.note("size " + std::to_string(s.size()));
  if (s.size() > 1) {
    g.nontrivial();
  }
  while (at < s.size()) {
    size_t k = static_cast<size_t>(g.range(1, s.size() - at));
    if (g.chance(1, 2)) {
      buffer x = a.slice(k);
      buffer y = b.slice(k);
      CHECK(str(x) == s.substr(at, k) && str(y) == s.substr(at, k), "slice of " << k << " at " << at);
    } else {
      a.consume(k);
      b.consume(k);
    }
    at += k;
    CHECK(rest(a) == s.substr(at) && rest(b) == s.substr(at), "after " << at);
  }
}

}

PART("histories", histories, 300000, 6000000);
PART("splits", splits, 150000, 3000000);
