// C10: running out of input never loses bytes or changes the outcome.
#include "frames.hpp"
#include "net.hpp"

#include <bnl/http3/codec/body.hpp>
#include <bnl/http3/codec/frame.hpp>
#include <bnl/http3/codec/headers.hpp>
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/http3/codec/qpack/literal.hpp>
#include <bnl/http3/codec/qpack/prefix_int.hpp>
#include <bnl/http3/codec/varint.hpp>

using namespace bnl;

PROPERTY("C10",
         "sequences of elements (integers, literals, frames of every type with unknown ones in between, header blocks, HEADERS "
         "and DATA with their payloads) encoded by the reference and pushed piece by piece into a rope, the decoder being asked "
         "(once or repeatedly) after every piece: each `incomplete` must leave the unread bytes in place, each element must come "
         "out as soon as its last byte is there and equal to what was written; also every prefix of an element in one buffer; "
         "non-trivial: at least one element was split");

// The bytes that arrived and were not yet used, kept as a string next to the
// rope under test.
struct feed {
  gen &g;
  base::buffers rope;
  std::string left; // must equal the content of the rope
  std::vector<std::string> pieces;
  size_t next = 0;
  bool split = false;

  feed(gen &g, const std::string &s)
    : g(g)
  {
    size_t at = 0;
    if (s.size() < 120 && g.chance(1, 4)) {
      for (; at < s.size(); at++) {
        pieces.push_back(s.substr(at, 1));
      }
    }
    if (at == 0) {
      for (size_t n : g.segments(s.size())) {
        pieces.push_back(s.substr(at, n));
        at += n;
      }
    }
  }

  bool more()
  {
    if (next == pieces.size()) {
      return false;
    }
    left += pieces[next];
    rope.push(gen_buffer(g, pieces[next]));
    g.note("arrives: " + pbt::hex(pieces[next]));
    next++;
    return true;
  }

  // After `incomplete`: what is left must be what was there, except for up to
  // `allowed` bytes that formed complete elements.
  void kept(const std::vector<size_t> &allowed, const char *what)
  {
    std::string now = rest(rope);
    split |= !left.empty();
    if (now == left) {
      return;
    }
    for (size_t n : allowed) {
      if (n <= left.size() && now == left.substr(n)) {
        left = now;
        return;
      }
    }
    CHECK(false, what << ": incomplete, and " << left.size() - now.size() << " of " << left.size()
                      << " bytes are gone\nwas  " << pbt::hex(left) << "\nleft " << pbt::hex(now));
  }

  void used(size_t n, const char *what)
  {
    CHECK(n <= left.size(), what << ": decoded from " << left.size() << " bytes, an element has " << n);
    left.erase(0, n);
    CHECK(rest(rope) == left, what << ": after an element of " << n << " bytes: left " << pbt::hex(rest(rope)) << " want "
                                   << pbt::hex(left));
  }
};

// Runs `decode(feed, element index)`: true when the element came out.
template<typename Decode>
static void
drive(gen &g, const std::string &all, size_t elements, Decode decode)
{
  feed f(g, all);
  size_t done = 0;
  while (true) {
    size_t tries = 1 + (g.chance(1, 8) ? g.draw(2) : 0);
    while (done < elements && decode(f, done)) {
      done++;
    }
    for (size_t i = 1; i < tries && done < elements; i++) {
      CHECK(!decode(f, done), "element " << done << " came out on a retry without new input");
    }
    if (!f.more()) {
      break;
    }
  }
  CHECK(done == elements, "only " << done << " of " << elements << " elements came out");
  CHECK(f.left.empty(), f.left.size() << " bytes were left");
  if (f.split) {
    g.nontrivial();
  }
}

static void
integers(gen &g)
{
  struct element {
    uint64_t value;
    std::string literal;
    unsigned kind;
    unsigned prefix;
    std::string wire;
  };
  std::vector<element> es;
  std::string all;
  for (size_t n = 0; g.more(n, 1, 12, 5); n++) {
    element e{ 0, "", static_cast<unsigned>(g.draw(2)), static_cast<unsigned>(g.range(1, 8)), "" };
    switch (e.kind) {
      case 0: {
        e.value = g.integer(0, ref::VARINT_MAX);
        unsigned w = ref::varint_size(e.value);
        while (w < 8 && g.chance(1, 6)) {
          w *= 2;
        }
        e.wire = ref::varint(e.value, w);
        break;
      }
      case 1:
        e.value = g.integer(0, UINT64_MAX);
        e.wire = ref::prefix_int(e.value, e.prefix, static_cast<uint8_t>(g.draw(255) << e.prefix),
                                 e.value >= (1u << e.prefix) - 1 && e.value < (1ULL << 40) ? g.chance(1, 6) * 2 : 0);
        break;
      default:
        e.prefix = static_cast<unsigned>(g.range(1, 7));
        e.literal = gen_token(g, g.chance(1, 300) ? 200000 : 200, false);
        e.wire = ref::literal(e.literal, e.prefix, 0, g.chance(1, 2));
        break;
    }
    all += e.wire;
    es.push_back(e);
  }
  drive(g, all, es.size(), [&](feed &f, size_t i) {
    const element &e = es[i];
    bool whole = f.left.size() >= e.wire.size();
    if (e.kind == 2) {
      auto r = http3::qpack::literal::decode(f.rope, static_cast<uint8_t>(e.prefix));
      CHECK(bool(r) == whole, "literal: " << show(r) << " with " << f.left.size() << " of " << e.wire.size() << " bytes");
      if (r) {
        CHECK(r.value() == e.literal, "literal: got " << text(r.value()) << " want " << text(e.literal));
        f.used(e.wire.size(), "literal");
        return true;
      }
      CHECK(r.error() == http3::error::incomplete, "literal: " << show(r));
      f.kept({}, "literal");
      return false;
    }
    auto r = e.kind == 0 ? http3::varint::decode(f.rope)
                         : http3::qpack::prefix_int::decode(f.rope, static_cast<uint8_t>(e.prefix));
    CHECK(bool(r) == whole, "integer: " << show(r) << " with " << f.left.size() << " of " << e.wire.size() << " bytes");
    if (r) {
      CHECK(r.value() == e.value, "integer: got " << r.value() << " want " << e.value);
      f.used(e.wire.size(), "integer");
      return true;
    }
    CHECK(r.error() == http3::error::incomplete, "integer: " << show(r));
    f.kept({}, "integer");
    return false;
  });
}

static void
frames(gen &g)
{
  struct element {
    ref::frame frame;
    size_t size = 0;   // with the unknown frames before it
    uint64_t body = 0; // payload that follows (DATA, HEADERS, PUSH_PROMISE)
  };
  std::vector<element> es;
  std::string all;
  for (size_t n = 0; g.more(n, 1, 8, 3); n++) {
    element e;
    std::string s;
    while (g.chance(1, 4)) {
      s += net::gen_unknown_frame(g, 30);
    }
    e.frame = gen_frame(g, ref::VARINT_MAX);
    if (e.frame.type == ref::F_DATA || e.frame.type == ref::F_HEADERS || e.frame.type == ref::F_PUSH_PROMISE) {
      e.frame.size = g.draw(40);
      e.body = e.frame.size;
    }
    s += ref::frame_head(e.frame);
    e.size = s.size();
    all += s + g.bytes(static_cast<size_t>(e.body));
    es.push_back(e);
  }
  uint64_t skip = 0; // payload of the previous frame still to come
  size_t handled = 0; // of the current element: already dropped as skipped frames
  drive(g, all, es.size(), [&](feed &f, size_t i) {
    const element &e = es[i];
    if (skip > 0) {
      size_t n = std::min<size_t>(f.left.size(), static_cast<size_t>(skip));
      f.rope.consume(n);
      f.left.erase(0, n);
      skip -= n;
      if (skip > 0) {
        return false;
      }
    }
    bool last = i + 1 == es.size();
    // The payload of the last frame would be left over.
    if (last && f.left.size() < e.size - handled + e.body) {
      auto p = http3::frame::peek(f.rope);
      (void) p;
      CHECK(rest(f.rope) == f.left, "peek changed its input");
      return false;
    }
    bool whole = f.left.size() >= e.size - handled;
    ref::decoded want = ref::decode_frame(f.left);
    auto p = http3::frame::peek(f.rope);
    CHECK(rest(f.rope) == f.left, "peek changed its input");
    if (p) {
      CHECK(static_cast<uint64_t>(p.value()) == e.frame.type, "peek: got type " << static_cast<uint64_t>(p.value())
                                                                                << " want " << e.frame.type);
    } else {
      CHECK(p.error() == http3::error::incomplete, "peek: " << show(p));
      CHECK(!whole, "peek: incomplete with the whole frame there");
    }
    auto r = http3::frame::decode(f.rope);
    CHECK(bool(r) == whole, "frame: " << show(r) << " with " << f.left.size() << " of " << e.size - handled << " bytes of "
                                      << show(e.frame));
    if (!r) {
      CHECK(r.error() == http3::error::incomplete, "frame: " << show(r));
      size_t before = f.left.size();
      f.kept(want.skips, "frame");
      handled += before - f.left.size();
      return false;
    }
    CHECK(to_ref(r.value()) == e.frame, "frame: got " << show(to_ref(r.value())) << " want " << show(e.frame));
    f.used(e.size - handled, "frame");
    handled = 0;
    skip = e.body;
    if (last) {
      f.rope.consume(static_cast<size_t>(skip));
      f.left.erase(0, static_cast<size_t>(skip));
    }
    return true;
  });
}

static void
header_blocks(gen &g)
{
  net::message m = net::gen_message(g, 10, g.chance(1, 100) ? 200000 : 100, 0);
  std::vector<size_t> sizes;
  std::string all("\0\0", 2);
  for (const ref::header &h : m.headers) {
    std::string s = net::gen_line_for(g, h);
    sizes.push_back(s.size());
    all += s;
  }
  http3::qpack::decoder decoder;
  size_t prefix = 2;
  uint64_t count = 0;
  drive(g, all, sizes.size(), [&](feed &f, size_t i) {
    bool whole = f.left.size() >= prefix + sizes[i];
    auto r = decoder.decode(f.rope);
    CHECK(bool(r) == whole, "header: " << show(r) << " with " << f.left.size() << " of " << prefix + sizes[i] << " bytes");
    if (!r) {
      CHECK(r.error() == http3::error::incomplete, "header: " << show(r));
      size_t before = f.left.size();
      f.kept({ prefix }, "header");
      if (before != f.left.size()) {
        prefix = 0;
        count += 2;
      }
      CHECK(decoder.count() == count, "count " << decoder.count() << " want " << count);
      return false;
    }
    CHECK(to_ref(r.value()) == m.headers[i], "header " << i << ": got " << show(ref::headers{ to_ref(r.value()) })
                                                       << " want " << show(ref::headers{ m.headers[i] }));
    count += prefix + sizes[i];
    f.used(prefix + sizes[i], "header");
    prefix = 0;
    CHECK(decoder.count() == count, "count " << decoder.count() << " want " << count);
    return true;
  });
}

static void
whole_messages(gen &g)
{
  net::message m = net::gen_message(g, 6, g.chance(1, 100) ? 200000 : 60, g.chance(1, 100) ? 2 << 20 : 300);
  net::framing framing;
  framing.unknown_frames = g.chance(1, 2);
  net::wire w = net::gen_stream(g, m, framing);
  g.note("stream: " + pbt::hex(w.bytes, 300));
  feed f(g, w.bytes);
  http3::headers::decoder hd;
  http3::body::decoder bd;
  ref::headers got;
  std::string body;
  bool again = false;
  while (f.more()) {
    for (int round = 0; round < 2; round++) {
      while (true) {
        std::string before = rest(f.rope);
        CHECK(f.left.size() >= before.size() && f.left.compare(f.left.size() - before.size(), std::string::npos, before) == 0,
              "the rope has bytes that never arrived");
        f.left = before;
        if (!hd.finished()) {
          auto r = hd.decode(f.rope);
          if (r) {
            CHECK(round == 0, "a header came out without new input");
            got.push_back(to_ref(r.value()));
            continue;
          }
          CHECK(r.error() == http3::error::incomplete, "headers: " << show(r));
        } else {
          auto r = bd.decode(f.rope);
          if (r) {
            CHECK(round == 0, "body came out without new input");
            body += str(r.value());
            continue;
          }
          CHECK(r.error() == http3::error::incomplete, "body: " << show(r));
        }
        // Nothing that belongs to the message may be gone: it must still come
        // out in the end, and a second attempt must not eat more.
        if (round == 1) {
          CHECK(rest(f.rope) == before, "a second incomplete attempt took bytes");
        }
        again |= !before.empty();
        break;
      }
    }
  }
  CHECK(got == m.headers, "headers: got " << show(got) << " want " << show(m.headers));
  CHECK(hd.finished(), "the headers are not finished");
  CHECK(body == m.body, "body: got " << pbt::hex(body) << " want " << pbt::hex(m.body));
  CHECK(!bd.in_progress(), "the body is still in progress");
  if (again) {
    g.nontrivial();
  }
}

// Every prefix of one element, in one buffer.
static void
prefixes(gen &g)
{
  std::string lead;
  while (g.chance(1, 4)) {
    lead += net::gen_unknown_frame(g, 12);
  }
  ref::frame fr = gen_frame(g, ref::VARINT_MAX);
  if (fr.type == ref::F_PUSH_PROMISE) {
    fr.size %= 1ULL << 60; // the length field also counts the push id
  }
  std::string s = lead + ref::frame_head(fr);
  for (size_t n = 0; n < s.size(); n++) {
    base::buffer b = gen_buffer(g, s.substr(0, n));
    ref::decoded want = ref::decode_frame(s.substr(0, n));
    auto r = http3::frame::decode(b);
    CHECK(!r && r.error() == http3::error::incomplete, "with " << n << " of " << s.size() << " bytes: " << show(r));
    std::string now = str(b);
    bool ok = now == s.substr(0, n);
    for (size_t k : want.skips) {
      ok = ok || now == s.substr(k, n - k);
    }
    CHECK(ok, "with " << n << " of " << s.size() << " bytes: incomplete, and left " << pbt::hex(now));
    // What is left must still be completed by what follows.
    base::buffer c = base::buffer::concat(b, to_buffer(s.substr(n)));
    auto r2 = http3::frame::decode(c);
    CHECK(r2 && to_ref(r2.value()) == fr && c.empty(), "resumed after " << n << " bytes: " << show(r2));
  }
  g.nontrivial();
}

PART("integers and literals", integers, 40000, 900000);
PART("frames", frames, 25000, 600000);
PART("header blocks", header_blocks, 15000, 300000);
PART("whole messages", whole_messages, 15000, 300000);
PART("every prefix", prefixes, 8000, 200000);
