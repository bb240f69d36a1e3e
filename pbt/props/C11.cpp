// C11: HEADERS and DATA parts encode and decode faithfully.
#include "net.hpp"

#include <bnl/http3/codec/body.hpp>
#include <bnl/http3/codec/headers.hpp>

using namespace bnl;

PROPERTY("C11",
         "header lists through the HEADERS encoder and decoder, body pieces (empty ones included) added, ended and encoded in any "
         "interleaving, and hand-written DATA framings (empty frames, unknown frames between) decoded from buffers and ropes in "
         "arriving pieces, all compared with a reference parser; HEADERS frames whose length cuts a header line must be an error; "
         "non-trivial: at least two headers, pieces or frames");

static std::string
drain(http3::headers::encoder &e)
{
  std::string out;
  for (size_t n = 0; !e.finished(); n++) {
    CHECK(n < 100000, "the headers encoder never finishes");
    auto r = e.encode();
    CHECK(r, "encode() failed with " << show(r));
    out += str(r.value());
  }
  return out;
}

static void
header_lists(gen &g)
{
  net::message m = g.chance(1, 60) ? net::gen_message(g, 2000, 60, 0, 400)
                                     : net::gen_message(g, 20, g.chance(1, 200) ? 3 << 20 : g.chance(1, 60) ? 200000 : g.chance(1, 8) ? 3000 : 60, 0);
  http3::headers::encoder e;
  CHECK(!e.finished(), "a new encoder is finished");
  for (const ref::header &h : m.headers) {
    auto r = e.encode();
    CHECK(!r && r.error() == http3::error::idle, "encode() before the end of the headers: " << show(r));
    auto a = e.add(view(h));
    CHECK(a, "add() failed with " << show(a));
  }
  if (g.chance(1, 4)) {
    http3::headers::encoder moved(std::move(e));
    e = std::move(moved);
  }
  auto f = e.fin();
  CHECK(f, "fin() failed with " << show(f));
  std::string wire = drain(e);
  g.note("wire: " + pbt::hex(wire, 200));

  // The reference's view.
  ref::decoded d = ref::decode_frame(wire);
  CHECK(d.what == ref::decoded::frame_ok && d.frame.type == ref::F_HEADERS, "not a HEADERS frame: " << pbt::hex(wire));
  CHECK(d.frame.size == wire.size() - d.end, "announced " << d.frame.size << " bytes, " << wire.size() - d.end << " follow");
  ref::headers hs;
  CHECK(ref::qpack_section(wire.substr(d.end), hs) == ref::status::ok, "invalid header block " << pbt::hex(wire, 200));
  CHECK(hs == m.headers, "the block has " << show(hs) << " want " << show(m.headers));

  // The library's own view, with bytes of the next frame behind it.
  std::string tail = g.bytes(static_cast<size_t>(g.draw(20)));
  auto decode = [&](auto &sequence, const char *kind) {
    http3::headers::decoder decoder;
    CHECK(!decoder.started() && !decoder.finished(), kind << ": a new decoder has state");
    for (size_t i = 0; i < m.headers.size(); i++) {
      auto r = decoder.decode(sequence);
      CHECK(r, kind << ": header " << i << " failed with " << show(r));
      CHECK(to_ref(r.value()) == m.headers[i], kind << ": header " << i << " is " << show(ref::headers{ to_ref(r.value()) })
                                                    << " want " << show(ref::headers{ m.headers[i] }));
      CHECK(decoder.started(), kind << ": not started");
      CHECK(decoder.finished() == (i + 1 == m.headers.size()), kind << ": finished() is wrong after header " << i);
    }
    CHECK(rest(sequence) == tail, kind << ": left " << pbt::hex(rest(sequence)) << " want " << pbt::hex(tail));
  };
  if (g.chance(1, 2)) {
    base::buffer b = gen_buffer(g, wire + tail);
    decode(b, "buffer");
  } else {
    base::buffers b = gen_rope(g, wire + tail);
    decode(b, "buffers");
  }
  if (m.headers.size() >= 2) {
    g.nontrivial();
  }
}

static void
body_pieces(gen &g)
{
  http3::body::encoder e;
  std::string submitted;
  std::string out;
  bool ended = false;
  bool stop = false;
  size_t pieces = 0;
  size_t frames = 0;
  auto encode = [&]() {
    // Everything submitted is on the wire once it is idle or finished.
    auto r = e.encode();
    if (r) {
      out += str(r.value());
      return true;
    }
    CHECK(r.error() == http3::error::idle, "encode() failed with " << show(r));
    return false;
  };
  auto parse = [&](bool complete) {
    std::string body;
    size_t pos = 0;
    frames = 0;
    while (pos < out.size()) {
      uint64_t type = 0;
      uint64_t length = 0;
      CHECK(ref::varint_decode(out, pos, type) && ref::varint_decode(out, pos, length), "a cut frame header");
      CHECK(type == ref::F_DATA, "a frame of type " << type);
      if (length > out.size() - pos) {
        CHECK(!complete, "the last frame announces " << length << " bytes, " << out.size() - pos << " follow");
        length = out.size() - pos;
      }
      body += out.substr(pos, static_cast<size_t>(length));
      pos += static_cast<size_t>(length);
      frames++;
    }
    CHECK(submitted.compare(0, body.size(), body) == 0, "encoded body " << pbt::hex(body) << " submitted "
                                                                         << pbt::hex(submitted));
    CHECK(!complete || body == submitted, "encoded " << body.size() << " of " << submitted.size() << " bytes");
  };
  while (!stop) {
    switch (g.pick({ 1, 6, 8, 1 })) {
      case 0:
        if (!ended) {
          auto r = e.fin();
          CHECK(r, "fin() failed with " << show(r));
          g.note("fin");
          ended = true;
        }
        break;
      case 1:
        if (!ended) {
          std::string s = g.bytes(g.size(g.chance(1, 200) ? 2 << 20 : g.chance(1, 10) ? 20000 : 100));
          g.note("add " + std::to_string(s.size()));
          auto r = e.add(gen_buffer(g, s));
          CHECK(r, "add() failed with " << show(r));
          submitted += s;
          pieces++;
        }
        break;
      case 2:
        if (!e.finished()) {
          g.note("encode");
          if (!encode()) {
            parse(true);
            CHECK(!ended, "idle, but the end was submitted");
          }
        }
        break;
      default: {
        http3::body::encoder moved(std::move(e));
        e = std::move(moved);
        break;
      }
    }
    if (e.finished()) {
      CHECK(ended, "finished without fin()");
      parse(true);
      stop = true;
    } else if (ended && !g.chance(1, 2)) {
      while (!e.finished()) {
        CHECK(encode(), "idle, but the end was submitted");
      }
      parse(true);
      stop = true;
    }
  }

  // Back through the decoder.
  base::buffers rope;
  http3::body::decoder d;
  std::string got;
  size_t at = 0;
  for (size_t n : g.segments(out.size())) {
    rope.push(gen_buffer(g, out.substr(at, n)));
    at += n;
    while (true) {
      auto r = d.decode(rope);
      if (!r) {
        CHECK(r.error() == http3::error::incomplete, "decode() failed with " << show(r));
        break;
      }
      got += str(r.value());
    }
  }
  CHECK(got == submitted, "decoded " << pbt::hex(got) << " want " << pbt::hex(submitted));
  CHECK(!d.in_progress(), "still in progress at the end");
  CHECK(rope.empty(), "bytes left at the end");
  if (pieces >= 2) {
    g.nontrivial();
  }
  g.label("frames", frames);
}

static void
data_framing(gen &g)
{
  std::string out;
  std::string body = g.bytes(g.size(g.chance(1, 60) ? 2 << 20 : g.chance(1, 10) ? 20000 : 200));
  size_t at = 0;
  size_t frames = 0;
  for (size_t n : g.segments(body.size())) {
    if (g.chance(1, 6)) {
      out += net::gen_unknown_frame(g, 30);
    }
    out += net::frame(ref::F_DATA, body.substr(at, n));
    at += n;
    frames++;
    if (g.chance(1, 8)) {
      out += net::frame(ref::F_DATA, "");
      frames++;
    }
  }
  g.note("wire: " + pbt::hex(out, 200));
  // What follows the body: a frame that is not DATA is left to the caller.
  static const std::vector<uint64_t> others = { ref::F_HEADERS, ref::F_PRIORITY, ref::F_PUSH_PROMISE, ref::F_DUPLICATE_PUSH };
  std::string tail = g.chance(1, 2) ? net::frame(g.of(others), g.bytes(9)) : "";
  std::string got;
  http3::body::decoder d;
  if (g.chance(1, 3)) {
    base::buffer b = gen_buffer(g, out + tail);
    while (true) {
      auto r = d.decode(b);
      if (!r) {
        http3::error want = tail.empty() ? http3::error::incomplete : http3::error::delegate;
        CHECK(r.error() == want, "at the end: " << show(r) << " want " << name(want));
        break;
      }
      CHECK(!d.in_progress(), "in progress with the whole payload there");
      got += str(r.value());
    }
    CHECK(str(b).size() >= tail.size() && str(b).substr(str(b).size() - tail.size()) == tail, "the frame behind the body was touched");
  } else {
    base::buffers rope;
    std::string s = out + tail;
    size_t pos = 0;
    bool delegated = false;
    for (size_t n : g.segments(s.size())) {
      rope.push(gen_buffer(g, s.substr(pos, n)));
      pos += n;
      while (true) {
        auto r = d.decode(rope);
        if (!r) {
          delegated = r.error() == http3::error::delegate;
          CHECK(delegated || r.error() == http3::error::incomplete, "decode() failed with " << show(r));
          CHECK(!delegated || !tail.empty(), "delegated without another frame");
          break;
        }
        got += str(r.value());
        CHECK(body.compare(0, got.size(), got) == 0, "got " << pbt::hex(got) << " want " << pbt::hex(body));
      }
    }
    CHECK(delegated == !tail.empty(), "the frame behind the body was not delegated");
    std::string left = rest(rope);
    CHECK(left.size() >= tail.size() && left.substr(left.size() - tail.size()) == tail, "the frame behind the body was touched");
  }
  CHECK(got == body, "got " << pbt::hex(got) << " want " << pbt::hex(body));
  CHECK(!d.in_progress(), "in progress after the last frame");
  if (frames >= 2) {
    g.nontrivial();
  }
}

// A payload cut short is still in progress.
static void
in_progress(gen &g)
{
  std::string body = g.bytes(1 + g.size(300));
  size_t cut = static_cast<size_t>(g.draw(body.size() - 1));
  std::string wire = net::frame(ref::F_DATA, body);
  size_t head = wire.size() - body.size();
  base::buffers rope = gen_rope(g, wire.substr(0, head + cut));
  http3::body::decoder d;
  std::string got;
  while (true) {
    auto r = d.decode(rope);
    if (!r) {
      CHECK(r.error() == http3::error::incomplete, "decode() failed with " << show(r));
      break;
    }
    got += str(r.value());
  }
  CHECK(got == body.substr(0, cut), "got " << pbt::hex(got) << " want " << pbt::hex(body.substr(0, cut)));
  CHECK(d.in_progress(), "not in progress in the middle of a payload");
  rope.push(gen_buffer(g, body.substr(cut)));
  while (true) {
    auto r = d.decode(rope);
    if (!r) {
      CHECK(r.error() == http3::error::incomplete, "decode() failed with " << show(r));
      break;
    }
    got += str(r.value());
  }
  CHECK(got == body && !d.in_progress(), "got " << pbt::hex(got) << " want " << pbt::hex(body));
  g.nontrivial();
}

// A HEADERS frame whose length ends inside a header line.
static void
cut_blocks(gen &g)
{
  net::message m = net::gen_message(g, 6, 40, 0);
  std::string block("\0\0", 2);
  std::vector<size_t> ends;
  for (const ref::header &h : m.headers) {
    block += net::gen_line_for(g, h);
    ends.push_back(block.size());
  }
  size_t size = static_cast<size_t>(g.range(3, block.size()));
  if (std::find(ends.begin(), ends.end(), size) != ends.end()) {
    size--;
    if (size < 3 || std::find(ends.begin(), ends.end(), size) != ends.end()) {
      throw pbt::discard();
    }
  }
  size_t whole = 0;
  while (ends[whole] < size) {
    whole++;
  }
  std::string wire = ref::varint(ref::F_HEADERS) + ref::varint(size) + block + g.bytes(static_cast<size_t>(g.draw(10)));
  g.note("length " + std::to_string(size) + " of " + std::to_string(block.size()) + ": " + pbt::hex(wire, 200));
  base::buffers rope = gen_rope(g, wire);
  http3::headers::decoder d;
  for (size_t i = 0; i < whole; i++) {
    auto r = d.decode(rope);
    CHECK(r && to_ref(r.value()) == m.headers[i], "header " << i << ": " << show(r));
    CHECK(!d.finished(), "finished too early");
  }
  auto r = d.decode(rope);
  CHECK(!r, "a header line beyond the end of its frame was accepted");
  CHECK(r.error() == http3::error::malformed_frame || r.error() == http3::error::qpack_decompression_failed,
        "a header line beyond the end of its frame: " << show(r));
  g.nontrivial();
}

PART("header lists", header_lists, 80000, 400000);
PART("body pieces", body_pieces, 120000, 600000);
PART("DATA framing", data_framing, 120000, 600000);
PART("payload in progress", in_progress, 60000, 300000);
PART("cut header blocks", cut_blocks, 60000, 300000);
