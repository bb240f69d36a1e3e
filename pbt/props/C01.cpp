// C01: QUIC variable-length integers.
#include "util.hpp"

#include <bnl/http3/codec/varint.hpp>

using namespace bnl;
using namespace bnl::http3;

PROPERTY("C01",
         "values drawn uniformly over bit widths, around powers of two and the width boundaries; buffers drawn as random "
         "bytes, wire encodings of any width, and their truncations, presented through the four sequence kinds; "
         "non-trivial: the value needs more than one byte, or the input is split over several segments or truncated");

static void
check_value(gen &g, uint64_t v)
{
  auto size = varint::encoded_size(v);
  uint8_t raw[16];
  memset(raw, 0xa7, sizeof(raw));
  auto written = varint::encode(raw, v);
  auto buf = varint::encode(v);
  if (v > ref::VARINT_MAX) {
    CHECK(!size && size.error() == error::varint_overflow, v << ": " << show(size));
    CHECK(!written && written.error() == error::varint_overflow, v << ": " << show(written));
    CHECK(!buf && buf.error() == error::varint_overflow, v << ": " << show(buf));
    for (uint8_t b : raw) {
      CHECK(b == 0xa7, "a rejected value was written");
    }
    g.label("overflow");
    return;
  }
  std::string want = ref::varint(v);
  CHECK(size && size.value() == want.size(), v << ": encoded_size");
  CHECK(written && written.value() == want.size(), v << ": encode size");
  CHECK(std::string(reinterpret_cast<char *>(raw), want.size()) == want,
        v << ": encoded as " << pbt::hex(raw, want.size()) << " instead of " << pbt::hex(want));
  for (size_t i = want.size(); i < sizeof(raw); i++) {
    CHECK(raw[i] == 0xa7, v << ": wrote past the encoding");
  }
  CHECK(buf && str(buf.value()) == want, v << ": buffer form");
  base::buffer b = to_buffer(want);
  auto r = varint::decode(b);
  CHECK(r && r.value() == v && b.empty(), v << ": decoding its own encoding: " << show(r));
}

// Decodes varints from `s` until it cannot, against the reference.
static void
check_stream(gen &g, const std::string &s)
{
  with_sequence(g, s, [&](auto &seq, const char *kind) {
    size_t pos = 0;
    while (true) {
      size_t before = pos;
      uint64_t want = 0;
      bool ok = ref::varint_decode(s, pos, want);
      auto r = varint::decode(seq);
      CHECK(static_cast<bool>(r) == ok, kind << " at " << before << " of " << pbt::hex(s) << ": " << show(r));
      if (ok) {
        CHECK(r.value() == want, kind << " at " << before << " of " << pbt::hex(s) << ": got " << r.value() << ", want " << want);
      } else {
        CHECK(r.error() == error::incomplete, show(r));
      }
      CHECK(rest(seq) == s.substr(ok ? pos : before), kind << " at " << before << " of " << pbt::hex(s) << ": left " << rest(seq).size());
      if (!ok) {
        break;
      }
    }
  });
}

static void
values(gen &g)
{
  uint64_t v = g.integer(0, UINT64_MAX);
  g.note("value " + std::to_string(v));
  if (v >= 64) {
    g.nontrivial();
  }
  check_value(g, v);
}

static void
streams(gen &g)
{
  std::string s;
  for (size_t n = 0; g.more(n, 0, 40, 3); n++) {
    uint64_t v = g.integer(0, ref::VARINT_MAX);
    unsigned least = ref::varint_size(v);
    unsigned w = least;
    while (w < 8 && g.chance(1, 4)) {
      w *= 2;
    }
    s += ref::varint(v, w);
  }
  size_t cut = g.chance(1, 2) ? g.draw(s.size()) : 0;
  s.resize(s.size() - cut);
  if (g.chance(1, 6)) {
    s += g.bytes(g.size(20));
  }
  if (s.size() > 1 || cut != 0) {
    g.nontrivial();
  }
  g.note("bytes " + pbt::hex(s));
  check_stream(g, s);
}

static void
small_inputs(uint64_t index, gen &)
{
  // Every input of length 0, 1 and 2.
  std::string s;
  if (index >= 1 && index < 257) {
    s = std::string(1, static_cast<char>(index - 1));
  } else if (index >= 257) {
    s = std::string(1, static_cast<char>((index - 257) >> 8)) + std::string(1, static_cast<char>(index - 257));
  }
  base::buffer b = to_buffer(s);
  size_t pos = 0;
  uint64_t want = 0;
  bool ok = ref::varint_decode(s, pos, want);
  auto r = varint::decode(b);
  CHECK(static_cast<bool>(r) == ok && (!ok || r.value() == want), pbt::hex(s));
  CHECK(str(b) == s.substr(ok ? pos : 0), pbt::hex(s));
}

static void
small_values(uint64_t index, gen &g)
{
  check_value(g, index);
}

static void
boundaries(uint64_t index, gen &g)
{
  // 2^k + d
  check_value(g, (1ULL << (index / 65)) + (index % 65) - 32);
}

PART("values", values, 400000, 30000000);
PART("streams", streams, 350000, 20000000);
ENUMERATION("every input of at most two bytes", small_inputs, 65793);
ENUMERATION("every value below 70000", small_values, 70000);
ENUMERATION("every power of two, 32 values either way", boundaries, 64 * 65);
