// C06: RFC 7541 prefix integers.
#include "util.hpp"

#include <bnl/http3/codec/qpack/prefix_int.hpp>

using namespace bnl;
using namespace bnl::http3;
namespace pi = bnl::http3::qpack::prefix_int;

PROPERTY("C06",
         "values over all bit widths and around the one-byte limit of every prefix size 1..8 with every combination of flag "
         "bits; encodings with redundant continuation bytes, truncations, values past 64 bits, endless continuations and random "
         "bytes, through the four sequence kinds, against a 128-bit reference; non-trivial: the encoding has continuation bytes");

static void
encode_one(gen &g)
{
  unsigned prefix = static_cast<unsigned>(g.range(1, 8));
  uint64_t max = (1ULL << prefix) - 1;
  uint64_t v = g.chance(1, 3) ? max + g.draw(300) - std::min<uint64_t>(max, 3) : g.integer(0, UINT64_MAX);
  uint8_t flags = static_cast<uint8_t>(g.draw(255));
  uint8_t high = static_cast<uint8_t>(flags & ~max);
  g.note("value " + std::to_string(v) + " prefix " + std::to_string(prefix) + " first byte " + std::to_string(flags));
  if (v >= max) {
    g.nontrivial();
  }
  std::string want = ref::prefix_int(v, prefix, high);
  CHECK(pi::encoded_size(v, static_cast<uint8_t>(prefix)) == want.size(), "encoded_size of " << v);
  uint8_t raw[32];
  memset(raw, 0x9d, sizeof(raw));
  raw[0] = flags; // the flag bits are the caller's
  size_t n = pi::encode(raw, v, static_cast<uint8_t>(prefix));
  CHECK(n == want.size() && std::string(reinterpret_cast<char *>(raw), n) == want,
        v << "/" << prefix << ": encoded as " << pbt::hex(raw, n) << ", want " << pbt::hex(want));
  for (size_t i = n; i < sizeof(raw); i++) {
    CHECK(raw[i] == 0x9d, "wrote past the encoding");
  }
  base::buffer b = pi::encode(v, static_cast<uint8_t>(prefix));
  CHECK(str(b) == ref::prefix_int(v, prefix, 0), v << "/" << prefix << ": buffer form is " << pbt::hex(str(b)));
  auto r = pi::decode(b, static_cast<uint8_t>(prefix));
  CHECK(r && r.value() == v && b.empty(), v << "/" << prefix << ": round trip: " << show(r));
}

static void
decode_stream(gen &g)
{
  unsigned prefix = static_cast<unsigned>(g.range(1, 8));
  uint64_t max = (1ULL << prefix) - 1;
  std::string s;
  for (size_t n = 0; g.more(n, 0, 8, 3); n++) {
    uint8_t high = static_cast<uint8_t>(g.draw(255) & ~max);
    switch (g.pick({ 6, 2, 2, 1, 1 })) {
      case 0:
        s += ref::prefix_int(g.integer(0, UINT64_MAX), prefix, high);
        break;
      case 1: // not minimal
        s += ref::prefix_int(max + g.integer(0, ref::VARINT_MAX), prefix, high, static_cast<unsigned>(g.range(1, 5)));
        break;
      case 2: { // any continuation bytes, up to far past 64 bits
        s.push_back(static_cast<char>(high | max));
        size_t k = static_cast<size_t>(g.chance(1, 8) ? g.draw(300) : g.draw(14));
        for (size_t i = 0; i < k; i++) {
          s.push_back(static_cast<char>(0x80 | (g.chance(1, 3) ? 0 : g.draw(127))));
        }
        s.push_back(static_cast<char>(g.draw(127)));
        break;
      }
      case 3: { // bits at the top: 2^63, 2^64, 2^32 ...
        s.push_back(static_cast<char>(high | max));
        size_t k = static_cast<size_t>(g.draw(10));
        for (size_t i = 0; i < k; i++) {
          s.push_back(static_cast<char>(0x80));
        }
        s.push_back(static_cast<char>(1u << g.draw(6)));
        break;
      }
      default:
        s += g.bytes(static_cast<size_t>(g.range(1, 12)));
    }
  }
  if (g.chance(1, 3)) {
    s.resize(static_cast<size_t>(g.draw(s.size())));
  }
  g.note("prefix " + std::to_string(prefix) + " bytes " + pbt::hex(s, 100));
  if (s.size() >= 2) {
    g.nontrivial();
  }
  with_sequence(g, s, [&](auto &seq, const char *kind) {
    size_t pos = 0;
    while (true) {
      size_t before = pos;
      uint64_t want = 0;
      size_t length = 0;
      ref::status st = ref::prefix_int_decode(s, pos, prefix, want, &length);
      auto r = pi::decode(seq, static_cast<uint8_t>(prefix));
      std::string now = rest(seq);
      if (st == ref::status::ok) {
        if (r) {
          CHECK(r.value() == want, kind << ": " << pbt::hex(s.substr(before)) << " is " << r.value() << ", want " << want);
          CHECK(now == s.substr(pos), kind << ": " << pbt::hex(s.substr(before)) << ": used " << s.size() - before - now.size()
                                           << ", want " << length);
          continue;
        }
        // Padded past what any value needs.
        CHECK(length > 11 && r.error() == error::qpack_decompression_failed,
              kind << ": " << pbt::hex(s.substr(before)) << " is " << want << ": " << show(r));
        g.label("rejected: padded");
      } else if (st == ref::status::huge) {
        CHECK(!r && (r.error() == error::qpack_decompression_failed || (r.error() == error::incomplete && (ref::at(s, s.size() - 1) & 128) != 0)),
              kind << ": " << pbt::hex(s.substr(before)) << " does not fit 64 bits: " << (r ? std::to_string(r.value()) : show(r)));
        g.label("rejected: over 64 bits");
      } else {
        CHECK(!r && (r.error() == error::incomplete || (s.size() - before > 10 && r.error() == error::qpack_decompression_failed)),
              kind << ": " << pbt::hex(s.substr(before)) << " is incomplete: " << (r ? std::to_string(r.value()) : show(r)));
        g.label("incomplete");
      }
      CHECK(now == s.substr(before), kind << ": " << pbt::hex(s.substr(before)) << ": a failed decode used "
                                          << s.size() - before - now.size() << " bytes");
      break;
    }
  });
}

static void
small(uint64_t index, gen &)
{
  // Every two-byte input, every prefix size.
  unsigned prefix = static_cast<unsigned>(1 + index % 8);
  index /= 8;
  std::string s;
  s.push_back(static_cast<char>(index >> 8));
  s.push_back(static_cast<char>(index));
  base::buffer b = to_buffer(s);
  size_t pos = 0;
  uint64_t want = 0;
  ref::status st = ref::prefix_int_decode(s, pos, prefix, want);
  auto r = pi::decode(b, static_cast<uint8_t>(prefix));
  if (st == ref::status::ok) {
    CHECK(r && r.value() == want && str(b) == s.substr(pos), pbt::hex(s) << "/" << prefix);
  } else {
    CHECK(!r && r.error() == error::incomplete && str(b) == s, pbt::hex(s) << "/" << prefix);
  }
}

PART("encode", encode_one, 800000, 20000000);
PART("decode", decode_stream, 400000, 20000000);
ENUMERATION("every two-byte input with every prefix size", small, 65536 * 8);
