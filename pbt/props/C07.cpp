// C07: Huffman strings and string literals.
#include "util.hpp"

#include <set>

#include <bnl/http3/codec/qpack/huffman.hpp>
#include <bnl/http3/codec/qpack/literal.hpp>

using namespace bnl;
using namespace bnl::http3;
namespace hf = bnl::http3::qpack::huffman;
namespace lit = bnl::http3::qpack::literal;

PROPERTY("C07",
         "strings over all 256 symbols (uniform, skewed to the long codes, token-like, 0..4000 bytes), their Huffman and literal "
         "encodings with every prefix size 3..7 and flag bits, and bit strings that are valid, cut, over-padded, padded with "
         "zeros, contain EOS or are random, against a reference coder built from the RFC table; non-trivial: at least two symbols");

static std::string
gen_string(gen &g)
{
  switch (g.pick({ 3, 3, 3, 2, 2 })) {
    case 0:
      return g.bytes(g.size(200));
    case 1:
      return gen_token(g, g.chance(1, 400) ? 2 << 20 : g.chance(1, 40) ? 200000 : g.chance(1, 8) ? 4000 : 300, false);
    case 2: { // long codes
      static std::vector<int> longs;
      if (longs.empty()) {
        for (int i = 0; i < 256; i++) {
          if (ref::huffman_table[i].bits >= 19) {
            longs.push_back(i);
          }
        }
      }
      std::string s;
      for (size_t n = 0; g.more(n, 1, 60, 6); n++) {
        s.push_back(static_cast<char>(g.chance(1, 4) ? 'a' + g.draw(25) : static_cast<uint64_t>(g.of(longs))));
      }
      return s;
    }
    case 3: // one or two symbols after a run that sets the bit offset
      return std::string(static_cast<size_t>(g.draw(8)), 'a') + std::string(static_cast<size_t>(g.draw(8)), '<') + g.bytes(static_cast<size_t>(g.range(1, 2)));
    default:
      return g.bytes(static_cast<size_t>(g.draw(g.chance(1, 200) ? 150000 : g.chance(1, 10) ? 3000 : 100)));
  }
}

static void
strings(gen &g)
{
  std::string s = gen_string(g);
  g.note(text(s, 60));
  if (s.size() >= 2) {
    g.nontrivial();
  }
  base::string_view v(s.data(), s.size());
  std::string want = ref::huffman(s);
  CHECK(hf::encoded_size(v) == want.size(), "encoded_size is " << hf::encoded_size(v) << ", want " << want.size());
  std::vector<uint8_t> raw(want.size() + 8, 0xc3);
  size_t n = hf::encode(raw.data(), v);
  std::string got(reinterpret_cast<char *>(raw.data()), std::min(n, raw.size()));
  CHECK(n == want.size() && got == want, text(s) << " encoded as " << pbt::hex(got, 200) << ", want " << pbt::hex(want, 200));
  for (size_t i = n; i < raw.size(); i++) {
    CHECK(raw[i] == 0xc3, "wrote past the encoding");
  }
  CHECK(str(hf::encode(v)) == want, "buffer form");
  std::string tail = g.bytes(static_cast<size_t>(g.draw(4)));
  with_sequence(g, want + tail, [&](auto &seq, const char *kind) {
    auto r = hf::decode(seq, want.size());
    CHECK(r && r.value() == s, kind << ": " << text(s) << " came back as " << (r ? text(r.value()) : show(r)));
    CHECK(rest(seq) == tail, kind << ": wrong number of bytes used");
  });
}

static void
literals(gen &g)
{
  std::string s = gen_string(g);
  unsigned prefix = static_cast<unsigned>(g.range(3, 7));
  uint8_t flags = static_cast<uint8_t>(g.draw(255) & ~((2u << prefix) - 1));
  g.note("prefix " + std::to_string(prefix) + " " + text(s, 60));
  if (s.size() >= 2) {
    g.nontrivial();
  }
  base::string_view v(s.data(), s.size());
  size_t size = lit::encoded_size(v, static_cast<uint8_t>(prefix));
  std::vector<uint8_t> raw(size + 8, 0x71);
  raw[0] = flags;
  size_t n = lit::encode(raw.data(), v, static_cast<uint8_t>(prefix));
  CHECK(n == size, "encoded_size is " << size << ", encode wrote " << n);
  for (size_t i = n; i < raw.size(); i++) {
    CHECK(raw[i] == 0x71, "wrote past the encoding");
  }
  std::string got(reinterpret_cast<char *>(raw.data()), n);
  // It reads back, whichever form the encoder chose; never longer than plain.
  size_t pos = 0;
  std::string back;
  CHECK(ref::literal_decode(got, pos, prefix, back) == ref::status::ok && pos == n && back == s,
        text(s) << " as a literal is " << pbt::hex(got, 200));
  CHECK((ref::at(got, 0) & ~((2u << prefix) - 1)) == flags, "the caller's flag bits changed");
  CHECK(n <= ref::literal(s, prefix, flags, false).size(), "longer than the plain form");
  if (ref::huffman(s).size() >= s.size()) {
    CHECK((raw[0] >> prefix & 1) == 0, text(s) << " uses the Huffman form, which is not shorter: " << pbt::hex(got, 200));
  }
  base::buffer b = lit::encode(v, static_cast<uint8_t>(prefix));
  pos = 0;
  CHECK(ref::literal_decode(str(b), pos, prefix, back) == ref::status::ok && pos == b.size() && back == s,
        text(s) << ": buffer form is " << pbt::hex(str(b), 200));
  // Both forms decode.
  for (int form = 0; form < 2; form++) {
    std::string wire = ref::literal(s, prefix, flags, form == 1, g.chance(1, 6) ? static_cast<unsigned>(g.range(1, 3)) : 0);
    uint64_t mask = (1ULL << prefix) - 1;
    if ((form == 1 ? ref::huffman(s).size() : s.size()) < mask) {
      wire = ref::literal(s, prefix, flags, form == 1);
    }
    std::string tail = g.bytes(static_cast<size_t>(g.draw(4)));
    with_sequence(g, wire + tail, [&](auto &seq, const char *kind) {
      auto r = lit::decode(seq, static_cast<uint8_t>(prefix));
      CHECK(r && r.value() == s,
            kind << (form == 1 ? " huffman" : " plain") << ": " << pbt::hex(wire, 100) << " gave " << (r ? text(r.value()) : show(r)) << ", want " << text(s));
      CHECK(rest(seq) == tail, kind << ": wrong number of bytes used");
    });
  }
}

static std::string
gen_bits(gen &g)
{
  std::string bits;
  auto symbol = [&](unsigned i) {
    for (int b = ref::huffman_table[i].bits - 1; b >= 0; b--) {
      bits.push_back(static_cast<char>('0' + ((ref::huffman_table[i].code >> b) & 1)));
    }
  };
  for (size_t n = 0; g.more(n, 0, 12, 3); n++) {
    switch (g.pick({ 10, 1, 1 })) {
      case 0:
        symbol(static_cast<unsigned>(g.draw(255)));
        break;
      case 1:
        if (g.chance(1, 2)) {
          symbol(256);
        }
        break;
      default:
        bits += std::string(static_cast<size_t>(g.draw(40)), '1');
    }
  }
  switch (g.pick({ 4, 2, 1, 1 })) {
    case 0:
      while (bits.size() % 8 != 0) {
        bits.push_back('1');
      }
      break;
    case 1:
      while (bits.size() % 8 != 0) {
        bits.push_back(g.chance(1, 5) ? '0' : '1');
      }
      break;
    case 2:
      while (bits.size() % 8 != 0) {
        bits.push_back('1');
      }
      bits += std::string(static_cast<size_t>(g.range(1, 4)) * 8, '1');
      break;
    default:
      bits.resize(bits.size() / 8 * 8);
  }
  std::string s;
  for (size_t i = 0; i + 8 <= bits.size(); i += 8) {
    s.push_back(static_cast<char>(std::stoi(bits.substr(i, 8), nullptr, 2)));
  }
  return s;
}

static void
check_bits(gen &g, const std::string &s)
{
  std::string want;
  bool ok = ref::unhuffman(s, want);
  g.label(ok ? "valid bit string" : "invalid bit string");
  std::string tail = g.bytes(static_cast<size_t>(g.draw(4)));
  with_sequence(g, s + tail, [&](auto &seq, const char *kind) {
    auto r = hf::decode(seq, s.size());
    if (ok) {
      CHECK(r && r.value() == want, kind << ": " << pbt::hex(s) << " decodes to " << (r ? text(r.value()) : show(r)) << ", want " << text(want));
      CHECK(rest(seq) == tail, kind << ": wrong number of bytes used");
    } else {
      CHECK(!r && r.error() == error::qpack_decompression_failed,
            kind << ": " << pbt::hex(s) << " decodes to " << (r ? text(r.value()) : show(r)) << ", want a decompression failure");
      CHECK(rest(seq) == s + tail, kind << ": a failed decode used bytes");
    }
  });
  // As a literal.
  std::string wire = ref::prefix_int(s.size(), 7, 0x80) + s;
  base::buffer b = to_buffer(wire);
  auto r = lit::decode(b, 7);
  CHECK(ok ? (r && r.value() == want && b.empty()) : (!r && r.error() == error::qpack_decompression_failed && str(b) == wire),
        "as a literal: " << pbt::hex(wire) << ": " << show(r));
}

static void
bit_strings(gen &g)
{
  std::string s = g.chance(1, 5) ? g.bytes(g.size(40)) : gen_bits(g);
  g.note("bits " + pbt::hex(s, 100));
  if (s.size() >= 2) {
    g.nontrivial();
  }
  check_bits(g, s);
}

static void
pairs(uint64_t index, gen &g)
{
  // Every pair of symbols, encoded and decoded.
  std::string s;
  s.push_back(static_cast<char>(index >> 8));
  s.push_back(static_cast<char>(index));
  base::string_view v(s.data(), s.size());
  std::string want = ref::huffman(s);
  std::string got = str(hf::encode(v));
  CHECK(got == want, pbt::hex(s) << " encoded as " << pbt::hex(got) << ", want " << pbt::hex(want));
  base::buffer b = to_buffer(want);
  auto r = hf::decode(b, want.size());
  CHECK(r && r.value() == s && b.empty(), pbt::hex(s) << " came back as " << (r ? text(r.value()) : show(r)));
  // Every two-byte bit string, and as the end of a longer one.
  check_bits(g, s);
}

static void
offsets(uint64_t index, gen &)
{
  // Every symbol at every bit offset 0..7 ('a' is 5 bits, '<' 15), followed by another.
  unsigned symbol = index % 256;
  unsigned as = static_cast<unsigned>(index / 256) % 8;
  static const char after[4] = { 'a', '\x00', '\xff', 'Z' };
  std::string s = std::string(as, 'a') + std::string(1, static_cast<char>(symbol)) + std::string(1, after[index / 2048]);
  std::string got = str(hf::encode(base::string_view(s.data(), s.size())));
  CHECK(got == ref::huffman(s), pbt::hex(s) << " encoded as " << pbt::hex(got) << ", want " << pbt::hex(ref::huffman(s)));
}

// The proper prefixes of all codes: what can be pending when a byte ends.
static const std::vector<std::string> &
pending()
{
  static const std::vector<std::string> all = [] {
    std::set<std::string> set;
    for (const auto &entry : ref::huffman_table) {
      std::string bits;
      for (int b = entry.bits - 1; b >= 0; b--) {
        set.insert(bits);
        bits.push_back(static_cast<char>('0' + ((entry.code >> b) & 1)));
      }
    }
    return std::vector<std::string>(set.begin(), set.end());
  }();
  return all;
}

static void
continued(uint64_t index, gen &g)
{
  // Every partial code at the end of a byte ('a' is 00011), continued by every last byte.
  size_t which = static_cast<size_t>(index >> 8);
  CHECK(pending().size() == 256, "partial codes: " << pending().size());
  const std::string &partial = pending()[which];
  std::string bits;
  while ((bits.size() + partial.size()) % 8 != 0) {
    bits += "00011";
  }
  bits += partial;
  std::string s;
  for (size_t i = 0; i + 8 <= bits.size(); i += 8) {
    s.push_back(static_cast<char>(std::stoi(bits.substr(i, 8), nullptr, 2)));
  }
  s.push_back(static_cast<char>(index));
  g.note("bits " + pbt::hex(s, 100));
  check_bits(g, s);
}

PART("strings", strings, 120000, 4000000);
PART("literals", literals, 100000, 4000000);
PART("bit strings", bit_strings, 200000, 8000000);
ENUMERATION("every pair of symbols and every two-byte bit string", pairs, 65536);
ENUMERATION("every partial code at the end of a byte with every last byte", continued, 65536);
ENUMERATION("every symbol at every bit offset", offsets, 256 * 8 * 4);
