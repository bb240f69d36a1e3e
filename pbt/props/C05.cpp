// C05: frame decoding of arbitrary bytes.
#include "frames.hpp"

using namespace bnl;
using namespace bnl::http3;

PROPERTY("C05",
         "byte strings made of well-formed frames, frames with a wrong length, frames with over-long varints, unknown frames "
         "of any size, mutations and truncations of them, and random bytes, through the four sequence kinds, against a "
         "reference decoder; non-trivial: at least one complete frame (known or unknown) and another construct");

static std::string
gen_varint(gen &g, uint64_t v)
{
  unsigned w = ref::varint_size(v);
  while (w < 8 && g.chance(1, 5)) {
    w *= 2;
  }
  return ref::varint(v, w);
}

static std::string
gen_bytes(gen &g, bool &interesting)
{
  std::string s;
  size_t parts = 0;
  for (size_t n = 0; g.more(n, 0, 8, 2); n++) {
    parts++;
    switch (g.pick({ 6, 4, 3, 2, 1 })) {
      case 0: {
        ref::frame f = gen_frame(g, ref::VARINT_MAX - 100);
        std::string p = ref::frame_payload(f);
        s += gen_varint(g, f.type) + gen_varint(g, p.size() + f.size) + p;
        break;
      }
      case 1: { // unknown
        uint64_t type = g.chance(2, 3) ? 0x21 + 0x1f * g.draw(1000) : g.integer(0, ref::VARINT_MAX);
        if (ref::known_frame(type)) {
          type = 0x21;
        }
        if (g.chance(1, 150)) { // past 16 bits, made of what looks like frames
          if (g.chance(1, 40)) { // very many of them
            std::string one = gen_varint(g, type) + ref::varint(g.draw(1));
            one += std::string(static_cast<size_t>(one.back()), '\x04');
            for (size_t k = static_cast<size_t>(g.range(20000, 100000)); k > 0; k--) {
              s += one;
            }
            g.label("runs of 20000 or more unknown frames");
            break;
          }
          size_t k = static_cast<size_t>(g.chance(1, 2) ? 65536 + g.draw(40) : g.range(16000, 140000));
          if (g.chance(1, 30)) {
            k = static_cast<size_t>(g.range(1 << 20, 3 << 20));
          }
          s += gen_varint(g, type) + gen_varint(g, k) + std::string(k, static_cast<char>(g.of(std::vector<uint64_t>{ 2, 3, 7, 13 })));
          g.label("unknown frames of 16 kB or more");
          break;
        }
        size_t k = g.size(300);
        s += gen_varint(g, type) + gen_varint(g, k) + g.bytes(k);
        break;
      }
      case 2: { // a known frame with fields of its own making and a length that may be wrong
        uint64_t type = g.of(KNOWN_FRAMES);
        std::string p;
        for (size_t k = 0; g.more(k, 0, 8, 3); k++) {
          p += g.chance(1, 6) ? g.bytes(1) : gen_varint(g, g.chance(1, 3) ? g.draw(10) : g.integer(0, ref::VARINT_MAX));
        }
        uint64_t length = p.size();
        if (g.chance(1, 2)) {
          length = g.chance(1, 2) ? g.draw(p.size() + 4) : g.integer(0, ref::VARINT_MAX);
        }
        s += gen_varint(g, type) + gen_varint(g, length) + p;
        break;
      }
      case 3: { // SETTINGS with known, unknown and repeated ids
        std::string p;
        for (size_t k = 0; g.more(k, 0, 10, 4); k++) {
          static const std::vector<uint64_t> ids = { 1, 6, 7, 9, 0x21, 0xabc };
          p += gen_varint(g, g.chance(3, 4) ? g.of(ids) : g.integer(0, ref::VARINT_MAX)) +
               gen_varint(g, g.integer(0, ref::VARINT_MAX));
        }
        s += gen_varint(g, 4) + gen_varint(g, p.size()) + p;
        break;
      }
      default:
        s += g.bytes(g.size(24));
    }
  }
  interesting = parts >= 2;
  if (!s.empty() && g.chance(1, 4)) {
    s[g.draw(s.size() - 1)] = static_cast<char>(g.draw(255));
  }
  if (g.chance(1, 3)) {
    s.resize(static_cast<size_t>(g.draw(s.size())));
  }
  return s;
}

static void
bytes(gen &g)
{
  bool interesting = false;
  std::string s = gen_bytes(g, interesting);
  g.note(pbt::hex(s, 200));
  unsigned decoded = 0;
  with_sequence(g, s, [&](auto &seq, const char *kind) {
    std::string left = s;
    while (true) {
      ref::decoded d = ref::decode_frame(left);
      auto r = frame::decode(seq);
      std::string now = rest(seq);
      if (r) {
        CHECK(d.what == ref::decoded::frame_ok || d.what == ref::decoded::frame_or_malformed,
              kind << ": " << pbt::hex(left) << " decoded as " << show(to_ref(r.value())));
        CHECK(to_ref(r.value()) == d.frame,
              kind << ": " << pbt::hex(left) << " decoded as " << show(to_ref(r.value())) << ", want " << show(d.frame));
        CHECK(now == left.substr(d.end), kind << ": " << pbt::hex(left) << ": used " << left.size() - now.size() << ", want " << d.end);
        left = now;
        decoded++;
        continue;
      }
      bool incomplete_ok = d.what == ref::decoded::incomplete || d.what == ref::decoded::incomplete_or_malformed;
      bool malformed_ok = d.what == ref::decoded::malformed || d.what == ref::decoded::incomplete_or_malformed ||
                          d.what == ref::decoded::frame_or_malformed;
      CHECK((incomplete_ok && r.error() == error::incomplete) || (malformed_ok && r.error() == error::malformed_frame),
            kind << ": " << pbt::hex(left) << ": " << show(r) << ", reference says " << static_cast<int>(d.what) << " "
                 << show(d.frame));
      g.label(name(r.error()));
      // Only complete unknown frames may have been used up.
      size_t used = left.size() - now.size();
      bool at_skip = used == 0;
      for (size_t k : d.skips) {
        at_skip = at_skip || used == k;
      }
      CHECK(at_skip && now == left.substr(used), kind << ": " << pbt::hex(left) << ": a failed decode used " << used << " bytes");
      break;
    }
  });
  g.label("frames decoded", decoded);
  if (interesting && decoded > 0) {
    g.nontrivial();
  }
}

// peek says the type of the next known frame, and changes nothing.
static void
peeks(gen &g)
{
  bool interesting = false;
  std::string s = gen_bytes(g, interesting);
  g.note(pbt::hex(s, 200));
  // The reference: skip complete unknown frames, then read a type.
  size_t pos = 0;
  uint64_t type = 0;
  bool found = false;
  bool skipped = false;
  bool head_only = false; // the type is known but its length is not all there
  while (true) {
    size_t at = pos;
    if (!ref::varint_decode(s, at, type)) {
      break;
    }
    uint64_t length = 0;
    bool has_length = ref::varint_decode(s, at, length);
    if (ref::known_frame(type)) {
      found = true;
      head_only = !has_length;
      break;
    }
    if (!has_length || length > s.size() - at) {
      break;
    }
    pos = at + static_cast<size_t>(length);
    skipped = true;
  }
  if (skipped || interesting) {
    g.nontrivial();
  }
  if (skipped) {
    g.label("skipped an unknown frame");
  }
  with_sequence(g, s, [&](auto &seq, const char *kind) {
    auto r = frame::peek(seq);
    CHECK(rest(seq) == s, kind << ": peek changed the sequence");
    if (found) {
      CHECK((r && static_cast<uint64_t>(r.value()) == type) || (head_only && !r && r.error() == error::incomplete),
            kind << ": " << pbt::hex(s) << ": peek says " << (r ? std::to_string(static_cast<uint64_t>(r.value())) : show(r))
                 << ", want " << type);
    } else {
      CHECK(!r && r.error() == error::incomplete,
            kind << ": " << pbt::hex(s) << ": peek says " << (r ? std::to_string(static_cast<uint64_t>(r.value())) : show(r))
                 << ", want incomplete");
    }
  });
}

PART("bytes", bytes, 400000, 20000000);
PART("peek", peeks, 250000, 8000000);
