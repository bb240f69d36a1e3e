// C09: decoding of header blocks other encoders make.
#include "util.hpp"

#include <bnl/http3/codec/qpack.hpp>

using namespace bnl;
using namespace bnl::http3;

PROPERTY("C09",
         "header blocks written by an independent encoder that uses every representation a static-only decoder must take "
         "(indexed, name reference, literal; plain or Huffman; never-indexed bit; redundant integer bytes; any base), and blocks "
         "with one invalid construct (index out of range by any amount, dynamic or post-base reference, bad Huffman, uppercase "
         "name, required insert count, over-long integer), on buffers and ropes, plus byte mutations judged by a reference "
         "decoder; non-trivial: at least two lines");

struct line {
  std::string wire;
  ref::header header;
  bool valid = true;
  const char *why = "";
};

static line
gen_line(gen &g)
{
  line l;
  ref::header h = gen_header(g, g.chance(1, 2000) ? 3 << 20 : g.chance(1, 300) ? 200000 : g.chance(1, 10) ? 2000 : 60);
  auto pad = [&]() { return g.chance(1, 12) ? static_cast<unsigned>(g.range(1, 3)) : 0u; };
  auto string_ = [&](const std::string &s, unsigned prefix, uint8_t flags) {
    bool huff = g.chance(1, 2);
    size_t n = huff ? ref::huffman_size(s) : s.size();
    return ref::literal(s, prefix, flags, huff, n >= (1ULL << prefix) - 1 ? pad() : 0);
  };
  switch (g.draw(2)) {
    case 0: {
      uint64_t i = g.draw(98);
      l.header = { ref::static_table[i].name, ref::static_table[i].value };
      l.wire = ref::prefix_int(i, 6, 0xc0, i >= 63 ? pad() : 0);
      break;
    }
    case 1: {
      uint64_t i = g.draw(98);
      l.header = { ref::static_table[i].name, h.value };
      l.wire = ref::prefix_int(i, 4, static_cast<uint8_t>(0x50 | (g.chance(1, 3) ? 0x20 : 0)), i >= 15 ? pad() : 0) +
               string_(h.value, 7, 0);
      break;
    }
    default:
      l.header = h;
      l.wire = string_(h.name, 3, static_cast<uint8_t>(0x20 | (g.chance(1, 3) ? 0x10 : 0))) + string_(h.value, 7, 0);
  }
  return l;
}

static line
gen_bad_line(gen &g)
{
  line l;
  l.valid = false;
  std::string value = ref::literal(gen_token(g, 20, false), 7, 0, g.chance(1, 2));
  // Past the table by a little, or by a multiple of a power of two that a
  // narrowing conversion would drop.
  auto bad_index = [&]() -> uint64_t {
    switch (g.draw(2)) {
      case 0:
        return 99 + g.draw(400);
      case 1:
        return (1ULL << g.range(7, 61)) + g.draw(98);
      default:
        return g.integer(128, ref::VARINT_MAX);
    }
  };
  switch (g.draw(9)) {
    case 0:
      l.why = "index out of range";
      l.wire = ref::prefix_int(bad_index(), 6, 0xc0);
      break;
    case 1:
      l.why = "name index out of range";
      l.wire = ref::prefix_int(bad_index(), 4, 0x50) + value;
      break;
    case 2:
      l.why = "indexed, dynamic table";
      l.wire = ref::prefix_int(g.draw(98), 6, 0x80);
      break;
    case 3:
      l.why = "name reference, dynamic table";
      l.wire = ref::prefix_int(g.draw(98), 4, static_cast<uint8_t>(0x40 | (g.chance(1, 3) ? 0x20 : 0))) + value;
      break;
    case 4:
      l.why = "indexed, post-base";
      l.wire = ref::prefix_int(g.draw(98), 4, 0x10);
      break;
    case 5:
      l.why = "name reference, post-base";
      l.wire = ref::prefix_int(g.draw(98), 3, static_cast<uint8_t>(g.chance(1, 2) ? 8 : 0)) + value;
      break;
    case 6: {
      l.why = "bad Huffman string";
      std::string bits = ref::huffman(gen_token(g, 10, true));
      switch (g.draw(2)) {
        case 0: // EOS
          bits += std::string("\xff\xff\xff\xff", 4);
          break;
        case 1: // more than 7 bits of padding
          bits += '\xff';
          break;
        default: // 'a' ends in 011, so its padding bits are the last three
          bits = std::string("\x18", 1); // 00011 000: padding of zeros
          break;
      }
      if (g.chance(1, 2)) {
        l.wire = ref::prefix_int(g.draw(98), 4, 0x50) + ref::prefix_int(bits.size(), 7, 0x80) + bits;
      } else {
        l.wire = ref::prefix_int(bits.size(), 3, 0x28) + bits + value;
      }
      break;
    }
    case 7: {
      l.why = "uppercase name";
      std::string n = gen_token(g, 20, true);
      n.insert(static_cast<size_t>(g.draw(n.size())), 1, static_cast<char>('A' + g.draw(25)));
      l.wire = ref::literal(n, 3, 0x20, g.chance(1, 2)) + value;
      break;
    }
    case 8:
      l.why = "integer over 64 bits";
      l.wire = std::string(1, '\xff') + std::string(static_cast<size_t>(g.range(9, 40)), '\xff') + std::string(1, '\x7f');
      break;
    default:
      l.why = "name integer over 64 bits";
      l.wire = std::string(1, '\x5f') + std::string(static_cast<size_t>(g.range(9, 40)), '\xff') + std::string(1, '\x7f') + value;
      break;
  }
  return l;
}

template<typename Sequence>
static void
run(Sequence &seq, const std::vector<line> &lines, bool bad_prefix, const std::string &tail, const char *kind, gen &g)
{
  qpack::decoder d;
  for (const line &l : lines) {
    auto r = d.decode(seq);
    if (bad_prefix) {
      CHECK(!r && r.error() == error::qpack_decompression_failed, kind << ": a required insert count: " << show(r));
      return;
    }
    if (!l.valid) {
      CHECK(!r && (r.error() == error::qpack_decompression_failed || r.error() == error::malformed_header),
            kind << ": " << l.why << " (" << pbt::hex(l.wire) << "): "
                 << (r ? text(str(r.value().name())) + ": " + text(str(r.value().value())) : show(r)));
      g.label(std::string("rejected: ") + l.why);
      return;
    }
    CHECK(r, kind << ": " << pbt::hex(l.wire) << " (" << text(l.header.name) << ": " << text(l.header.value) << "): " << show(r));
    CHECK(to_ref(r.value()) == l.header, kind << ": " << pbt::hex(l.wire) << " gave " << text(str(r.value().name())) << ": "
                                              << text(str(r.value().value())) << ", want " << text(l.header.name) << ": "
                                              << text(l.header.value));
  }
  CHECK(rest(seq) == tail, kind << ": used the wrong number of bytes");
}

static void
blocks(gen &g)
{
  std::vector<line> lines;
  bool bad = g.chance(1, 3);
  for (size_t n = 0; g.more(n, 1, 20, 3); n++) {
    lines.push_back(gen_line(g));
  }
  bool bad_prefix = bad && g.chance(1, 8);
  if (bad && !bad_prefix) {
    lines.insert(lines.begin() + static_cast<long>(g.draw(lines.size())), gen_bad_line(g));
  }
  uint64_t ric = bad_prefix ? g.integer(1, ref::VARINT_MAX) : 0;
  uint64_t base = g.chance(3, 4) ? 0 : g.integer(0, 100000);
  std::string wire = ref::prefix_int(ric, 8, 0) + ref::prefix_int(base, 7, 0);
  for (const line &l : lines) {
    wire += l.wire;
  }
  if (lines.size() >= 2) {
    g.nontrivial();
  }
  g.note("block " + pbt::hex(wire, 200));
  std::string tail = g.bytes(static_cast<size_t>(g.draw(5)));
  if (g.chance(1, 2)) {
    bnl::base::buffer b = gen_buffer(g, wire + tail);
    run(b, lines, bad_prefix, tail, "buffer", g);
  } else {
    bnl::base::buffers b = gen_rope(g, wire + tail);
    run(b, lines, bad_prefix, tail, "buffers", g);
  }
}

// Mutated blocks: whatever the reference accepts decodes the same, whatever it
// rejects is rejected.
static void
mutations(gen &g)
{
  std::string wire = std::string(2, '\0');
  for (size_t n = 0; g.more(n, 0, 6, 2); n++) {
    wire += g.chance(5, 6) ? gen_line(g).wire : g.bytes(static_cast<size_t>(g.draw(8)));
  }
  for (size_t n = 0; g.more(n, 0, 4, 1); n++) {
    if (wire.size() <= 2) {
      break;
    }
    size_t at = static_cast<size_t>(g.range(2, wire.size() - 1));
    switch (g.draw(3)) {
      case 0:
        wire[at] = static_cast<char>(wire[at] ^ (1 << g.draw(7)));
        break;
      case 1:
        wire[at] = static_cast<char>(g.draw(255));
        break;
      case 2:
        wire.erase(at, 1);
        break;
      default:
        wire.insert(at, 1, static_cast<char>(g.draw(255)));
    }
  }
  if (g.chance(1, 4)) {
    wire.resize(static_cast<size_t>(g.range(2, wire.size())));
  }
  g.note("block " + pbt::hex(wire, 200));
  if (wire.size() > 6) {
    g.nontrivial();
  }
  bnl::base::buffers b = gen_rope(g, wire);
  qpack::decoder d;
  size_t pos = 2;
  while (true) {
    ref::header want;
    size_t at = pos;
    ref::status st = ref::qpack_line(wire, pos, want);
    auto r = d.decode(b);
    if (st == ref::status::ok && ref::has_uppercase(want.name)) {
      CHECK(!r && r.error() == error::malformed_header, "uppercase name in " << pbt::hex(wire.substr(at)) << ": " << show(r));
      return;
    }
    if (st == ref::status::ok) {
      if (!r && r.error() == error::qpack_decompression_failed && wire.substr(at).find(std::string(9, '\x80')) != std::string::npos) {
        return; // an integer padded past any use
      }
      CHECK(r, pbt::hex(wire.substr(at), 200) << ": " << show(r));
      CHECK(to_ref(r.value()) == want, pbt::hex(wire.substr(at), 200) << " gave " << text(str(r.value().name())) << ": " << text(str(r.value().value())));
      CHECK(rest(b) == wire.substr(pos), "used the wrong number of bytes");
      g.label("line decoded");
      continue;
    }
    CHECK(!r, pbt::hex(wire.substr(at), 200) << " is not a line but gave " << text(str(r.value().name())));
    // What is certainly wrong is not reported as something to wait for. With
    // bytes missing either may be noticed first.
    if (st == ref::status::invalid) {
      CHECK(r.error() == error::qpack_decompression_failed || r.error() == error::malformed_header,
            pbt::hex(wire.substr(at), 200) << ": " << show(r));
      g.label("invalid line");
    } else {
      CHECK(r.error() == error::incomplete || r.error() == error::qpack_decompression_failed || r.error() == error::malformed_header,
            pbt::hex(wire.substr(at), 200) << ": " << show(r));
      g.label("incomplete line");
    }
    return;
  }
}

static void
indices(uint64_t index, gen &)
{
  // Every static index through both representations, and 400 past the end.
  bool indexed = index % 2 == 0;
  uint64_t i = index / 2;
  std::string wire = std::string(2, '\0') + (indexed ? ref::prefix_int(i, 6, 0xc0) : ref::prefix_int(i, 4, 0x50) + std::string("\x01v", 2));
  bnl::base::buffer b = to_buffer(wire);
  qpack::decoder d;
  auto r = d.decode(b);
  if (i < 99) {
    ref::header want = { ref::static_table[i].name, indexed ? ref::static_table[i].value : "v" };
    CHECK(r && to_ref(r.value()) == want && b.empty(), "index " << i << ": " << show(r));
  } else {
    CHECK(!r && r.error() == error::qpack_decompression_failed, "index " << i << ": " << show(r));
  }
}

PART("blocks", blocks, 200000, 6000000);
PART("mutations", mutations, 200000, 6000000);
ENUMERATION("every static index, both ways, and 400 past the end", indices, 1000);
