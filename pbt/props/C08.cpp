// C08: any header list survives QPACK encoding.
#include "collide.hpp"
#include "util.hpp"

#include <bnl/http3/codec/qpack.hpp>

using namespace bnl;
using namespace bnl::http3;

PROPERTY("C08",
         "lists of 1..40 headers (static entries, static names with other values, near misses of static entries, names and "
         "values over all bytes and sizes up to 3 MiB, strings built to collide with static entries under the encoder's hash), "
         "interleaved with rejected headers, encoded and then decoded by an independent reader and by bnl, whole or in growing "
         "prefixes; non-trivial: at least two headers, one of them not an exact static entry");

static bool
is_static(const ref::header &h)
{
  for (const ref::static_entry &e : ref::static_table) {
    if (h.name == e.name && h.value == e.value) {
      return true;
    }
  }
  return false;
}

// Other names and values with the hashes of the static ones.
struct colliders {
  std::vector<std::pair<std::string, std::string>> names;  // original, collider
  std::vector<std::pair<std::string, std::string>> values; // name, colliding value

  colliders()
  {
    uint64_t salt = 0;
    for (const ref::static_entry &e : ref::static_table) {
      for (std::string s : { collide::preimage("", collide::xxh64(e.name)), collide::preimage("abcdefgh", collide::xxh64(e.name)) }) {
        if (!ref::has_uppercase(s) && s != e.name) {
          names.push_back({ e.name, s });
        }
      }
      if (e.value[0] != 0) {
        values.push_back({ e.name, collide::preimage("", collide::xxh64(e.value)) });
        values.push_back({ e.name, collide::preimage("application/json", collide::xxh64(e.value)) });
      }
      if (salt < 12) {
        names.push_back({ e.name, collide::printable(e.name, salt++) });
      }
    }
  }
};

static ref::header
gen_any(gen &g)
{
  if (g.chance(1, 12)) {
    static const colliders c;
    g.label("hash collision");
    if (g.chance(1, 2)) {
      const auto &n = g.of(c.names);
      return { n.second, g.chance(1, 2) ? gen_token(g, 20, false) : std::string(ref::static_table[g.draw(98)].value) };
    }
    const auto &v = g.of(c.values);
    return { v.first, v.second };
  }
  return gen_header(g, g.chance(1, 60) ? (g.chance(1, 40) ? 3 << 20 : 70000) : g.chance(1, 8) ? 3000 : 120);
}

static void
lists(gen &g)
{
  qpack::encoder encoder;
  CHECK(encoder.count() == 0, "a new encoder counts 0");
  ref::headers sent;
  std::string wire;
  std::vector<size_t> ends;
  bool plain = true;
  for (size_t n = 0; g.more(n, 1, 40, 4); n++) {
    ref::header h = gen_any(g);
    bool bad = g.chance(1, 12);
    if (bad) { // an uppercase letter in the name
      h.name.insert(static_cast<size_t>(g.draw(h.name.size())), 1, static_cast<char>('A' + g.draw(25)));
    }
    g.note((bad ? "rejected " : "header ") + text(h.name) + ": " + text(h.value));
    uint64_t count = encoder.count();
    auto size = encoder.encoded_size(view(h));
    CHECK(encoder.count() == count, "encoded_size() changed the count");
    std::string piece;
    if (bad || g.chance(1, 2)) {
      auto r = encoder.encode(view(h));
      if (bad) {
        g.label("rejected header");
        CHECK(!r && r.error() == error::malformed_header && !size && size.error() == error::malformed_header,
              "an uppercase name: " << show(r));
        CHECK(encoder.count() == count, "a rejected header was counted");
        continue;
      }
      CHECK(r, show(r));
      piece = str(r.value());
    } else {
      CHECK(size, show(size));
      std::vector<uint8_t> raw(size.value() + 8, 0x5c);
      auto r = encoder.encode(raw.data(), view(h));
      CHECK(r && r.value() == size.value(), "encoded_size() is " << size.value() << ", encode() wrote " << (r ? r.value() : 0));
      for (size_t i = size.value(); i < raw.size(); i++) {
        CHECK(raw[i] == 0x5c, "wrote past the encoding");
      }
      piece.assign(reinterpret_cast<char *>(raw.data()), size.value());
    }
    CHECK(size && size.value() == piece.size(), "encoded_size() is " << size.value() << ", encode() made " << piece.size());
    CHECK(encoder.count() == count + piece.size(), "count() is " << encoder.count() << " after " << count << " + " << piece.size());
    wire += piece;
    ends.push_back(wire.size());
    plain = plain && is_static(h);
    sent.push_back(h);
  }
  if (sent.size() >= 2 && !plain) {
    g.nontrivial();
  }
  if (sent.empty()) {
    return;
  }

  ref::headers got;
  ref::status st = ref::qpack_section(wire, got);
  CHECK(st == ref::status::ok && got == sent,
        "an independent reader gets " << show(got) << " from " << pbt::hex(wire, 120) << ", sent " << show(sent));

  // bnl's decoder, all at once.
  auto drain = [&](auto &seq, qpack::decoder &decoder, size_t limit, size_t &next) {
    while (next < limit) {
      auto r = decoder.decode(seq);
      CHECK(r, "header " << next << ": " << show(r));
      CHECK(to_ref(r.value()) == sent[next],
            "header " << next << " came back as " << text(str(r.value().name())) << ": " << text(str(r.value().value())));
      CHECK(decoder.count() == ends[next], "count() is " << decoder.count() << " at header " << next << ", want " << ends[next]);
      next++;
    }
  };
  {
    base::buffer b = gen_buffer(g, wire);
    qpack::decoder decoder;
    size_t next = 0;
    drain(b, decoder, sent.size(), next);
    CHECK(b.empty(), "bytes left");
  }
  {
    // In growing pieces.
    qpack::decoder decoder;
    base::buffers rope;
    size_t next = 0;
    size_t at = 0;
    for (size_t k : g.segments(wire.size())) {
      rope.push(to_buffer(wire.substr(at, k)));
      at += k;
      size_t limit = next;
      while (limit < ends.size() && ends[limit] <= at) {
        limit++;
      }
      drain(rope, decoder, limit, next);
      if (next < sent.size()) {
        auto r = decoder.decode(rope);
        CHECK(!r && r.error() == error::incomplete, "with " << at << " of " << wire.size() << " bytes: " << show(r));
      }
    }
    CHECK(next == sent.size() && rope.empty(), "headers missing");
  }
}

static void
static_entries(uint64_t index, gen &)
{
  // Every pair of a static name with every static value, and every entry with
  // itself: what the encoder is most tempted to abbreviate.
  ref::header h = { ref::static_table[index / 99].name, ref::static_table[index % 99].value };
  qpack::encoder e;
  auto r = e.encode(view(h));
  CHECK(r, show(r));
  ref::headers got;
  CHECK(ref::qpack_section(str(r.value()), got) == ref::status::ok && got.size() == 1 && got[0] == h,
        text(h.name) << ": " << text(h.value) << " reads back as " << show(got));
  qpack::decoder d;
  base::buffer b = std::move(r.value());
  auto back = d.decode(b);
  CHECK(back && to_ref(back.value()) == h && b.empty(), text(h.name) << ": " << text(h.value) << ": " << show(back));
}

PART("lists", lists, 120000, 4000000);
ENUMERATION("every static name with every static value", static_entries, 99 * 99);
