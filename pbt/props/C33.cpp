// C33: headers are encoded as compactly as the static table and Huffman allow.
#include "collide.hpp"
#include "util.hpp"

#include <bnl/http3/codec/headers.hpp>
#include <bnl/http3/codec/qpack.hpp>

using namespace bnl;
using namespace bnl::http3;

PROPERTY("C33",
         "headers: static entries, static names with other values, values of other entries, near misses, names and values that "
         "favour or disfavour the Huffman code up to 70000 bytes; the encoded size must be the least over all representations that need "
         "no dynamic table (indexed unless the value is empty, every name reference, literal name, each string plain or Huffman), for the header alone, later "
         "in a list, and in a HEADERS frame; non-trivial: a header that is no exact static entry");

// The fewest bytes a string literal can take.
static size_t
literal_size(const std::string &s, unsigned prefix)
{
  return std::min(ref::literal(s, prefix, 0, false).size(), ref::literal(s, prefix, 0, true).size());
}

static size_t
least(const ref::header &h)
{
  size_t best = literal_size(h.name, 3) + literal_size(h.value, 7);
  for (size_t i = 0; i < 99; i++) {
    const ref::static_entry &e = ref::static_table[i];
    if (h.name != e.name) {
      continue;
    }
    best = std::min(best, ref::prefix_int(i, 4, 0x50).size() + literal_size(h.value, 7));
    if (h.value == e.value && !h.value.empty()) { // a table of names, then of values: an empty one is spelled out
      best = std::min(best, ref::prefix_int(i, 6, 0xc0).size());
    }
  }
  return best;
}

// Strings near the point where the Huffman code stops paying.
static std::string
balanced(gen &g, size_t max, bool name)
{
  static const std::string shorter = "aceiost01225-bdfghlmnpru"; // 5 and 6 bits
  static const std::string longer = "&*,;XZ!\"()?'+|#>$@[]~^}<`{";  // 8 bits and more
  std::string s;
  size_t n = g.size(max);
  uint64_t share = g.draw(10);
  for (size_t i = 0; i < n; i++) {
    char c = g.chance(share, 10) ? shorter[static_cast<size_t>(g.draw(shorter.size() - 1))]
                                 : longer[static_cast<size_t>(g.draw(longer.size() - 1))];
    s.push_back(name && c >= 'A' && c <= 'Z' ? '~' : c);
  }
  return s;
}

static ref::header
gen_any(gen &g)
{
  const ref::static_entry &a = ref::static_table[g.draw(98)];
  switch (g.pick({ 3, 3, 2, 2, 2 })) {
    case 0:
      return { a.name, a.value };
    case 1:
      return { a.name, g.chance(1, 2) ? balanced(g, 60, false) : std::string(ref::static_table[g.draw(98)].value) };
    case 2:
      return { balanced(g, 40, true), balanced(g, 60, false) };
    case 3: {
      ref::header h{ a.name, a.value };
      std::string &s = g.chance(1, 2) ? h.name : h.value;
      if (s.empty() || g.chance(1, 3)) {
        s.push_back(static_cast<char>(g.range('a', 'z')));
      } else {
        size_t at = static_cast<size_t>(g.draw(s.size() - 1));
        if (g.chance(1, 2)) {
          s.erase(at, 1);
        } else {
          s[at] = static_cast<char>(g.range('a', 'z'));
        }
      }
      return h;
    }
    default:
      return gen_header(g, g.chance(1, 100) ? 70000 : 200);
  }
}

// Returns the number of bytes it took.
static size_t
check(qpack::encoder &e, const ref::header &h, bool first)
{
  size_t want = least(h) + (first ? 2 : 0);
  auto size = e.encoded_size(view(h));
  auto r = e.encode(view(h));
  CHECK(size && r, text(h.name) << ": " << text(h.value) << " is refused");
  if (h.value.empty() && r.value().size() < want) {
    want = r.value().size(); // indexed even so
  }
  CHECK(r.value().size() == want, text(h.name) << ": " << text(h.value) << " is encoded in " << r.value().size() << " bytes as "
                                               << pbt::hex(str(r.value())) << "; it can be done in " << want);
  CHECK(size.value() == want, text(h.name) << ": " << text(h.value) << ": announced " << size.value() << ", want " << want);
  return want;
}

static void
lists(gen &g)
{
  qpack::encoder e;
  headers::encoder frame;
  size_t total = 0;
  size_t sent = 0;
  for (size_t n = 0; g.more(n, 1, 20, 4); n++) {
    ref::header h = gen_any(g);
    g.note("header " + text(h.name) + ": " + text(h.value));
    total += check(e, h, n == 0);
    auto added = frame.add(view(h));
    CHECK(added, text(h.name) << " is refused");
    sent++;
    bool exact = false;
    for (const ref::static_entry &s : ref::static_table) {
      exact = exact || (h.name == s.name && h.value == s.value);
    }
    if (!exact) {
      g.nontrivial();
    }
  }
  CHECK(frame.fin(), "fin() failed");
  size_t bytes = 0;
  for (size_t i = 0;; i++) {
    auto r = frame.encode();
    if (!r) {
      CHECK(r.error() == error::idle && i > 0, "the frame: " << show(r));
      break;
    }
    bytes += r.value().size();
    CHECK(i < 1000, "encode() never becomes idle");
    if (frame.finished()) {
      break;
    }
  }
  size_t want = 1 + ref::varint_size(total) + total;
  CHECK(bytes == want, sent << " headers take a frame of " << bytes << " bytes; it can be done in " << want);
}

static void
static_entries(uint64_t index, gen &)
{
  ref::header h = { ref::static_table[index / 99].name, ref::static_table[index % 99].value };
  qpack::encoder e;
  check(e, h, true);
  check(e, h, false);
}

// Every symbol in numbers around the point where the Huffman code pays.
static void
symbols(uint64_t index, gen &)
{
  char c = static_cast<char>(index / 40);
  size_t n = index % 40;
  qpack::encoder e;
  check(e, { "x", std::string(n, c) }, true);
  check(e, { "x", std::string(n, c) + "aaaa" }, false);
  check(e, { ":path", std::string(n, c) + std::string(n, '0') }, false);
}

PART("lists", lists, 480000, 3000000);
ENUMERATION("every static name with every static value", static_entries, 99 * 99);
ENUMERATION("runs of every symbol", symbols, 256 * 40);
