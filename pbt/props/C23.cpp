// C23: error codes survive conversion to the standard error type.
#include "util.hpp"

#include <bnl/base/system_error.hpp>

#include <algorithm>
#include <system_error>

PROPERTY("C23",
         "every pair of the 30 error values of the two layers is converted (explicitly, implicitly, through copies and as an exception) "
         "and compared (enumerated); generated sequences of conversions, assignments and comparisons of up to 40 codes against "
         "a model that only knows layer and enumerator; non-trivial: two different values were involved");

namespace http3 = bnl::http3;
namespace quic = bnl::quic;

struct value {
  int layer; // 0: HTTP/3, 1: QUIC
  uint64_t raw;
  const char *name;
};

#define H(x) { 0, static_cast<uint64_t>(http3::error::x), #x }
#define Q(x) { 1, static_cast<uint64_t>(quic::error::x), #x }

static const std::vector<value> VALUES = {
  H(no_error),       H(internal),        H(wrong_stream),     H(closed_critical_stream),     H(missing_settings),
  H(unexpected_frame), H(malformed_frame), H(qpack_decompression_failed), H(incomplete),     H(idle),
  H(delegate),       H(not_implemented), H(varint_overflow),  H(malformed_header),           H(stream_closed),
  H(invalid_handle), Q(no_error),        Q(internal),         Q(incomplete),                 Q(idle),
  Q(delegate),       Q(finished),        Q(not_implemented),  Q(handshake),                  Q(crypto),
  Q(ngtcp2),         Q(path_validation), Q(stream_not_found), Q(stream_id_blocked),          Q(stream_data_blocked)
};

static std::error_code
explicitly(const value &v)
{
  return v.layer == 0 ? http3::make_error_code(static_cast<http3::error>(v.raw))
                      : quic::make_error_code(static_cast<quic::error>(v.raw));
}

static std::error_code
implicitly(const value &v)
{
  if (v.layer == 0) {
    return static_cast<http3::error>(v.raw);
  }
  return static_cast<quic::error>(v.raw);
}

static bool
equals(const std::error_code &c, const value &v)
{
  return v.layer == 0 ? c == static_cast<http3::error>(v.raw) : c == static_cast<quic::error>(v.raw);
}

static std::string
letters(std::string s)
{
  std::string r;
  for (char c : s) {
    if (c >= 'A' && c <= 'Z') {
      c = static_cast<char>(c + 32);
    }
    if ((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9')) {
      r += c;
    }
  }
  return r;
}

static std::string
label(const value &v)
{
  return std::string(v.layer == 0 ? "http3::" : "quic::") + v.name;
}

static void
single(const value &v, const std::error_code &c)
{
  CHECK(bool(c) == (v.raw != 0), label(v) << " converts to " << (c ? "an error" : "success"));
  CHECK(letters(c.message()).find(letters(v.name)) != std::string::npos, label(v) << " has the message " << c.message());
  const std::error_category &own = v.layer == 0 ? http3::error_category() : quic::error_category();
  CHECK(c.category() == own, label(v) << " has the category " << c.category().name());
  std::string category = letters(c.category().name());
  CHECK(category.find(v.layer == 0 ? "http3" : "quic") != std::string::npos &&
          category.find(v.layer == 0 ? "quic" : "http3") == std::string::npos,
        label(v) << " has a category called " << c.category().name());
  CHECK(equals(c, v), label(v) << " is not equal to its own code");
}

static void
pairs(uint64_t index, gen &g)
{
  const value &a = VALUES[index / VALUES.size()];
  const value &b = VALUES[index % VALUES.size()];
  bool same = index / VALUES.size() == index % VALUES.size();
  g.note(label(a) + " and " + label(b));
  std::error_code x = explicitly(a);
  std::error_code y = implicitly(b);
  single(a, x);
  single(b, y);
  CHECK((x == y) == same, label(a) << " and " << label(b) << (same ? " differ" : " give the same code"));
  CHECK((x != y) == !same, label(a) << " and " << label(b) << ": != ");
  CHECK(equals(x, b) == same, label(a) << " compares equal to " << label(b));
  CHECK((x.default_error_condition() == y.default_error_condition()) == same, label(a) << " and " << label(b) << ": conditions");
  CHECK((x.message() == y.message()) == (std::string(a.name) == b.name), label(a) << " and " << label(b) << ": messages");
  if (!same) {
    g.nontrivial();
  }
}

static void
sequences(gen &g)
{
  struct item {
    std::error_code code;
    const value *v; // nullptr: a default code
  };
  std::vector<item> items;
  for (size_t n = 0; g.more(n, 2, 40, 10); n++) {
    const value &v = g.of(VALUES);
    size_t i = items.empty() ? 0 : static_cast<size_t>(g.draw(items.size() - 1));
    switch (g.pick({ 3, 3, 2, 2, 1 })) {
      case 0:
        items.push_back({ explicitly(v), &v });
        break;
      case 1:
        items.push_back({ implicitly(v), &v });
        break;
      case 2:
        if (!items.empty()) {
          item copy = items[i];
          items.push_back(copy);
        }
        break;
      case 3: // overwritten
        if (!items.empty()) {
          if (v.layer == 0) {
            items[i].code = static_cast<http3::error>(v.raw);
          } else {
            items[i].code = static_cast<quic::error>(v.raw);
          }
          items[i].v = &v;
        }
        break;
      default:
        if (!items.empty()) { // there and back
          try {
            throw std::system_error(items[i].code);
          } catch (const std::system_error &e) {
            items[i].code = e.code();
          }
        }
        break;
    }
    if (items.empty()) {
      continue;
    }
    const item &a = items[static_cast<size_t>(g.draw(items.size() - 1))];
    const item &b = items[static_cast<size_t>(g.draw(items.size() - 1))];
    g.note(label(*a.v) + " against " + label(*b.v));
    single(*a.v, a.code);
    CHECK((a.code == b.code) == (a.v == b.v), label(*a.v) << " and " << label(*b.v) << (a.v == b.v ? " differ" : " are the same"));
    CHECK(equals(a.code, *b.v) == (a.v == b.v), label(*a.v) << " and " << label(*b.v));
    if (a.v != b.v) {
      g.nontrivial();
    }
  }
}

ENUMERATION("every pair of errors", pairs, 900);
PART("sequences of conversions", sequences, 160000, 480000);
