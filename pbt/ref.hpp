// Reference models, written from the specifications (RFC 7541, RFC 9204, the
// QUIC/HTTP3 drafts bnl implements) and independent of bnl's code.
#pragma once

#include "ref_tables.hpp"

#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace ref {

using bytes = std::string;

static constexpr uint64_t VARINT_MAX = (1ULL << 62) - 1;

inline uint8_t
at(const bytes &s, size_t i)
{
  return static_cast<uint8_t>(s[i]);
}

// --- QUIC variable-length integers ---

inline unsigned
varint_size(uint64_t v)
{
  return v < (1ULL << 6) ? 1 : v < (1ULL << 14) ? 2 : v < (1ULL << 30) ? 4 : 8;
}

inline bytes
varint(uint64_t v, unsigned width = 0)
{
  unsigned w = width == 0 ? varint_size(v) : width;
  bytes s;
  for (unsigned i = 0; i < w; i++) {
    s.push_back(static_cast<char>((v >> (8 * (w - 1 - i))) & 0xff));
  }
  unsigned tag = w == 1 ? 0 : w == 2 ? 1 : w == 4 ? 2 : 3;
  s[0] = static_cast<char>(at(s, 0) | (tag << 6));
  return s;
}

// False when the bytes end first.
inline bool
varint_decode(const bytes &s, size_t &pos, uint64_t &v)
{
  if (pos >= s.size()) {
    return false;
  }
  unsigned w = 1u << (at(s, pos) >> 6);
  if (s.size() - pos < w) {
    return false;
  }
  v = at(s, pos) & 0x3f;
  for (unsigned i = 1; i < w; i++) {
    v = (v << 8) | at(s, pos + i);
  }
  pos += w;
  return true;
}

// --- RFC 7541 5.1 prefix integers ---

inline bytes
prefix_int(uint64_t v, unsigned prefix, uint8_t flags, unsigned padding = 0)
{
  bytes s;
  uint64_t max = (1ULL << prefix) - 1;
  if (v < max) {
    s.push_back(static_cast<char>(flags | v));
    return s;
  }
  s.push_back(static_cast<char>(flags | max));
  v -= max;
  while (v >= 128) {
    s.push_back(static_cast<char>((v & 127) | 128));
    v >>= 7;
  }
  if (padding == 0) {
    s.push_back(static_cast<char>(v));
  } else {
    s.push_back(static_cast<char>(v | 128));
    for (unsigned i = 1; i < padding; i++) {
      s.push_back(static_cast<char>(0x80));
    }
    s.push_back(0);
  }
  return s;
}

enum class status { ok, incomplete, invalid, huge };

// ok: v is the value. huge: the value does not fit 64 bits.
inline status
prefix_int_decode(const bytes &s, size_t &pos, unsigned prefix, uint64_t &v, size_t *length = nullptr)
{
  if (pos >= s.size()) {
    return status::incomplete;
  }
  size_t begin = pos;
  uint64_t max = (1ULL << prefix) - 1;
  unsigned __int128 value = at(s, pos) & max;
  pos++;
  bool huge = false;
  if (value == max) {
    unsigned shift = 0;
    while (true) {
      if (pos >= s.size()) {
        return huge ? status::huge : status::incomplete;
      }
      uint8_t b = at(s, pos++);
      if (shift < 70) {
        value += static_cast<unsigned __int128>(b & 127) << shift;
      } else if ((b & 127) != 0) {
        huge = true;
      }
      shift += 7;
      if (value >> 64 != 0) {
        huge = true;
      }
      if ((b & 128) == 0) {
        break;
      }
    }
  }
  if (length != nullptr) {
    *length = pos - begin;
  }
  v = static_cast<uint64_t>(value);
  return huge ? status::huge : status::ok;
}

// --- RFC 7541 5.2 Huffman ---

inline size_t
huffman_size(const bytes &s)
{
  size_t bits = 0;
  for (char c : s) {
    bits += huffman_table[static_cast<uint8_t>(c)].bits;
  }
  return (bits + 7) / 8;
}

inline bytes
huffman(const bytes &s)
{
  bytes r;
  uint64_t acc = 0;
  unsigned n = 0;
  for (char c : s) {
    const huff_code &h = huffman_table[static_cast<uint8_t>(c)];
    acc = (acc << h.bits) | h.code;
    n += h.bits;
    while (n >= 8) {
      r.push_back(static_cast<char>((acc >> (n - 8)) & 0xff));
      n -= 8;
      acc &= (1ULL << n) - 1;
    }
  }
  if (n > 0) {
    acc = (acc << (8 - n)) | ((1u << (8 - n)) - 1);
    r.push_back(static_cast<char>(acc));
  }
  return r;
}

inline bool
unhuffman(const bytes &s, bytes &out)
{
  static std::map<std::pair<unsigned, uint32_t>, int> codes;
  if (codes.empty()) {
    for (int i = 0; i < 257; i++) {
      codes[{ huffman_table[i].bits, huffman_table[i].code }] = i;
    }
  }
  out.clear();
  uint32_t acc = 0;
  unsigned n = 0;
  for (char c : s) {
    for (int bit = 7; bit >= 0; bit--) {
      acc = (acc << 1) | ((static_cast<uint8_t>(c) >> bit) & 1);
      n++;
      if (n >= 5) {
        auto it = codes.find({ n, acc });
        if (it != codes.end()) {
          if (it->second == 256) {
            return false; // EOS in the string
          }
          out.push_back(static_cast<char>(it->second));
          acc = 0;
          n = 0;
        }
      }
    }
  }
  // The padding: fewer than 8 bits, all ones.
  return n < 8 && acc == (1u << n) - 1;
}

// --- RFC 7541 5.2 string literals; `prefix` is the size of the length prefix,
// the H bit sits right above it ---

inline bytes
literal(const bytes &s, unsigned prefix, uint8_t flags, bool huff, unsigned padding = 0)
{
  bytes body = huff ? huffman(s) : s;
  return prefix_int(body.size(), prefix, static_cast<uint8_t>(flags | (huff ? 1u << prefix : 0)), padding) + body;
}

inline status
literal_decode(const bytes &s, size_t &pos, unsigned prefix, bytes &out)
{
  if (pos >= s.size()) {
    return status::incomplete;
  }
  bool huff = (at(s, pos) >> prefix) & 1;
  uint64_t n = 0;
  status st = prefix_int_decode(s, pos, prefix, n);
  if (st != status::ok) {
    return st;
  }
  if (n > s.size() - pos) {
    return status::incomplete;
  }
  bytes body = s.substr(pos, static_cast<size_t>(n));
  pos += static_cast<size_t>(n);
  if (huff) {
    return unhuffman(body, out) ? status::ok : status::invalid;
  }
  out = body;
  return status::ok;
}

// --- header lists and QPACK with the static table only ---

struct header {
  bytes name;
  bytes value;
  bool operator==(const header &o) const { return name == o.name && value == o.value; }
  bool operator!=(const header &o) const { return !(*this == o); }
};

using headers = std::vector<header>;

inline bool
has_uppercase(const bytes &s)
{
  for (char c : s) {
    if (c >= 'A' && c <= 'Z') {
      return true;
    }
  }
  return false;
}

// Decodes one field line at `pos`.
inline status
qpack_line(const bytes &s, size_t &pos, header &h)
{
  if (pos >= s.size()) {
    return status::incomplete;
  }
  uint8_t b = at(s, pos);
  uint64_t index = 0;
  if (b & 0x80) {
    if (!(b & 0x40)) {
      return status::invalid;
    }
    status st = prefix_int_decode(s, pos, 6, index);
    if (st != status::ok) {
      return st == status::huge ? status::invalid : st;
    }
    if (index >= 99) {
      return status::invalid;
    }
    h = { static_table[index].name, static_table[index].value };
    return status::ok;
  }
  if (b & 0x40) {
    if (!(b & 0x10)) {
      return status::invalid;
    }
    status st = prefix_int_decode(s, pos, 4, index);
    if (st != status::ok) {
      return st == status::huge ? status::invalid : st;
    }
    if (index >= 99) {
      return status::invalid;
    }
    h.name = static_table[index].name;
    st = literal_decode(s, pos, 7, h.value);
    return st == status::huge ? status::invalid : st;
  }
  if (b & 0x20) {
    status st = literal_decode(s, pos, 3, h.name);
    if (st != status::ok) {
      return st == status::huge ? status::invalid : st;
    }
    st = literal_decode(s, pos, 7, h.value);
    return st == status::huge ? status::invalid : st;
  }
  return status::invalid; // post-base forms: there is no dynamic table
}

// Decodes a whole field section (prefix included). ok: all bytes were used.
inline status
qpack_section(const bytes &s, headers &out)
{
  size_t pos = 0;
  uint64_t ric = 0;
  uint64_t base = 0;
  status st = prefix_int_decode(s, pos, 8, ric);
  if (st != status::ok || ric != 0) {
    return st == status::ok ? status::invalid : st;
  }
  st = prefix_int_decode(s, pos, 7, base);
  if (st != status::ok) {
    return st;
  }
  while (pos < s.size()) {
    header h;
    st = qpack_line(s, pos, h);
    if (st != status::ok) {
      return st;
    }
    out.push_back(h);
  }
  return status::ok;
}

// --- HTTP/3 frames (draft-19/20) ---

enum : uint64_t {
  F_DATA = 0,
  F_HEADERS = 1,
  F_PRIORITY = 2,
  F_CANCEL_PUSH = 3,
  F_SETTINGS = 4,
  F_PUSH_PROMISE = 5,
  F_GOAWAY = 7,
  F_MAX_PUSH_ID = 0xd,
  F_DUPLICATE_PUSH = 0xe
};

inline bool
known_frame(uint64_t type)
{
  switch (type) {
    case F_DATA:
    case F_HEADERS:
    case F_PRIORITY:
    case F_CANCEL_PUSH:
    case F_SETTINGS:
    case F_PUSH_PROMISE:
    case F_GOAWAY:
    case F_MAX_PUSH_ID:
    case F_DUPLICATE_PUSH:
      return true;
    default:
      return false;
  }
}

struct frame {
  uint64_t type = 0;
  uint64_t size = 0; // DATA, HEADERS, PUSH_PROMISE: what follows the frame head
  uint64_t id = 0;   // push / stream id
  // PRIORITY
  unsigned prioritized_type = 0;
  unsigned dependency_type = 0;
  uint64_t prioritized_id = 0;
  uint64_t dependency_id = 0;
  unsigned weight = 0;
  // SETTINGS
  uint64_t max_header_list_size = VARINT_MAX;
  uint64_t num_placeholders = 0;
  uint64_t qpack_max_table_capacity = 0;
  uint64_t qpack_blocked_streams = 0;

  bool operator==(const frame &o) const
  {
    return type == o.type && size == o.size && id == o.id && prioritized_type == o.prioritized_type &&
           dependency_type == o.dependency_type && prioritized_id == o.prioritized_id &&
           dependency_id == o.dependency_id && weight == o.weight && max_header_list_size == o.max_header_list_size &&
           num_placeholders == o.num_placeholders && qpack_max_table_capacity == o.qpack_max_table_capacity &&
           qpack_blocked_streams == o.qpack_blocked_streams;
  }
};

// The frame head and, except for DATA / HEADERS / the header block of
// PUSH_PROMISE, its payload.
inline bytes
frame_payload(const frame &f)
{
  bytes p;
  switch (f.type) {
    case F_PRIORITY:
      p.push_back(static_cast<char>(f.prioritized_type << 6 | f.dependency_type << 4));
      p += varint(f.prioritized_id) + varint(f.dependency_id);
      p.push_back(static_cast<char>(f.weight));
      break;
    case F_SETTINGS:
      p += varint(6) + varint(f.max_header_list_size);
      if (f.num_placeholders != 0) {
        p += varint(9) + varint(f.num_placeholders);
      }
      p += varint(1) + varint(f.qpack_max_table_capacity) + varint(7) + varint(f.qpack_blocked_streams);
      break;
    case F_CANCEL_PUSH:
    case F_GOAWAY:
    case F_MAX_PUSH_ID:
    case F_DUPLICATE_PUSH:
    case F_PUSH_PROMISE:
      p += varint(f.id);
      break;
    default:
      break;
  }
  return p;
}

inline bytes
frame_head(const frame &f)
{
  bytes p = frame_payload(f);
  return varint(f.type) + varint(p.size() + f.size) + p;
}

struct decoded {
  // incomplete_or_malformed: the fields run past both the declared length and
  // the available bytes, so either answer is legitimate.
  enum kind { frame_ok, incomplete, malformed, incomplete_or_malformed, frame_or_malformed } what = incomplete;
  ref::frame frame;
  size_t end = 0;             // bytes used, with frame_ok
  std::vector<size_t> skips;  // offsets at which complete unknown frames end
  bool duplicate_settings = false;
};

// Decodes the first known frame at the start of `s`.
inline decoded
decode_frame(const bytes &s)
{
  decoded d;
  size_t pos = 0;
  while (true) {
    uint64_t type = 0;
    uint64_t length = 0;
    if (!varint_decode(s, pos, type) || !varint_decode(s, pos, length)) {
      d.what = decoded::incomplete;
      return d;
    }
    if (!known_frame(type)) {
      if (length > s.size() - pos) {
        d.what = decoded::incomplete;
        return d;
      }
      pos += static_cast<size_t>(length);
      d.skips.push_back(pos);
      continue;
    }
    frame &f = d.frame;
    f.type = type;
    if (type == F_DATA || type == F_HEADERS) {
      f.size = length;
      d.end = pos;
      d.what = decoded::frame_ok;
      return d;
    }
    size_t begin = pos;
    bool whole = length <= s.size() - pos; // the whole payload is here
    bool ran_out = false;
    auto field = [&](uint64_t &v) {
      if (!ran_out && !varint_decode(s, pos, v)) {
        ran_out = true;
      }
    };
    auto byte = [&](unsigned &v) {
      if (ran_out || pos >= s.size()) {
        ran_out = true;
        return;
      }
      v = at(s, pos++);
    };
    if (type == F_PRIORITY) {
      unsigned b = 0;
      byte(b);
      f.prioritized_type = b >> 6;
      f.dependency_type = (b >> 4) & 3;
      field(f.prioritized_id);
      field(f.dependency_id);
      byte(f.weight);
    } else if (type == F_SETTINGS) {
      std::map<uint64_t, int> seen;
      while (!ran_out && pos - begin < length) {
        uint64_t id = 0;
        uint64_t value = 0;
        field(id);
        field(value);
        if (ran_out) {
          break;
        }
        if (seen[id]++ > 0) {
          d.duplicate_settings = true;
        }
        switch (id) {
          case 6:
            f.max_header_list_size = value;
            break;
          case 9:
            f.num_placeholders = value;
            break;
          case 1:
            f.qpack_max_table_capacity = value;
            break;
          case 7:
            f.qpack_blocked_streams = value;
            break;
          default:
            break;
        }
      }
    } else {
      field(f.id);
    }
    if (ran_out) {
      // Fields run past the available bytes.
      d.what = whole ? decoded::incomplete_or_malformed : decoded::incomplete;
      // With the payload not whole, fields that already overran it are wrong
      // whatever comes next; both answers are fine.
      return d;
    }
    uint64_t used = pos - begin;
    if (type == F_PUSH_PROMISE) {
      if (used > length) {
        d.what = decoded::malformed;
        return d;
      }
      f.size = length - used;
    } else if (used != length) {
      d.what = whole || used > length ? decoded::malformed : decoded::incomplete_or_malformed;
      return d;
    }
    d.end = pos;
    d.what = d.duplicate_settings ? decoded::frame_or_malformed : decoded::frame_ok;
    return d;
  }
}

} // namespace ref
