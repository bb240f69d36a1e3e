#pragma once

// Strings whose XXH64 (seed 0) equals that of a given string: XXH64 is a
// bijection on 8-byte inputs, so preimages are computed, not searched for.
#include "ref.hpp"

namespace collide {

static const uint64_t P1 = 11400714785074694791ULL;
static const uint64_t P2 = 14029467366897019727ULL;
static const uint64_t P3 = 1609587929392839161ULL;
static const uint64_t P4 = 9650029242287828579ULL;
static const uint64_t P5 = 2870177450012600261ULL;

inline uint64_t
rotl(uint64_t x, unsigned r)
{
  return (x << r) | (x >> (64 - r));
}

inline uint64_t
inverse(uint64_t a)
{
  uint64_t x = a;
  for (int i = 0; i < 6; i++) {
    x *= 2 - a * x;
  }
  return x;
}

inline uint64_t
unshift(uint64_t h, unsigned r)
{
  uint64_t x = h;
  for (unsigned i = r; i < 64; i += r) {
    x = h ^ (x >> r);
  }
  return x;
}

inline uint64_t
lane(uint64_t input)
{
  return rotl(input * P2, 31) * P1;
}

inline uint64_t
read(const char *p, unsigned n)
{
  uint64_t v = 0;
  for (unsigned i = 0; i < n; i++) {
    v |= static_cast<uint64_t>(static_cast<uint8_t>(p[i])) << (8 * i);
  }
  return v;
}

inline uint64_t
xxh64(const std::string &s)
{
  const char *p = s.data();
  size_t n = s.size();
  uint64_t h;
  if (n >= 32) {
    uint64_t v[4] = { P1 + P2, P2, 0, 0 - P1 };
    while (static_cast<size_t>(p - s.data()) + 32 <= n) {
      for (int i = 0; i < 4; i++, p += 8) {
        v[i] = rotl(v[i] + read(p, 8) * P2, 31) * P1;
      }
    }
    h = rotl(v[0], 1) + rotl(v[1], 7) + rotl(v[2], 12) + rotl(v[3], 18);
    for (int i = 0; i < 4; i++) {
      h = (h ^ lane(v[i])) * P1 + P4;
    }
  } else {
    h = P5;
  }
  h += n;
  const char *end = s.data() + n;
  while (p + 8 <= end) {
    h = rotl(h ^ lane(read(p, 8)), 27) * P1 + P4;
    p += 8;
  }
  if (p + 4 <= end) {
    h = rotl(h ^ (read(p, 4) * P1), 23) * P2 + P3;
    p += 4;
  }
  while (p < end) {
    h = rotl(h ^ (static_cast<uint8_t>(*p++) * P5), 11) * P1;
  }
  h ^= h >> 33;
  h *= P2;
  h ^= h >> 29;
  h *= P3;
  h ^= h >> 32;
  return h;
}

// `prefix` (a multiple of 8 bytes, below 24) followed by the 8 bytes that make
// the whole hash to `target`.
inline std::string
preimage(const std::string &prefix, uint64_t target)
{
  uint64_t h = unshift(target, 32) * inverse(P3);
  h = unshift(h, 29) * inverse(P2);
  h = unshift(h, 33);
  h = (h - P4) * inverse(P1);
  h = (h >> 27) | (h << 37);
  uint64_t before = P5 + prefix.size() + 8;
  for (size_t i = 0; i < prefix.size(); i += 8) {
    before = rotl(before ^ lane(read(prefix.data() + i, 8)), 27) * P1 + P4;
  }
  uint64_t k = (h ^ before) * inverse(P1);
  k = (k >> 31) | (k << 33);
  k *= inverse(P2);
  std::string s = prefix;
  for (int i = 0; i < 8; i++) {
    s.push_back(static_cast<char>(k >> (8 * i)));
  }
  return s;
}

// A different, printable string with the hash of `original`.
inline std::string
printable(const std::string &original, uint64_t salt)
{
  static const char chars[] = "abcdefghijklmnopqrstuvwxyz0123456789-_";
  uint64_t target = xxh64(original);
  for (uint64_t i = 0; i < 4000000; i++) {
    uint64_t r = salt * 4000000 + i;
    std::string prefix;
    for (int k = 0; k < 8; k++) {
      prefix.push_back(chars[r % 38]);
      r /= 38;
    }
    std::string s = preimage(prefix, target);
    bool fine = s != original;
    for (char c : s) {
      fine = fine && c > 0x20 && c < 0x7f && !(c >= 'A' && c <= 'Z');
    }
    if (fine) {
      return s;
    }
  }
  return preimage("", target);
}

} // namespace collide
