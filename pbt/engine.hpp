// A small property-based testing engine.
//
// Every case is a pure function of a *choice sequence*: a vector of integers
// that the generators draw one after another. In a search run the choices come
// from a PRNG seeded by (VERIF_SEED, property, part, case index); in a replay
// they come from a file; under libFuzzer they come from the input bytes.
// Shrinking works on the choice sequence, so every generator shrinks for free
// (0 is always the simplest choice).
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};

struct discard : std::exception {};

[[noreturn]] inline void
fail(const std::string &message)
{
  throw failure(message);
}

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)

// CHECK(cond, streamed message)
#define CHECK(cond, msg)                                                       \
  do {                                                                         \
    if (!(cond)) {                                                             \
      std::ostringstream pbt_os_;                                              \
      pbt_os_ << __FILE__ << ":" << __LINE__ << ": " << #cond << ": " << msg;  \
      ::pbt::fail(pbt_os_.str());                                              \
    }                                                                          \
  } while (0)

struct rng {
  uint64_t s;
  explicit rng(uint64_t seed = 0)
    : s(seed)
  {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  // Uniform in [0, max].
  uint64_t upto(uint64_t max)
  {
    return max == UINT64_MAX ? next() : next() % (max + 1);
  }
};

// Constants the code under test compared its data with (harvested through
// -fsanitize-coverage=trace-cmp). Used to bias integer draws.
const std::vector<uint64_t> &
magic();

class gen {
public:
  enum class mode { random, replay, bytes };

  explicit gen(uint64_t seed)
    : mode_(mode::random)
    , rng_(seed)
  {
    choices_.reserve(64);
    magic();
  }
  explicit gen(std::vector<uint64_t> choices)
    : mode_(mode::replay)
    , rng_(0)
    , input_(std::move(choices))
  {}
  gen(const uint8_t *data, size_t size)
    : mode_(mode::bytes)
    , rng_(0)
    , bytes_(data)
    , bytes_size_(size)
  {}

  // Uniform draw in [0, max]; 0 is the simplest.
  uint64_t draw(uint64_t max)
  {
    return biased(max, [max](rng &r) { return r.upto(max); }, true);
  }

  // A draw whose distribution (in random mode) is given by `f`.
  template<typename F>
  uint64_t biased(uint64_t max, F f, bool uniform = false)
  {
    uint64_t v = 0;
    switch (mode_) {
      case mode::random:
        v = f(rng_);
        if (v > max) {
          v = max == UINT64_MAX ? v : v % (max + 1);
        }
        break;
      case mode::replay:
        v = pos_ < input_.size() ? input_[pos_] : 0;
        pos_++;
        if (v > max) {
          v = max;
        }
        break;
      case mode::bytes: {
        unsigned n = max < 0x100 ? 1 : max < 0x10000 ? 2 : max < (1ULL << 32) ? 4 : 8;
        for (unsigned i = 0; i < n; i++) {
          v = (v << 8) | (pos_ < bytes_size_ ? bytes_[pos_] : 0);
          pos_++;
        }
        // Uniform draws take the bytes as they are, so that the fuzzer can aim;
        // the others keep their distribution. Without input: 0.
        if (!uniform && v != 0) {
          rng r(v);
          v = f(r);
        }
        if (v > max) {
          v = max == UINT64_MAX ? v : v % (max + 1);
        }
        break;
      }
    }
    if (choices_.size() < 4000000) {
      choices_.push_back(v);
    }
    return v;
  }

  // Uniform in [lo, hi].
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }

  // In [lo, hi], biased to small values, the ends, powers of two and their
  // neighbours, and constants the code compares against.
  uint64_t integer(uint64_t lo, uint64_t hi);

  // True with probability num/den; shrinks to false.
  bool chance(unsigned num, unsigned den)
  {
    return biased(1, [=](rng &r) { return r.upto(den - 1) < num ? 1u : 0u; }) != 0;
  }

  // Index weighted by `weights`.
  size_t pick(std::initializer_list<unsigned> weights);

  template<typename T>
  const T &of(const std::vector<T> &v)
  {
    return v[draw(v.size() - 1)];
  }

  // List idiom: for (size_t n = 0; g.more(n, min, max, average); n++) { ... }
  bool more(size_t n, size_t min, size_t max, double average)
  {
    if (n < min) {
      return true;
    }
    if (n >= max) {
      return false;
    }
    double p = 1.0 - 1.0 / (1.0 + average - static_cast<double>(min) + 1e-9);
    uint64_t threshold = static_cast<uint64_t>(p * 65536.0);
    return biased(1, [=](rng &r) { return r.upto(65535) < threshold ? 1u : 0u; }) != 0;
  }

  // A size in [0, max]: mostly small, sometimes at or around a boundary.
  size_t size(size_t max);

  // `n` bytes; short strings are drawn byte by byte, long ones from a seed.
  std::string bytes(size_t n);

  // Splits `n` in segments (each >= 0; zero-length ones are possible).
  std::vector<size_t> segments(size_t n);

  // --- bookkeeping ---

  void nontrivial() { nontrivial_ = true; }
  void label(const std::string &name, uint64_t n = 1) { labels_[name] += n; }
  void note(const std::string &text)
  {
    if (verbose && notes_.size() < 20000) {
      notes_ += text;
      notes_ += '\n';
      if (notes_file != nullptr) {
        fprintf(notes_file, "%s\n", text.c_str());
        fflush(notes_file);
      }
    }
  }
  bool verbose = false;
  FILE *notes_file = nullptr; // so that they survive a crash

  const std::vector<uint64_t> &choices() const { return choices_; }
  const std::map<std::string, uint64_t> &labels() const { return labels_; }
  const std::string &notes() const { return notes_; }
  bool is_nontrivial() const { return nontrivial_; }
  bool exhausted() const
  {
    return mode_ == mode::bytes && pos_ >= bytes_size_;
  }

private:
  mode mode_;
  rng rng_;
  std::vector<uint64_t> input_;
  const uint8_t *bytes_ = nullptr;
  size_t bytes_size_ = 0;
  size_t pos_ = 0;

  std::vector<uint64_t> choices_;
  std::map<std::string, uint64_t> labels_;
  std::string notes_;
  bool nontrivial_ = false;
};

using part_fn = void (*)(gen &);
using enum_fn = void (*)(uint64_t index, gen &);

struct part {
  std::string name;
  part_fn fn;
  uint64_t quick;    // cases on the quick tier
  uint64_t thorough; // cases on the thorough tier
};

struct enumeration {
  std::string name;
  enum_fn fn;
  uint64_t count;
};

struct property {
  std::string id;
  std::string rule; // how cases are made, what is non-trivial
  std::vector<part> parts;
  std::vector<enumeration> enumerations;
};

property &
the_property();

struct registrar {
  registrar(const char *id, const char *rule)
  {
    the_property().id = id;
    the_property().rule = rule;
  }
  registrar(const char *name, part_fn fn, uint64_t quick, uint64_t thorough)
  {
    the_property().parts.push_back({ name, fn, quick, thorough });
  }
  registrar(const char *name, enum_fn fn, uint64_t count)
  {
    the_property().enumerations.push_back({ name, fn, count });
  }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(id, rule)                                                     \
  static ::pbt::registrar PBT_CAT(pbt_reg_, __LINE__)(id, rule)
#define PART(name, fn, quick, thorough)                                        \
  static ::pbt::registrar PBT_CAT(pbt_reg_, __LINE__)(name, fn, quick, thorough)
#define ENUMERATION(name, fn, count)                                           \
  static ::pbt::registrar PBT_CAT(pbt_reg_, __LINE__)(name, fn, count)

// Number of live heap blocks (through the sanitizer's allocator hooks).
int64_t
live_blocks();

// Bytes in live heap blocks, and the most there were since the last reset.
int64_t
live_bytes();
int64_t
peak_bytes(bool reset);

std::string
hex(const std::string &bytes, size_t max = 64);

std::string
hex(const void *data, size_t size, size_t max = 64);

} // namespace pbt
