#pragma once

#include "engine.hpp"
#include "ref.hpp"

#include <bnl/base/buffer.hpp>
#include <bnl/base/buffers.hpp>
#include <bnl/http3/header.hpp>
#include <bnl/http3/result.hpp>

#include <memory>
#include <ostream>

using pbt::gen;

inline const char *
name(bnl::http3::error e)
{
  using bnl::http3::error;
  switch (e) {
    case error::no_error: return "no_error";
    case error::internal: return "internal";
    case error::wrong_stream: return "wrong_stream";
    case error::closed_critical_stream: return "closed_critical_stream";
    case error::missing_settings: return "missing_settings";
    case error::unexpected_frame: return "unexpected_frame";
    case error::malformed_frame: return "malformed_frame";
    case error::qpack_decompression_failed: return "qpack_decompression_failed";
    case error::incomplete: return "incomplete";
    case error::idle: return "idle";
    case error::delegate: return "delegate";
    case error::not_implemented: return "not_implemented";
    case error::varint_overflow: return "varint_overflow";
    case error::malformed_header: return "malformed_header";
    case error::stream_closed: return "stream_closed";
    case error::invalid_handle: return "invalid_handle";
  }
  return "(not an enumerator)";
}

template<typename R>
std::string
show(const R &r)
{
  return r ? std::string("success") : std::string("error ") + name(r.error());
}

inline bnl::base::buffer
to_buffer(const std::string &s)
{
  return { s.data(), s.size() };
}

inline std::string
str(const bnl::base::buffer &b)
{
  return b.size() == 0 ? std::string() : std::string(reinterpret_cast<const char *>(b.data()), b.size());
}

inline std::string
str(bnl::base::string_view v)
{
  return v.size() == 0 ? std::string() : std::string(v.data(), v.size());
}

template<typename Sequence>
std::string
rest(const Sequence &s)
{
  std::string r;
  size_t n = s.size();
  r.reserve(n);
  for (size_t i = 0; i < n; i++) {
    r.push_back(static_cast<char>(s[i]));
  }
  return r;
}

inline std::string
rest(const bnl::base::buffer &b)
{
  return str(b);
}

inline ref::header
to_ref(const bnl::http3::header &h)
{
  return { str(h.name()), str(h.value()) };
}

inline std::string
show(const ref::headers &hs)
{
  std::string s = "[";
  for (const ref::header &h : hs) {
    s += " " + pbt::hex(h.name, 24) + "=" + pbt::hex(h.value, 24);
  }
  return s + " ]";
}

inline std::string
text(const std::string &s, size_t max = 40)
{
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') {
      r += static_cast<char>(c);
    } else {
      r += "\\x" + pbt::hex(std::string(1, static_cast<char>(c)));
    }
  }
  r += "\"";
  if (s.size() > max) {
    r += "...(" + std::to_string(s.size()) + ")";
  }
  return r;
}

// A buffer with the given bytes, reached in one of several ways: fresh,
// through a consumed prefix, or as a slice of a larger block.
inline bnl::base::buffer
gen_buffer(gen &g, const std::string &s)
{
  switch (g.pick({ 4, 1, 1 })) {
    case 0:
      return to_buffer(s);
    case 1: {
      size_t k = static_cast<size_t>(g.range(1, 30));
      bnl::base::buffer b = to_buffer(std::string(k, '\x5a') + s);
      b.consume(k);
      return b;
    }
    default: {
      size_t k = static_cast<size_t>(g.range(1, 30));
      bnl::base::buffer b = to_buffer(s + std::string(k, '\xa5'));
      return b.slice(s.size());
    }
  }
}

// A rope with the given bytes, split in generated segments.
inline bnl::base::buffers
gen_rope(gen &g, const std::string &s)
{
  bnl::base::buffers r;
  size_t at = 0;
  for (size_t n : g.segments(s.size())) {
    if (g.chance(1, 16)) {
      r.push(bnl::base::buffer());
    }
    r.push(s.size() <= 4096 ? gen_buffer(g, s.substr(at, n)) : to_buffer(s.substr(at, n)));
    at += n;
  }
  return r;
}

// Calls f(sequence, kind) with one of the four kinds of sequences bnl's
// decoders accept, holding `s`. A lookahead may start inside its buffer.
template<typename F>
void
with_sequence(gen &g, const std::string &s, F f)
{
  size_t kind = g.pick({ 3, 3, 2, 2 });
  switch (kind) {
    case 0: {
      bnl::base::buffer b = gen_buffer(g, s);
      f(b, "buffer");
      break;
    }
    case 1: {
      bnl::base::buffers b = gen_rope(g, s);
      f(b, "buffers");
      break;
    }
    case 2: {
      std::string lead = g.bytes(static_cast<size_t>(g.draw(4)));
      bnl::base::buffer b = gen_buffer(g, lead + s);
      bnl::base::buffer::lookahead first(b);
      first.consume(lead.size());
      if (g.chance(1, 2)) {
        bnl::base::buffer::lookahead second(first);
        f(second, "buffer::lookahead copy");
      } else {
        f(first, "buffer::lookahead");
      }
      CHECK(str(b) == lead + s, "a lookahead changed its buffer");
      break;
    }
    default: {
      std::string lead = g.bytes(static_cast<size_t>(g.draw(4)));
      bnl::base::buffers b = gen_rope(g, lead + s);
      bnl::base::buffers::lookahead first(b);
      first.consume(lead.size());
      if (g.chance(1, 2)) {
        bnl::base::buffers::lookahead second(first);
        f(second, "buffers::lookahead copy");
      } else {
        f(first, "buffers::lookahead");
      }
      CHECK(rest(b) == lead + s, "a lookahead changed its buffers");
      break;
    }
  }
}

// --- generators for header lists ---

inline std::string
gen_token(gen &g, size_t max, bool lower)
{
  static const std::string chars_lower = "abcdefghijklmnopqrstuvwxyz0123456789-_.!#$%&'*+^`|~";
  static const std::string chars_value =
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_.,;:/=?&%\"'()<>@[]{}!#$*+^`|~\\\t";
  size_t n = g.size(max);
  std::string s;
  const std::string &chars = lower ? chars_lower : chars_value;
  if (n <= 24) {
    for (size_t i = 0; i < n; i++) {
      s.push_back(chars[g.draw(chars.size() - 1)]);
    }
  } else {
    pbt::rng r(g.draw(0xffffffff) * 31 + 7);
    uint64_t style = g.draw(2);
    for (size_t i = 0; i < n; i++) {
      s.push_back(style == 0 ? chars[i % 36] : style == 1 ? chars[r.upto(chars.size() - 1)] : chars[r.upto(7)]);
    }
  }
  return s;
}

inline std::string
without_uppercase(std::string s)
{
  for (char &c : s) {
    if (c >= 'A' && c <= 'Z') {
      c = static_cast<char>(c + 32);
    }
  }
  return s;
}

// Any name and value bnl accepts: names without ASCII uppercase, any bytes.
inline ref::header
gen_header(gen &g, size_t max_value)
{
  ref::header h;
  switch (g.pick({ 4, 3, 3, 2, 2, 2 })) {
    case 0: { // a static table entry
      const ref::static_entry &e = ref::static_table[g.draw(98)];
      h = { e.name, e.value };
      break;
    }
    case 1: { // a static name with another value
      h.name = ref::static_table[g.draw(98)].name;
      h.value = gen_token(g, max_value, false);
      break;
    }
    case 2:
      h = { gen_token(g, 64, true), gen_token(g, max_value, false) };
      break;
    case 3: { // any bytes
      h.name = without_uppercase(g.bytes(g.size(40)));
      h.value = g.bytes(g.size(max_value));
      break;
    }
    case 4: { // a near miss of a static entry
      const ref::static_entry &e = ref::static_table[g.draw(98)];
      h = { e.name, e.value };
      std::string &target = g.chance(1, 2) ? h.name : h.value;
      switch (g.draw(3)) {
        case 0:
          if (!target.empty()) {
            target.pop_back();
          }
          break;
        case 1:
          target.push_back('x');
          break;
        case 2:
          if (!target.empty()) {
            size_t i = static_cast<size_t>(g.draw(target.size() - 1));
            target[i] = static_cast<char>(target[i] ^ 1);
            target = &target == &h.name ? without_uppercase(target) : target;
          }
          break;
        default: // a value of another entry
          h.value = ref::static_table[g.draw(98)].value;
          break;
      }
      break;
    }
    default: // a long name
      h = { gen_token(g, 600, true), gen_token(g, max_value, false) };
      break;
  }
  return h;
}

inline bnl::http3::header_view
view(const ref::header &h)
{
  return { bnl::base::string_view(h.name.data(), h.name.size()),
           bnl::base::string_view(h.value.data(), h.value.size()) };
}
