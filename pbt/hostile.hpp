// Input that a peer should not send, and some that it should.
#pragma once

#include "frames.hpp"
#include "net.hpp"

namespace hostile {

using namespace net;

// A HEADERS frame that is wrong in one of the ways a header block can be.
inline std::string
gen_bad_block(gen &g)
{
  std::string s("\0\0", 2);
  for (size_t n = 0; g.more(n, 0, 3, 1); n++) {
    s += gen_line_for(g, gen_header(g, 20));
  }
  std::string value = ref::literal(gen_token(g, 10, false), 7, 0, g.chance(1, 2));
  switch (g.draw(8)) {
    case 0:
      s += ref::literal("Name" + gen_token(g, 10, true), 3, 0x20, g.chance(1, 2)) + value;
      break;
    case 1:
      s += ref::prefix_int(99 + g.integer(0, ref::VARINT_MAX), 6, 0xc0);
      break;
    case 2:
      s += ref::prefix_int(99 + g.integer(0, ref::VARINT_MAX), 4, 0x50) + value;
      break;
    case 3:
      s += ref::prefix_int(g.draw(98), 6, 0x80);
      break;
    case 4:
      s += ref::prefix_int(g.draw(98), 4, 0x40) + value;
      break;
    case 5:
      s += ref::prefix_int(g.draw(98), 4, 0x10);
      break;
    case 6:
      s = ref::prefix_int(g.integer(1, 1000), 8, 0) + s.substr(1);
      break;
    case 7:
      s += ref::prefix_int(4, 3, 0x28) + "\xff\xff\xff\xff" + value;
      break;
    default:
      return frame(ref::F_HEADERS, "");
  }
  return frame(ref::F_HEADERS, s + g.bytes(g.size(6)));
}

inline std::string
control_bytes(gen &g)
{
  std::string s(1, g.chance(1, 8) ? static_cast<char>(g.draw(255)) : '\0');
  ref::frame f;
  f.type = ref::F_SETTINGS;
  f.num_placeholders = g.draw(100);
  if (!g.chance(1, 8)) {
    s += ref::frame_head(f);
  }
  while (g.chance(1, 2)) {
    s += g.chance(1, 3) ? ref::frame_head(gen_frame(g, g.chance(1, 2) ? 100 : ref::VARINT_MAX)) : gen_unknown_frame(g, 20);
  }
  return s;
}

inline std::string
valid(gen &g)
{
  switch (g.pick({ 6, 2, 2, 2, 3 })) {
    case 0: {
      framing f;
      f.unknown_frames = g.chance(1, 2);
      f.trailers = g.chance(1, 3);
      return gen_stream(g, gen_message(g, 6, 60, 200), f).bytes;
    }
    case 1:
      return control_bytes(g);
    case 2: {
      std::string s;
      while (g.chance(3, 4)) {
        ref::frame f = gen_frame(g, g.chance(1, 2) ? 40 : ref::VARINT_MAX);
        s += ref::frame_head(f) + g.bytes(static_cast<size_t>(g.draw(10)));
      }
      return s;
    }
    case 4:
      return gen_bad_block(g);
    default: // a header block that claims to be huge, or integers that are
      return ref::varint(ref::F_HEADERS) + ref::varint(g.integer(0, ref::VARINT_MAX)) + std::string("\0\0", 2) +
             ref::prefix_int(g.integer(0, UINT64_MAX), 3, static_cast<uint8_t>(0x20 | (g.chance(1, 2) ? 8 : 0))) +
             g.bytes(g.size(30));
  }
}

inline std::string
mutate(gen &g, std::string s)
{
  for (size_t n = 0; g.more(n, 1, 8, 2); n++) {
    if (s.empty()) {
      break;
    }
    size_t at = static_cast<size_t>(g.draw(s.size() - 1));
    switch (g.draw(7)) {
      case 0:
        s[at] = static_cast<char>(s[at] ^ (1 << g.draw(7)));
        break;
      case 1:
        s[at] = static_cast<char>(g.draw(255));
        break;
      case 2:
        s.erase(at, 1 + static_cast<size_t>(g.draw(3)));
        break;
      case 3:
        s.insert(at, 1, static_cast<char>(g.draw(255)));
        break;
      case 4: // repeat a part
        s.insert(at, s.substr(at, 1 + static_cast<size_t>(g.draw(20))));
        break;
      case 5:
        s.resize(at);
        break;
      case 6: // an extreme integer
        s.replace(at, 1, ref::varint(g.integer(0, ref::VARINT_MAX)));
        break;
      default:
        s[at] = g.chance(1, 2) ? '\xff' : '\0';
        break;
    }
  }
  return s;
}

inline std::string
input(gen &g)
{
  switch (g.pick({ 3, 5, 2 })) {
    case 0:
      return valid(g);
    case 1:
      return mutate(g, valid(g));
    default:
      return g.bytes(g.size(g.chance(1, 20) ? 4000 : 60));
  }
}

} // namespace hostile
