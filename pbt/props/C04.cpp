// C04: frame encoding.
#include "frames.hpp"

#include <sstream>

using namespace bnl;
using namespace bnl::http3;

PROPERTY("C04",
         "frames of every type with fields drawn over all bit widths up to 2^64-1 (SETTINGS with generated subsets of "
         "non-default values, PUSH_PROMISE with id and size whose lengths add up past the limit), against an independent "
         "encoder; pairs of frames for the comparison operators; non-trivial: a field needs more than one byte");

static bool
fits(const ref::frame &f)
{
  for (uint64_t v : { f.size, f.id, f.prioritized_id, f.dependency_id, f.max_header_list_size, f.num_placeholders,
                      f.qpack_max_table_capacity, f.qpack_blocked_streams }) {
    if (v > ref::VARINT_MAX) {
      return false;
    }
  }
  return f.type != ref::F_PUSH_PROMISE || f.size <= ref::VARINT_MAX - ref::varint_size(f.id);
}

static void
encode_one(gen &g, const ref::frame &f)
{
  frame b = to_bnl(f);
  g.note(show(f));
  auto size = frame::encoded_size(b);
  auto buf = frame::encode(b);
  uint8_t raw[160];
  memset(raw, 0x6b, sizeof(raw));
  auto written = frame::encode(raw, b);
  if (!fits(f)) {
    g.label("too large");
    CHECK(!size && size.error() == error::varint_overflow, show(f) << ": " << show(size));
    CHECK(!buf && buf.error() == error::varint_overflow, show(f) << ": " << show(buf));
    CHECK(!written && written.error() == error::varint_overflow, show(f) << ": " << show(written));
    return;
  }
  std::string want = ref::frame_head(f);
  if (want.size() > 3) {
    g.nontrivial();
  }
  CHECK(size && size.value() == want.size(), show(f) << ": encoded_size");
  CHECK(written && written.value() == want.size(), show(f) << ": encode returned " << show(written));
  for (size_t i = want.size(); i < sizeof(raw); i++) {
    CHECK(raw[i] == 0x6b, show(f) << ": wrote past the encoding");
  }
  std::string got(reinterpret_cast<char *>(raw), want.size());
  CHECK(buf && str(buf.value()) == got, show(f) << ": the two forms of encode disagree");
  // What was written means the frame, whatever the order of settings.
  ref::decoded d = ref::decode_frame(got);
  CHECK(d.what == ref::decoded::frame_ok && d.end == got.size() && d.frame == f,
        show(f) << ": encoded as " << pbt::hex(got) << ", which reads as " << show(d.frame));
  if (f.type != ref::F_SETTINGS) {
    CHECK(got == want, show(f) << ": encoded as " << pbt::hex(got) << ", want " << pbt::hex(want));
  }
  // Its own decoder agrees, and leaves what follows.
  std::string tail = g.bytes(static_cast<size_t>(g.draw(6)));
  with_sequence(g, got + tail, [&](auto &seq, const char *kind) {
    auto t = frame::peek(seq);
    CHECK(t && static_cast<uint64_t>(t.value()) == f.type, kind << ": peek: " << show(t));
    auto r = frame::decode(seq);
    CHECK(r, kind << ": " << show(f) << ": " << show(r));
    CHECK(to_ref(r.value()) == f, kind << ": " << show(f) << " came back as " << show(to_ref(r.value())));
    CHECK(r.value() == b && !(r.value() != b), "comparison of a frame with its round trip");
    CHECK(rest(seq) == tail, kind << ": left " << rest(seq).size() << " of " << tail.size());
  });
}

static void
frames(gen &g)
{
  uint64_t max = g.chance(1, 6) ? UINT64_MAX : ref::VARINT_MAX;
  encode_one(g, gen_frame(g, max));
}

static void
push_promises(gen &g)
{
  ref::frame f;
  f.type = ref::F_PUSH_PROMISE;
  f.id = g.integer(0, ref::VARINT_MAX);
  // Around the limits: the whole payload has to fit.
  switch (g.draw(3)) {
    case 0:
      f.size = ref::VARINT_MAX - g.draw(20);
      break;
    case 1:
      f.size = ref::VARINT_MAX + g.draw(20);
      break;
    case 2:
      f.size = UINT64_MAX - g.draw(20);
      break;
    default:
      f.size = (1ULL << g.draw(61)) - g.draw(12) % (1ULL << g.draw(3));
      break;
  }
  encode_one(g, f);
}

static void
pairs(gen &g)
{
  ref::frame a = gen_frame(g, ref::VARINT_MAX);
  ref::frame b = g.chance(1, 2) ? a : gen_frame(g, ref::VARINT_MAX);
  if (g.chance(1, 2)) {
    // One field differs.
    switch (b.type) {
      case ref::F_DATA:
      case ref::F_HEADERS:
        b.size ^= 1ULL << g.draw(61);
        break;
      case ref::F_PUSH_PROMISE:
        (g.chance(1, 2) ? b.size : b.id) ^= 1ULL << g.draw(61);
        break;
      case ref::F_PRIORITY:
        switch (g.draw(4)) {
          case 0:
            b.prioritized_type ^= 1;
            break;
          case 1:
            b.dependency_type ^= 2;
            break;
          case 2:
            b.prioritized_id ^= 1ULL << g.draw(61);
            break;
          case 3:
            b.dependency_id ^= 1ULL << g.draw(61);
            break;
          default:
            b.weight ^= 1u << g.draw(7);
        }
        break;
      case ref::F_SETTINGS:
        switch (g.draw(3)) {
          case 0:
            b.max_header_list_size ^= 1ULL << g.draw(61);
            break;
          case 1:
            b.num_placeholders ^= 1ULL << g.draw(61);
            break;
          case 2:
            b.qpack_max_table_capacity ^= 1ULL << g.draw(61);
            break;
          default:
            b.qpack_blocked_streams ^= 1ULL << g.draw(61);
        }
        break;
      default:
        b.id ^= 1ULL << g.draw(61);
    }
  }
  frame x = to_bnl(a);
  frame y = to_bnl(b);
  bool same = a == b;
  g.note(show(a) + " vs " + show(b));
  g.nontrivial();
  g.label(same ? "equal pair" : "different pair");
  CHECK((x == y) == same && (y == x) == same, show(a) << " == " << show(b));
  CHECK((x != y) == !same && (y != x) == !same, show(a) << " != " << show(b));
  frame copy(x);
  CHECK(copy == x, "a copy differs");
}

PART("frames", frames, 600000, 20000000);
PART("push promises", push_promises, 200000, 4000000);
PART("pairs", pairs, 300000, 4000000);
