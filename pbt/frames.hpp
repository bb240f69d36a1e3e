#pragma once

#include "util.hpp"

#include <bnl/http3/codec/frame.hpp>

// The names a user writes for the element types of a PRIORITY frame, in the order of their values on the wire; the name for the
// last value depends on the field.
using priority_type = bnl::http3::frame::payload::priority::type;
static const priority_type PRIORITIZED[] = { priority_type::request, priority_type::push, priority_type::placeholder, priority_type::current };
static const priority_type DEPENDENCY[] = { priority_type::request, priority_type::push, priority_type::placeholder, priority_type::root };

inline unsigned
element_type(const priority_type (&names)[4], priority_type t)
{
  for (unsigned i = 0; i < 4; i++) {
    if (names[i] == t) {
      return i;
    }
  }
  return 100 + static_cast<unsigned>(t);
}

inline bnl::http3::frame
to_bnl(const ref::frame &f)
{
  using frame = bnl::http3::frame;
  using P = frame::payload;
  switch (f.type) {
    case ref::F_DATA:
      return P::data{ f.size };
    case ref::F_HEADERS:
      return P::headers{ f.size };
    case ref::F_PRIORITY: {
      P::priority p{};
      p.prioritized_element_type = PRIORITIZED[f.prioritized_type & 3U];
      p.element_dependency_type = DEPENDENCY[f.dependency_type & 3U];
      p.prioritized_element_id = f.prioritized_id;
      p.element_dependency_id = f.dependency_id;
      p.weight = static_cast<uint8_t>(f.weight);
      return p;
    }
    case ref::F_CANCEL_PUSH:
      return P::cancel_push{ f.id };
    case ref::F_SETTINGS: {
      P::settings s{};
      s.max_header_list_size = f.max_header_list_size;
      s.num_placeholders = f.num_placeholders;
      s.qpack_max_table_capacity = f.qpack_max_table_capacity;
      s.qpack_blocked_streams = f.qpack_blocked_streams;
      return s;
    }
    case ref::F_PUSH_PROMISE:
      return P::push_promise{ f.id, f.size };
    case ref::F_GOAWAY:
      return P::goaway{ f.id };
    case ref::F_MAX_PUSH_ID:
      return P::max_push_id{ f.id };
    default:
      return P::duplicate_push{ f.id };
  }
}

inline ref::frame
to_ref(const bnl::http3::frame &b)
{
  using T = bnl::http3::frame::type;
  ref::frame f;
  T t = b;
  f.type = static_cast<uint64_t>(t);
  switch (t) {
    case T::data:
      f.size = b.data.size;
      break;
    case T::headers:
      f.size = b.headers.size;
      break;
    case T::priority:
      f.prioritized_type = element_type(PRIORITIZED, b.priority.prioritized_element_type);
      f.dependency_type = element_type(DEPENDENCY, b.priority.element_dependency_type);
      f.prioritized_id = b.priority.prioritized_element_id;
      f.dependency_id = b.priority.element_dependency_id;
      f.weight = b.priority.weight;
      break;
    case T::cancel_push:
      f.id = b.cancel_push.push_id;
      break;
    case T::settings:
      f.max_header_list_size = b.settings.max_header_list_size;
      f.num_placeholders = b.settings.num_placeholders;
      f.qpack_max_table_capacity = b.settings.qpack_max_table_capacity;
      f.qpack_blocked_streams = b.settings.qpack_blocked_streams;
      break;
    case T::push_promise:
      f.id = b.push_promise.push_id;
      f.size = b.push_promise.size;
      break;
    case T::goaway:
      f.id = b.goaway.stream_id;
      break;
    case T::max_push_id:
      f.id = b.max_push_id.push_id;
      break;
    case T::duplicate_push:
      f.id = b.duplicate_push.push_id;
      break;
  }
  return f;
}

inline std::string
show(const ref::frame &f)
{
  std::ostringstream os;
  os << "{type " << f.type << " size " << f.size << " id " << f.id;
  if (f.type == ref::F_PRIORITY) {
    os << " priority " << f.prioritized_type << '/' << f.prioritized_id << " on " << f.dependency_type << '/'
       << f.dependency_id << " weight " << f.weight;
  }
  if (f.type == ref::F_SETTINGS) {
    os << " settings " << f.max_header_list_size << ' ' << f.num_placeholders << ' ' << f.qpack_max_table_capacity << ' '
       << f.qpack_blocked_streams;
  }
  os << '}';
  return os.str();
}

static const std::vector<uint64_t> KNOWN_FRAMES = { ref::F_DATA,         ref::F_HEADERS,      ref::F_PRIORITY,
                                                    ref::F_CANCEL_PUSH,  ref::F_SETTINGS,     ref::F_PUSH_PROMISE,
                                                    ref::F_GOAWAY,       ref::F_MAX_PUSH_ID,  ref::F_DUPLICATE_PUSH };

// Any frame whose fields are at most `max`.
inline ref::frame
gen_frame(gen &g, uint64_t max)
{
  ref::frame f;
  f.type = g.of(KNOWN_FRAMES);
  switch (f.type) {
    case ref::F_DATA:
    case ref::F_HEADERS:
      f.size = g.integer(0, max);
      break;
    case ref::F_PRIORITY:
      f.prioritized_type = static_cast<unsigned>(g.draw(3));
      f.dependency_type = static_cast<unsigned>(g.draw(3));
      f.prioritized_id = g.integer(0, max);
      f.dependency_id = g.integer(0, max);
      f.weight = static_cast<unsigned>(g.draw(255));
      break;
    case ref::F_SETTINGS:
      if (g.chance(1, 2)) {
        f.max_header_list_size = g.integer(0, max);
      }
      if (g.chance(1, 2)) {
        f.num_placeholders = g.integer(0, max);
      }
      f.qpack_max_table_capacity = g.integer(0, max);
      f.qpack_blocked_streams = g.integer(0, max);
      break;
    case ref::F_PUSH_PROMISE:
      f.id = g.integer(0, max);
      f.size = g.integer(0, max);
      break;
    default:
      f.id = g.integer(0, max);
      break;
  }
  return f;
}
