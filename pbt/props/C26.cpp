// C26: value types hold their values.
#include "util.hpp"

#include <bnl/http3/event.hpp>
#include <bnl/http3/header.hpp>
#include <bnl/http3/settings.hpp>
#include <bnl/ip/address.hpp>
#include <bnl/ip/endpoint.hpp>
#include <bnl/ip/host.hpp>
#include <bnl/quic/event.hpp>
#include <bnl/quic/path.hpp>

#include <memory>
#include <sstream>

PROPERTY("C26",
         "for each value type (transport events, HTTP/3 events, headers, header views, string views, settings, addresses, endpoints, paths, hosts) "
         "histories of up to 40 constructions, copies, moves, assignments (to itself too) and destructions over 5 slots, with values that "
         "differ little from each other; after every step every slot must hold its model value, and equality and printing must agree with "
         "it; non-trivial: at least one copy or move of a value that was looked at afterwards");

using namespace bnl;

// Each type T is described by a traits struct: the model value, how it is
// generated, made, read, and (where defined) compared and printed.

static std::string
gen_text(gen &g)
{
  // Sizes around the small string limit, with shared prefixes.
  static const std::string base = "content-security-policy: script-src 'none'; object-src 'none'; base-uri 'none'";
  switch (g.draw(3)) {
    case 0:
      return base.substr(0, g.size(base.size()));
    case 1: {
      std::string s = base.substr(0, g.size(base.size()));
      if (!s.empty()) {
        s[static_cast<size_t>(g.draw(s.size() - 1))] ^= 1;
      }
      return s;
    }
    case 2:
      return g.bytes(g.size(40));
    default:
      return gen_token(g, 200, false);
  }
}

template<typename T>
static std::string
printed(const T &v)
{
  std::ostringstream os;
  os << v;
  return os.str();
}

// --- transport events ---

struct quic_event {
  using type = quic::event;
  static constexpr bool copies = false, assigns = false, compares = false;
  struct model {
    int kind = 0; // 0: data, 1..3: errors
    uint64_t id = 0;
    bool fin = false;
    std::string bytes;
    uint64_t value = 0;
  };
  static model generate(gen &g)
  {
    model m;
    m.kind = static_cast<int>(g.pick({ 5, 1, 1, 1 }));
    m.id = g.integer(0, UINT64_MAX);
    m.fin = g.chance(1, 2);
    m.bytes = g.bytes(g.size(100));
    m.value = g.integer(0, UINT64_MAX);
    return m;
  }
  static std::unique_ptr<type> make(gen &g, const model &m)
  {
    using error = quic::application::error;
    if (m.kind == 0) {
      base::buffer b = gen_buffer(g, m.bytes);
      if (g.chance(1, 2)) {
        // The rest of the bytes the event's buffer was cut from goes away.
        base::buffer larger = gen_buffer(g, m.bytes + "rest");
        b = larger.slice(m.bytes.size());
      }
      return std::make_unique<type>(quic::data{ m.id, m.fin, std::move(b) });
    }
    return std::make_unique<type>(error{ static_cast<decltype(error::rst_stream)>(m.kind - 1), m.id, m.value });
  }
  static void check(const type &v, const model &m)
  {
    CHECK((v == quic::event::type::data) == (m.kind == 0), "the kind of an event changed");
    CHECK(v.id() == m.id, "id() is " << v.id() << ", not " << m.id);
    if (m.kind == 0) {
      CHECK(v.data.id == m.id && v.data.fin == m.fin, "id or fin of a data event changed");
      CHECK(str(v.data.buffer) == m.bytes, "the bytes of a data event are " << text(str(v.data.buffer)) << ", not " << text(m.bytes));
    } else {
      CHECK(v.error.id == m.id && v.error.value == m.value && static_cast<int>(v.error.type) == m.kind - 1, "an error event changed");
    }
    CHECK(!printed(v).empty(), "an event prints as nothing");
  }
};

// --- HTTP/3 events ---

struct http3_event {
  using type = http3::event;
  static constexpr bool copies = false, assigns = false, compares = false;
  struct model {
    http3::event::type kind = http3::event::type::settings;
    uint64_t id = 0;
    bool fin = false;
    std::string a, b;
    uint64_t values[4] = {};
  };
  static model generate(gen &g)
  {
    model m;
    static const http3::event::type kinds[] = { http3::event::type::settings, http3::event::type::header, http3::event::type::body,
                                                http3::event::type::finished };
    m.kind = kinds[g.draw(3)];
    m.id = g.integer(0, UINT64_MAX);
    m.fin = g.chance(1, 2);
    m.a = gen_text(g);
    m.b = gen_text(g);
    for (uint64_t &v : m.values) {
      v = g.integer(0, UINT64_MAX);
    }
    return m;
  }
  static std::unique_ptr<type> make(gen &g, const model &m)
  {
    using e = http3::event;
    switch (m.kind) {
      case e::type::settings: {
        http3::settings s;
        s.max_header_list_size = m.values[0];
        s.num_placeholders = m.values[1];
        s.qpack_max_table_capacity = m.values[2];
        s.qpack_blocked_streams = m.values[3];
        return std::make_unique<e>(s);
      }
      case e::type::header:
        return std::make_unique<e>(e::payload::header{ m.id, m.fin, http3::header(m.a, m.b) });
      case e::type::body:
        return std::make_unique<e>(e::payload::body{ m.id, m.fin, gen_buffer(g, m.a) });
      default:
        return std::make_unique<e>(e::payload::finished{ m.id });
    }
  }
  static void check(const type &v, const model &m)
  {
    using e = http3::event;
    CHECK(v == m.kind, "the kind of an event changed");
    switch (m.kind) {
      case e::type::settings:
        CHECK(v.settings.max_header_list_size == m.values[0] && v.settings.num_placeholders == m.values[1] &&
                v.settings.qpack_max_table_capacity == m.values[2] && v.settings.qpack_blocked_streams == m.values[3],
              "a settings event changed");
        break;
      case e::type::header:
        CHECK(v.header.id == m.id && v.header.fin == m.fin, "id or fin of a header event changed");
        CHECK(str(v.header.header.name()) == m.a && str(v.header.header.value()) == m.b, "the header of an event changed");
        break;
      case e::type::body:
        CHECK(v.body.id == m.id && v.body.fin == m.fin, "id or fin of a body event changed");
        CHECK(str(v.body.buffer) == m.a, "the bytes of a body event changed");
        break;
      default:
        CHECK(v.finished.id == m.id, "the id of a finished event changed");
        break;
    }
  }
  static std::string str(base::string_view s) { return std::string(s.data(), s.size()); }
  static std::string str(const base::buffer &b) { return ::str(b); }
};

// --- headers and views ---

struct header {
  using type = http3::header;
  static constexpr bool copies = true, assigns = true, compares = true;
  using model = std::pair<std::string, std::string>;
  static model generate(gen &g) { return { gen_text(g), gen_text(g) }; }
  static std::unique_ptr<type> make(gen &, const model &m) { return std::make_unique<type>(m.first, m.second); }
  static void check(const type &v, const model &m)
  {
    CHECK(v.name().size() == m.first.size() && v.value().size() == m.second.size(), "the sizes of a header changed");
    CHECK(std::string(v.name().begin(), v.name().end()) == m.first && std::string(v.value().begin(), v.value().end()) == m.second,
          "a header changed");
    http3::header_view w = v;
    CHECK(w.name().data() == v.name().data() && w.value().data() == v.value().data(), "a header's view looks elsewhere");
    CHECK(printed(w) == m.first + ": " + m.second, "a header prints as " << text(printed(w)));
    CHECK(http3::header_is_lowercase(v) == !ref::has_uppercase(m.first), "header_is_lowercase is wrong about " << text(m.first));
  }
  static bool equal(const type &a, const type &b) { return a == b; }
  static bool unequal(const type &a, const type &b) { return a != b; }
};

// Views of memory that is as large as the text, so that the sanitizer sees
// every access beyond it.
struct string_view {
  using type = base::string_view;
  static constexpr bool copies = true, assigns = true, compares = true;
  struct model {
    std::shared_ptr<std::vector<char>> memory;
    std::string text;
    bool terminated = false;
    bool operator==(const model &o) const { return text == o.text; }
  };
  static model generate(gen &g)
  {
    model m;
    m.text = gen_text(g);
    m.memory = std::make_shared<std::vector<char>>(m.text.begin(), m.text.end());
    m.terminated = g.chance(1, 4) && m.text.find('\0') == std::string::npos;
    if (m.terminated) {
      m.memory->push_back('\0');
    }
    m.memory->shrink_to_fit();
    return m;
  }
  static std::unique_ptr<type> make(gen &g, const model &m)
  {
    if (m.text.empty() && g.chance(1, 2)) {
      return std::make_unique<type>();
    }
    if (m.terminated) {
      return std::make_unique<type>(m.memory->data());
    }
    return std::make_unique<type>(m.memory->data(), m.text.size());
  }
  static void check(const type &v, const model &m)
  {
    CHECK(v.size() == m.text.size() && v.empty() == m.text.empty(), "the size of a string view changed");
    CHECK(std::string(v.begin(), v.end()) == m.text, "a string view changed");
    for (size_t i = 0; i < m.text.size(); i++) {
      CHECK(v[i] == m.text[i], "character " << i << " of a string view is wrong");
    }
    if (!m.text.empty()) {
      CHECK(*v == m.text[0], "the first character of a string view is wrong");
    }
    CHECK(printed(v) == m.text, "a string view prints as " << text(printed(v)));
    base::string s = m.text;
    CHECK(base::string_view(s) == v && base::string_view(s).data() == s.data(), "a view of a string differs from it");
  }
  static bool equal(const type &a, const type &b) { return a == b; }
  static bool unequal(const type &a, const type &b) { return a != b; }
};

struct header_view {
  using type = http3::header_view;
  static constexpr bool copies = true, assigns = true, compares = true;
  using model = std::pair<string_view::model, string_view::model>;
  static model generate(gen &g) { return { string_view::generate(g), string_view::generate(g) }; }
  static std::unique_ptr<type> make(gen &g, const model &m)
  {
    return std::make_unique<type>(*string_view::make(g, m.first), *string_view::make(g, m.second));
  }
  static void check(const type &v, const model &m)
  {
    string_view::check(v.name(), m.first);
    string_view::check(v.value(), m.second);
    CHECK(printed(v) == m.first.text + ": " + m.second.text, "a header prints as " << text(printed(v)));
  }
  static bool equal(const type &a, const type &b) { return a == b; }
  static bool unequal(const type &a, const type &b) { return a != b; }
};

struct buffer_view {
  using type = base::buffer_view;
  static constexpr bool copies = true, assigns = true, compares = true;
  using model = string_view::model;
  static model generate(gen &g) { return string_view::generate(g); }
  static std::unique_ptr<type> make(gen &g, const model &m)
  {
    if (m.text.empty() && g.chance(1, 2)) {
      return std::make_unique<type>();
    }
    uint8_t *data = reinterpret_cast<uint8_t *>(m.memory->data());
    if (g.chance(1, 3)) {
      base::buffer_view_mut view(data, m.text.size());
      CHECK(view.size() == m.text.size() && view.empty() == m.text.empty() && view.begin() == data && view.end() == data + m.text.size() &&
              view.data() == data,
            "a mutable view differs from its memory");
      return std::make_unique<type>(view);
    }
    return std::make_unique<type>(data, m.text.size());
  }
  static void check(const type &v, const model &m)
  {
    CHECK(v.size() == m.text.size() && v.empty() == m.text.empty(), "the size of a buffer view changed");
    CHECK(std::string(v.begin(), v.end()) == m.text, "a buffer view changed");
    for (size_t i = 0; i < m.text.size(); i++) {
      CHECK(v[i] == ref::at(m.text, i), "byte " << i << " of a buffer view is wrong");
    }
    if (!m.text.empty()) {
      CHECK(*v == ref::at(m.text, 0), "the first byte of a buffer view is wrong");
    }
  }
  static bool equal(const type &a, const type &b) { return a == b; }
  static bool unequal(const type &a, const type &b) { return a != b; }
};

// --- settings ---

struct settings {
  using type = http3::settings;
  static constexpr bool copies = true, assigns = true, compares = false;
  using model = std::array<uint64_t, 4>;
  static model generate(gen &g)
  {
    model m;
    for (uint64_t &v : m) {
      v = g.integer(0, UINT64_MAX);
    }
    if (g.chance(1, 4)) {
      m = { ref::VARINT_MAX, 0, 0, 0 };
    }
    return m;
  }
  static std::unique_ptr<type> make(gen &, const model &m)
  {
    auto s = std::make_unique<type>();
    if (m != model{ ref::VARINT_MAX, 0, 0, 0 }) {
      s->max_header_list_size = m[0];
      s->num_placeholders = m[1];
      s->qpack_max_table_capacity = m[2];
      s->qpack_blocked_streams = m[3];
    }
    return s;
  }
  static void check(const type &v, const model &m)
  {
    CHECK(v.max_header_list_size == m[0] && v.num_placeholders == m[1] && v.qpack_max_table_capacity == m[2] &&
            v.qpack_blocked_streams == m[3],
          "settings changed");
    std::map<uint64_t, uint64_t> expected{ { 6, m[0] }, { 9, m[1] }, { 1, m[2] }, { 7, m[3] } };
    auto array = v.array();
    CHECK(array.size() == 4, "array() has " << array.size() << " settings");
    for (const auto &p : array) {
      auto it = expected.find(p.first);
      CHECK(it != expected.end() && it->second == p.second, "array() has the wrong value " << p.second << " for setting " << p.first);
      expected.erase(it);
    }
  }
};

// --- addresses ---

static std::string
gen_address_bytes(gen &g)
{
  std::string s = g.bytes(g.chance(1, 2) ? 4 : 16);
  if (g.chance(1, 2)) {
    // Mostly alike.
    std::string alike(s.size(), '\x7f');
    alike[static_cast<size_t>(g.draw(s.size() - 1))] = static_cast<char>(g.draw(255));
    s = alike;
  }
  return s;
}

static ip::address
make_address(gen &g, const std::string &m)
{
  const uint8_t *bytes = reinterpret_cast<const uint8_t *>(m.data());
  if (m == std::string(4, '\0') && g.chance(1, 2)) {
    return ip::address();
  }
  if (m.size() == 4) {
    switch (g.draw(3)) {
      case 0:
        return ip::address(base::buffer_view(bytes, 4));
      case 1:
        return ip::address(ipv4::address(bytes));
      case 2:
        return ip::address(ipv4::address(base::buffer_view(bytes, 4)));
      default:
        return ip::address(ipv4::address(static_cast<uint32_t>(bytes[0]) | static_cast<uint32_t>(bytes[1]) << 8 |
                                         static_cast<uint32_t>(bytes[2]) << 16 | static_cast<uint32_t>(bytes[3]) << 24));
    }
  }
  switch (g.draw(2)) {
    case 0:
      return ip::address(base::buffer_view(bytes, 16));
    case 1:
      return ip::address(ipv6::address(bytes));
    default:
      return ip::address(ipv6::address(base::buffer_view(bytes, 16)));
  }
}

static void
check_address(const ip::address &v, const std::string &m)
{
  CHECK((v == ip::address::type::ipv4) == (m.size() == 4), "the kind of an address changed");
  CHECK(std::string(v.bytes().begin(), v.bytes().end()) == m, "the bytes of an address changed");
  if (m.size() == 4) {
    std::ostringstream expected;
    for (int i = 0; i < 4; i++) {
      expected << (i > 0 ? "." : "") << static_cast<unsigned>(ref::at(m, static_cast<size_t>(i)));
    }
    CHECK(printed(v) == expected.str(), "the address " << expected.str() << " prints as " << printed(v));
  }
}

struct address {
  using type = ip::address;
  static constexpr bool copies = true, assigns = true, compares = true;
  using model = std::string;
  static model generate(gen &g) { return gen_address_bytes(g); }
  static std::unique_ptr<type> make(gen &g, const model &m) { return std::make_unique<type>(make_address(g, m)); }
  static void check(const type &v, const model &m) { check_address(v, m); }
  static bool equal(const type &a, const type &b) { return a == b; }
  static bool unequal(const type &a, const type &b) { return !(a == b); }
};

struct endpoint {
  using type = ip::endpoint;
  static constexpr bool copies = true, assigns = true, compares = false;
  using model = std::pair<std::string, uint16_t>;
  static model generate(gen &g)
  {
    return { gen_address_bytes(g), static_cast<uint16_t>(g.integer(0, 65535)) };
  }
  static std::unique_ptr<type> make(gen &g, const model &m)
  {
    if (m.first == std::string(4, '\0') && m.second == 0 && g.chance(1, 2)) {
      return std::make_unique<type>();
    }
    return std::make_unique<type>(make_address(g, m.first), m.second);
  }
  static void check(const type &v, const model &m)
  {
    check_address(v.address(), m.first);
    CHECK(v.port() == m.second, "the port " << m.second << " became " << v.port());
  }
};

struct path {
  using type = quic::path;
  static constexpr bool copies = true, assigns = true, compares = false;
  using model = std::pair<endpoint::model, endpoint::model>;
  static model generate(gen &g) { return { endpoint::generate(g), endpoint::generate(g) }; }
  static std::unique_ptr<type> make(gen &g, const model &m)
  {
    return std::make_unique<type>(*endpoint::make(g, m.first), *endpoint::make(g, m.second));
  }
  static void check(const type &v, const model &m)
  {
    endpoint::check(v.local(), m.first);
    endpoint::check(v.peer(), m.second);
  }
};

struct host {
  using type = ip::host;
  static constexpr bool copies = true, assigns = true, compares = false;
  using model = std::string;
  static model generate(gen &g) { return gen_text(g); }
  static std::unique_ptr<type> make(gen &g, const model &m)
  {
    if (m.empty() && g.chance(1, 2)) {
      return std::make_unique<type>();
    }
    if (m.find('\0') == std::string::npos && g.chance(1, 2)) {
      return std::make_unique<type>(m.c_str());
    }
    return std::make_unique<type>(m);
  }
  static void check(const type &v, const model &m)
  {
    CHECK(std::string(v.name().begin(), v.name().end()) == m, "the name of a host changed");
    CHECK(printed(v) == m, "the host " << text(m) << " prints as " << text(printed(v)));
  }
};

// --- histories ---

template<typename X>
static void
history(gen &g)
{
  using T = typename X::type;
  struct slot {
    std::unique_ptr<T> value;
    typename X::model model;
    bool known = false; // false: moved from
  };
  std::vector<slot> slots(5);
  auto some = [&]() -> slot & { return slots[static_cast<size_t>(g.draw(slots.size() - 1))]; };
  std::vector<typename X::model> pool;
  auto value = [&]() {
    if (!pool.empty() && g.chance(1, 3)) {
      return g.of(pool);
    }
    pool.push_back(X::generate(g));
    return pool.back();
  };
  bool moved = false;
  for (size_t n = 0; g.more(n, 4, 40, 14); n++) {
    slot &a = some();
    slot &b = some();
    switch (g.draw(6)) {
      case 0:
      case 1: {
        auto m = value();
        a.value = X::make(g, m);
        a.model = m;
        a.known = true;
        g.note("new value in slot " + std::to_string(&a - slots.data()));
        break;
      }
      case 2:
        g.note("destroy slot " + std::to_string(&a - slots.data()));
        a.value.reset();
        a.known = false;
        break;
      case 3: // move construction
        if (b.value != nullptr && &a != &b) {
          g.note("move slot " + std::to_string(&b - slots.data()) + " to a new " + std::to_string(&a - slots.data()));
          a.value = std::make_unique<T>(std::move(*b.value));
          a.model = b.model;
          a.known = b.known;
          b.known = false;
          moved = moved || a.known;
        }
        break;
      case 4:
        if constexpr (X::copies) {
          if (b.value != nullptr && &a != &b) {
            g.note("copy slot " + std::to_string(&b - slots.data()) + " to a new " + std::to_string(&a - slots.data()));
            a.value = std::make_unique<T>(*b.value);
            a.model = b.model;
            a.known = b.known;
            moved = moved || a.known;
          }
        }
        break;
      case 5:
        if constexpr (X::assigns) {
          if (a.value != nullptr && b.value != nullptr) {
            g.note("assign slot " + std::to_string(&b - slots.data()) + " to " + std::to_string(&a - slots.data()));
            const T &from = *b.value;
            *a.value = from;
            a.model = b.model;
            a.known = b.known;
            moved = moved || a.known;
          }
        }
        break;
      default:
        if constexpr (X::assigns) {
          if (a.value != nullptr && b.value != nullptr && &a != &b) {
            g.note("move slot " + std::to_string(&b - slots.data()) + " into " + std::to_string(&a - slots.data()));
            *a.value = std::move(*b.value);
            a.model = b.model;
            a.known = b.known;
            b.known = false;
            moved = moved || a.known;
          }
        }
        break;
    }
    for (const slot &s : slots) {
      if (!s.known) {
        continue;
      }
      X::check(*s.value, s.model);
      if constexpr (X::compares) {
        for (const slot &t : slots) {
          if (t.known) {
            bool same = s.model == t.model;
            CHECK(X::equal(*s.value, *t.value) == same, "== is " << !same << " where the values are " << (same ? "equal" : "different"));
            CHECK(X::unequal(*s.value, *t.value) != same, "!= is " << same << " where the values are " << (same ? "equal" : "different"));
          }
        }
      }
    }
  }
  if (moved) {
    g.nontrivial();
  }
}

PART("transport events", history<quic_event>, 80000, 240000);
PART("HTTP/3 events", history<http3_event>, 80000, 240000);
PART("headers", history<header>, 60000, 200000);
PART("header views", history<header_view>, 40000, 120000);
PART("string views", history<string_view>, 60000, 200000);
PART("buffer views", history<buffer_view>, 40000, 120000);
PART("settings", history<settings>, 20000, 60000);
PART("addresses", history<address>, 60000, 200000);
PART("endpoints", history<endpoint>, 40000, 120000);
PART("paths", history<path>, 20000, 60000);
PART("hosts", history<host>, 40000, 120000);
