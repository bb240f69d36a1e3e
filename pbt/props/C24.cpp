// C24: logging never changes behaviour.
#include "hostile.hpp"
#include "program.hpp"

#include <bnl/base/log.hpp>
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/http3/codec/varint.hpp>
#include <bnl/log/console.hpp>

#include <cctype>
#include <fcntl.h>
#include <fmt/format.h>
#include <sys/mman.h>
#include <unistd.h>

PROPERTY("C24",
         "generated scripts of up to 40 transport events (valid, malformed and mutated traffic on any stream), responses, calls on handles "
         "(refused ones included), polls and direct decoder and encoder calls are run without a logger, with a recording logger, and with the console logger; all "
         "results must be the same, every message must have a known level, a location and a format that renders; and sequences "
         "of messages of all levels with generated texts are given to the console logger, whose two outputs must hold exactly one line "
         "each, on the right side; non-trivial: something was logged");

using namespace program;
using bnl::base::log::level;

// --- capturing the outputs of the process ---

struct capture {
  int memory[2];
  int saved[2];

  capture()
  {
    fflush(stdout);
    fflush(stderr);
    for (int i = 0; i < 2; i++) {
      memory[i] = memfd_create("output", MFD_CLOEXEC);
      saved[i] = fcntl(i + 1, F_DUPFD_CLOEXEC, 10);
      CHECK(memory[i] >= 0 && saved[i] >= 0, "memfd_create or dup failed");
      dup2(memory[i], i + 1);
    }
  }

  std::string take(int i)
  {
    std::string s;
    off_t size = lseek(memory[i], 0, SEEK_END);
    s.resize(static_cast<size_t>(size));
    if (size > 0 && pread(memory[i], &s[0], s.size(), 0) != size) {
      s = "?";
    }
    (void) !ftruncate(memory[i], 0);
    lseek(memory[i], 0, SEEK_SET);
    return s;
  }

  ~capture()
  {
    fflush(stdout);
    fflush(stderr);
    for (int i = 0; i < 2; i++) {
      dup2(saved[i], i + 1);
      close(saved[i]);
      close(memory[i]);
    }
  }
};

static std::string
strip(const std::string &s)
{
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') {
      i += 2;
      while (i < s.size() && !isalpha(static_cast<unsigned char>(s[i]))) {
        i++;
      }
      continue;
    }
    r += s[i];
  }
  return r;
}

// --- loggers ---

struct message_t {
  level l;
  std::string text;
};

class recorder : public bnl::base::log::api {
public:
  mutable std::vector<message_t> messages;
  mutable std::string wrong;

protected:
  void log(level l, const char *file, const char *function, int line, const char *format, const fmt::format_args &args) const override
  {
    int number = static_cast<int>(l);
    if (number < 0 || number > static_cast<int>(level::error)) {
      wrong = "level " + std::to_string(number);
    }
    if (file == nullptr || *file == 0 || function == nullptr || *function == 0 || line <= 0) {
      wrong = "no source location";
    }
    try {
      messages.push_back({ l, fmt::vformat(format, args) });
    } catch (const std::exception &e) {
      wrong = std::string("the format \"") + format + "\" cannot be rendered: " + e.what();
    }
  }
};

struct use_logger {
  explicit use_logger(bnl::base::log::api *l) { bnl::base::logger = l; }
  ~use_logger() { bnl::base::logger = nullptr; }
};

// --- scripts ---

struct action {
  enum { deliver, poll, respond, header, start, body, fin, decode_block, encode, decode_frame, decode_varint } what = poll;
  uint64_t id = 0;
  std::string bytes = {};
  bool fin_ = false;
  ref::header h = {};
};

static std::vector<action>
gen_script(gen &g, bool client)
{
  std::vector<action> s;
  uint64_t control = client ? 3 : 2;
  for (size_t n = 0; g.more(n, 1, 40, 8); n++) {
    action a;
    a.id = g.chance(1, 4) ? control : 4 * g.draw(3);
    switch (g.pick({ 8, 3, 2, 2, 2, 1, 1, 2, 2, 1, 1 })) {
      case 0: {
        a.what = action::deliver;
        std::string b = a.id == control ? hostile::control_bytes(g) : hostile::input(g);
        a.bytes = g.chance(3, 4) ? b : b.substr(0, static_cast<size_t>(g.draw(b.size())));
        a.fin_ = g.chance(1, 6);
        break;
      }
      case 1:
        a.what = action::poll;
        break;
      case 2:
        a.what = action::respond;
        break;
      case 3:
        a.what = action::header;
        a.h = gen_header(g, 20);
        if (g.chance(1, 3)) {
          a.h.name += "X";
        }
        break;
      case 4:
        a.what = action::start;
        break;
      case 5:
        a.what = action::body;
        a.bytes = g.bytes(g.size(20));
        break;
      case 6:
        a.what = action::fin;
        break;
      case 7: {
        a.what = action::decode_block;
        std::string b = hostile::gen_bad_block(g);
        a.bytes = g.chance(1, 2) ? b.substr(std::min<size_t>(2, b.size())) : std::string("\0\0", 2) + g.bytes(g.size(20));
        break;
      }
      case 8:
        a.what = action::encode;
        a.h = gen_header(g, 20);
        if (g.chance(1, 2)) {
          a.h.name += "{}Y";
        }
        break;
      case 9:
        a.what = action::decode_frame;
        a.bytes = hostile::input(g);
        break;
      default:
        a.what = action::decode_varint;
        a.bytes = g.bytes(g.size(9));
        break;
    }
    s.push_back(a);
  }
  return s;
}

static http3::result<handle_t>
respond(server_t &c, uint64_t id)
{
  return c.response(id);
}

static http3::result<handle_t>
respond(client_t &c, uint64_t)
{
  return c.request();
}

// Everything that can be observed of a script.
template<typename C>
static std::vector<std::string>
play(const std::vector<action> &script)
{
  std::vector<std::string> out;
  C c;
  std::map<uint64_t, handle_t> handles;
  if (runner<C>::is_client) {
    for (size_t i = 0; i < 3; i++) {
      auto r = respond(c, 0);
      handle_t h = std::move(r).value();
      uint64_t id = h.id();
      (void) h.header(http3::header_view("a", "b"));
      (void) h.start();
      handles.emplace(id, std::move(h));
    }
    while (c.send()) {
    }
  }
  auto say = [&](const std::string &s) { out.push_back(s); };
  for (const action &a : script) {
    auto it = handles.find(a.id);
    handle_t none;
    handle_t &h = it == handles.end() ? none : it->second;
    switch (a.what) {
      case action::deliver: {
        auto r = c.recv(quic::event(quic::data{ a.id, a.fin_, to_buffer(a.bytes) }));
        say(::show(r));
        if (!r) {
          break;
        }
        auto generator = std::move(r).value();
        while (generator.next()) {
          auto e = generator.get();
          if (!e) {
            say(::show(e));
            break;
          }
          http3::event v = std::move(e).value();
          using type = http3::event::type;
          switch (v) {
            case type::header:
              say("header " + show(ref::headers{ to_ref(v.header.header) }) + (v.header.fin ? " last" : ""));
              break;
            case type::body:
              say("body " + str(v.body.buffer) + (v.body.fin ? " last" : ""));
              break;
            case type::settings:
              say("settings " + std::to_string(v.settings.num_placeholders));
              break;
            case type::finished:
              say("finished");
              break;
          }
        }
        break;
      }
      case action::poll: {
        auto e = c.send();
        if (!e) {
          say(::show(e));
        } else {
          quic::event v = std::move(e).value();
          say(std::to_string(v.data.id) + (v.data.fin ? " end " : " ") + str(v.data.buffer));
        }
        break;
      }
      case action::respond: {
        if (handles.size() > 8) {
          break;
        }
        auto r = respond(c, a.id);
        say(::show(r));
        if (r) {
          handle_t n = std::move(r).value();
          uint64_t id = n.id();
          handles.erase(id);
          handles.emplace(id, std::move(n));
        }
        break;
      }
      case action::header:
        say(::show(h.header(view(a.h))));
        break;
      case action::start:
        say(::show(h.start()));
        break;
      case action::body:
        say(::show(h.body(to_buffer(a.bytes))));
        break;
      case action::fin:
        say(::show(h.fin()));
        break;
      case action::decode_block: {
        http3::qpack::decoder d;
        base::buffers b;
        b.push(to_buffer(a.bytes));
        while (true) {
          auto r = d.decode(b);
          say(r ? show(ref::headers{ to_ref(r.value()) }) : ::show(r));
          say(rest(b) + " " + std::to_string(d.count()));
          if (!r) {
            break;
          }
        }
        break;
      }
      case action::encode: {
        http3::qpack::encoder e;
        auto r = e.encode(view(a.h));
        say(r ? str(r.value()) : ::show(r));
        say(std::to_string(e.count()));
        break;
      }
      case action::decode_frame: {
        base::buffer b = to_buffer(a.bytes);
        auto p = http3::frame::peek(b);
        say(p ? std::to_string(static_cast<uint64_t>(p.value())) : ::show(p));
        auto r = http3::frame::decode(b);
        say(r ? show(to_ref(r.value())) : ::show(r));
        say(str(b));
        break;
      }
      case action::decode_varint: {
        base::buffer b = to_buffer(a.bytes);
        auto r = http3::varint::decode(b);
        say(r ? std::to_string(r.value()) : ::show(r));
        say(str(b));
        break;
      }
    }
  }
  while (true) {
    auto e = c.send();
    if (!e) {
      say(::show(e));
      break;
    }
    quic::event v = std::move(e).value();
    say(std::to_string(v.data.id) + (v.data.fin ? " end " : " ") + str(v.data.buffer));
    CHECK(out.size() < 100000, "send() never becomes idle");
  }
  return out;
}

static void
compare(const std::vector<std::string> &a, const std::vector<std::string> &b, const char *with)
{
  for (size_t i = 0; i < a.size() || i < b.size(); i++) {
    CHECK(i < a.size() && i < b.size() && a[i] == b[i],
          "result " << i << " with " << with << ": " << (i < b.size() ? text(b[i], 100) : "none") << "\nwithout a logger: "
                    << (i < a.size() ? text(a[i], 100) : "none"));
  }
}

template<typename C>
static void
scripts(gen &g)
{
  std::vector<action> script = gen_script(g, runner<C>::is_client);
  std::vector<std::string> plain = play<C>(script);
  recorder r;
  {
    use_logger u(&r);
    compare(plain, play<C>(script), "a recording logger");
  }
  CHECK(r.wrong.empty(), "a message with " << r.wrong);
  for (const message_t &m : r.messages) {
    g.note("logged: " + text(m.text, 200));
  }
  { // the base class itself swallows everything
    bnl::base::log::api base;
    use_logger u(&base);
    compare(plain, play<C>(script), "a default logger");
  }
  if (g.chance(1, 3)) {
    bool source = g.chance(1, 2);
    std::string outputs[2];
    std::vector<std::string> with;
    {
      capture c;
      bnl::log::console console(source);
      use_logger u(&console);
      with = play<C>(script);
      outputs[0] = strip(c.take(0));
      outputs[1] = strip(c.take(1));
    }
    compare(plain, with, "the console logger");
    // Each message shows up where it belongs, in order.
    size_t at[2] = { 0, 0 };
    for (const message_t &m : r.messages) {
      int side = m.l >= level::warning ? 1 : 0;
      std::string expected = strip(m.text) + "\n";
      size_t found = outputs[side].find(expected, at[side]);
      CHECK(found != std::string::npos, "the message " << text(m.text, 200) << " is not on " << (side == 0 ? "standard output" : "standard error")
                                                       << ": " << text(outputs[side], 500));
      at[side] = found + expected.size();
    }
    for (int side = 0; side < 2; side++) {
      CHECK(at[side] == outputs[side].size(), "more than the messages on " << (side == 0 ? "standard output" : "standard error") << ": "
                                                                           << text(outputs[side].substr(at[side]), 300));
    }
    g.label("with the console logger");
  }
  if (!r.messages.empty()) {
    g.nontrivial();
  }
  g.label("messages", r.messages.size());
}

static void
console_lines(gen &g)
{
  bool source = g.chance(1, 2);
  bnl::log::console console(source);
  const bnl::base::log::api &api = console;
  std::string failed;
  struct line {
    level l;
    std::string text;
    std::string outputs[2];
    int line;
    std::string file;
  };
  std::vector<line> lines;
  for (size_t n = 0; g.more(n, 1, 12, 4); n++) {
    line x;
    x.l = static_cast<level>(g.draw(4));
    x.text = gen_token(g, g.chance(1, 200) ? 200000 : g.chance(1, 20) ? 5000 : 60, false);
    x.line = static_cast<int>(g.range(1, 100000));
    x.file = g.chance(1, 2) ? "dir/file.cpp" : gen_token(g, 20, true) + ".hpp";
    lines.push_back(x);
  }
  {
    capture c;
    for (line &x : lines) {
      switch (x.text.size() % 3) {
        case 0:
          api(x.l, x.file.c_str(), "function", x.line, "{}", x.text);
          break;
        case 1:
          api(x.l, x.file.c_str(), "function", x.line, "{}{}", x.text.substr(0, 1), x.text.substr(1));
          break;
        default:
          x.text = "at " + std::to_string(x.line) + " {" + x.text + "}";
          api(x.l, x.file.c_str(), "function", x.line, "at {} {{{}}}", x.line, x.text.substr(x.text.find('{') + 1, x.text.size() - x.text.find('{') - 2));
          break;
      }
      x.outputs[0] = c.take(0);
      x.outputs[1] = c.take(1);
    }
  }
  static const char *const names[] = { "TRACE", "DEBUG", "INFO", "WARN", "ERROR" };
  for (const line &x : lines) {
    int side = x.l >= level::warning ? 1 : 0;
    g.note(std::string(names[static_cast<int>(x.l)]) + " " + text(x.text) + " gives " + text(x.outputs[side], 300));
    CHECK(x.outputs[1 - side].empty(), "a message of level " << names[static_cast<int>(x.l)] << " left " << text(x.outputs[1 - side]) << " on "
                                                             << (side == 0 ? "standard error" : "standard output"));
    std::string s = strip(x.outputs[side]);
    CHECK(!s.empty() && s.back() == '\n' && s.find('\n') == s.size() - 1, "not one line: " << text(s, 300));
    s.pop_back();
    CHECK(s.size() > 9 && isdigit(s[0]) && isdigit(s[1]) && s[2] == ':' && isdigit(s[3]) && isdigit(s[4]) && s[5] == ':', "no time: " << text(s, 300));
    CHECK(s.find(names[static_cast<int>(x.l)]) == 9, "no level: " << text(s, 300));
    std::string where = x.file + ":" + std::to_string(x.line) + ": ";
    size_t at = s.size() - x.text.size();
    CHECK(s.size() >= x.text.size() && s.substr(at) == x.text, "the line " << text(s, 300) << " does not end with the message " << text(x.text));
    std::string before = s.substr(0, at);
    bool has = before.size() >= where.size() && before.substr(before.size() - where.size()) == where;
    CHECK(has == source, (source ? "no source location in " : "a source location in ") << text(s, 300));
  }
  g.nontrivial();
}

PART("scripts, server", scripts<server_t>, 60000, 300000);
PART("scripts, client", scripts<client_t>, 60000, 300000);
PART("console lines", console_lines, 40000, 200000);
