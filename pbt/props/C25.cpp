// C25: the QPACK interop tools, run as programs on generated files.
#include "hostile.hpp"

#include <cstdlib>
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>

PROPERTY("C25",
         "header files (lists of headers of any bytes the format can hold, comments, extra blank lines, with or without a final "
         "blank line or newline) are encoded by the tool and its output read by a reference container and header block decoder, then decoded "
         "by the other tool; container files written by a randomised reference encoder (any stream numbers and representations) are "
         "decoded and compared with the text they stand for; truncated, mutated, mislabelled and otherwise broken files of both kinds are "
         "judged by the reference and must give a non-zero exit status, without a crash or sanitizer report; non-trivial: at least two "
         "header lists, or a broken file");

extern char **environ;

// --- files and programs ---

static const std::string &
scratch()
{
  static pid_t owner = 0;
  static std::string dir;
  if (owner != getpid()) {
    const char *top = getenv("PBT_TMP");
    std::string path = std::string(top != nullptr ? top : "/tmp") + "/tools-XXXXXX";
    CHECK(mkdtemp(&path[0]) != nullptr, "mkdtemp failed");
    dir = path;
    owner = getpid();
    if (top == nullptr) {
      atexit([]() {
        for (const char *f : { "/in", "/out", "/back" }) {
          unlink((dir + f).c_str());
        }
        rmdir(dir.c_str());
      });
    }
  }
  return dir;
}

static void
write_file(const std::string &path, const std::string &s)
{
  FILE *f = fopen(path.c_str(), "wb");
  CHECK(f != nullptr, "cannot write " << path);
  bool ok = fwrite(s.data(), 1, s.size(), f) == s.size();
  ok = fclose(f) == 0 && ok;
  CHECK(ok, "cannot write " << path);
}

static std::string
read_file(const std::string &path)
{
  std::string s;
  FILE *f = fopen(path.c_str(), "rb");
  CHECK(f != nullptr, "the tool wrote no file " << path);
  char buffer[4096];
  for (size_t n; (n = fread(buffer, 1, sizeof(buffer), f)) > 0;) {
    s.append(buffer, n);
  }
  fclose(f);
  return s;
}

enum { SANITIZER = 99 };

// The exit status; a crash or a sanitizer report is a failure.
static int
run(const std::string &tool, std::vector<std::string> arguments)
{
  static const std::string build = getenv("PBT_BUILD") != nullptr ? getenv("PBT_BUILD") : "";
  static std::string bin = build + "/bnl/bnl/http3/bin/qpack-interop-";
  std::string path = bin + tool;
  CHECK(access(path.c_str(), X_OK) == 0, "there is no tool " << path);
  std::vector<char *> argv{ &path[0] };
  for (std::string &a : arguments) {
    argv.push_back(&a[0]);
  }
  argv.push_back(nullptr);
  std::string asan = "ASAN_OPTIONS=detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=3000:max_malloc_fill_size=65536:malloc_fill_byte=239:symbolize=1";
  std::string ubsan = "UBSAN_OPTIONS=exitcode=99:print_stacktrace=1";
  std::string locale = "LC_ALL=C.UTF-8";
  std::vector<char *> env{ &asan[0], &ubsan[0], &locale[0], nullptr };
  posix_spawn_file_actions_t actions;
  posix_spawn_file_actions_init(&actions);
  posix_spawn_file_actions_addopen(&actions, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&actions, 1, "/dev/null", O_WRONLY, 0);
  std::string log = scratch() + "/log";
  posix_spawn_file_actions_addopen(&actions, 2, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  pid_t pid = 0;
  int rc = posix_spawn(&pid, path.c_str(), &actions, nullptr, argv.data(), env.data());
  posix_spawn_file_actions_destroy(&actions);
  CHECK(rc == 0, "cannot run " << path);
  int status = 0;
  while (waitpid(pid, &status, 0) < 0) {
    CHECK(errno == EINTR, "waitpid failed");
  }
  CHECK(WIFEXITED(status), "qpack-interop-" << tool << " was ended by signal " << WTERMSIG(status) << ": " << text(read_file(log), 1500));
  CHECK(WEXITSTATUS(status) != SANITIZER, "qpack-interop-" << tool << ": " << read_file(log).substr(0, 3000));
  return WEXITSTATUS(status);
}

// --- the container format ---

using lists = std::vector<ref::headers>;

static std::string
entry(uint64_t id, const std::string &block)
{
  std::string s;
  for (int i = 7; i >= 0; i--) {
    s.push_back(static_cast<char>(id >> (8 * i)));
  }
  for (int i = 3; i >= 0; i--) {
    s.push_back(static_cast<char>(block.size() >> (8 * i)));
  }
  return s + block;
}

struct container {
  bool ok = true;
  std::string why;
  std::vector<uint64_t> ids;
  lists all;
  bool empty_list = false;
};

static container
parse(const std::string &s)
{
  container c;
  size_t at = 0;
  while (at < s.size()) {
    if (s.size() - at < 12) {
      c.ok = false;
      c.why = "an incomplete entry";
      return c;
    }
    uint64_t id = 0;
    uint64_t size = 0;
    for (int i = 0; i < 8; i++) {
      id = id << 8 | ref::at(s, at++);
    }
    for (int i = 0; i < 4; i++) {
      size = size << 8 | ref::at(s, at++);
    }
    if (size == 0) {
      c.empty_list = true;
    }
    if (s.size() - at < size) {
      c.ok = false;
      c.why = "a block longer than the file";
      return c;
    }
    ref::headers h;
    if (ref::qpack_section(s.substr(at, size), h) != ref::status::ok) {
      c.ok = false;
      c.why = "an invalid block";
      return c;
    }
    for (const ref::header &x : h) {
      if (ref::has_uppercase(x.name)) {
        c.ok = false;
        c.why = "an uppercase name";
        return c;
      }
    }
    if (h.empty()) {
      c.empty_list = true;
    }
    at += size;
    c.ids.push_back(id);
    c.all.push_back(h);
  }
  return c;
}

static std::string
as_text(const lists &all)
{
  std::string s;
  for (const ref::headers &h : all) {
    for (const ref::header &x : h) {
      s += x.name + "\t" + x.value + "\n";
    }
    s += "\n";
  }
  return s;
}

// --- header files ---

static std::string
clean(std::string s, bool name)
{
  for (char &c : s) {
    if (c == '\n' || (name && c == '\t')) {
      c = ' ';
    }
  }
  if (name && !s.empty() && s[0] == '#') {
    s[0] = '.';
  }
  return s;
}

static void
encode_tool(gen &g)
{
  std::string file;
  lists expected;
  std::string broken;
  bool may_break = g.chance(1, 5);
  auto noise = [&]() {
    for (size_t n = 0; g.more(n, 0, 3, 0.2); n++) {
      file += "#" + (g.chance(1, 2) ? clean(g.bytes(g.size(12)), false) : " comment\twith a tab") + "\n";
    }
  };
  for (size_t n = 0; g.more(n, 0, 30, 4); n++) {
    ref::headers h;
    noise();
    for (size_t m = 0; g.more(m, 1, 20, 4); m++) {
      ref::header x = gen_header(g, g.chance(1, 20) ? 3000 : 40);
      x.name = clean(x.name, true);
      x.value = clean(x.value, false);
      if (may_break && g.chance(1, 8)) {
        switch (g.draw(1)) {
          case 0:
            broken = "an uppercase name";
            x.name.insert(static_cast<size_t>(g.draw(x.name.size())), 1, static_cast<char>('A' + g.draw(25)));
            break;
          default:
            broken = "a line without a TAB";
            file += g.chance(1, 2) ? "x" : clean(x.name, true) + "\r";
            file += "\n";
            break;
        }
      }
      h.push_back(x);
      file += x.name + "\t" + x.value + "\n";
      noise();
    }
    expected.push_back(h);
    file += "\n";
    for (size_t m = 0; g.more(m, 0, 3, 0.3); m++) {
      file += "\n";
    }
  }
  noise();
  if (!file.empty() && g.chance(1, 2)) {
    // Without the last empty line, or even the last newline.
    while (!file.empty() && file.back() == '\n') {
      file.pop_back();
    }
    if (g.chance(1, 2)) {
      file += "\n";
    }
    g.label("no empty line at the end");
  }
  g.note("header file: " + text(file, 600));
  const std::string &dir = scratch();
  write_file(dir + "/in", file);
  write_file(dir + "/out", g.chance(1, 3) ? g.bytes(40) : "");
  int rc = run("encode", { dir + "/in", dir + "/out" });
  if (!broken.empty()) {
    g.nontrivial();
    g.label("broken header file: " + broken);
    CHECK(rc != 0, "exit status 0 for a file with " << broken);
    return;
  }
  CHECK(rc == 0, "exit status " << rc << " for a valid file");
  std::string out = read_file(dir + "/out");
  container c = parse(out);
  CHECK(c.ok, "the output holds " << c.why << ": " << text(out, 500));
  CHECK(c.all.size() == expected.size(), c.all.size() << " entries for " << expected.size() << " header lists");
  for (size_t i = 0; i < expected.size(); i++) {
    CHECK(c.ids[i] == i + 1, "entry " << i << " has number " << c.ids[i]);
    CHECK(c.all[i] == expected[i], "list " << i << " is " << show(c.all[i]) << " instead of " << show(expected[i]));
  }
  // And back.
  rc = run("decode", { dir + "/out", dir + "/back" });
  CHECK(rc == 0, "exit status " << rc << " for what the encoding tool made");
  std::string back = read_file(dir + "/back");
  CHECK(back == as_text(expected), "decoded to " << text(back, 600) << "\ninstead of " << text(as_text(expected), 600));
  if (expected.size() > 1) {
    g.nontrivial();
  }
  g.label("header lists", expected.size());
}

static void
decode_tool(gen &g)
{
  std::string file;
  size_t entries = 0;
  bool break_block = g.chance(1, 6);
  for (size_t n = 0; g.more(n, 0, 20, 4); n++) {
    std::string block(1, '\0');
    block += g.chance(1, 3) ? ref::prefix_int(g.draw(300), 7, 0) : std::string(1, '\0');
    for (size_t m = 0; g.more(m, 1, 20, 4); m++) {
      ref::header x = gen_header(g, g.chance(1, 20) ? 3000 : 40);
      if (break_block && g.chance(1, 10)) {
        x.name += "Q";
      }
      block += net::gen_line_for(g, x);
    }
    if (break_block && g.chance(1, 3)) {
      switch (g.draw(3)) {
        case 0:
          block += ref::prefix_int(99 + g.integer(0, ref::VARINT_MAX), 6, 0xc0);
          break;
        case 1:
          block += ref::prefix_int(g.draw(98), 6, 0x80);
          break;
        case 2:
          block[0] = static_cast<char>(g.range(1, 255));
          break;
        default:
          block.resize(static_cast<size_t>(g.draw(block.size())));
          break;
      }
    }
    file += entry(g.chance(1, 2) ? n + 1 : g.integer(0, UINT64_MAX), block);
    entries++;
  }
  if (!file.empty() && g.chance(1, 4)) {
    for (size_t n = 0; g.more(n, 1, 4, 2); n++) {
      switch (g.draw(4)) {
        case 0:
          file.resize(static_cast<size_t>(g.draw(file.size())));
          break;
        case 1:
          file += g.bytes(static_cast<size_t>(g.range(1, 14)));
          break;
        case 2: // the length of the first entry
          if (file.size() >= 12) {
            file[8 + static_cast<size_t>(g.draw(3))] = static_cast<char>(g.draw(255));
          }
          break;
        case 3:
          if (!file.empty()) {
            file[static_cast<size_t>(g.draw(file.size() - 1))] = static_cast<char>(g.draw(255));
          }
          break;
        default:
          if (file.size() >= 12) {
            file[11] = static_cast<char>(file[11] + (g.chance(1, 2) ? 1 : -1));
          }
          break;
      }
    }
  }
  container c = parse(file);
  if (c.empty_list) {
    throw pbt::discard(); // nothing to say about lists without headers
  }
  g.note("container: " + pbt::hex(file, 400));
  const std::string &dir = scratch();
  write_file(dir + "/in", file);
  write_file(dir + "/out", g.chance(1, 3) ? g.bytes(40) : "");
  int rc = run("decode", { dir + "/in", dir + "/out" });
  if (!c.ok) {
    g.nontrivial();
    g.label("broken container: " + c.why);
    CHECK(rc != 0, "exit status 0 for a file with " << c.why);
    return;
  }
  CHECK(rc == 0, "exit status " << rc << " for a valid file");
  std::string out = read_file(dir + "/out");
  CHECK(out == as_text(c.all), "decoded to " << text(out, 600) << "\ninstead of " << text(as_text(c.all), 600));
  if (c.all.size() > 1) {
    g.nontrivial();
  }
  g.label("entries", entries);
}

static void
missing(gen &g)
{
  const std::string &dir = scratch();
  std::string tool = g.chance(1, 2) ? "encode" : "decode";
  write_file(dir + "/out", "");
  int rc = 0;
  switch (g.draw(3)) {
    case 0:
      rc = run(tool, { dir + "/none", dir + "/out" });
      break;
    case 1:
      rc = run(tool, { dir + "/out" });
      break;
    case 2:
      rc = run(tool, {});
      break;
    default:
      rc = run(tool, { dir + "/out", dir + "/none/out" });
      break;
  }
  CHECK(rc != 0, "qpack-interop-" << tool << " succeeds without its files");
  g.nontrivial();
}

// What only shows in files larger than the other parts make: every byte of an entry's length, and of its number.
static void
large(gen &g)
{
  lists all;
  auto repeat = [](const std::string &unit, size_t size) {
    std::string s;
    s.reserve(size + unit.size());
    while (s.size() < size) {
      s += unit;
    }
    return s;
  };
  auto unit = [&]() {
    std::string s = clean(g.bytes(static_cast<size_t>(g.range(1, 30))), false);
    return s;
  };
  switch (g.draw(7)) {
    case 0: { // more than 2^16 lists
      ref::headers h{ { "a", clean(g.bytes(static_cast<size_t>(g.draw(2))), false) } };
      all.assign(static_cast<size_t>(g.range(65530, 132000)), h);
      all.back()[0].value = unit();
      all[65535 % all.size()][0].value = unit();
      g.label("many header lists");
      break;
    }
    case 1: { // more than 2^24 bytes
      all.push_back({ { "x", repeat(unit(), static_cast<size_t>(g.range(17, 40)) << 20U) } });
      all.push_back({ { "y", unit() } });
      g.label("a block of more than 16 MB");
      break;
    }
    default:
      for (size_t n = 0; g.more(n, 1, 4, 1); n++) {
        ref::headers h;
        for (size_t m = 0; g.more(m, 1, 12, 3); m++) {
          h.push_back({ "x" + clean(gen_header(g, 40).name, true), repeat(unit(), static_cast<size_t>(g.range(1, 90000))) });
        }
        all.push_back(h);
      }
      g.label("blocks of 64 kB and more");
      break;
  }
  std::string file = as_text(all);
  const std::string &dir = scratch();
  write_file(dir + "/in", file);
  int rc = run("encode", { dir + "/in", dir + "/out" });
  CHECK(rc == 0, "exit status " << rc << " for a valid file");
  container c = parse(read_file(dir + "/out"));
  CHECK(c.ok, "the output holds " << c.why);
  CHECK(c.all.size() == all.size(), c.all.size() << " entries for " << all.size() << " header lists");
  for (size_t i = 0; i < all.size(); i++) {
    CHECK(c.ids[i] == i + 1, "entry " << i << " has number " << c.ids[i]);
    CHECK(c.all[i] == all[i], "list " << i << " differs");
  }
  rc = run("decode", { dir + "/out", dir + "/back" });
  CHECK(rc == 0, "exit status " << rc << " for what the encoding tool made");
  CHECK(read_file(dir + "/back") == file, "the decoded file differs from the encoded one");
  g.nontrivial();
}

PART("encode", encode_tool, 4000, 60000);
PART("decode", decode_tool, 6000, 90000);
PART("missing files", missing, 60, 200);
PART("large files", large, 40, 400);
