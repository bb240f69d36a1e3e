#include "engine.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <unordered_set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// ---------------------------------------------------------------------------
// Allocation accounting and constant harvesting.

extern "C" int
__sanitizer_install_malloc_and_free_hooks(
  void (*malloc_hook)(const volatile void *, size_t),
  void (*free_hook)(const volatile void *));

extern "C" size_t
__sanitizer_get_allocated_size(const volatile void *);

static int64_t live = 0;
static int64_t bytes_now = 0;
static int64_t bytes_peak = 0;

static void
on_malloc(const volatile void *, size_t n)
{
  live++;
  bytes_now += static_cast<int64_t>(n);
  if (bytes_now > bytes_peak) {
    bytes_peak = bytes_now;
  }
}

static void
on_free(const volatile void *p)
{
  if (p != nullptr) {
    live--;
    bytes_now -= static_cast<int64_t>(__sanitizer_get_allocated_size(p));
  }
}

namespace pbt {
int64_t
live_blocks()
{
  return live;
}

int64_t
live_bytes()
{
  return bytes_now;
}

int64_t
peak_bytes(bool reset)
{
  if (reset) {
    bytes_peak = bytes_now;
  }
  return bytes_peak;
}
}

static constexpr size_t MAGIC_MAX = 4096;
static uint64_t magic_table[MAGIC_MAX * 2];
static size_t magic_count = 0;

static inline void
harvest(uint64_t v)
{
  if (v < 4) {
    return;
  }
  size_t h = static_cast<size_t>((v * 0x9e3779b97f4a7c15ULL) >> 51); // 13 bits
  for (size_t i = 0; i < 16; i++) {
    uint64_t &slot = magic_table[(h + i) % (MAGIC_MAX * 2)];
    if (slot == v) {
      return;
    }
    if (slot == 0) {
      if (magic_count >= MAGIC_MAX) {
        return;
      }
      slot = v;
      magic_count++;
      return;
    }
  }
}

extern "C" {
#ifndef PBT_LIBFUZZER
void __sanitizer_cov_trace_pc(void) {}
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_const_cmp1(uint8_t c, uint8_t) { harvest(c); }
void __sanitizer_cov_trace_const_cmp2(uint16_t c, uint16_t) { harvest(c); }
void __sanitizer_cov_trace_const_cmp4(uint32_t c, uint32_t) { harvest(c); }
void __sanitizer_cov_trace_const_cmp8(uint64_t c, uint64_t) { harvest(c); }
void __sanitizer_cov_trace_cmpf(float, float) {}
void __sanitizer_cov_trace_cmpd(double, double) {}
void
__sanitizer_cov_trace_switch(uint64_t, void *cases)
{
  uint64_t *p = static_cast<uint64_t *>(cases);
  for (uint64_t i = 0; i < p[0] && i < 300; i++) {
    harvest(p[2 + i]);
  }
}
#endif
}

namespace pbt {

const std::vector<uint64_t> &
magic()
{
  static std::vector<uint64_t> values;
  static size_t seen = 0;
  if (values.capacity() == 0) {
    values.reserve(MAGIC_MAX);
  }
  if (seen != magic_count) {
    values.clear();
    for (uint64_t v : magic_table) {
      if (v != 0) {
        values.push_back(v);
      }
    }
    seen = magic_count;
  }
  return values;
}

uint64_t
gen::integer(uint64_t lo, uint64_t hi)
{
  uint64_t span = hi - lo;
  return lo + biased(span, [=](rng &r) -> uint64_t {
           if (span < 8) {
             return r.upto(span);
           }
           switch (r.upto(9)) {
             case 0:
             case 1:
               return r.upto(std::min<uint64_t>(span, 7));
             case 2:
               return r.upto(std::min<uint64_t>(span, 127));
             case 3:
             case 4: { // 2^k + {-2..2}, relative to zero or to lo
               uint64_t bits = 0;
               while (bits < 63 && (hi >> (bits + 1)) != 0) {
                 bits++;
               }
               uint64_t v = (1ULL << r.upto(bits)) + r.upto(4) - 2;
               return v >= lo && v <= hi ? v - lo : v % (span == UINT64_MAX ? span : span + 1);
             }
             case 5: { // the ends
               uint64_t d = r.upto(2);
               return r.upto(1) ? span - d : d;
             }
             case 6: { // harvested constants
               const std::vector<uint64_t> &m = magic();
               if (m.empty()) {
                 return r.upto(span);
               }
               for (int i = 0; i < 6; i++) {
                 uint64_t v = m[r.upto(m.size() - 1)] + r.upto(2) - 1;
                 if (v >= lo && v <= hi) {
                   return v - lo;
                 }
               }
               return r.upto(span);
             }
             case 7: { // random bit width
               uint64_t bits = 0;
               while (bits < 63 && (span >> (bits + 1)) != 0) {
                 bits++;
               }
               uint64_t w = r.upto(bits);
               return std::min<uint64_t>(span, r.next() & ((2ULL << w) - 1));
             }
             default:
               return r.upto(span);
           }
         });
}

size_t
gen::pick(std::initializer_list<unsigned> weights)
{
  unsigned total = 0;
  for (unsigned w : weights) {
    total += w;
  }
  std::vector<unsigned> ws(weights);
  size_t choice = static_cast<size_t>(biased(ws.size() - 1, [&](rng &r) -> uint64_t {
    unsigned v = static_cast<unsigned>(r.upto(total - 1));
    for (size_t i = 0; i < ws.size(); i++) {
      if (v < ws[i]) {
        return i;
      }
      v -= ws[i];
    }
    return 0;
  }));
  // Replayed and fuzzed choices know nothing of the weights.
  while (ws[choice] == 0) {
    choice = (choice + 1) % ws.size();
  }
  return choice;
}

size_t
gen::size(size_t max)
{
  return static_cast<size_t>(biased(max, [=](rng &r) -> uint64_t {
    static const uint64_t marks[] = { 0,   1,   2,    3,    15,   16,   19,
                                      20,  21,  31,   32,   62,   63,   64,
                                      65,  126, 127,  128,  129,  254,  255,
                                      256, 257, 511,  512,  1000, 1023, 1024,
                                      1025, 2047, 4095, 4096, 4097, 16383,
                                      16384, 16385, 65535, 65536, 65537, 131072,
                                      262144, 1048575, 1048576, 1048577, 2097152 };
    switch (r.upto(9)) {
      case 0:
      case 1:
      case 2:
        return r.upto(std::min<uint64_t>(max, 8));
      case 3:
      case 4:
        return r.upto(std::min<uint64_t>(max, 40));
      case 5:
      case 6: {
        for (int i = 0; i < 8; i++) {
          uint64_t v = marks[r.upto(sizeof(marks) / sizeof(*marks) - 1)];
          if (v <= max) {
            return v;
          }
        }
        return r.upto(max);
      }
      case 7: {
        const std::vector<uint64_t> &m = magic();
        for (int i = 0; i < 6 && !m.empty(); i++) {
          uint64_t v = m[r.upto(m.size() - 1)] + r.upto(2) - 1;
          if (v <= max) {
            return v;
          }
        }
        return r.upto(max);
      }
      case 8: { // log-uniform
        uint64_t bits = 0;
        while (bits < 63 && (max >> (bits + 1)) != 0) {
          bits++;
        }
        return std::min<uint64_t>(max, r.next() & ((2ULL << r.upto(bits)) - 1));
      }
      default:
        return r.upto(std::min<uint64_t>(max, 300));
    }
  }));
}

std::string
gen::bytes(size_t n)
{
  std::string result;
  result.reserve(n);
  if (n <= 12) {
    for (size_t i = 0; i < n; i++) {
      result.push_back(static_cast<char>(draw(255)));
    }
    return result;
  }
  uint64_t style = draw(3);
  uint64_t seed = draw(0xffffffff);
  rng r(seed * 7919 + 13);
  for (size_t i = 0; i < n; i++) {
    switch (style) {
      case 0: // a position-dependent pattern: makes misplaced bytes visible
        result.push_back(static_cast<char>((i * 7 + (i >> 8) + seed) & 0xff));
        break;
      case 1:
        result.push_back(static_cast<char>(r.next() & 0xff));
        break;
      case 2:
        result.push_back(static_cast<char>('a' + r.upto(25)));
        break;
      default:
        result.push_back(static_cast<char>(r.upto(3) == 0 ? 0xff : r.upto(2)));
        break;
    }
  }
  return result;
}

std::vector<size_t>
gen::segments(size_t n)
{
  std::vector<size_t> result;
  uint64_t style = pick({ 3, 3, 2, 2 });
  size_t left = n;
  // Reading a rope costs bytes times segments.
  const size_t most = std::max<size_t>(6, std::min<size_t>(600, 150000 / (n + 1)));
  switch (style) {
    case 0:
      result.push_back(n);
      break;
    case 1: // few random cuts
      while (left > 0 && result.size() < 8) {
        size_t s = static_cast<size_t>(draw(left));
        result.push_back(s);
        left -= s;
      }
      if (left > 0) {
        result.push_back(left);
      }
      break;
    case 2: { // small pieces
      size_t cap = static_cast<size_t>(range(1, 24));
      if (n / cap > most) {
        cap = n / most + 1;
      }
      while (left > 0) {
        size_t s = std::min<size_t>(left, static_cast<size_t>(draw(cap)));
        if (s == 0 && result.size() > 3 * most) {
          s = std::min<size_t>(left, cap);
        }
        result.push_back(s);
        left -= s;
      }
      break;
    }
    default: { // one byte at a time (bounded), then the rest
      size_t limit = most;
      while (left > 0 && limit-- > 0) {
        result.push_back(1);
        left--;
      }
      if (left > 0) {
        result.push_back(left);
      }
      break;
    }
  }
  if (result.empty()) {
    result.push_back(0);
  }
  return result;
}

std::string
hex(const void *data, size_t size, size_t max)
{
  static const char *digits = "0123456789abcdef";
  const uint8_t *p = static_cast<const uint8_t *>(data);
  std::string s;
  for (size_t i = 0; i < size && i < max; i++) {
    s += digits[p[i] >> 4];
    s += digits[p[i] & 15];
  }
  if (size > max) {
    s += "...(" + std::to_string(size) + " bytes)";
  }
  return s;
}

std::string
hex(const std::string &bytes, size_t max)
{
  return hex(bytes.data(), bytes.size(), max);
}

property &
the_property()
{
  static property p;
  return p;
}

} // namespace pbt

// ---------------------------------------------------------------------------

using namespace pbt;

static uint64_t
fnv(const std::string &s, uint64_t h = 1469598103934665603ULL)
{
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ULL;
  }
  return h;
}

static uint64_t
hash_choices(const std::string &part, const std::vector<uint64_t> &choices)
{
  uint64_t h = fnv(part);
  for (uint64_t c : choices) {
    h = (h ^ c) * 0x9e3779b97f4a7c15ULL;
    h ^= h >> 29;
  }
  return h;
}

// A case to run: part/enumeration by name, and where the choices come from.
struct job {
  bool is_enum = false;
  size_t which = 0;   // index in parts / enumerations
  uint64_t index = 0; // enumeration index
  uint64_t seed = 0;  // random mode
  bool replay = false;
  std::vector<uint64_t> choices;
};

struct shared_result {
  volatile uint32_t status; // 0 pass, 1 property failure, 2 discard, 3 running
  volatile uint64_t n_choices;
  volatile uint64_t case_index;
  volatile uint64_t done;
  char message[8192];
};

// Where a process that dies mid-case leaves the choices it had drawn.
struct choice_area {
  volatile uint64_t n;
  uint64_t v[1 << 20];
};

static choice_area *dump_target = nullptr;
static gen *dump_current = nullptr;

static void
dump_choices()
{
  if (dump_target == nullptr || dump_current == nullptr) {
    return;
  }
  const std::vector<uint64_t> &c = dump_current->choices();
  uint64_t n = std::min<uint64_t>(c.size(), 1 << 20);
  for (uint64_t i = 0; i < n; i++) {
    dump_target->v[i] = c[i];
  }
  dump_target->n = n;
  dump_current = nullptr;
}

static void
dump_on_signal(int sig)
{
  dump_choices();
  signal(sig, SIG_DFL);
  raise(sig);
}

static choice_area *
new_area()
{
  return static_cast<choice_area *>(mmap(nullptr,
                                         sizeof(choice_area),
                                         PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
                                         -1,
                                         0));
}

extern "C" void
__sanitizer_set_death_callback(void (*callback)(void));

static void
install_dumper(choice_area *target)
{
  dump_target = target;
  __sanitizer_set_death_callback(dump_choices);
  for (int sig : { SIGABRT, SIGVTALRM, SIGILL, SIGTRAP }) {
    signal(sig, dump_on_signal);
  }
}

static void
run_body(const job &j, gen &g)
{
  const property &p = the_property();
  if (j.is_enum) {
    p.enumerations[j.which].fn(j.index, g);
  } else {
    p.parts[j.which].fn(g);
  }
}

enum class outcome { pass, fail, discarded };

static outcome
run_case(const job &j, gen &g, std::string &message)
{
  try {
    run_body(j, g);
  } catch (const discard &) {
    return outcome::discarded;
  } catch (const failure &f) {
    message = f.what();
    return outcome::fail;
  } catch (const std::exception &e) {
    message = std::string("unexpected exception: ") + e.what();
    return outcome::fail;
  } catch (...) {
    message = "unexpected exception of unknown type";
    return outcome::fail;
  }
  return outcome::pass;
}

static double cpu_limit = 20.0;

static void
arm_timer(double seconds)
{
  itimerval t{};
  t.it_value.tv_sec = static_cast<time_t>(seconds);
  t.it_value.tv_usec = static_cast<suseconds_t>((seconds - static_cast<double>(t.it_value.tv_sec)) * 1e6);
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

static std::string
read_tail(const std::string &path, size_t max)
{
  std::ifstream in(path, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  std::string s = ss.str();
  // Skip to the first sanitizer / assertion line if there is one.
  size_t at = s.find("runtime error");
  size_t at2 = s.find("ERROR: AddressSanitizer");
  size_t at3 = s.find("Assertion");
  size_t first = std::min(at, std::min(at2, at3));
  if (first != std::string::npos) {
    size_t nl = s.rfind('\n', first);
    s = s.substr(nl == std::string::npos ? 0 : nl + 1);
    if (s.size() > max) {
      s.resize(max);
    }
    return s;
  }
  return s.size() > max ? s.substr(s.size() - max) : s;
}

static std::string
describe_death(int status)
{
  std::ostringstream os;
  if (WIFSIGNALED(status)) {
    int sig = WTERMSIG(status);
    if (sig == SIGVTALRM) {
      os << "no end: the case used more than " << cpu_limit << " s of CPU time";
    } else {
      os << "the process was killed by signal " << sig << " (" << strsignal(sig) << ")";
    }
  } else {
    os << "the process exited with status " << WEXITSTATUS(status);
  }
  return os.str();
}

static std::string tmp_dir;

// For file names: letters, digits and dashes.
[[maybe_unused]] static std::string
file_name(const std::string &s)
{
  std::string r;
  for (char c : s.substr(0, 40)) {
    r.push_back((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') ? c : '_');
  }
  return r;
}

struct child_result {
  bool failed = false;
  bool killed_outside = false; // SIGKILL: not evidence of anything
  bool hang = false;
  std::string message;
  std::vector<uint64_t> choices;
  std::string notes;
};

// Runs one case in a forked child and says whether it fails.
static child_result
run_isolated(const job &j, bool verbose)
{
  child_result r;
  std::string err = tmp_dir + "/child." + std::to_string(getpid()) + ".err";
  std::string out = tmp_dir + "/child." + std::to_string(getpid()) + ".out";
  std::string notes = tmp_dir + "/child." + std::to_string(getpid()) + ".notes";
  unlink(out.c_str());
  shared_result *shm = static_cast<shared_result *>(
    mmap(nullptr, sizeof(shared_result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  shm->status = 3;
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
    arm_timer(cpu_limit);
    std::unique_ptr<gen> g(j.replay ? new gen(j.choices) : new gen(j.seed));
    g->verbose = verbose;
    if (verbose) {
      g->notes_file = fopen(notes.c_str(), "w");
    }
    std::string message;
    outcome o = run_case(j, *g, message);
    {
      std::ofstream f(out, std::ios::binary);
      f << g->choices().size() << '\n';
      for (uint64_t c : g->choices()) {
        f << c << ' ';
      }
      f << '\n' << g->notes();
    }
    strncpy(shm->message, message.c_str(), sizeof(shm->message) - 1);
    shm->status = o == outcome::fail ? 1 : o == outcome::discarded ? 2 : 0;
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && shm->status != 3) {
    r.failed = shm->status == 1;
    r.message = shm->message;
    std::ifstream f(out, std::ios::binary);
    size_t n = 0;
    f >> n;
    r.choices.resize(n);
    for (size_t i = 0; i < n; i++) {
      f >> r.choices[i];
    }
    f.get();
    std::stringstream ss;
    ss << f.rdbuf();
    r.notes = ss.str();
  } else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
    r.killed_outside = true;
  } else {
    r.failed = true;
    r.hang = WIFSIGNALED(status) && WTERMSIG(status) == SIGVTALRM;
    r.message = describe_death(status) + "\n" + read_tail(err, 3000);
    r.choices = j.choices;
    if (verbose) {
      std::ifstream f(notes, std::ios::binary);
      std::stringstream ss;
      ss << f.rdbuf();
      r.notes = ss.str();
    }
  }
  unlink(notes.c_str());
  munmap(shm, sizeof(shared_result));
  unlink(err.c_str());
  unlink(out.c_str());
  return r;
}

static double
now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static void
shrink(job &best, child_result &why, double seconds)
{
  double deadline = now() + seconds;
  size_t tries = 0;
  auto attempt = [&](std::vector<uint64_t> c) {
    if (c == best.choices || now() > deadline || tries > 6000) {
      return false;
    }
    tries++;
    job j = best;
    j.choices = c;
    child_result r = run_isolated(j, false);
    if (!r.failed || r.hang) {
      return false;
    }
    // Drop choices the case never consumed.
    if (r.choices.size() < c.size()) {
      c = r.choices;
    }
    best.choices = c;
    why = r;
    return true;
  };

  bool progress = true;
  while (progress && now() < deadline) {
    progress = false;
    // Truncate.
    for (size_t keep = best.choices.size() / 2; best.choices.size() > 1; keep = (keep + best.choices.size()) / 2) {
      if (keep + 1 >= best.choices.size()) {
        break;
      }
      if (attempt(std::vector<uint64_t>(best.choices.begin(), best.choices.begin() + static_cast<long>(keep)))) {
        progress = true;
        break;
      }
    }
    // Delete spans.
    for (size_t span = std::max<size_t>(1, best.choices.size() / 2);; span /= 2) {
      for (size_t i = 0; i + span <= best.choices.size() && now() < deadline;) {
        std::vector<uint64_t> c = best.choices;
        c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + span));
        if (attempt(c)) {
          progress = true;
        } else {
          i += span > 1 ? span / 2 : 1;
        }
      }
      if (span <= 1) {
        break;
      }
    }
    // Zero spans, then minimise single values.
    for (size_t span = 8; span >= 1; span /= 2) {
      for (size_t i = 0; i + span <= best.choices.size() && now() < deadline; i += span) {
        std::vector<uint64_t> c = best.choices;
        bool any = false;
        for (size_t k = 0; k < span; k++) {
          any = any || c[i + k] != 0;
          c[i + k] = 0;
        }
        if (any && attempt(c)) {
          progress = true;
        }
      }
    }
    for (size_t i = 0; i < best.choices.size() && now() < deadline; i++) {
      uint64_t lo = 0;
      while (i < best.choices.size() && best.choices[i] > lo) {
        uint64_t v = best.choices[i];
        std::vector<uint64_t> c = best.choices;
        c[i] = lo + (v - lo) / 2;
        if (attempt(c)) {
          progress = true;
        } else {
          lo = c[i] + 1;
          if (now() > deadline) {
            break;
          }
        }
      }
    }
  }
}

static std::string
json_escape(const std::string &s)
{
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r;
}

static std::string
part_name(const job &j)
{
  return j.is_enum ? the_property().enumerations[j.which].name : the_property().parts[j.which].name;
}

static void
write_replay(const std::string &path, const job &j, const child_result &why, const std::string &notes)
{
  std::ofstream f(path);
  f << "property " << the_property().id << '\n';
  f << (j.is_enum ? "enumeration " : "part ") << part_name(j) << '\n';
  if (j.is_enum) {
    f << "index " << j.index << '\n';
  }
  f << "choices " << j.choices.size();
  for (uint64_t c : j.choices) {
    f << ' ' << c;
  }
  f << "\n--- what failed\n" << why.message << "\n--- the case\n" << notes << '\n';
}

static bool
read_replay(const std::string &path, job &j)
{
  std::ifstream f(path);
  std::string key;
  j.replay = true;
  while (f >> key) {
    if (key == "property") {
      std::string id;
      f >> id;
      if (id != the_property().id) {
        return false;
      }
    } else if (key == "part" || key == "enumeration") {
      std::string name;
      f >> name;
      j.is_enum = key == "enumeration";
      bool found = false;
      size_t n = j.is_enum ? the_property().enumerations.size() : the_property().parts.size();
      for (size_t i = 0; i < n; i++) {
        if ((j.is_enum ? the_property().enumerations[i].name : the_property().parts[i].name) == name) {
          j.which = i;
          found = true;
        }
      }
      if (!found) {
        return false;
      }
    } else if (key == "index") {
      f >> j.index;
    } else if (key == "choices") {
      size_t n = 0;
      f >> n;
      j.choices.resize(n);
      for (size_t i = 0; i < n; i++) {
        f >> j.choices[i];
      }
      return true;
    } else {
      return false;
    }
  }
  return false;
}

struct plan_entry {
  bool is_enum;
  size_t which;
  uint64_t count;
};

#ifdef PBT_LIBFUZZER

extern "C" int
LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
  static const char *only = getenv("PBT_PART");
  const property &p = the_property();
  size_t which = 0;
  if (only != nullptr) {
    for (size_t i = 0; i < p.parts.size(); i++) {
      if (p.parts[i].name == only) {
        which = i;
      }
    }
  } else if (size > 0) {
    // Weighted as in the search, but no part is left out.
    static const std::vector<size_t> map = [&] {
      std::vector<size_t> m;
      double total = 0;
      for (const part &x : p.parts) {
        total += static_cast<double>(x.quick);
      }
      for (size_t i = 0; i < p.parts.size(); i++) {
        m.push_back(i);
      }
      for (size_t i = 0; i < p.parts.size(); i++) {
        m.insert(m.end(), static_cast<size_t>(static_cast<double>(p.parts[i].quick) / total * 200), i);
      }
      m.resize(std::min<size_t>(m.size(), 256));
      return m;
    }();
    which = map[data[0] % map.size()];
    data++;
    size--;
  }
  gen g(data, size);
  job j;
  j.which = which;
  std::string message;
  // The choices are saved before a crash through the death callback.
  static gen *current;
  static size_t current_part;
  current = &g;
  current_part = which;
  static bool installed = false;
  struct saver {
    static void save()
    {
      const char *dir = getenv("PBT_CRASH_DIR");
      if (dir == nullptr || current == nullptr) {
        return;
      }
      job k;
      k.which = current_part;
      k.choices = current->choices();
      child_result why;
      why.message = "found by the coverage-guided tier";
      std::string path = std::string(dir) + "/" + std::to_string(hash_choices("", k.choices)) + ".case";
      current = nullptr;
      write_replay(path, k, why, "");
    }
  };
  if (!installed) {
    installed = true;
    std::set_terminate([] {
      saver::save();
      abort();
    });
    signal(SIGABRT, [](int) {
      saver::save();
      signal(SIGABRT, SIG_DFL);
      abort();
    });
  }
  outcome o = run_case(j, g, message);
  if (o == outcome::fail) {
    saver::save();
    fprintf(stderr, "PROPERTY FAILURE: %s\n", message.c_str());
    __builtin_trap();
  }
  current = nullptr;
  return 0;
}

#else

int
main(int argc, char **argv)
{
  std::string mode = argc > 1 ? argv[1] : "run";
  const property &p = the_property();

  auto env = [](const char *name, const std::string &fallback) {
    const char *v = getenv(name);
    return v != nullptr && *v != 0 ? std::string(v) : fallback;
  };

  tmp_dir = env("PBT_TMP", "/tmp");
  uint64_t seed = strtoull(env("VERIF_SEED", "1").c_str(), nullptr, 10);
  bool thorough = env("VERIF_TIER", "quick") == "thorough";
  size_t workers = strtoull(env("PBT_WORKERS", "8").c_str(), nullptr, 10);
  double scale = atof(env("PBT_SCALE", "1").c_str());
  double cap = atof(env("PBT_CAP", thorough ? "3000" : "420").c_str());
  std::string replay_dir = env("PBT_REPLAY_DIR", ".");
  std::string stats_path = env("PBT_STATS", "");
  std::string only = env("PBT_PART", "");

#ifndef __SANITIZE_THREAD__ // the counters are not for threads
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif

  // --- plan ---
  std::vector<plan_entry> plan;
  uint64_t total = 0;
  auto make_plan = [&] {
  plan.clear();
  total = 0;
  for (size_t i = 0; i < p.enumerations.size(); i++) {
    if (only.empty() || only == p.enumerations[i].name) {
      plan.push_back({ true, i, p.enumerations[i].count });
      total += p.enumerations[i].count;
    }
  }
  for (size_t i = 0; i < p.parts.size(); i++) {
    if (only.empty() || only == p.parts[i].name) {
      uint64_t n = static_cast<uint64_t>(static_cast<double>(thorough ? p.parts[i].thorough : p.parts[i].quick) * scale);
      plan.push_back({ false, i, n });
      total += n;
    }
  }
  };
  make_plan();

  auto job_at = [&](uint64_t index) {
    job j;
    for (const plan_entry &e : plan) {
      if (index < e.count) {
        j.is_enum = e.is_enum;
        j.which = e.which;
        j.index = index;
        j.seed = rng(fnv(p.id + "/" + part_name(j)) ^ rng(seed).next() ^ rng(index * 2 + 1).next()).next();
        return j;
      }
      index -= e.count;
    }
    abort();
  };

  auto prefix_fails = [&](uint64_t upto) {
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      dup2(fd, 1);
      dump_target = nullptr;
      for (uint64_t i = upto % workers; i <= upto; i += workers) {
        job j = job_at(i);
        gen g(j.seed);
        std::string message;
        arm_timer(cpu_limit);
        if (run_case(j, g, message) == outcome::fail) {
          _exit(i == upto ? 77 : 3);
        }
        if (i == upto) {
          _exit(0);
        }
      }
      _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
    }
    return !(WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 3)) &&
           !(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL);
  };

  if (mode == "replay") {
    bool failed = false;
    for (int i = 2; i < argc; i++) {
      {
        std::ifstream f(argv[i]);
        std::string word, id, tier;
        if (f >> word >> id >> word && word == "history") {
          uint64_t upto = 0;
          f >> tier >> seed >> scale >> workers >> upto;
          thorough = tier == "thorough";
          make_plan();
          bool bad = prefix_fails(upto);
          std::cout << argv[i] << ": " << (bad ? "FAILS" : "passes") << '\n';
          failed = failed || bad;
          continue;
        }
      }
      job j;
      if (!read_replay(argv[i], j)) {
        std::cerr << "cannot read " << argv[i] << '\n';
        return 2;
      }
      child_result r = run_isolated(j, true);
      std::cout << argv[i] << ": " << (r.failed ? "FAILS" : r.killed_outside ? "KILLED" : "passes") << '\n'
                << r.message << '\n'
                << r.notes << '\n';
      failed = failed || r.failed;
    }
    return failed ? 1 : 0;
  }

  double started = now();

  // --- search ---
  struct worker_state {
    pid_t pid;
    shared_result *shm;
    choice_area *area;
  };
  std::vector<worker_state> ws(workers);
  std::vector<int64_t> failing;
  std::string first_message;
  uint64_t lost_workers = 0;

  auto start_worker = [&](size_t w, uint64_t from, int generation) {
    ws[w].shm->status = 3;
    ws[w].shm->case_index = UINT64_MAX;
    pid_t pid = fork();
    if (pid != 0) {
      ws[w].pid = pid;
      return;
    }
    std::string base = tmp_dir + "/w" + std::to_string(w) + "." + std::to_string(generation);
    int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
    install_dumper(ws[w].area);
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> hashes;
    std::vector<std::pair<uint64_t, std::vector<uint64_t>>> kept;
    std::map<size_t, unsigned> kept_of;
    std::map<size_t, unsigned> kept_skip;
    uint64_t done = 0;
    uint64_t discarded = 0;
    uint64_t nontrivial = 0;
    bool stopped = false;
    for (uint64_t i = from; i < total; i += workers) {
      if ((done & 15) == 0 && now() - started > cap) {
        stopped = true;
        break;
      }
      ws[w].shm->case_index = i;
      job j = job_at(i);
      gen g(j.seed);
      std::string message;
      arm_timer(cpu_limit);
      dump_current = &g;
      outcome o = run_case(j, g, message);
      done++;
      ws[w].shm->done = ws[w].shm->done + 1;
      if (o == outcome::fail) {
        dump_choices();
        strncpy(ws[w].shm->message, message.c_str(), sizeof(ws[w].shm->message) - 1);
        ws[w].shm->status = 1;
        _exit(77);
      }
      dump_current = nullptr;
      if (o == outcome::discarded) {
        discarded++;
      } else if (g.is_nontrivial()) {
        nontrivial++;
        uint64_t h = j.is_enum ? fnv(part_name(j), j.index * 31 + 7) : hash_choices(part_name(j), g.choices());
        hashes.push_back(h);
        if (w < 3 && !j.is_enum && kept_of[j.which] < 4 && kept_skip[j.which]++ % 41 == 0 && g.choices().size() < 20000) {
          kept_of[j.which]++;
          kept.push_back({ i, g.choices() });
        }
      }
      labels["part " + part_name(j)]++;
      for (const auto &l : g.labels()) {
        labels[l.first] += l.second;
      }
    }
    {
      std::sort(hashes.begin(), hashes.end());
      hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
      std::ofstream f(base + ".hashes", std::ios::binary);
      f.write(reinterpret_cast<const char *>(hashes.data()), static_cast<std::streamsize>(hashes.size() * 8));
      std::ofstream s(base + ".stats");
      s << done << ' ' << discarded << ' ' << nontrivial << ' ' << (stopped ? 1 : 0) << '\n';
      s << kept.size() << '\n';
      for (const auto &k : kept) {
        s << k.first << ' ' << k.second.size();
        for (uint64_t c : k.second) {
          s << ' ' << c;
        }
        s << '\n';
      }
      for (const auto &l : labels) {
        s << l.second << ' ' << l.first << '\n';
      }
    }
    ws[w].shm->status = 0;
    _exit(0);
  };

  for (size_t w = 0; w < workers; w++) {
    ws[w].shm = static_cast<shared_result *>(
      mmap(nullptr, sizeof(shared_result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(ws[w].shm, 0, sizeof(shared_result));
    ws[w].area = new_area();
    start_worker(w, w, 0);
  }

  struct found {
    uint64_t index;
    std::string message;
    std::vector<uint64_t> choices;
  };
  auto choices_of = [&](size_t w) {
    choice_area *a = ws[w].area;
    return std::vector<uint64_t>(a->v, a->v + a->n);
  };
  std::vector<found> candidates;
  std::vector<int> generation(workers, 0);
  size_t running = workers;
  while (running > 0) {
    int status = 0;
    pid_t pid = waitpid(-1, &status, 0);
    if (pid < 0) {
      if (errno == EINTR) {
        continue;
      }
      break;
    }
    size_t w = 0;
    while (w < workers && ws[w].pid != pid) {
      w++;
    }
    if (w == workers) {
      continue;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && ws[w].shm->status == 0) {
      running--;
      continue;
    }
    uint64_t at = ws[w].shm->case_index;
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
      // Ended from outside (memory pressure): continue after that case.
      lost_workers++;
      generation[w]++;
      if (lost_workers < 20 && at != UINT64_MAX) {
        start_worker(w, at + workers, generation[w]);
      } else {
        running--;
      }
      continue;
    }
    std::string message;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
      message = ws[w].shm->message;
    } else {
      message = describe_death(status) + "\n" +
                read_tail(tmp_dir + "/w" + std::to_string(w) + "." + std::to_string(generation[w]) + ".err", 3000);
    }
    candidates.push_back({ at, message, choices_of(w) });
    running--;
    // One failure is enough: stop the other workers.
    for (size_t k = 0; k < workers; k++) {
      if (k != w && ws[k].pid > 0) {
        kill(ws[k].pid, SIGTERM);
      }
    }
    // Drain: collect what other workers reported meanwhile.
    while (running > 0 && (pid = waitpid(-1, &status, 0)) > 0) {
      for (size_t k = 0; k < workers; k++) {
        if (ws[k].pid == pid) {
          running--;
          if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {
            candidates.push_back({ ws[k].shm->case_index, ws[k].shm->message, choices_of(k) });
          }
        }
      }
    }
    break;
  }

  // --- confirm, shrink, report ---
  std::sort(candidates.begin(), candidates.end(), [](const found &a, const found &b) { return a.index < b.index; });
  uint64_t violations = 0;
  uint64_t unconfirmed = 0;
  std::string replay_path;
  for (const found &c : candidates) {
    job j = job_at(c.index);
    j.replay = true;
    j.choices = c.choices;
    child_result r = run_isolated(j, false);
    bool all = r.failed;
    for (int k = 0; k < 2 && all; k++) {
      r = run_isolated(j, false);
      all = r.failed;
    }
    if (!all && prefix_fails(c.index) && prefix_fails(c.index)) {
      // The case alone passes, but the same history of cases in one process
      // fails every time: state leaks from one use of the library to the next.
      mkdir(replay_dir.c_str(), 0755);
      replay_path = replay_dir + "/" + p.id + "-" + file_name(part_name(j)) + "-history-" + std::to_string(c.index) + ".case";
      std::ofstream f(replay_path);
      f << "property " << p.id << "\nhistory " << (thorough ? "thorough" : "quick") << ' ' << seed << ' ' << scale << ' '
        << workers << ' ' << c.index << "\n--- what failed (at the last of these cases, run in one process)\n"
        << c.message << '\n';
      std::cout << "--- " << p.id << " / " << part_name(j) << " (case " << c.index << ", only after the cases before it)\n"
                << c.message << '\n';
      violations++;
      break;
    }
    if (!all) {
      unconfirmed++;
      std::cout << "note: case " << c.index << " failed once but not on replay: " << c.message << '\n';
      continue;
    }
    child_result why = r;
    if (!j.is_enum && !r.hang) {
      shrink(j, why, thorough ? 60 : 20);
    }
    child_result shown = run_isolated(j, true);
    mkdir(replay_dir.c_str(), 0755);
    replay_path = replay_dir + "/" + p.id + "-" + file_name(part_name(j)) + "-" + std::to_string(hash_choices(part_name(j), j.choices) ^ j.index) + ".case";
    write_replay(replay_path, j, why, shown.notes);
    std::cout << "--- " << p.id << " / " << part_name(j) << " (case " << c.index << ")\n"
              << why.message << "\n--- case\n"
              << shown.notes.substr(0, 3000) << '\n';
    violations++;
    break;
  }

  // --- statistics ---
  uint64_t done = 0, discarded = 0, nontrivial = 0;
  bool stopped = false;
  std::map<std::string, uint64_t> labels;
  std::vector<uint64_t> hashes;
  std::map<uint64_t, std::vector<uint64_t>> kept;
  for (size_t w = 0; w < workers; w++) {
    for (int gnr = 0; gnr <= generation[w]; gnr++) {
      std::string base = tmp_dir + "/w" + std::to_string(w) + "." + std::to_string(gnr);
      std::ifstream s(base + ".stats");
      uint64_t a, b, c, d;
      if (s >> a >> b >> c >> d) {
        done += a;
        discarded += b;
        nontrivial += c;
        stopped = stopped || d != 0;
        size_t n = 0;
        s >> n;
        for (size_t i = 0; i < n; i++) {
          uint64_t index = 0;
          size_t m = 0;
          s >> index >> m;
          std::vector<uint64_t> v(m);
          for (uint64_t &x : v) {
            s >> x;
          }
          kept[index] = std::move(v);
        }
        uint64_t count;
        std::string name;
        while (s >> count) {
          s.get();
          std::getline(s, name);
          labels[name] += count;
        }
      }
      std::ifstream f(base + ".hashes", std::ios::binary);
      uint64_t h;
      while (f.read(reinterpret_cast<char *>(&h), 8)) {
        hashes.push_back(h);
      }
    }
  }
  std::sort(hashes.begin(), hashes.end());
  hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());

  // --- samples ---
  std::vector<std::string> samples;
  std::map<size_t, std::vector<uint64_t>> by_part;
  for (const auto &k : kept) {
    by_part[job_at(k.first).which].push_back(k.first);
  }
  std::vector<std::pair<uint64_t, std::vector<uint64_t>>> chosen;
  size_t per_part = by_part.size() >= 4 ? 1 : by_part.size() >= 2 ? 3 : 5;
  for (const auto &b : by_part) {
    for (size_t i = 0; i < b.second.size() && i < per_part; i++) {
      chosen.push_back({ b.second[i], kept[b.second[i]] });
    }
  }
  for (const auto &k : chosen) {
    job j = job_at(k.first);
    j.replay = true;
    j.choices = k.second;
    child_result r = run_isolated(j, true);
    samples.push_back("case " + std::to_string(k.first) + " (" + part_name(j) + "): " + r.notes.substr(0, 1200));
  }
  if (violations > 0) {
    done = 0;
    for (size_t w = 0; w < workers; w++) {
      done += ws[w].shm->done;
    }
  }

  if (!stats_path.empty()) {
    std::ofstream f(stats_path);
    f << "{\n  \"evaluations\": " << done << ",\n  \"discarded\": " << discarded << ",\n  \"nontrivial\": " << nontrivial
      << ",\n  \"distinct_nontrivial\": " << hashes.size() << ",\n  \"planned\": " << total
      << ",\n  \"stopped_at_time_cap\": " << (stopped ? "true" : "false")
      << ",\n  \"unconfirmed_failures\": " << unconfirmed << ",\n  \"violations\": " << violations
      << ",\n  \"lost_workers\": " << lost_workers << ",\n  \"search_s\": " << now() - started
      << ",\n  \"rule\": \"" << json_escape(p.rule) << "\",\n  \"labels\": {";
    bool first = true;
    for (const auto &l : labels) {
      f << (first ? "" : ", ") << "\"" << json_escape(l.first) << "\": " << l.second;
      first = false;
    }
    f << "},\n  \"samples\": [";
    first = true;
    for (const std::string &s : samples) {
      f << (first ? "" : ", ") << "\"" << json_escape(s) << "\"";
      first = false;
    }
    f << "],\n  \"enumerations\": {";
    first = true;
    for (const enumeration &e : p.enumerations) {
      f << (first ? "" : ", ") << "\"" << json_escape(e.name) << "\": " << e.count;
      first = false;
    }
    f << "}\n}\n";
  }

  if (violations > 0) {
    std::cout << "VIOLATION property=" << p.id << " replay=" << replay_path << std::endl;
    return 1;
  }
  return 0;
}

#endif
