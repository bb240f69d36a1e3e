// C32: objects that share nothing can be used from different threads.
//
// Built with ThreadSanitizer (see the variant of this check in checks.json).
#include "hostile.hpp"
#include "program.hpp"

#include <atomic>
#include <exception>
#include <sstream>
#include <thread>

#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <bnl/http3/codec/qpack/huffman.hpp>
#include <bnl/http3/codec/qpack/prefix_int.hpp>
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/ip/address.hpp>
#include <bnl/ip/endpoint.hpp>
#include <bnl/ip/host.hpp>
#include <bnl/log/console.hpp>

#include "frames.hpp"
#include "quic.hpp"

PROPERTY("C32",
         "two to four threads that start together, each with one to three tasks of its own objects: client programs whose bytes a fresh "
         "server receives in pieces, messages and hostile bytes received by servers and clients, frames, header blocks, strings and "
         "integers encoded and decoded, buffers and ropes sliced and consumed, values printed, QUIC keys derived and QUIC connections driven "
         "over a simulated transport, some with the log switched on; half the "
         "time several threads have the same task; every case runs in a fresh process under ThreadSanitizer, which must find no race, and "
         "every task must end as it does when the tasks run one after another; non-trivial: two threads ran tasks of the same kind");

using namespace program;

namespace {

using task = std::function<std::string()>;

struct planned {
  int kind;
  task run;
};

const char *const KINDS[] = { "client and server", "server receives", "client receives", "hostile bytes", "server program", "frames",
                              "header blocks", "strings", "integers", "buffers", "printing", "QUIC keys", "QUIC connection" };

std::string
dump(const std::map<uint64_t, sent> &out)
{
  std::string s;
  for (const auto &o : out) {
    s += std::to_string(o.first) + (o.second.fin ? " ended " : " ") + pbt::hex(o.second.bytes, SIZE_MAX) + "\n";
  }
  return s;
}

template<typename C>
std::string
run_program(const std::vector<op> &ops, size_t streams, bool receive, size_t piece)
{
  runner<C> r;
  for (size_t i = 0; i < streams; i++) {
    r.numbers.push_back(4 * i);
  }
  for (size_t i = 0; i < streams; i++) {
    r.open(true);
  }
  for (const op &x : ops) {
    r.run(x);
  }
  r.drain();
  std::string result = dump(r.out);
  if (receive) {
    open_server s;
    for (const auto &o : r.out) {
      observed seen;
      for (size_t at = 0; at <= o.second.bytes.size(); at += piece) {
        bool last = at + piece > o.second.bytes.size();
        if (!deliver(s.connection, o.first, to_buffer(o.second.bytes.substr(at, piece)), last && o.second.fin, seen)) {
          break;
        }
      }
      result += describe(seen) + "\n";
    }
  }
  return result;
}

template<typename Make>
std::string
receive(Make make, const std::vector<std::pair<uint64_t, std::vector<piece>>> &streams)
{
  auto c = make();
  std::string result;
  for (const auto &s : streams) {
    observed o;
    for (const piece &p : s.second) {
      if (!deliver(c->connection, s.first, p, o)) {
        break;
      }
    }
    result += describe(o) + "\n";
  }
  return result;
}

planned
gen_task(gen &g)
{
  int kind = static_cast<int>(g.draw(12));
  g.note(KINDS[kind]);
  switch (kind) {
    case 0:
    case 4: {
      options o;
      o.streams = static_cast<size_t>(g.range(1, 3));
      o.steps = 30;
      o.max_value = g.chance(1, 10) ? 3000 : 40;
      o.complete = g.chance(3, 4);
      std::vector<op> ops = gen_program(g, o);
      size_t piece = static_cast<size_t>(g.range(1, 60));
      if (kind == 0) {
        return { kind, [=] { return run_program<client_t>(ops, o.streams, true, piece); } };
      }
      return { kind, [=] { return run_program<server_t>(ops, o.streams, false, piece); } };
    }
    case 1:
    case 2: {
      std::vector<std::pair<uint64_t, std::vector<piece>>> streams;
      for (size_t i = 0; g.more(i, 1, 2, 1.5); i++) {
        message m = gen_message(g, 6, 60, 60);
        wire w = gen_stream(g, m, { true, false });
        streams.push_back({ 4 * i, gen_pieces(g, w.bytes, true) });
      }
      if (kind == 1) {
        return { kind, [=] { return receive(make_server, streams); } };
      }
      return { kind, [=] { return receive([] { return make_client(); }, streams); } };
    }
    case 3: {
      std::string s = hostile::input(g);
      bool client = g.chance(1, 2);
      uint64_t id = g.chance(1, 4) ? (client ? 3 : 2) : 0;
      std::vector<std::pair<uint64_t, std::vector<piece>>> streams{ { id, gen_pieces(g, s, true) } };
      return { kind, [=] {
                return client ? receive([] { return make_client(); }, streams) : receive(make_server, streams);
              } };
    }
    case 5: {
      std::vector<ref::frame> fs;
      for (size_t n = 0; g.more(n, 1, 6, 3); n++) {
        fs.push_back(gen_frame(g, ref::VARINT_MAX));
      }
      return { kind, [=] {
                std::string r;
                for (const ref::frame &f : fs) {
                  auto b = http3::frame::encode(to_bnl(f));
                  if (!b) {
                    r += ::show(b) + "\n";
                    continue;
                  }
                  base::buffer wire = std::move(b).value();
                  r += pbt::hex(str(wire), SIZE_MAX);
                  auto d = http3::frame::decode(wire);
                  r += (d ? show(to_ref(d.value())) : ::show(d)) + "\n";
                }
                return r;
              } };
    }
    case 6: {
      ref::headers hs;
      for (size_t n = 0; g.more(n, 1, 8, 4); n++) {
        hs.push_back(gen_header(g, 60));
      }
      return { kind, [=] {
                http3::qpack::encoder e;
                std::string wire;
                for (const ref::header &h : hs) {
                  auto r = e.encode(view(h));
                  CHECK(r, "encode() failed with " << name(r.error()));
                  wire += str(r.value());
                }
                http3::qpack::decoder d;
                base::buffer b = to_buffer(wire);
                std::string s = pbt::hex(wire, SIZE_MAX);
                while (!b.empty()) {
                  auto r = d.decode(b);
                  if (!r) {
                    s += ::show(r);
                    break;
                  }
                  s += text(to_ref(r.value()).name) + ":" + text(to_ref(r.value()).value) + "\n";
                }
                return s;
              } };
    }
    case 7: {
      std::vector<std::string> ss;
      for (size_t n = 0; g.more(n, 1, 4, 2); n++) {
        ss.push_back(g.bytes(g.size(300)));
      }
      std::string junk = g.bytes(static_cast<size_t>(g.draw(20)));
      return { kind, [=] {
                std::string r;
                for (const std::string &s : ss) {
                  base::buffer b = http3::qpack::huffman::encode(base::string_view(s.data(), s.size()));
                  size_t n = b.size();
                  r += pbt::hex(str(b), SIZE_MAX);
                  auto back = http3::qpack::huffman::decode(b, n);
                  CHECK(back && back.value() == s, text(s) << " came back as " << (back ? text(back.value()) : ::show(back)));
                }
                base::buffer b = to_buffer(junk);
                auto back = http3::qpack::huffman::decode(b, junk.size());
                return r + (back ? back.value() : ::show(back));
              } };
    }
    case 8: {
      std::vector<std::pair<uint64_t, uint8_t>> vs;
      for (size_t n = 0; g.more(n, 1, 8, 4); n++) {
        uint8_t prefix = static_cast<uint8_t>(g.range(1, 8));
        vs.push_back({ g.integer(0, ref::VARINT_MAX), prefix });
      }
      return { kind, [=] {
                std::string r;
                for (const auto &v : vs) {
                  base::buffer b = http3::qpack::prefix_int::encode(v.first, v.second);
                  r += pbt::hex(str(b), SIZE_MAX);
                  auto back = http3::qpack::prefix_int::decode(b, v.second);
                  CHECK(back && back.value() == v.first, v.first << " came back as " << ::show(back));
                  auto w = http3::varint::encode(v.first);
                  CHECK(w, v.first << " has no varint");
                  base::buffer wire = std::move(w).value();
                  r += pbt::hex(str(wire), SIZE_MAX);
                  auto u = http3::varint::decode(wire);
                  CHECK(u && u.value() == v.first, v.first << " came back as " << ::show(u));
                }
                return r;
              } };
    }
    case 9: {
      std::vector<std::string> segments;
      for (size_t n = 0; g.more(n, 1, 6, 3); n++) {
        segments.push_back(g.bytes(g.size(100)));
      }
      std::vector<uint64_t> steps;
      for (size_t n = 0; g.more(n, 1, 20, 8); n++) {
        steps.push_back(g.draw(UINT16_MAX));
      }
      return { kind, [=] {
                base::buffers rope;
                for (const std::string &s : segments) {
                  rope.push(to_buffer(s));
                }
                std::vector<base::buffer> kept;
                std::string r;
                for (uint64_t x : steps) {
                  if (rope.empty()) {
                    break;
                  }
                  size_t n = static_cast<size_t>(x >> 2) % (rope.size() + 1);
                  switch (x & 3) {
                    case 0:
                      rope.consume(n);
                      break;
                    case 1:
                      kept.push_back(rope.slice(n));
                      break;
                    case 2: {
                      base::buffers::lookahead look(rope);
                      r += std::to_string(look.empty() ? 0 : *look) + ",";
                      break;
                    }
                    default:
                      rope.push(to_buffer(std::string(n, static_cast<char>(x))));
                      if (!kept.empty()) { // shares its bytes
                        base::buffer &from = kept[x % kept.size()];
                        base::buffer part = from.slice(from.size() / 2);
                        kept.push_back(std::move(part));
                      }
                      break;
                  }
                }
                for (const base::buffer &b : kept) {
                  r += pbt::hex(str(b), SIZE_MAX) + "\n";
                }
                return r;
              } };
    }
    case 11: {
      using crypto = quic::crypto;
      static const crypto::aead all[] = { crypto::aead::aes_128_gcm, crypto::aead::aes_256_gcm, crypto::aead::chacha20_poly1305 };
      crypto::aead aead = all[g.draw(2)];
      bool sha384 = g.chance(1, 2);
      std::string secret = g.bytes(sha384 ? 48 : 32), sample = g.bytes(16), plain = g.bytes(g.size(200)), ad = g.bytes(g.size(30));
      return { kind, [=] {
                crypto c(aead, sha384 ? crypto::hash::sha384 : crypto::hash::sha256);
                std::string r;
                auto add = [&](const quic::result<base::buffer> &b) { r += (b ? pbt::hex(str(b.value()), SIZE_MAX) : "refused") + "\n"; };
                add(c.initial_secret(qw::view(sample), qw::view(ad)));
                add(c.client_initial_secret(qw::view(secret)));
                add(c.server_initial_secret(qw::view(secret)));
                add(c.update_secret(qw::view(secret)));
                auto k = c.packet_protection_key(qw::view(secret));
                CHECK(k, "deriving the keys is refused");
                crypto::key key = std::move(k).value();
                crypto::key_view v = key;
                r += pbt::hex(qw::str(v.data()) + qw::str(v.iv()) + qw::str(v.hp()), SIZE_MAX) + "\n";
                uint8_t mask[16] = {};
                CHECK(c.hp_mask(base::buffer_view_mut(mask, 16), v.hp(), qw::view(sample)), "a mask is refused");
                r += pbt::hex(std::string(reinterpret_cast<char *>(mask), 5)) + "\n";
                std::vector<uint8_t> sealed(plain.size() + c.aead_overhead());
                CHECK(c.encrypt(base::buffer_view_mut(sealed.data(), sealed.size()), qw::view(plain), v.data(), v.iv(), qw::view(ad)),
                      "encrypting is refused");
                std::string wire(sealed.begin(), sealed.end());
                r += pbt::hex(wire, SIZE_MAX) + "\n";
                std::vector<uint8_t> opened(wire.size() + 1);
                CHECK(c.decrypt(base::buffer_view_mut(opened.data(), wire.size()), qw::view(wire), v.data(), v.iv(), qw::view(ad)),
                      "decrypting is refused");
                CHECK(std::string(opened.begin(), opened.begin() + static_cast<long>(plain.size())) == plain, "decrypting gives something else");
                return r;
              } };
    }
    case 12: {
      static const uint32_t suites[] = { 0x03001301U, 0x03001302U, 0x03001303U };
      uint32_t suite = suites[g.draw(2)];
      std::vector<std::vector<std::string>> streams;
      for (size_t n = 0; g.more(n, 1, 3, 2); n++) {
        streams.emplace_back();
        for (size_t k = 0; g.more(k, 1, 4, 2); k++) {
          streams.back().push_back(g.bytes(g.size(300)));
        }
      }
      std::string answer = g.bytes(g.size(100));
      unsigned last = static_cast<unsigned>(g.draw(255));
      return { kind, [=] {
                qw::world w;
                std::string name = "host" + std::to_string(last);
                w.host = ip::host(name.c_str());
                std::string a = { 127, 0, 0, static_cast<char>(last) };
                ip::endpoint end(ip::address(qw::view(a)), static_cast<uint16_t>(last));
                w.path = quic::path(end, end);
                qw::establish(w, suite);
                for (size_t i = 0; i < streams.size(); i++) {
                  for (size_t k = 0; k < streams[i].size(); k++) {
                    quic::data d{ 4 * i, k + 1 == streams[i].size(), qw::buf(streams[i][k]) };
                    CHECK(w.c->add(quic::event(std::move(d))), "add() fails");
                  }
                }
                size_t packets = 0;
                for (;; packets++) {
                  CHECK(packets < 10000, "send() never becomes idle");
                  auto s = w.c->send();
                  if (!s) {
                    CHECK(s.error() == quic::error::idle, "send() fails");
                    break;
                  }
                }
                w.healthy();
                std::string r = w.t->remote + " " + w.tls->host + "\n";
                for (const auto &x : w.t->streams) {
                  r += std::to_string(x.first) + (x.second.fin ? " ended " : " ") + pbt::hex(x.second.data, SIZE_MAX) + "\n";
                }
                for (const auto &x : w.t->installed) {
                  if (x.first.find("initial") == std::string::npos) { // from a random connection id
                    r += x.first + " " + pbt::hex(x.second.key + x.second.iv + x.second.hp) + "\n";
                  }
                }
                auto events = w.packet({ [&answer](ngtcp2_conn *t) {
                  return t->cb.recv_stream_data(t, 0, 1, 0, reinterpret_cast<const uint8_t *>(answer.data()), answer.size(), t->user, nullptr);
                } });
                while (events.next()) {
                  auto e = events.get();
                  CHECK(e, "an error instead of an event");
                  quic::event v = std::move(e).value();
                  CHECK(v == quic::event::type::data, "an error event");
                  r += std::to_string(v.data.id) + (v.data.fin ? " ended " : " ") + pbt::hex(::str(v.data.buffer)) + "\n";
                }
                return r;
              } };
    }
    default: {
      std::string bytes = g.bytes(20);
      ref::header h = gen_header(g, 40);
      uint64_t id = g.integer(0, ref::VARINT_MAX);
      return { kind, [=] {
                std::ostringstream os;
                const uint8_t *raw = reinterpret_cast<const uint8_t *>(bytes.data());
                os << ip::address(base::buffer_view(raw, 4)) << ' ' << ip::address(base::buffer_view(raw + 4, 16)) << ' ' << view(h) << ' ';
                quic::event e(quic::data{ id, true, to_buffer(h.value) });
                os << e << ' ';
                return os.str();
              } };
    }
  }
}

std::string
guarded(const task &t)
{
  try {
    return t();
  } catch (const pbt::failure &f) {
    return std::string("! ") + f.what();
  }
}

struct plan {
  std::vector<std::vector<planned>> threads;
  std::vector<unsigned> delays;
  bool log = false;
};

// In the child. Returns what is wrong.
std::string
execute(const plan &p)
{
  log::console console;
  if (p.log) {
    base::logger = &console;
  }
  std::vector<std::vector<std::string>> results(p.threads.size());
  std::atomic<size_t> ready(0);
  std::vector<std::thread> threads;
  for (size_t i = 0; i < p.threads.size(); i++) {
    results[i].resize(p.threads[i].size());
    threads.emplace_back([&, i] {
      ready.fetch_add(1, std::memory_order_relaxed); // orders nothing
      while (ready.load(std::memory_order_relaxed) < p.threads.size()) {
      }
      for (unsigned k = 0; k < p.delays[i]; k++) {
        std::this_thread::yield();
      }
      for (size_t t = 0; t < p.threads[i].size(); t++) {
        results[i][t] = guarded(p.threads[i][t].run);
      }
    });
  }
  for (std::thread &t : threads) {
    t.join();
  }
  base::logger = nullptr;
  for (size_t i = 0; i < p.threads.size(); i++) {
    for (size_t t = 0; t < p.threads[i].size(); t++) {
      std::string alone = guarded(p.threads[i][t].run);
      std::string what = "thread " + std::to_string(i) + ", task " + std::to_string(t) + " (" + KINDS[p.threads[i][t].kind] + ")";
      if (results[i][t] != alone) {
        return what + " ended with\n" + results[i][t].substr(0, 1000) + "\nwith other threads running, and with\n" +
               alone.substr(0, 1000) + "\nalone";
      }
    }
  }
  return "";
}

void
one(gen &g)
{
  plan p;
  p.log = g.chance(1, 6);
  size_t n = static_cast<size_t>(g.range(2, 4));
  bool same = g.chance(1, 2);
  unsigned kinds[16] = {};
  planned shared;
  if (same) {
    shared = gen_task(g);
  }
  for (size_t i = 0; i < n; i++) {
    std::vector<planned> tasks;
    if (same) {
      tasks.push_back(shared);
    }
    for (size_t k = 0; g.more(k, same ? 0 : 1, 3, 1.5); k++) {
      tasks.push_back(gen_task(g));
    }
    for (const planned &t : tasks) {
      kinds[t.kind] |= 1u << i;
    }
    p.threads.push_back(tasks);
    p.delays.push_back(static_cast<unsigned>(g.chance(1, 2) ? 0 : g.draw(20)));
  }
  for (unsigned k : kinds) {
    if ((k & (k - 1)) != 0) {
      g.nontrivial();
    }
  }
  g.label("threads", n);
  if (p.log) {
    g.label("with the log on");
  }

  int fds[2];
  CHECK(pipe(fds) == 0, "pipe");
  pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    // The report of the sanitizer goes to the pipe.
    dup2(fds[1], 2);
    std::string wrong;
    try {
      wrong = execute(p);
    } catch (const std::exception &e) {
      wrong = std::string("an exception: ") + e.what();
    }
    if (!wrong.empty()) {
      wrong = "\nWRONG " + wrong;
      ssize_t ignored = write(fds[1], wrong.data(), wrong.size());
      (void) ignored;
      _exit(67);
    }
    _exit(0);
  }
  close(fds[1]);
  std::string said;
  char block[4096];
  for (ssize_t k; (k = read(fds[0], block, sizeof(block))) > 0;) {
    if (said.size() < 100000) {
      said.append(block, static_cast<size_t>(k));
    }
  }
  close(fds[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0,
        "the process of the case ended with status " << status << ": " << said.substr(0, 4000));
}

PART("tasks on threads", one, 4000, 60000);

}
