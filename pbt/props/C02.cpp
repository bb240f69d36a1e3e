// C02: buffers against a value model.
#include "util.hpp"

#include <set>

using namespace bnl;
using base::buffer;

PROPERTY("C02",
         "histories of up to 120 operations on a pool of buffers (every constructor, consume, slice, move construction and "
         "assignment incl. self, swap, concat, writes, views, lookaheads, destruction) against a pool of strings, and bursts "
         "of up to 140000 simultaneously live slices; sizes straddle the inline-storage threshold; non-trivial: at least one "
         "slice shared a block with another live buffer, or a buffer was moved");

namespace {

struct slot {
  std::unique_ptr<buffer> real;
  std::string model;
};

size_t
gen_size(gen &g)
{
  switch (g.pick({ 3, 3, 2, 1 })) {
    case 0:
      return static_cast<size_t>(g.draw(8));
    case 1:
      return static_cast<size_t>(g.range(17, 26));
    case 2:
      return static_cast<size_t>(g.draw(80));
    default:
      return g.size(5000);
  }
}

void
verify(const slot &s, const char *after)
{
  const buffer &b = *s.real;
  CHECK(b.size() == s.model.size(), after << ": size " << b.size() << ", want " << s.model.size());
  CHECK(b.empty() == s.model.empty(), after << ": empty()");
  CHECK(static_cast<size_t>(b.end() - b.begin()) == b.size(), after << ": iterators");
  if (!s.model.empty()) {
    CHECK(memcmp(b.data(), s.model.data(), s.model.size()) == 0,
          after << ": holds " << pbt::hex(b.data(), b.size()) << ", want " << pbt::hex(s.model));
    CHECK(b.begin() == b.data() && *b == static_cast<uint8_t>(s.model[0]), after << ": *");
    CHECK(b[s.model.size() - 1] == static_cast<uint8_t>(s.model.back()), after << ": last");
  }
  base::buffer_view v = b;
  CHECK(v.size() == s.model.size() && (v.size() == 0 || memcmp(v.data(), s.model.data(), v.size()) == 0), after << ": view");
}

void
histories_inner(gen &g, bool &nontrivial)
{
  std::vector<slot> pool;
  for (size_t n = 0; g.more(n, 1, 120, 30); n++) {
    const char *what = "?";
    size_t a = pool.empty() ? 0 : static_cast<size_t>(g.draw(pool.size() - 1));
    size_t op = pool.empty() ? 0 : g.pick({ 5, 10, 5, 4, 4, 3, 3, 4, 3, 3, 1, 2 });
    switch (op) {
      case 0: {
        what = "construct";
        std::string bytes = g.bytes(gen_size(g));
        slot s;
        s.model = bytes;
        switch (g.draw(5)) {
          case 0:
            s.real.reset(new buffer(reinterpret_cast<const uint8_t *>(bytes.data()), bytes.size()));
            break;
          case 1:
            s.real.reset(new buffer(bytes.data(), bytes.size()));
            break;
          case 2:
            s.real.reset(new buffer(base::buffer_view(reinterpret_cast<const uint8_t *>(bytes.data()), bytes.size())));
            break;
          case 3:
            s.real.reset(new buffer(bytes.size()));
            if (!bytes.empty()) {
              memcpy(s.real->data(), bytes.data(), bytes.size());
            }
            break;
          case 4:
            s.real.reset(new buffer());
            s.model.clear();
            break;
          default:
            s.real.reset(new buffer("0123456789abcdefghijklmnopqrstuvwxyz"));
            s.model = "0123456789abcdefghijklmnopqrstuvwxyz";
        }
        g.note("construct #" + std::to_string(pool.size()) + " size " + std::to_string(s.model.size()));
        pool.push_back(std::move(s));
        a = pool.size() - 1;
        break;
      }
      case 1: { // slice to a new buffer
        what = "slice";
        slot &s = pool[a];
        size_t k = g.chance(1, 3) ? std::min(s.model.size(), static_cast<size_t>(g.range(18, 24)))
                                  : static_cast<size_t>(g.draw(s.model.size()));
        g.note("slice " + std::to_string(k) + " of #" + std::to_string(a) + " into #" + std::to_string(pool.size()));
        slot t;
        t.model = s.model.substr(0, k);
        t.real.reset(new buffer(s.real->slice(k)));
        s.model.erase(0, k);
        if (k > 20) {
          nontrivial = true;
        }
        pool.push_back(std::move(t));
        verify(pool.back(), "slice result");
        break;
      }
      case 2: {
        what = "consume";
        slot &s = pool[a];
        size_t k = static_cast<size_t>(g.draw(s.model.size()));
        g.note("consume " + std::to_string(k) + " of #" + std::to_string(a));
        s.real->consume(k);
        s.model.erase(0, k);
        break;
      }
      case 3: {
        what = "move construct";
        g.note("move construct #" + std::to_string(pool.size()) + " from #" + std::to_string(a));
        slot t;
        t.model = pool[a].model;
        t.real.reset(new buffer(std::move(*pool[a].real)));
        pool[a].model.clear();
        pool.push_back(std::move(t));
        verify(pool.back(), "move target");
        nontrivial = true;
        break;
      }
      case 4: {
        what = "move assign";
        size_t b = static_cast<size_t>(g.draw(pool.size() - 1));
        g.note("#" + std::to_string(a) + " = move(#" + std::to_string(b) + ")");
        *pool[a].real = std::move(*pool[b].real);
        if (a != b) {
          pool[a].model = pool[b].model;
          pool[b].model.clear();
          nontrivial = true;
        }
        break;
      }
      case 5: {
        what = "assign own slice";
        slot &s = pool[a];
        size_t k = static_cast<size_t>(g.draw(s.model.size()));
        g.note("#" + std::to_string(a) + " = its own slice of " + std::to_string(k));
        *s.real = s.real->slice(k);
        s.model.resize(k);
        break;
      }
      case 6: {
        what = "concat";
        size_t b = static_cast<size_t>(g.draw(pool.size() - 1));
        if (pool[a].model.size() + pool[b].model.size() > 40000) {
          break;
        }
        g.note("concat #" + std::to_string(a) + " #" + std::to_string(b));
        slot t;
        t.model = pool[a].model + pool[b].model;
        t.real.reset(new buffer(buffer::concat(*pool[a].real, *pool[b].real)));
        pool.push_back(std::move(t));
        verify(pool.back(), "concat result");
        break;
      }
      case 7: {
        what = "write";
        slot &s = pool[a];
        if (!s.model.empty()) {
          // The first and last bytes are where neighbouring slices touch.
          size_t i = static_cast<size_t>(g.chance(1, 3) ? 0 : g.chance(1, 2) ? s.model.size() - 1 : g.draw(s.model.size() - 1));
          uint8_t v = static_cast<uint8_t>(g.draw(255));
          g.note("write #" + std::to_string(a) + "[" + std::to_string(i) + "]");
          if (i == 0 && g.chance(1, 2)) {
            **s.real = v;
          } else {
            (*s.real)[i] = v;
          }
          s.model[i] = static_cast<char>(v);
        }
        break;
      }
      case 8: {
        what = "destroy";
        g.note("destroy #" + std::to_string(a) + " (the last takes its number)");
        pool[a] = std::move(pool.back());
        pool.pop_back();
        break;
      }
      case 9: {
        what = "lookahead";
        slot &s = pool[a];
        g.note("lookahead over #" + std::to_string(a));
        buffer::lookahead l(*s.real);
        size_t at = 0;
        size_t base_ = 0;
        auto look = [&](buffer::lookahead &v, size_t from, size_t used) {
          CHECK(v.size() == s.model.size() - from && v.empty() == (v.size() == 0), "lookahead size");
          CHECK(v.consumed() == used, "lookahead consumed() is " << v.consumed() << ", want " << used);
          if (v.size() > 0) {
            size_t i = static_cast<size_t>(g.draw(v.size() - 1));
            CHECK(v[i] == static_cast<uint8_t>(s.model[from + i]) && *v == static_cast<uint8_t>(s.model[from]), "lookahead byte");
          }
        };
        for (size_t m = 0; g.more(m, 0, 6, 2); m++) {
          size_t k = static_cast<size_t>(g.draw(s.model.size() - at));
          l.consume(k);
          at += k;
          look(l, at, at - base_);
          buffer::lookahead c(l);
          look(c, at, 0);
          size_t k2 = static_cast<size_t>(g.draw(c.size()));
          c.consume(k2);
          look(c, at + k2, k2);
          buffer::lookahead c2(c);
          look(c2, at + k2, 0);
          look(l, at, at - base_);
        }
        break;
      }
      case 10: {
        what = "copy all out";
        slot &s = pool[a];
        size_t all = s.model.size();
        g.note("slice all of #" + std::to_string(a) + " away");
        slot t;
        t.model = s.model;
        t.real.reset(new buffer(s.real->slice(all)));
        s.model.clear();
        pool.push_back(std::move(t));
        break;
      }
      default: {
        what = "swap";
        size_t b = static_cast<size_t>(g.draw(pool.size() - 1));
        g.note("swap #" + std::to_string(a) + " #" + std::to_string(b));
        std::swap(*pool[a].real, *pool[b].real);
        if (a != b) {
          std::swap(pool[a].model, pool[b].model);
        }
        nontrivial = true;
        break;
      }
    }
    // All of them: a write or release must not show through another buffer.
    for (const slot &s : pool) {
      verify(s, what);
    }
  }
}

void
histories(gen &g)
{
  g.draw(1);
  bool nontrivial = false;
  g.label("histories");
  int64_t before = pbt::live_blocks();
  if (g.verbose) {
    histories_inner(g, nontrivial);
  } else {
    size_t cap = g.choices().capacity();
    histories_inner(g, nontrivial);
    (void) cap;
    CHECK(pbt::live_blocks() == before, "heap blocks leaked: " << pbt::live_blocks() - before);
  }
  if (nontrivial) {
    g.nontrivial();
  }
}

// Many live slices of one block.
void
bursts(gen &g)
{
  size_t n = static_cast<size_t>(g.chance(1, 2) ? g.range(1, 600) : g.chance(2, 3) ? g.range(250, 70000) : g.range(65000, 140000));
  size_t each = static_cast<size_t>(g.range(21, 24));
  g.note(std::to_string(n) + " slices of " + std::to_string(each));
  g.label(n > 65535 ? "over 65535 slices" : n > 255 ? "over 255 slices" : "up to 255 slices");
  if (n > 255) {
    g.nontrivial();
  }
  size_t left_over = static_cast<size_t>(g.draw(30));
  std::string content(n * each + left_over, 0);
  pbt::rng r(n);
  for (char &c : content) {
    c = static_cast<char>(r.next());
  }
  int64_t before = pbt::live_blocks();
  {
    std::unique_ptr<buffer> parent(new buffer(content.data(), content.size()));
    std::vector<buffer> slices;
    slices.reserve(n);
    for (size_t i = 0; i < n; i++) {
      slices.push_back(parent->slice(each));
    }
    CHECK(str(*parent) == content.substr(n * each), "what is left after the slices");
    if (g.chance(1, 2)) {
      parent.reset();
    }
    for (size_t i = 0; i < n; i++) {
      CHECK(memcmp(slices[i].data(), content.data() + i * each, each) == 0, "slice " << i);
    }
    // Drop most of them, in some order; the rest must still be readable.
    uint64_t order = g.draw(2);
    size_t keep = static_cast<size_t>(g.draw(n - 1));
    for (size_t k = 0; k < n; k++) {
      size_t i = order == 0 ? k : order == 1 ? n - 1 - k : (k * 7919) % n;
      if (i != keep) {
        slices[i] = buffer();
      }
    }
    CHECK(memcmp(slices[keep].data(), content.data() + keep * each, each) == 0, "the last slice");
    if (parent) {
      CHECK(str(*parent) == content.substr(n * each), "the parent after its slices are gone");
    }
  }
  if (!g.verbose) {
    // choices() may have grown its storage once; it does not shrink.
    CHECK(pbt::live_blocks() <= before + 1, "heap blocks leaked: " << pbt::live_blocks() - before);
    CHECK(pbt::live_blocks() >= before, "freed too much");
  }
}

}

PART("histories", histories, 400000, 6000000);
PART("bursts", bursts, 1200, 20000);
