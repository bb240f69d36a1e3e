// C28: QUIC secrets, keys and packet protection are those of the specification.
#include "quic.hpp"

#include <algorithm>
#include <sstream>

PROPERTY("C28",
         "QUIC key derivation and packet protection: every cipher and hash with generated secrets, connection ids, salts, packets "
         "(0 to 2000 bytes, in place or not), nonces and associated data, against a reference written from the RFCs over "
         "OpenSSL's primitives and the published vectors; every corruption of a sealed packet; header protection masks; "
         "non-trivial: a suite other than AES-128/SHA-256, a corruption, or a size over 64");

using namespace qw;
using crypto = quic::crypto;

static std::string
raw(const std::string &hex)
{
  std::string out;
  for (size_t i = 0; i + 1 < hex.size(); i += 2) {
    out += static_cast<char>(std::stoul(hex.substr(i, 2), nullptr, 16));
  }
  return out;
}

static crypto::aead
an_aead(gen &g)
{
  static const crypto::aead all[] = { crypto::aead::aes_128_gcm, crypto::aead::aes_256_gcm, crypto::aead::chacha20_poly1305 };
  return all[g.draw(2)];
}

static size_t
key_size(crypto::aead a)
{
  return a == crypto::aead::aes_128_gcm ? 16 : 32;
}

static std::string
text(crypto::aead a)
{
  std::ostringstream s;
  s << a;
  return s.str();
}

static void
same(const std::string &what, const quic::result<base::buffer> &r, const std::string &expected)
{
  CHECK(r, what << " is refused");
  CHECK(str(r.value()) == expected, what << " is " << pbt::hex(str(r.value())) << " instead of " << pbt::hex(expected));
}

static void
secrets(gen &g)
{
  crypto::aead a = an_aead(g);
  bool sha384 = g.draw(1) == 1;
  crypto c(a, sha384 ? crypto::hash::sha384 : crypto::hash::sha256);
  if (g.chance(1, 3)) {
    g.note("moved");
    crypto other(std::move(c));
    c = std::move(other);
  }
  size_t n = sha384 ? 48 : 32;
  std::string dcid = g.bytes(g.size(20)), salt = g.bytes(g.chance(1, 4) ? g.size(200) : 20);
  std::string secret = g.bytes(g.pick({ 4, 2, 1, 1 }) == 0 ? n : 1 + g.size(1200));
  g.note(text(a) + (sha384 ? " SHA384" : " SHA256") + ", connection id " + pbt::hex(dcid) + ", a salt of " +
         std::to_string(salt.size()) + " bytes, a secret of " + std::to_string(secret.size()));
  if (a != crypto::aead::aes_128_gcm || sha384 || secret.size() > 64) {
    g.nontrivial();
  }
  same("the initial secret", c.initial_secret(view(dcid), view(salt)), extract(sha384, salt, dcid));
  same("the client's initial secret", c.client_initial_secret(view(secret)), expand_label(sha384, secret, "client in", n));
  same("the server's initial secret", c.server_initial_secret(view(secret)), expand_label(sha384, secret, "server in", n));
  same("the updated secret", c.update_secret(view(secret)), expand_label(sha384, secret, "traffic upd", secret.size()));
  auto k = c.packet_protection_key(view(secret));
  CHECK(k, "deriving the keys is refused");
  keys expected = derive(key_size(a), sha384, secret);
  crypto::key key = std::move(k).value();
  crypto::key_view v = key;
  CHECK(str(key.data()) == expected.key && str(v.data()) == expected.key,
        "the key is " << pbt::hex(str(key.data())) << " instead of " << pbt::hex(expected.key));
  CHECK(str(key.iv()) == expected.iv && str(v.iv()) == expected.iv,
        "the IV is " << pbt::hex(str(key.iv())) << " instead of " << pbt::hex(expected.iv));
  CHECK(str(key.hp()) == expected.hp && str(v.hp()) == expected.hp,
        "the header protection key is " << pbt::hex(str(key.hp())) << " instead of " << pbt::hex(expected.hp));
  CHECK(c.aead_overhead() == 16, "the overhead is " << c.aead_overhead());
}

static void
vectors(gen &g)
{
  // RFC 9001, appendix A: the same derivation with another salt.
  crypto c(crypto::aead::aes_128_gcm, crypto::hash::sha256);
  std::string dcid = raw("8394c8f03e515708"), salt = raw("38762cf7f55934b34d179ae6a4c80cadccbb7f0a");
  base::buffer initial = c.initial_secret(view(dcid), view(salt)).value();
  std::string client = raw("c00cf151ca5be075ed0ebfb5c80323c42d6b7db67881289af4008f1f6c357aea");
  same("the client's initial secret", c.client_initial_secret(initial), client);
  crypto::key k = c.packet_protection_key(view(client)).value();
  CHECK(str(k.data()) == raw("1f369613dd76d5467730efcbe3b1a22d"), "the key is " << pbt::hex(str(k.data())));
  CHECK(str(k.iv()) == raw("fa044b2f42a3fd3b46fb255c"), "the IV is " << pbt::hex(str(k.iv())));
  CHECK(str(k.hp()) == raw("9f50449e04a0e810283a1e9933adedd2"), "the header protection key is " << pbt::hex(str(k.hp())));
  crypto chacha(crypto::aead::chacha20_poly1305, crypto::hash::sha256);
  uint8_t dest[16] = {};
  std::string hp = raw("25a282b9e82f06f21f488917a4fc8f1b73573685608597d0efcb076b0ab7a7a4");
  std::string sample = raw("5e5cd55c41f69080575d7999c25a5bfb");
  CHECK(chacha.hp_mask(base::buffer_view_mut(dest, 16), view(hp), view(sample)), "a mask is refused");
  std::string got(reinterpret_cast<char *>(dest), 5);
  CHECK(got == raw("aefefe7d03"), "the published ChaCha20 mask is " << pbt::hex(got));
  g.nontrivial();
}

static void
masks(gen &g)
{
  crypto::aead a = an_aead(g);
  crypto c(a, g.draw(1) == 1 ? crypto::hash::sha384 : crypto::hash::sha256);
  std::string key = g.bytes(key_size(a)), sample = g.bytes(16);
  g.note(text(a) + ", key " + pbt::hex(key) + ", sample " + pbt::hex(sample));
  // ngtcp2 gives the mask's buffer the size of a sample.
  std::vector<uint8_t> dest(16, static_cast<uint8_t>(g.draw(255)));
  auto r = c.hp_mask(base::buffer_view_mut(dest.data(), dest.size()), view(key), view(sample));
  CHECK(r, "the mask is refused");
  std::string got(reinterpret_cast<char *>(dest.data()), 5), expected = mask(a, key, sample);
  CHECK(got == expected, "the mask is " << pbt::hex(got) << " instead of " << pbt::hex(expected));
  if (a != crypto::aead::aes_128_gcm) {
    g.nontrivial();
  }
}

static void
packets(gen &g)
{
  crypto::aead a = an_aead(g);
  crypto c(a, g.draw(1) == 1 ? crypto::hash::sha384 : crypto::hash::sha256);
  std::string key = g.bytes(key_size(a)), nonce = g.bytes(12), plain = g.bytes(g.size(g.chance(1, 4) ? 2000 : 80)),
              ad = g.bytes(g.size(60));
  bool in_place = g.draw(1) == 1;
  g.note(text(a) + ", " + std::to_string(plain.size()) + " bytes" + (in_place ? " in place" : "") + ", " +
         std::to_string(ad.size()) + " of associated data");
  std::string sealed = seal(a, key, nonce, plain, ad);

  // The buffers have exactly these sizes: AddressSanitizer watches their ends.
  {
    std::vector<uint8_t> dest(plain.size() + 16);
    std::copy(plain.begin(), plain.end(), dest.begin());
    base::buffer_view in = in_place ? base::buffer_view(dest.data(), plain.size()) : view(plain);
    auto r = c.encrypt(base::buffer_view_mut(dest.data(), dest.size()), in, view(key), view(nonce), view(ad));
    CHECK(r, "sealing is refused");
    std::string got(dest.begin(), dest.end());
    CHECK(got == sealed, "sealing gives " << pbt::hex(got) << " instead of " << pbt::hex(sealed));
  }
  auto open = [&](const std::string &packet, const std::string &k, const std::string &n, const std::string &d, std::string *out) {
    // ngtcp2 leaves room for the tag.
    std::vector<uint8_t> dest(packet.size() + 1);
    std::copy(packet.begin(), packet.end(), dest.begin());
    base::buffer_view in = in_place ? base::buffer_view(dest.data(), packet.size()) : view(packet);
    auto r = c.decrypt(base::buffer_view_mut(dest.data(), packet.size()), in, view(k), view(n), view(d));
    if (!r) {
      CHECK(r.error() == quic::error::crypto, "opening fails with another error");
      return false;
    }
    out->assign(dest.begin(), dest.begin() + static_cast<ptrdiff_t>(packet.size() - 16));
    return true;
  };
  std::string got;
  CHECK(open(sealed, key, nonce, ad, &got), "opening what was sealed is refused");
  CHECK(got == plain, "opening gives " << pbt::hex(got) << " instead of " << pbt::hex(plain));

  // Every change of the packet, the key, the nonce or the associated data.
  std::string p = sealed, k = key, n = nonce, d = ad;
  auto flip = [&](std::string &s) {
    size_t at = static_cast<size_t>(g.integer(0, s.size() - 1));
    s[at] = static_cast<char>(s[at] ^ (1U << g.draw(7)));
    return at;
  };
  switch (g.pick({ 4, 2, 2, 2, 2, 2 })) {
    case 0:
      g.note("byte " + std::to_string(flip(p)) + " of the packet changes");
      break;
    case 1:
      g.note("the key changes");
      flip(k);
      break;
    case 2:
      g.note("the nonce changes");
      flip(n);
      break;
    case 3:
      if (d.empty()) {
        d = "x";
      } else {
        flip(d);
      }
      g.note("the associated data changes");
      break;
    case 4: {
      size_t cut = static_cast<size_t>(g.integer(1, p.size()));
      g.note("the packet loses " + std::to_string(cut) + " bytes");
      p.resize(p.size() - cut);
      break;
    }
    default:
      g.note("the packet grows");
      p += static_cast<char>(g.draw(255));
      break;
  }
  CHECK(!open(p, k, n, d, &got), "a changed packet is accepted");
  // A key or a nonce of another size.
  std::string wrong = key + "k";
  std::vector<uint8_t> dest(plain.size() + 16);
  auto r = c.encrypt(base::buffer_view_mut(dest.data(), dest.size()), view(plain), view(wrong), view(nonce), view(ad));
  CHECK(!r && r.error() == quic::error::crypto, "a key of " << wrong.size() << " bytes is accepted");
  g.nontrivial();
}

PART("secrets and keys", secrets, 24000, 200000);
PART("published vectors", vectors, 1, 1);
PART("header protection masks", masks, 24000, 200000);
PART("sealing and opening", packets, 32000, 300000);
