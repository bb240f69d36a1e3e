#include "include/openssl/aead.h"
#include "include/openssl/chacha.h"
#include "include/openssl/hkdf.h"

#include <openssl/hmac.h>

#include <cstring>
#include <new>
#include <string>

struct EVP_AEAD {
  const EVP_CIPHER *(*cipher)();
  size_t key;
};

struct EVP_AEAD_CTX {
  const EVP_AEAD *aead;
  std::string key;
};

static const EVP_AEAD AES_128 = { EVP_aes_128_gcm, 16 };
static const EVP_AEAD AES_256 = { EVP_aes_256_gcm, 32 };
static const EVP_AEAD CHACHA = { EVP_chacha20_poly1305, 32 };

static constexpr size_t TAG = 16;

const EVP_AEAD *
EVP_aead_aes_128_gcm()
{
  return &AES_128;
}

const EVP_AEAD *
EVP_aead_aes_256_gcm()
{
  return &AES_256;
}

const EVP_AEAD *
EVP_aead_chacha20_poly1305()
{
  return &CHACHA;
}

size_t
EVP_AEAD_key_length(const EVP_AEAD *aead)
{
  return aead->key;
}

size_t
EVP_AEAD_nonce_length(const EVP_AEAD *)
{
  return 12;
}

size_t
EVP_AEAD_max_overhead(const EVP_AEAD *)
{
  return TAG;
}

size_t
EVP_AEAD_max_tag_len(const EVP_AEAD *)
{
  return TAG;
}

EVP_AEAD_CTX *
EVP_AEAD_CTX_new(const EVP_AEAD *aead, const uint8_t *key, size_t key_len, size_t tag_len)
{
  if (key_len != aead->key || (tag_len != 0 && tag_len != TAG)) {
    return nullptr;
  }
  return new EVP_AEAD_CTX{ aead, std::string(reinterpret_cast<const char *>(key), key_len) };
}

void
EVP_AEAD_CTX_free(EVP_AEAD_CTX *ctx)
{
  delete ctx;
}

static bool
overlaps(const uint8_t *in, size_t in_len, const uint8_t *out, size_t out_len)
{
  return in != out && in < out + out_len && out < in + in_len;
}

int
EVP_AEAD_CTX_seal(const EVP_AEAD_CTX *ctx, uint8_t *out, size_t *out_len, size_t max_out_len, const uint8_t *nonce,
                  size_t nonce_len, const uint8_t *in, size_t in_len, const uint8_t *ad, size_t ad_len)
{
  int n = 0;
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
  uint8_t tag[TAG];
  bool ok = !overlaps(in, in_len, out, max_out_len) && nonce_len == 12 && max_out_len >= in_len + TAG &&
            EVP_EncryptInit_ex(c, ctx->aead->cipher(), nullptr, nullptr, nullptr) == 1 &&
            EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_IVLEN, static_cast<int>(nonce_len), nullptr) == 1 &&
            EVP_EncryptInit_ex(c, nullptr, nullptr, reinterpret_cast<const uint8_t *>(ctx->key.data()), nonce) == 1 &&
            (ad_len == 0 || EVP_EncryptUpdate(c, nullptr, &n, ad, static_cast<int>(ad_len)) == 1) &&
            (in_len == 0 || EVP_EncryptUpdate(c, out, &n, in, static_cast<int>(in_len)) == 1) &&
            EVP_EncryptFinal_ex(c, tag, &n) == 1 && EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, TAG, tag) == 1;
  EVP_CIPHER_CTX_free(c);
  if (!ok) {
    memset(out, 0, max_out_len);
    *out_len = 0;
    return 0;
  }
  memcpy(out + in_len, tag, TAG);
  *out_len = in_len + TAG;
  return 1;
}

int
EVP_AEAD_CTX_open(const EVP_AEAD_CTX *ctx, uint8_t *out, size_t *out_len, size_t max_out_len, const uint8_t *nonce,
                  size_t nonce_len, const uint8_t *in, size_t in_len, const uint8_t *ad, size_t ad_len)
{
  int n = 0;
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
  uint8_t tag[TAG];
  uint8_t rest[64];
  bool ok = !overlaps(in, in_len, out, max_out_len) && nonce_len == 12 && in_len >= TAG && max_out_len >= in_len - TAG;
  if (ok) {
    memcpy(tag, in + in_len - TAG, TAG);
    in_len -= TAG;
    ok = EVP_DecryptInit_ex(c, ctx->aead->cipher(), nullptr, nullptr, nullptr) == 1 &&
         EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_IVLEN, static_cast<int>(nonce_len), nullptr) == 1 &&
         EVP_DecryptInit_ex(c, nullptr, nullptr, reinterpret_cast<const uint8_t *>(ctx->key.data()), nonce) == 1 &&
         (ad_len == 0 || EVP_DecryptUpdate(c, nullptr, &n, ad, static_cast<int>(ad_len)) == 1) &&
         (in_len == 0 || EVP_DecryptUpdate(c, out, &n, in, static_cast<int>(in_len)) == 1) &&
         EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_TAG, TAG, tag) == 1 && EVP_DecryptFinal_ex(c, rest, &n) == 1;
  }
  EVP_CIPHER_CTX_free(c);
  if (!ok) {
    memset(out, 0, max_out_len);
    *out_len = 0;
    return 0;
  }
  *out_len = in_len;
  return 1;
}

void
CRYPTO_chacha_20(uint8_t *out, const uint8_t *in, size_t in_len, const uint8_t key[32], const uint8_t nonce[12],
                 uint32_t counter)
{
  uint8_t iv[16];
  for (unsigned i = 0; i < 4; i++) {
    iv[i] = static_cast<uint8_t>(counter >> (8 * i));
  }
  memcpy(iv + 4, nonce, 12);
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
  int n = 0;
  EVP_EncryptInit_ex(c, EVP_chacha20(), nullptr, key, iv);
  EVP_EncryptUpdate(c, out, &n, in, static_cast<int>(in_len));
  EVP_CIPHER_CTX_free(c);
}

int
HKDF_extract(uint8_t *out_key, size_t *out_len, const EVP_MD *digest, const uint8_t *secret, size_t secret_len,
             const uint8_t *salt, size_t salt_len)
{
  unsigned len = 0;
  static const uint8_t none[1] = { 0 };
  if (HMAC(digest, salt_len == 0 ? none : salt, static_cast<int>(salt_len), secret, secret_len, out_key, &len) == nullptr) {
    return 0;
  }
  *out_len = len;
  return 1;
}

int
HKDF_expand(uint8_t *out_key, size_t out_len, const EVP_MD *digest, const uint8_t *prk, size_t prk_len,
            const uint8_t *info, size_t info_len)
{
  size_t size = static_cast<size_t>(EVP_MD_size(digest));
  size_t n = (out_len + size - 1) / size;
  if (n > 255) {
    return 0;
  }
  std::string previous;
  size_t done = 0;
  static const uint8_t none[1] = { 0 };
  for (size_t i = 1; i <= n; i++) {
    std::string message = previous;
    message.append(reinterpret_cast<const char *>(info), info_len);
    message += static_cast<char>(i);
    uint8_t block[EVP_MAX_MD_SIZE];
    unsigned len = 0;
    if (HMAC(digest, prk_len == 0 ? none : prk, static_cast<int>(prk_len), reinterpret_cast<const uint8_t *>(message.data()),
             message.size(), block, &len) == nullptr) {
      return 0;
    }
    size_t take = out_len - done < len ? out_len - done : len;
    memcpy(out_key + done, block, take);
    done += take;
    previous.assign(reinterpret_cast<const char *>(block), len);
  }
  return 1;
}
