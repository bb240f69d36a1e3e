#pragma once
#include <openssl/evp.h>

struct EVP_AEAD;
struct EVP_AEAD_CTX;
#define EVP_AEAD_DEFAULT_TAG_LENGTH 0

extern "C" {
const EVP_AEAD *EVP_aead_aes_128_gcm(void);
const EVP_AEAD *EVP_aead_aes_256_gcm(void);
const EVP_AEAD *EVP_aead_chacha20_poly1305(void);
size_t EVP_AEAD_key_length(const EVP_AEAD *aead);
size_t EVP_AEAD_nonce_length(const EVP_AEAD *aead);
size_t EVP_AEAD_max_overhead(const EVP_AEAD *aead);
size_t EVP_AEAD_max_tag_len(const EVP_AEAD *aead);
EVP_AEAD_CTX *EVP_AEAD_CTX_new(const EVP_AEAD *aead, const uint8_t *key, size_t key_len, size_t tag_len);
void EVP_AEAD_CTX_free(EVP_AEAD_CTX *ctx);
int EVP_AEAD_CTX_seal(const EVP_AEAD_CTX *ctx, uint8_t *out, size_t *out_len, size_t max_out_len, const uint8_t *nonce,
                      size_t nonce_len, const uint8_t *in, size_t in_len, const uint8_t *ad, size_t ad_len);
int EVP_AEAD_CTX_open(const EVP_AEAD_CTX *ctx, uint8_t *out, size_t *out_len, size_t max_out_len, const uint8_t *nonce,
                      size_t nonce_len, const uint8_t *in, size_t in_len, const uint8_t *ad, size_t ad_len);
}
