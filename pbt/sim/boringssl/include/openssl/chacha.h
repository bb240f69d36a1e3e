#pragma once
#include <cstddef>
#include <cstdint>

extern "C" void CRYPTO_chacha_20(uint8_t *out, const uint8_t *in, size_t in_len, const uint8_t key[32],
                                 const uint8_t nonce[12], uint32_t counter);
