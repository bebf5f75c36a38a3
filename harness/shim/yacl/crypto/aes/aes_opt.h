#pragma once
#include "yacl/crypto/aes/aes_intrinsics.h"
namespace yacl::crypto {
template <int N> inline void AES_opt_key_schedule(uint128_t* seeds, AES_KEY* keys) { for (int i = 0; i < N; ++i) AES_set_encrypt_key(seeds[i], &keys[i]); }
// N keys, M blocks each
template <int N, int M> inline void ParaEnc(uint128_t* b, AES_KEY* keys) { for (int i = 0; i < N; ++i) ShimAes(keys[i], (uint8_t*)(b + i * M), (uint8_t*)(b + i * M), 16 * M); }
}  // namespace yacl::crypto
