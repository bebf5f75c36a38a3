#pragma once
#include <openssl/evp.h>
#include <cstring>
#include <memory>
#include "absl/types/span.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/base/block.h"
#include "yacl/utils/platform_utils.h"
namespace yacl::crypto {
struct AES_KEY { uint128_t key = 0; bool dec = false; };
inline void ShimAes(const AES_KEY& k, const uint8_t* in, uint8_t* out, size_t n) {
  std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> c(EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
  EVP_CipherInit_ex(c.get(), EVP_aes_128_ecb(), nullptr, (const unsigned char*)&k.key, nullptr, k.dec ? 0 : 1);
  EVP_CIPHER_CTX_set_padding(c.get(), 0);
  int l = 0;
  while (n) { int m = (int)std::min<size_t>(n, 1 << 24); EVP_CipherUpdate(c.get(), out, &l, in, m); in += m; out += m; n -= m; }
}
inline void AES_set_encrypt_key(uint128_t s, AES_KEY* k) { k->key = s; k->dec = false; }
inline void AES_set_decrypt_key(uint128_t s, AES_KEY* k) { k->key = s; k->dec = true; }
inline AES_KEY AES_set_encrypt_key(uint128_t s) { AES_KEY k; AES_set_encrypt_key(s, &k); return k; }
inline AES_KEY AES_set_decrypt_key(uint128_t s) { AES_KEY k; AES_set_decrypt_key(s, &k); return k; }
inline void AES_ecb_encrypt_blks(const AES_KEY& k, absl::Span<const uint128_t> in, absl::Span<uint128_t> out) { YACL_ENFORCE(in.size() <= out.size()); ShimAes(k, (const uint8_t*)in.data(), (uint8_t*)out.data(), in.size() * 16); }
inline void AES_ecb_decrypt_blks(const AES_KEY& k, absl::Span<const uint128_t> in, absl::Span<uint128_t> out) { AES_KEY d = k; d.dec = true; YACL_ENFORCE(in.size() <= out.size()); ShimAes(d, (const uint8_t*)in.data(), (uint8_t*)out.data(), in.size() * 16); }
inline void AES_ecb_encrypt_blk(const AES_KEY& k, uint128_t in, uint128_t* out) { ShimAes(k, (const uint8_t*)&in, (uint8_t*)out, 16); }
inline void AES_ecb_decrypt_blk(const AES_KEY& k, uint128_t in, uint128_t* out) { AES_KEY d = k; d.dec = true; ShimAes(d, (const uint8_t*)&in, (uint8_t*)out, 16); }
}  // namespace yacl::crypto
