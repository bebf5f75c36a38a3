#pragma once
#include <cstring>
#include <openssl/evp.h>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
#include "yacl/base/exception.h"
namespace yacl::crypto {
class SymmetricCrypto {
 public:
  enum class CryptoType : int { AES128_ECB, AES128_CBC, AES128_CTR, SM4_ECB, SM4_CBC, SM4_CTR };
  SymmetricCrypto(CryptoType t, uint128_t key, uint128_t iv = 0) : t_(t), key_(key), iv_(iv) {}
  SymmetricCrypto(CryptoType t, absl::Span<const uint8_t> key, absl::Span<const uint8_t> iv) : t_(t) { memcpy(&key_, key.data(), 16); memcpy(&iv_, iv.data(), 16); }
  void Encrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const { Run(true, in, out); }
  void Decrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const { Run(false, in, out); }
  uint128_t Encrypt(uint128_t in) const { uint128_t r; Run(true, {(const uint8_t*)&in, 16}, {(uint8_t*)&r, 16}); return r; }
  uint128_t Decrypt(uint128_t in) const { uint128_t r; Run(false, {(const uint8_t*)&in, 16}, {(uint8_t*)&r, 16}); return r; }
  void Encrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const { Run(true, {(const uint8_t*)in.data(), in.size() * 16}, {(uint8_t*)out.data(), out.size() * 16}); }
  void Decrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const { Run(false, {(const uint8_t*)in.data(), in.size() * 16}, {(uint8_t*)out.data(), out.size() * 16}); }
  CryptoType GetType() const { return t_; }
  static constexpr int BlockSize() { return 16; }
 private:
  void Run(bool enc, absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const {
    bool ctr = t_ == CryptoType::AES128_CTR || t_ == CryptoType::SM4_CTR;
    if (!ctr) YACL_ENFORCE(in.size() % 16 == 0, "requires size can be divided by block_size");
    YACL_ENFORCE(in.size() == out.size());
    const EVP_CIPHER* c = ctr ? EVP_aes_128_ctr() : (t_ == CryptoType::AES128_ECB || t_ == CryptoType::SM4_ECB) ? EVP_aes_128_ecb() : EVP_aes_128_cbc();
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
    EVP_CipherInit_ex(x, c, nullptr, (const unsigned char*)&key_, (const unsigned char*)&iv_, enc);
    EVP_CIPHER_CTX_set_padding(x, 0);
    int n = 0; std::string tmp(out.size() + 32, 0);
    EVP_CipherUpdate(x, (unsigned char*)tmp.data(), &n, in.data(), in.size());
    memcpy(out.data(), tmp.data(), out.size());
    EVP_CIPHER_CTX_free(x);
  }
  CryptoType t_; uint128_t key_ = 0, iv_ = 0;
};
}
