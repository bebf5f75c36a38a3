#pragma once
#include <memory>
#include <string>
#include <vector>
#include <openssl/evp.h>
#include "yacl/base/byte_container_view.h"
namespace yacl::crypto {
enum class HashAlgorithm : int { UNKNOWN, SHA224, SHA256, SHA384, SHA512, SHA_1, SM3, BLAKE2B, BLAKE3 };
inline const char* ToString(HashAlgorithm) { return "hash"; }
inline auto format_as(HashAlgorithm h) { return static_cast<int>(h); }
class HashInterface {
 public:
  virtual ~HashInterface() = default;
  virtual HashAlgorithm GetHashAlgorithm() const = 0;
  virtual size_t DigestSize() const = 0;
  virtual HashInterface& Reset() = 0;
  virtual HashInterface& Update(ByteContainerView data) = 0;
  virtual std::vector<uint8_t> CumulativeHash() const = 0;
};
// every algorithm is a distinct, domain-separated random function built on SHA-2
class ShimHash : public HashInterface {
 public:
  explicit ShimHash(HashAlgorithm a, size_t n) : a_(a), n_(n) {}
  HashAlgorithm GetHashAlgorithm() const override { return a_; }
  size_t DigestSize() const override { return n_; }
  HashInterface& Reset() override { buf_.clear(); return *this; }
  HashInterface& Update(ByteContainerView d) override { buf_.append((const char*)d.data(), d.size()); return *this; }
  std::vector<uint8_t> CumulativeHash() const override {
    std::vector<uint8_t> out;
    bool native = a_ == HashAlgorithm::SHA256 || a_ == HashAlgorithm::SHA512;
    for (uint32_t c = 0; out.size() < n_; ++c) {
      std::string s = native && c == 0 ? buf_ : buf_ + "#" + std::to_string((int)a_) + "." + std::to_string(c);
      unsigned char md[64]; unsigned n = 0;
      EVP_Digest(s.data(), s.size(), md, &n, n_ == 64 ? EVP_sha512() : EVP_sha256(), nullptr);
      out.insert(out.end(), md, md + n);
    }
    out.resize(n_);
    return out;
  }
 private:
  HashAlgorithm a_; size_t n_; std::string buf_;
};
inline size_t ShimHashLen(HashAlgorithm a) { return a == HashAlgorithm::SHA512 ? 64 : a == HashAlgorithm::SHA224 ? 28 : a == HashAlgorithm::SHA384 ? 48 : a == HashAlgorithm::SHA_1 ? 20 : 32; }
class SslHash : public ShimHash { public: explicit SslHash(HashAlgorithm a) : ShimHash(a, ShimHashLen(a)) {} };
class Sha256Hash : public SslHash { public: Sha256Hash() : SslHash(HashAlgorithm::SHA256) {} };
class Sm3Hash : public SslHash { public: Sm3Hash() : SslHash(HashAlgorithm::SM3) {} };
class Blake3Hash : public ShimHash { public: explicit Blake3Hash(uint64_t n = 32) : ShimHash(HashAlgorithm::BLAKE3, n) {} };
}
