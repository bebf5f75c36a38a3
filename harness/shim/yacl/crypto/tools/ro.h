#pragma once
#include "yacl/crypto/hash/hash_utils.h"
namespace yacl::crypto {
class RandomOracle {
 public:
  explicit RandomOracle(HashAlgorithm a = HashAlgorithm::BLAKE3, size_t outlen = 32) : a_(a), n_(outlen) {}
  static RandomOracle& GetDefault() { static RandomOracle r; return r; }
  static RandomOracle& GetBlake3() { return GetDefault(); }
  Buffer operator()(ByteContainerView x, size_t outlen = 0) const { ShimHash h(a_, outlen ? outlen : n_); h.Update(x); return Buffer(h.CumulativeHash()); }
  template <typename R> R Gen(ByteContainerView x) const { auto v = (*this)(x); R r; memcpy(&r, v.data(), sizeof r); return r; }
  template <typename R> R Gen(ByteContainerView x, uint64_t y) const { ShimHash h(a_, n_); h.Update(x); h.Update({(const void*)&y, 8}); auto v = h.CumulativeHash(); R r; memcpy(&r, v.data(), sizeof r); return r; }
 private:
  HashAlgorithm a_; size_t n_;
};
}
